package props

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/tendermint/tendermint/libs/log"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/arterynetwork/artr/app"
	noding "github.com/arterynetwork/artr/x/noding/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// G02: export and import.

func exportState(a *app.ArteryApp, where string) (state []byte, height int64) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(*eng.Violation); ok {
				panic(e)
			}
			eng.Fail("export/fails", "%s: the state cannot be exported: %v", where, e)
		}
	}()
	x, err := a.ExportAppStateAndValidators(false, nil)
	if err != nil {
		eng.Fail("export/fails", "%s: the state cannot be exported: %v", where, err)
	}
	var gen map[string]json.RawMessage
	must(json.Unmarshal(x.AppState, &gen))
	ec := app.NewEncodingConfig()
	// As the command line registers them
	app.ModuleBasics.RegisterInterfaces(ec.InterfaceRegistry)
	ec.InterfaceRegistry.RegisterInterface("tendermint.crypto.PubKey", (*cryptotypes.PubKey)(nil), &secp256k1.PubKey{})
	if err := app.ModuleBasics.ValidateGenesis(ec.Marshaler, ec.TxConfig, gen); err != nil {
		eng.Fail("export/invalid", "%s: the exported state isn't a valid genesis: %v", where, err)
	}
	return x.AppState, x.Height
}

// importState starts a chain from an exported state.
func importState(w *world.World, state []byte, height int64, where string) (n *world.World) {
	n = &world.World{Cfg: w.Cfg, P: w.P, EC: w.EC, DB: dbm.NewMemDB()}
	n.App = world.NewApp(n.DB, n.EC)
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(*eng.Violation); ok {
				panic(v)
			}
			st := string(debug.Stack())
			eng.Fail("import/fails/"+world.Site(st), "%s: the exported state cannot be imported: %v\n%s", where, e, st)
		}
	}()
	n.Init(state, w.Time, height)
	n.Header = w.Header
	return n
}

// text is a value as text; an absent list is an empty one.
func text(v interface{}) string {
	bz, err := json.Marshal(v)
	must(err)
	return strings.ReplaceAll(string(bz), "null", "[]")
}

func bothKeys[T any](a, b map[string]T) []string {
	u := map[string]bool{}
	for k := range a {
		u[k] = true
	}
	for k := range b {
		u[k] = true
	}
	return sortedKeys(u)
}

func sameMaps[T any](what string, a, b map[string]T) string {
	for _, k := range bothKeys(a, b) {
		x, ok := a[k]
		y, ok2 := b[k]
		if tx, ty := text(x), text(y); ok != ok2 || tx != ty {
			return fmt.Sprintf("%s of %q: %s (%t) there, %s (%t) here", what, k, tx, ok, ty, ok2)
		}
	}
	return ""
}

// snapDiff tells the first difference between the state of a chain and the one of its copy. The order of the lottery,
// the one of active referrals and former keys of validators are out of question.
func snapDiff(a, b *world.Snap) (what, detail string) {
	vals := func(m map[string]*noding.Info) map[string]noding.Info {
		r := map[string]noding.Info{}
		for k, v := range m {
			x := *v
			x.LotteryNo = 0
			if !x.IsActive() {
				x.Score = 0 // found out again when it's switched on
			}
			r[k] = x
		}
		return r
	}
	keys := func(s *world.Snap) map[string]string {
		r := map[string]string{}
		for k, acc := range s.NodeIdx {
			if v := s.Val[acc]; v != nil && v.IsActive() && k == consAddrOf(v.PubKey) {
				r[k] = acc
			}
		}
		return r
	}
	refs := func(m map[string]*referral.Info) map[string]referral.Info {
		r := map[string]referral.Info{}
		for k, v := range m {
			x := *v
			x.ActiveReferrals = append([]string{}, x.ActiveReferrals...)
			sort.Strings(x.ActiveReferrals)
			r[k] = x
		}
		return r
	}
	for _, x := range []struct {
		what, detail string
	}{
		{"balances", sameMaps("balance", a.Bal, b.Bal)},
		{"supply", sameMaps("supply", a.Supply, b.Supply)},
		{"referral", sameMaps("referral", refs(a.Ref), refs(b.Ref))},
		{"profiles", sameMaps("profile", a.Prof, b.Prof)},
		{"delegations", sameMaps("delegation", a.Del, b.Del)},
		{"validators", sameMaps("validator", vals(a.Val), vals(b.Val))},
		{"keys", sameMaps("validator key", keys(a), keys(b))},
		{"marks", sameMaps("marks", a.Earn, b.Earn)},
		{"accounts", sameMaps("account", a.Acc, b.Acc)},
		{"nicknames", sameMaps("nickname", a.Alias, b.Alias)},
	} {
		if x.detail != "" {
			return x.what, x.detail
		}
	}
	ta, tb := taskList(a), taskList(b)
	for i := range ta {
		if i >= len(tb) || ta[i] != tb[i] {
			return "tasks", fmt.Sprintf("task %d: %s there, here there are %v", i, ta[i], tb)
		}
	}
	if len(tb) > len(ta) {
		return "tasks", fmt.Sprintf("task %s is new", tb[len(ta)])
	}
	if x, y := text(a.V), text(b.V); x != y {
		return "voting", fmt.Sprintf("voting: %s there, %s here", x, y)
	}
	if x, y := fmt.Sprint(a.Card), fmt.Sprint(b.Card); x != y {
		return "cards", fmt.Sprintf("cards: %s there, %s here", x, y)
	}
	if x, y := text(a.P), text(b.P); x != y {
		return "params", fmt.Sprintf("parameters: %s there, %s here", x, y)
	}
	return "", ""
}

func taskList(s *world.Snap) (r []string) {
	for _, t := range s.Tasks {
		r = append(r, fmt.Sprintf("%s %s %X", t.Time.UTC().Format(time.RFC3339Nano), t.HandlerName, t.Data))
	}
	return
}

func consAddrOf(bech string) string {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, bech)
	must(err)
	return string(pk.Address())
}

// firstDiff shows where two texts begin to differ.
func firstDiff(a, b []byte) string {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	at := func(ls []string, i int) string {
		var r []string
		for j := i - 3; j < i+2; j++ {
			if j >= 0 && j < len(ls) {
				r = append(r, strings.TrimSpace(ls[j]))
			}
		}
		return strings.Join(r, " ")
	}
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("line %d of %d: first [%s], then [%s]", i, len(x), at(x, i), at(y, i))
		}
	}
	return fmt.Sprintf("the second one goes on with [%s]", at(y, len(x)))
}

// setPowers is a validator set as text.
func setPowers(vs *tmtypes.ValidatorSet) (r []string) {
	for _, v := range vs.Validators {
		r = append(r, fmt.Sprintf("%X: %d", []byte(v.Address), v.VotingPower))
	}
	sort.Strings(r)
	return
}

// copyist starts another chain from the exported state and compares how they go on.
type copyist struct {
	w, n   *world.World
	st     *eng.Stats
	snaps  []*world.Snap
	known  string // what is known to go wrong and looked for: lottery or dust
	state  []byte // what has been exported
	height int64
}

func (x *copyist) export(w *world.World, op eng.Op) {
	if x.n != nil {
		return
	}
	if w.InBlk {
		w.End()
	}
	where := fmt.Sprintf("after block %d", w.Height)
	s := w.Snap()
	if dusty(s) != "" && x.known != "dust" {
		x.st.Count("not exported: somebody has fallen below the dust threshold with a vote")
		w.Begin(time.Second)
		return
	}
	state, height := exportState(w.App, where)
	n := importState(w, state, height, where)
	switch x.known {
	case "lottery":
		if a, b := s.Lottery, n.SnapCtx(n.App.NewContext(false, w.Header)).Lottery; !sameList(a, b) {
			eng.Fail("import/lottery", "%s the lottery queue is %v, after an export and an import it's %v", where, a, b)
		}
	case "dust":
		t := n.SnapCtx(n.App.NewContext(false, w.Header))
		for _, a := range sortedKeys(s.Ref) {
			if s.Ref[a].BanishmentAt == nil && t.Ref[a].BanishmentAt != nil {
				eng.Fail("import/dust-banishment", "%s nobody is going to banish %s, after an export and an import it's to be banished %s", where, a, t.Ref[a].BanishmentAt)
			}
		}
	}
	twin := importState(w, state, height, where)
	exportAgain(twin, state, where)
	if height != w.Height+1 {
		eng.Fail("export/height", "%s the height of the export is %d", where, height)
	}
	if what, d := snapDiff(s, n.SnapCtx(n.App.NewContext(false, w.Header))); what != "" {
		eng.Fail("import/"+what, "%s the state is exported and imported, but %s", where, d)
	}
	if a, b := setPowers(w.NextVals), setPowers(n.NextVals); !sameList(a, b) {
		eng.Fail("import/set", "%s the validator set is %v, a chain that begins from its export has %v", where, a, b)
	}
	x.classes(s)
	x.state, x.height = state, height
	// Both of the chains go on with the set the new one begins with.
	w.Vals, w.NextVals, w.LastVals = n.Vals.Copy(), n.NextVals.Copy(), nil
	w.Absent, w.Evidence = map[string]bool{}, nil
	w.ResetSeen()
	w.Record = true
	w.Blocks = nil
	w.AfterCommit = append(w.AfterCommit, func() { x.snaps = append(x.snaps, w.Snap()) })
	x.n = n
	w.Begin(time.Second)
}

// exportAgain expects an imported state to be exported as it was.
func exportAgain(twin *world.World, state []byte, where string) {
	twin.App.Commit()
	again, _ := exportState(twin.App, "just after the import")
	var p, q map[string]json.RawMessage
	must(json.Unmarshal(state, &p))
	must(json.Unmarshal(again, &q))
	for _, k := range bothKeys(p, q) {
		if string(p[k]) != string(q[k]) {
			eng.Fail("export/again/"+k, "%s module %s is exported, imported and exported again: %s", where, k, firstDiff(p[k], q[k]))
		}
	}
}

// peek compares the state with what its export makes of it, and the history goes on.
func (x *copyist) peek(w *world.World, op eng.Op) {
	if w.InBlk {
		w.End()
	}
	where := fmt.Sprintf("after block %d", w.Height)
	if s := w.Snap(); dusty(s) == "" {
		state, height := exportState(w.App, where)
		n := importState(w, state, height, where)
		if what, d := snapDiff(s, n.SnapCtx(n.App.NewContext(false, w.Header))); what != "" {
			eng.Fail("import/"+what, "%s the state is exported and imported, but %s", where, d)
		}
		exportAgain(n, state, where)
		x.classes(s)
	}
	w.Begin(time.Second)
}

// dusty finds an account that an import schedules banishment of, see known_findings.txt.
func dusty(s *world.Snap) string {
	for _, a := range sortedKeys(s.Ref) {
		r := s.Ref[a]
		if d := s.Bal[a].D; r.Referrer != "" && !r.Active && !r.Banished && r.BanishmentAt == nil && r.CompressionAt == nil && 0 < d && d <= s.P.Bank.DustDelegation {
			return a + " has fallen below the dust threshold with a vote"
		}
	}
	return ""
}

// classes tells what there is in the state exported.
func (x *copyist) classes(s *world.Snap) {
	c := func(ok bool, what string) {
		if ok {
			x.st.Count("exported with " + what)
			x.st.NonTrivial = true
		}
	}
	var ban, jail, trans, revoke, comp, gone, bans, down, both bool
	for _, v := range s.Val {
		ban = ban || v.BannedForLife
		jail = jail || v.Jailed
	}
	for _, r := range s.Ref {
		trans = trans || r.Transition != ""
		comp = comp || r.CompressionAt != nil
		bans = bans || r.BanishmentAt != nil
		gone = gone || r.Banished
		down = down || r.StatusDowngradeAt != nil
		n := 0
		for _, is := range []bool{r.StatusDowngradeAt != nil, r.Transition != "", r.CompressionAt != nil, r.BanishmentAt != nil} {
			if is {
				n++
			}
		}
		both = both || n > 1
	}
	for _, d := range s.Del {
		revoke = revoke || len(d.Requests) > 0
	}
	c(ban, "a banned validator")
	c(jail, "a jailed validator")
	c(trans, "a pending transition")
	c(comp, "a pending compression")
	c(bans, "a pending banishment")
	c(gone, "a banished account")
	c(down, "a pending downgrade")
	c(both, "several things pending about one account")
	c(revoke, "a pending revocation")
	c(s.V.Proposal != nil, "a current proposal")
	c(s.V.Poll != nil, "a current poll")
	c(len(s.V.History) > 0, "decided proposals")
	c(len(s.V.PollHistory) > 0, "ended polls")
	c(len(s.Earn) > 0, "earners")
}

func (x *copyist) compare(w *world.World, op eng.Op) {
	if x.n == nil {
		return
	}
	if w.InBlk {
		w.End()
	}
	n := x.n
	for i, b := range w.Blocks {
		h := b.Begin.Header.Height
		n.Height, n.Time = h, b.Begin.Header.Time
		n.BeginReq(b.Begin)
		for j, tx := range b.Txs {
			res := n.Deliver(&world.Tx{Bytes: tx})
			if e := b.TxRes[j]; e.Code != res.Code || e.Codespace != res.Codespace || string(e.Data) != string(res.Data) {
				eng.Fail("copy/result", "transaction %d of block %d: code %d (%s) in the chain, code %d (%s) in its copy", j, h, e.Code, e.Log, res.Code, res.Log)
			}
		}
		var ups []string
		n.AfterEnd = []func(abci.ResponseEndBlock){func(r abci.ResponseEndBlock) { ups = sortedUpdates(r.ValidatorUpdates) }}
		n.End()
		if e := sortedUpdates(b.End.ValidatorUpdates); !sameList(e, ups) {
			eng.Fail("copy/validators", "block %d: validator updates %v in the chain, %v in its copy", h, e, ups)
		}
		if what, d := snapDiff(x.snaps[i], n.Snap()); what != "" {
			eng.Fail("copy/"+what, "after block %d: %s", h, d)
		}
		x.st.Count("block executed by the copy")
	}
	a, ha := exportState(w.App, "at last")
	b, hb := exportState(n.App, "the copy at last")
	if ha != hb || string(a) != string(b) {
		eng.Fail("copy/export", "at last the exports of the chain and its copy differ: %s", firstDiff(a, b))
	}
	// What was exported then can be exported now, too
	old := app.NewArteryApp(log.NewNopLogger(), w.DB, nil, false, 1, w.EC)
	if err := old.LoadHeight(x.height - 1); err != nil {
		eng.Fail("export/past", "after block %d the state of block %d cannot be loaded: %v", w.Height, x.height-1, err)
	}
	if c, hc := exportState(old, fmt.Sprintf("block %d after block %d", x.height-1, w.Height)); hc != x.height || string(c) != string(x.state) {
		eng.Fail("export/past", "the state of block %d (%d, %d) is exported differently after block %d: %s", x.height-1, x.height, hc, w.Height, firstDiff(x.state, c))
	}
	w.Begin(time.Second) // whoever called expects an open block
}

func attachG02(known string) func(w *world.World, st *eng.Stats) {
	return func(w *world.World, st *eng.Stats) {
		x := &copyist{w: w, st: st, known: known}
		w.Extra = map[string]func(w *world.World, op eng.Op){"export": x.export, "compare": x.compare, "peek": x.peek}
	}
}

var criteriaKind = func() int64 {
	for i, k := range world.PropKinds {
		if k.Args == "criteria" {
			return int64(i)
		}
	}
	return 0
}()

func g02Gen(min, max int64, lucky bool) func(r *eng.R) *eng.Case {
	g := chainGen(min, max, reweigh(eng.W{K: "next", N: 60}), func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["gov"] = r.Range(1, 2)
		p["votp"] = r.Of(1, 18, 30)
		if !lucky {
			p["lucky"] = 0
		}
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		for i := range c.Ops {
			o := &c.Ops[i]
			if o.K == "propose" && r.Chance(20) {
				o.B = criteriaKind
			}
			if o.K == "propose" && !lucky && world.PropKinds[eng.Mod(o.B, len(world.PropKinds))].T == voting.PROPOSAL_TYPE_LUCKY_VALIDATORS {
				o.B++
			}
		}
		copying(c, r)
		return c
	}
}

// copying exports the state somewhere in the history, and on the way to there sometimes looks at many exports.
func copying(c *eng.Case, r *eng.R) {
	at := len(c.Ops)/3 + r.Intn(len(c.Ops)/2)
	c.Ops = append(c.Ops[:at:at], append([]eng.Op{{K: "export"}}, c.Ops[at:]...)...)
	c.Ops = append(c.Ops, eng.Op{K: "compare"})
	if r.Chance(50) { // many looks at it on the way
		var ops []eng.Op
		every := int(r.Range(3, 9))
		for i, o := range c.Ops[:at] {
			ops = append(ops, o)
			if i%every == 0 {
				ops = append(ops, eng.Op{K: "peek"})
			}
		}
		c.Ops = append(ops, c.Ops[at:]...)
	}
}

// g02TreeGen is about accounts that rise and fall, move and go away, which happens to some of them at once.
func g02TreeGen(r *eng.R) *eng.Case {
	ws := []eng.W{{"next", 50}, {"transition", 16}, {"resolve", 5}, {"tariff", 16}, {"delegate", 16}, {"express", 14}, {"revoke", 8}, {"create", 5}, {"send", 4}, {"on", 4}, {"buyim", 2}}
	c := chainGen(40, 110, ws, func(r *eng.R, p map[string]int64) {
		statusTweak(r, p)
		p["gov"], p["n"] = r.Range(1, 2), r.Of(14, 20, 30)
		p["lucky"], p["busy"] = 0, r.Of(30, 60)
	})(r)
	for i := range c.Ops {
		if c.Ops[i].K == "next" && r.Chance(60) {
			c.Ops[i].A = r.Of(1, 2, 3, 4, 5, 6, 7, 10)
		}
	}
	copying(c, r)
	return c
}

func init() {
	eng.Register(&eng.Property{
		ID: "G02",
		Rule: "a history is executed, the state is exported and imported by another node, which is compared with the first one at once and after every further block; " +
			"non-trivial: there is something pending, past or punished in the exported state",
		Assumptions: []string{
			"the set of validators of the new chain is the one InitChain gives, and evidence and missed blocks are only those of its members",
			"the order of active referrals is of no consequence (it's the one in which they came, an import sorts them)",
			"a planned software upgrade is not a part of the exported state (the SDK's upgrade module has no genesis)",
		},
		Suites: []*eng.Suite{{
			Name:  "crowd",
			Gen:   crowd(g02Gen(30, 60, false)),
			Run:   chainRun(attachG02("")),
			Quick: 6, Thorough: 400,
		}, {
			Name:  "export",
			Gen:   g02Gen(40, 120, false),
			Run:   chainRun(attachG02("")),
			Quick: 220, Thorough: 10000,
		}, {
			Name:  "tree",
			Gen:   g02TreeGen,
			Run:   chainRun(attachG02("")),
			Quick: 160, Thorough: 6000,
		}, {
			Name: "lottery",
			Gen: func(r *eng.R) *eng.Case {
				c := &eng.Case{P: map[string]int64{"vals": 6, "maxvals": 1, "lucky": 2, "n": 12}}
				for i := int64(0); i < 7; i++ {
					c.Ops = append(c.Ops, eng.Op{K: "next", D: i})
				}
				c.Ops = append(c.Ops, eng.Op{K: "export"})
				return c
			},
			Run:   chainRun(attachG02("lottery")),
			Quick: 1, Thorough: 1,
		}, {
			Name: "dust",
			Gen: func(r *eng.R) *eng.Case {
				return &eng.Case{P: map[string]int64{"inactive": 60, "nodel": 30, "rich": 1, "seed": 155635441},
					Ops: []eng.Op{{K: "next", A: 11312433930, B: 1}, {K: "propose", B: 387340782953, C: 37000, D: 616325000000}, {K: "export"}}}
			},
			Run:   chainRun(attachG02("dust")),
			Quick: 1, Thorough: 1,
		}},
	})
}
