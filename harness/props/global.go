package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/store"
	storetypes "github.com/cosmos/cosmos-sdk/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// gasOp limits the gas of the next transaction, so that it stops at whatever point.
func gasOp(w *world.World, op eng.Op) {
	limits := []int64{30_000, 60_000, 100_000, 150_000, 250_000, 500_000}
	w.NextGas = uint64(eng.Mod(op.B, int(limits[eng.Mod(op.A, len(limits))])) + 1)
}

func withGas(p map[string]func(w *world.World, op eng.Op)) map[string]func(w *world.World, op eng.Op) {
	if p == nil {
		p = map[string]func(w *world.World, op eng.Op){}
	}
	p["gas"] = gasOp
	return p
}

// ------------------------------------------------------------------------------------------------------------- G01

// replica executes blocks that have been executed by another node already.
type replica struct {
	w   *world.World
	ec  app.EncodingConfig
	db  dbm.DB
	app *app.ArteryApp
	r   *eng.R
	st  *eng.Stats
	// noise: reads and checks go between the transactions
	noise bool
	// settings: the node is configured in another way with every start
	settings bool
	// crashes: the node is restarted now and then, at any point
	crashes bool
	txs     [][]byte
	coming  [][]byte // what is yet to be executed in the block
	accs    []string
}

func newReplica(w *world.World, r *eng.R, st *eng.Stats, noise, crashes bool) *replica {
	x := &replica{w: w, ec: app.NewEncodingConfig(), db: dbm.NewMemDB(), r: r, st: st, noise: noise, crashes: crashes, settings: crashes}
	for _, b := range w.Blocks {
		x.txs = append(x.txs, b.Txs...)
	}
	x.accs = w.Snap().Accounts()
	x.start()
	return x
}

// start is what happens when a node is started: the application loads what it has committed, Tendermint finds out what
// that is.
func (x *replica) start() {
	if x.settings {
		x.app = x.configured()
	} else {
		x.app = world.NewApp(x.db, x.ec)
	}
	if x.app.LastBlockHeight() == 0 {
		x.app.InitChain(x.w.InitReq)
		return
	}
	b := x.w.Blocks[x.app.LastBlockHeight()-x.w.InitReq.InitialHeight]
	info := x.app.Info(abci.RequestInfo{})
	if info.LastBlockHeight != b.Begin.Header.Height || !bytes.Equal(info.LastBlockAppHash, b.Hash) {
		eng.Fail("replica/info", "a node restarted after block %d is at block %d with hash %X instead of %X",
			b.Begin.Header.Height, info.LastBlockHeight, info.LastBlockAppHash, b.Hash)
	}
}

// configured is a node whose operator has chosen other settings; these are no part of the protocol.
func (x *replica) configured() *app.ArteryApp {
	var opts []func(*baseapp.BaseApp)
	if x.r.Bool() {
		opts = append(opts, baseapp.SetInterBlockCache(store.NewCommitKVStoreCacheManager()))
		x.st.Count("with a cache between blocks")
	}
	switch x.r.Intn(4) {
	case 0:
		opts = append(opts, baseapp.SetPruning(storetypes.PruneEverything))
	case 1:
		opts = append(opts, baseapp.SetPruning(storetypes.PruneDefault))
	case 2:
		opts = append(opts, baseapp.SetPruning(storetypes.NewPruningOptions(uint64(2+x.r.Intn(3)), uint64(2+x.r.Intn(5)), uint64(1+x.r.Intn(4)))))
	}
	if x.r.Bool() {
		opts = append(opts, baseapp.SetMinGasPrices("1uartr"))
	}
	if x.r.Bool() {
		opts = append(opts, baseapp.SetIndexEvents([]string{"transfer.sender"}))
	}
	if x.r.Chance(30) {
		opts = append(opts, baseapp.SetTrace(true))
	}
	// the machine may be anywhere
	time.Local = time.FixedZone("there", (x.r.Intn(53)-24)*1800)
	var trace io.Writer
	if x.r.Chance(20) {
		trace = io.Discard
		x.st.Count("with tracing of stores")
	}
	return app.NewArteryApp(log.NewNopLogger(), x.db, trace, true, uint(x.r.Intn(3)), x.ec, opts...)
}

// heard are the events as their listeners get them; the attributes come in no order.
func heard(list []abci.Event) []string {
	var r []string
	for _, e := range list {
		var as []string
		for _, a := range e.Attributes {
			as = append(as, string(a.Key)+"="+string(a.Value))
		}
		sort.Strings(as)
		r = append(r, e.Type+fmt.Sprintf("%q", as))
	}
	return r
}

func sameEvents(at string, a, b []abci.Event) {
	if e, g := heard(a), heard(b); !sameList(e, g) {
		eng.Fail("replica/events", "%s: a node announces %v, another one %v", at, e, g)
	}
}

// disturb is something that must not change anything.
func (x *replica) disturb() {
	if !x.noise {
		return
	}
	for i := x.r.Intn(3); i > 0; i-- {
		switch x.r.Intn(4) {
		case 0:
			if len(x.txs) > 0 {
				x.app.CheckTx(abci.RequestCheckTx{Tx: x.txs[x.r.Intn(len(x.txs))], Type: abci.CheckTxType(x.r.Intn(2))})
				x.st.Count("checked meanwhile")
			}
		case 1:
			if len(x.txs) > 0 {
				bz := x.txs[x.r.Intn(len(x.txs))]
				if len(x.coming) > 0 && x.r.Chance(60) {
					bz = x.coming[x.r.Intn(len(x.coming))]
				}
				x.app.Simulate(bz)
				x.st.Count("simulated meanwhile")
			}
		default:
			if x.app.LastBlockHeight() > 0 {
				q := anyQuery(x.r, x.accs)
				x.app.Query(q)
				x.st.Count("queried meanwhile")
			}
		}
	}
}

type txOutcome struct {
	Code               uint32
	Space              string
	Data               string
	GasWanted, GasUsed int64
}

func outcome(r abci.ResponseDeliverTx) txOutcome {
	return txOutcome{r.Code, r.Codespace, string(r.Data), r.GasWanted, r.GasUsed}
}

func sortedUpdates(us []abci.ValidatorUpdate) []string {
	var r []string
	for _, u := range us {
		r = append(r, u.String())
	}
	sort.Strings(r)
	return r
}

// run executes all the blocks and compares the results with what the first node has got.
func (x *replica) run() {
	for n := 0; n < len(x.w.Blocks); n++ {
		b := x.w.Blocks[n]
		h := b.Begin.Header.Height
		stop := -1 // the node crashes having executed that many transactions
		if x.crashes && x.r.Chance(30) {
			stop = x.r.Intn(len(b.Txs) + 3)
		}
		if stop == 0 {
			x.st.Count("restarted between blocks")
			x.start()
			stop = -1
		}
		for again := true; again; {
			again = false
			x.coming = b.Txs
			x.disturb()
			beg := x.app.BeginBlock(b.Begin)
			sameEvents(fmt.Sprintf("beginning of block %d", h), b.BegRes.Events, beg.Events)
			for i, tx := range b.Txs {
				if stop == i+1 {
					break
				}
				x.coming = b.Txs[i:]
				x.disturb()
				res := x.app.DeliverTx(abci.RequestDeliverTx{Tx: tx})
				if e, g := outcome(b.TxRes[i]), outcome(res); e != g {
					eng.Fail("replica/result", "transaction %d of block %d: a node has got %+v (%s), another one %+v (%s)", i, h, e, b.TxRes[i].Log, g, res.Log)
				}
				sameEvents(fmt.Sprintf("transaction %d of block %d", i, h), b.TxRes[i].Events, res.Events)
			}
			x.disturb()
			if stop > 0 && stop <= len(b.Txs)+1 {
				if stop == len(b.Txs)+1 {
					x.app.EndBlock(abci.RequestEndBlock{Height: h})
				}
				x.st.Count("crashed within a block")
				x.start()
				stop, again = -1, true
			}
		}
		end := x.app.EndBlock(abci.RequestEndBlock{Height: h})
		sameEvents(fmt.Sprintf("end of block %d", h), b.End.Events, end.Events)
		if e, g := sortedUpdates(b.End.ValidatorUpdates), sortedUpdates(end.ValidatorUpdates); !sameList(e, g) {
			eng.Fail("replica/validators", "block %d: a node has got validator updates %v, another one %v", h, e, g)
		}
		if c := x.app.Commit(); !bytes.Equal(c.Data, b.Hash) {
			detail := ""
			if n == len(x.w.Blocks)-1 {
				hdr := b.Begin.Header
				ds := world.RawOf(x.w.App, x.w.App.NewContext(true, hdr)).Diff(world.RawOf(x.app, x.app.NewContext(true, hdr)))
				detail = fmt.Sprint(ds)
			}
			eng.Fail("replica/hash", "block %d: a node has got hash %X, another one %X %s", h, b.Hash, c.Data, detail)
		}
	}
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runG01(c *eng.Case, st *eng.Stats) *eng.Violation {
	w := world.New(c.P, st)
	w.Record = true
	w.Extra = withGas(nil)
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if res.Code == 11 && res.Codespace == "sdk" {
			st.Count("out of gas")
		}
	})
	w.Run(c.Ops)
	r := eng.NewR(c.P["rseed"])
	newReplica(w, r, st, false, false).run()
	here := time.Local
	defer func() { time.Local = here }()
	newReplica(w, r, st, true, true).run()
	txs := 0
	for _, b := range w.Blocks {
		for _, t := range b.TxRes {
			if t.Code == 0 {
				txs++
			}
		}
	}
	st.NonTrivial = len(w.Blocks) >= 5 && txs >= 10
	return nil
}

// ------------------------------------------------------------------------------------------------------------- G03

// attachG03 checks that refused transactions leave nothing but the fee and the counters behind.
func attachG03(w *world.World, st *eng.Stats) {
	var before, fee world.Raw
	var feeOK bool
	var params string
	w.Extra = withGas(w.Extra)
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) {
		before, params = w.Snap().Raw, paramsRead(w)
	})
	// What a transaction that does nothing would leave
	onlyFee := func(ctx sdk.Context, tx *world.Tx) (world.Raw, bool) {
		if len(tx.Signers) == 0 {
			return nil, false
		}
		if !tx.Fee.IsZero() {
			if err := w.App.GetBankKeeper().SendCoinsFromAccountToModule(ctx, tx.Signers[0].Addr, auth.FeeCollectorName, tx.Fee); err != nil {
				return nil, false
			}
		}
		ak := w.App.GetAccountKeeper()
		for _, u := range tx.Signers {
			a := ak.GetAccount(ctx, u.Addr)
			if a == nil {
				return nil, false
			}
			must(a.SetSequence(a.GetSequence() + 1))
			if a.GetPubKey() == nil {
				must(a.SetPubKey(u.Priv.PubKey()))
			}
			ak.SetAccount(ctx, a)
		}
		return world.RawOf(w.App, ctx), true
	}
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { fee, feeOK = onlyFee(w.Scratch(), tx) })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if res.Code == 0 {
			if tx.Forged {
				eng.Fail("refused/forged", "a transaction with a forged signature is accepted")
			}
			return
		}
		if p := paramsRead(w); p != params {
			eng.Fail("refused/params", "a refused transaction (%s) of %v changes the parameters a node goes by: from %s to %s", res.Log, msgNames(tx), params, p)
		}
		after := w.Snap().Raw
		ds := before.Diff(after)
		if len(ds) == 0 {
			st.Count("refused without a trace")
			return
		}
		if tx.Forged {
			eng.Fail("refused/forged", "a transaction with a forged signature changes %v", ds)
		}
		if !feeOK {
			eng.Fail("refused/trace", "a refused transaction (%s) of %v changes %v", res.Log, msgNames(tx), ds)
		}
		if ds := fee.Diff(after); len(ds) != 0 {
			eng.Fail("refused/trace", "a refused transaction (code %d, %s) of %v leaves more than its fee: %v", res.Code, res.Log, msgNames(tx), ds)
		}
		st.Count("refused, the fee is paid")
		if !tx.Fee.IsZero() {
			st.Count("refused, a fee above zero is paid")
		}
		if res.Code == 11 && res.Codespace == "sdk" {
			st.Count("refused, out of gas within a message")
			st.NonTrivial = true
		}
		if len(tx.Msgs) > 1 {
			st.Count("refused bundle")
			st.NonTrivial = true
		}
	})
}

// paramsRead is what the modules believe their parameters to be, whatever is stored.
func mustJSON(x interface{}) string {
	bz, err := json.Marshal(x)
	must(err)
	return string(bz)
}
func paramsRead(w *world.World) string { return mustJSON(w.ParamsAt(w.Ctx())) }

// verdict are the messages that open a proposal and close it with everybody's votes.
func verdict(w *world.World, op eng.Op) []sdk.Msg {
	s := w.Snap()
	p := w.Proposal(op)
	var ms []sdk.Msg
	if s.V.Proposal == nil {
		ms = append(ms, &voting.MsgPropose{Proposal: p})
	} else {
		p = *s.V.Proposal
	}
	done := map[string]bool{canon(p.Author): s.V.Proposal == nil}
	for _, a := range append(append([]string{}, s.V.Agreed...), s.V.Disagreed...) {
		done[canon(a)] = true
	}
	for _, g := range s.V.Gov {
		if u := world.UserByAddr(g); u != nil && !done[canon(g)] {
			ms = append(ms, &voting.MsgVote{Voter: u.B, Agree: eng.Mod(op.D/7, 8) != 0})
		}
	}
	return ms
}

// noise are operations that must not change anything.
func noise(w *world.World, st *eng.Stats) {
	var last [][]byte
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if last = append(last, tx.Bytes); len(last) > 8 {
			last = last[1:]
		}
	})
	same := func(what string, f func()) {
		before, params := w.Raw(), paramsRead(w)
		f()
		if p := paramsRead(w); p != params {
			eng.Fail("noise/"+what, "%s changes the parameters a node goes by: from %s to %s", what, params, p)
		}
		if ds := before.Diff(w.Raw()); len(ds) != 0 {
			eng.Fail("noise/"+what, "%s changes %v", what, ds)
		}
		st.Count(what + " changes nothing")
	}
	w.Extra["check"] = func(w *world.World, op eng.Op) {
		if m := w.Msg(w.SubOp(op, 0)); m != nil {
			if tx, err := w.MakeTx(nil, false, m); err == nil {
				last = append(last, tx.Bytes)
			}
		}
		if len(last) == 0 {
			return
		}
		bz := last[len(last)-1]
		same("a check", func() {
			w.App.CheckTx(abci.RequestCheckTx{Tx: bz, Type: abci.CheckTxType(eng.Mod(op.C, 2))})
		})
	}
	var accepted [][]byte
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if res.Code == 0 {
			accepted = append(accepted, tx.Bytes)
		}
	})
	// again: a transaction that has been executed is put into a block once more
	w.Extra["again"] = func(w *world.World, op eng.Op) {
		if len(accepted) == 0 {
			return
		}
		bz := accepted[eng.Mod(op.A, len(accepted))]
		same("a repeated transaction", func() {
			if res := w.App.DeliverTx(abci.RequestDeliverTx{Tx: bz}); res.Code == 0 {
				eng.Fail("noise/replay", "a transaction is accepted for the second time")
			}
		})
	}
	w.Extra["simulate"] = func(w *world.World, op eng.Op) {
		m := w.Msg(w.SubOp(op, 0))
		if m == nil {
			return
		}
		tx, err := w.MakeTx(nil, false, m)
		if err != nil {
			return
		}
		same("a simulation", func() {
			if _, _, err := w.App.Simulate(tx.Bytes); err == nil {
				st.Count("successful simulation")
			}
		})
	}
	w.Extra["verdict"] = func(w *world.World, op eng.Op) {
		ms := verdict(w, op)
		if len(ms) == 0 {
			return
		}
		switch mode := eng.Mod(op.C/11, 4); mode {
		case 0:
			tx, err := w.MakeTx(nil, false, ms...)
			if err != nil {
				return
			}
			same("a simulation", func() {
				if _, _, err := w.App.Simulate(tx.Bytes); err == nil {
					st.Count("successful simulation of a decision")
				}
			})
		case 1, 2:
			// nobody has got that much
			a, b := w.Acct(op.A), w.Acct(op.A+1)
			ms = append(ms, &bank.MsgSend{FromAddress: a.B, ToAddress: b.B, Amount: util.Uartrs(1 << 60)})
			w.SendAs(op, ms...)
			st.Count("decision in a bundle that fails")
		default:
			w.SendAs(op, ms...)
		}
	}
	w.Extra["query"] = func(w *world.World, op eng.Op) {
		r := eng.NewR(op.B)
		q := anyQuery(r, w.Snap().Accounts())
		same("a query", func() {
			if w.App.Query(q).Code == 0 {
				st.Count("answered query")
			}
		})
	}
}

func noisy(ws []eng.W) []eng.W {
	return append(ws, eng.W{K: "gas", N: 12}, eng.W{K: "check", N: 2}, eng.W{K: "simulate", N: 3}, eng.W{K: "query", N: 4}, eng.W{K: "verdict", N: 3}, eng.W{K: "again", N: 3})
}

func feesTweak(r *eng.R, p map[string]int64) {
	if r.Chance(60) {
		p["txfee"] = 1
	}
	p["rseed"] = r.Raw()
}

func init() {
	eng.Register(&eng.Property{
		ID: "G01",
		Rule: "a history of blocks is executed by one application and then, from the same genesis, by two others: one that does nothing else, and one that checks and simulates transactions and " +
			"answers queries meanwhile and is restarted between blocks and at any point within a block; non-trivial: at least 5 blocks and 10 accepted transactions",
		Assumptions: []string{
			"all the executions are by one binary on one machine, so a difference between platforms or compilers is not seen; map iteration order does differ between them",
			"a crash is simulated by opening a new application over the committed database; half-written database files are not considered",
		},
		Suites: []*eng.Suite{{
			Name:  "crowd",
			Gen:   crowd(chainGen(20, 50, reweigh(eng.W{K: "next", N: 30}), feesTweak)),
			Run:   runG01,
			Quick: 6, Thorough: 400,
		}, {
			Name:  "replay",
			Gen:   chainGen(40, 110, append(reweigh(eng.W{K: "next", N: 30}), eng.W{K: "gas", N: 4}), feesTweak),
			Run:   runG01,
			Quick: 90, Thorough: 4000,
		}},
	})
	eng.Register(&eng.Property{
		ID: "G03",
		Rule: "every refused transaction of a history is compared with one that only pays the fee and counts; checks, simulations and queries are compared with nothing; non-trivial: a " +
			"transaction is refused after its fee has been taken because a bundle's message fails or the gas is over",
		Assumptions: []string{"the gas limits are random, so that not every point of every message is where the gas is over"},
		Suites: []*eng.Suite{{
			Name: "refusals",
			Gen:  chainGen(40, 100, noisy(reweigh(eng.W{K: "bundle", N: 14}, eng.W{K: "forge", N: 3}, eng.W{K: "next", N: 14})), feesTweak),
			Run: chainRun(func(w *world.World, st *eng.Stats) {
				attachG03(w, st)
				noise(w, st)
			}),
			Quick: 400, Thorough: 15000,
		}},
	})
}
