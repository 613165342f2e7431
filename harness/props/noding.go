package props

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	abci "github.com/tendermint/tendermint/abci/types"

	noding "github.com/arterynetwork/artr/x/noding/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

func vOn(v *noding.Info) bool { return v.Status && !v.Jailed && !v.BannedForLife }

// consOf is the consensus address of a bech32 consensus key; ok is false if consensus cannot use such a key.
func consOf(key string) (addr string, ok bool) {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, key)
	if err != nil {
		return "", false
	}
	return string(pk.Address()), pk.Type() == "ed25519"
}

// --- N01: consensus and the application have the same set.

func attachN01(w *world.World, st *eng.Stats) {
	changes := 0
	check := func() {
		s := w.Snap()
		want := map[string]int64{}
		owner := map[string]string{}
		for _, a := range sortedKeys(s.Val) {
			v := s.Val[a]
			if (v.LastPower != 0) != (v.LastPubKey != "") {
				eng.Fail("mirror/pair", "%s has announced power %d and key %q", a, v.LastPower, v.LastPubKey)
			}
			if v.LastPower == 0 {
				continue
			}
			c, ok := consOf(v.LastPubKey)
			if !ok {
				eng.Fail("mirror/key", "%s has announced a key consensus cannot use: %s", a, v.LastPubKey)
			}
			if o := owner[c]; o != "" {
				eng.Fail("mirror/shared", "%s and %s believe that they validate with the same key", o, a)
			}
			want[c], owner[c] = v.LastPower, a
		}
		got := map[string]int64{}
		for _, v := range w.NextVals.Validators {
			got[string(v.Address)] = v.VotingPower
		}
		for _, c := range sortedKeys(union2(want, got)) {
			if want[c] != got[c] {
				eng.Fail("mirror/power", "after block %d consensus gives %X power %d, while the application (%s) believes %d", w.Height, c, got[c], owner[c], want[c])
			}
		}
		if len(got) == 0 {
			eng.Fail("mirror/empty", "nobody is left in the set")
		}
	}
	w.AfterEnd = append(w.AfterEnd, func(res abci.ResponseEndBlock) {
		if len(res.ValidatorUpdates) > 0 {
			changes++
			st.Count("updates")
		}
		for _, u := range res.ValidatorUpdates {
			if u.Power == 0 {
				st.Count("removed")
			}
		}
		st.NonTrivial = changes >= 3
	})
	w.AfterCommit = append(w.AfterCommit, check)
}

// --- N02: who is in the set and with which power.

type rated struct {
	acc string
	*noding.Info
}

// better tells that x is to be preferred to y.
func better(x, y *noding.Info) bool {
	if x.Score != y.Score {
		return x.Score > y.Score
	}
	return x.OkBlocksInRow > y.OkBlocksInRow
}

// powers distributes voting power over ranked scores: a slice is used while the part of the seats does not exceed its
// own and the previous ones', and by those who are as good as the last one within it.
func powers(p noding.Params, scores []int64) []int64 {
	res := make([]int64, len(scores))
	slice := 0
	upTo := world.Rat(p.VotingPower.Slices[0].Part)
	for i, x := range scores {
		if i > 0 && x != scores[i-1] && rat(int64(i+1)).Cmp(mul(upTo, rat(int64(p.MaxValidators)))) > 0 {
			slice++
			upTo = new(big.Rat).Add(upTo, world.Rat(p.VotingPower.Slices[slice].Part))
		}
		res[i] = p.VotingPower.Slices[slice].VotingPower
	}
	return res
}

// score is how a validator is rated: by its stake, what it has missed and what it has signed.
func score(s *world.Snap, acc string) int64 {
	v := s.Val[acc]
	stake := totalStake(s, acc)
	if stake < 1 {
		stake = 1
	}
	return int64(math.Log(float64(stake))) - v.Strokes + v.OkBlocksInRow/100
}

func attachN02(w *world.World, st *eng.Stats) {
	var before *world.Snap
	queue := func(s *world.Snap) {
		seen := map[string]bool{}
		for i, a := range s.Lottery {
			v := s.Val[a]
			switch {
			case v == nil:
				eng.Fail("queue/unknown", "%s is in the lottery queue but is no validator", a)
			case v.LotteryNo != s.LotteryN[i]:
				eng.Fail("queue/number", "%s is number %d of the lottery queue but has got number %d", a, s.LotteryN[i], v.LotteryNo)
			case !vOn(v):
				eng.Fail("queue/idle", "%s is in the lottery queue (%d) but is not on (status %v jailed %v banned %v)", a, v.LotteryNo, v.Status, v.Jailed, v.BannedForLife)
			case seen[a]:
				eng.Fail("queue/twice", "%s is in the lottery queue twice", a)
			}
			seen[a] = true
		}
		for _, a := range sortedKeys(s.Val) {
			if n := s.Val[a].LotteryNo; n != 0 && !seen[a] {
				eng.Fail("queue/lost", "%s has got number %d, but is not in the lottery queue", a, n)
			}
		}
	}
	// fresh checks the scores of those whose stake has changed
	fresh := func(what string, before, after *world.Snap) {
		for _, a := range sortedKeys(after.Val) {
			v, o := after.Val[a], before.Val[a]
			if after.Ref[a] == nil || !v.Status {
				continue
			}
			if o != nil && o.Status && before.Ref[a] != nil && before.Ref[a].Status != after.Ref[a].Status {
				st.Count("the status of a validator has changed")
			}
			if x := score(after, a); v.Score != x {
				eng.Fail("score/stale", "%s: %s is rated %d, while stake %d, %d strokes and %d signed make %d", what, a, v.Score, totalStake(after, a), v.Strokes, v.OkBlocksInRow, x)
			}
		}
		queue(after)
	}
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) { fresh(msgNames(tx), before, w.Snap()) })
	var begin *world.Snap
	w.BeforeBegin = append(w.BeforeBegin, func(req abci.RequestBeginBlock) {
		if w.Height > 1 {
			begin = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, res abci.ResponseBeginBlock) {
		if w.Height > 1 {
			fresh("BeginBlock", begin, w.Snap())
		}
	})
	var end *world.Snap
	w.BeforeEnd = append(w.BeforeEnd, func() { end = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() {
		s, p := end, end.P.Noding
		after := w.Snap()
		power := map[string]int64{}
		for _, v := range w.NextVals.Validators {
			power[string(v.Address)] = v.VotingPower
		}
		of := func(v *noding.Info) int64 { c, _ := consOf(v.PubKey); return power[c] }
		var on []rated
		for _, a := range sortedKeys(s.Val) {
			if v := s.Val[a]; vOn(v) {
				on = append(on, rated{a, v})
			}
		}
		n1, n2 := int(p.MaxValidators), int(p.LotteryValidators)
		if n1 > len(on) {
			n1 = len(on)
		}
		if n2 > len(on)-n1 {
			n2 = len(on) - n1
		}
		// Who is a top one cannot be told when scores tie, so it is taken from the outcome and then verified.
		isTop := map[string]bool{}
		var top, rest []rated
		for _, x := range on {
			if after.Val[x.acc].LotteryNo == 0 {
				top = append(top, x)
				isTop[x.acc] = true
			} else {
				rest = append(rest, x)
			}
		}
		if len(top) != n1 {
			eng.Fail("select/top-size", "block %d: %d validators are on, up to %d may be on top, but %d are", w.Height, len(on), p.MaxValidators, len(top))
		}
		for _, x := range rest {
			for _, y := range top {
				if better(x.Info, y.Info) {
					eng.Fail("select/top", "block %d: %s (score %d, %d in a row) is on top, while the better %s (score %d, %d in a row) isn't", w.Height,
						y.acc, y.Score, y.OkBlocksInRow, x.acc, x.Score, x.OkBlocksInRow)
				}
			}
		}
		sort.Slice(top, func(i, j int) bool { return top[i].Score > top[j].Score })
		scores := make([]int64, len(top))
		for i := range top {
			scores[i] = top[i].Score
		}
		total := 0
		for i, x := range powers(p, scores) {
			total++
			if g := of(top[i].Info); g != x {
				eng.Fail("select/power", "block %d: %s is number %d of %d (scores %v) and has power %d instead of %d", w.Height, top[i].acc, i+1, p.MaxValidators, scores, g, x)
			}
		}
		lucky := map[string]bool{}
		for _, a := range s.Lottery {
			if !isTop[a] && len(lucky) < n2 {
				lucky[a] = true
			}
		}
		for _, x := range rest {
			e := int64(0)
			if lucky[x.acc] {
				e = p.VotingPower.LuckiesVotingPower
				total++
				st.Count("lucky")
			} else {
				st.Count("spare")
			}
			if g := of(x.Info); g != e {
				eng.Fail("select/lottery", "block %d: %s (number %d of the queue, %d may be chosen) has power %d instead of %d", w.Height, x.acc, x.LotteryNo, n2, g, e)
			}
		}
		if len(power) != total {
			eng.Fail("select/strangers", "block %d: consensus has %d validators, %d have been selected", w.Height, len(power), total)
		}
		queue(after)
		if len(rest) > 0 && len(on) > 2 {
			st.NonTrivial = true
		}
	})
}

// --- N03: counters, jail and bans.

// tally is the reference model of what is known about every validator.
type tally map[string]*noding.Info

func newTally(s *world.Snap) tally {
	t := tally{}
	for a, v := range s.Val {
		x := *v
		t[a] = &x
	}
	return t
}

func (t tally) block(s *world.Snap, req abci.RequestBeginBlock, st *eng.Stats) {
	p, h := s.P.Noding, req.Header.Height
	if v := t[s.NodeIdx[string(req.Header.ProposerAddress)]]; v != nil {
		v.ProposedCount++
	}
	for _, x := range req.LastCommitInfo.Votes {
		v := t[s.NodeIdx[string(x.Validator.Address)]]
		switch {
		case v == nil:
		case x.SignedLastBlock:
			v.MissedBlocksInRow = 0
			v.OkBlocksInRow++
		case v.Jailed:
			st.Count("missed-jailed")
		default:
			v.Strokes++
			v.OkBlocksInRow = 0
			v.MissedBlocksInRow++
			if v.MissedBlocksInRow >= int64(p.JailAfter) {
				v.Jailed, v.UnjailAt, v.MissedBlocksInRow = true, h+int64(p.UnjailAfter), 0
				v.JailCount++
				st.Count("jailed")
			}
		}
	}
	for _, e := range req.ByzantineValidators {
		if v := t[s.NodeIdx[string(e.Validator.Address)]]; v != nil {
			v.Infractions = append(append([]abci.Evidence{}, v.Infractions...), e)
			if len(v.Infractions) > 1 {
				v.BannedForLife, v.Status = true, false
				st.Count("banned")
			}
		}
	}
}

// votes applies what has been agreed upon.
func (t tally) votes(before, after *world.Snap, st *eng.Stats) {
	for _, r := range after.V.History[len(before.V.History):] {
		if len(r.Agreed)+len(r.Disagreed) != len(r.Government) || 3*len(r.Agreed) < 2*len(r.Government) {
			continue
		}
		switch r.Proposal.Type {
		case voting.PROPOSAL_TYPE_GENERAL_AMNESTY:
			st.Count("amnesty")
			for _, v := range t {
				v.Strokes, v.JailCount = 0, 0
			}
		case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD:
			a := canon(r.Proposal.GetAddress().Address)
			if t[a] == nil {
				t[a] = &noding.Info{}
			}
			t[a].Staff = true
		case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE:
			if v := t[canon(r.Proposal.GetAddress().Address)]; v != nil {
				v.Staff = false
			}
		}
	}
}

func describeV(v *noding.Info) string {
	if v == nil {
		return "nothing"
	}
	var ev []string
	for _, e := range v.Infractions {
		ev = append(ev, fmt.Sprintf("%d@%d", e.Type, e.Height))
	}
	return fmt.Sprintf("strokes %d ok %d missed %d jailed %v until %d (%d times) offences [%s] banned %v staff %v proposed %d announced %d %q",
		v.Strokes, v.OkBlocksInRow, v.MissedBlocksInRow, v.Jailed, v.UnjailAt, v.JailCount, strings.Join(ev, " "), v.BannedForLife, v.Staff, v.ProposedCount, v.LastPower, v.LastPubKey)
}

func (t tally) compare(what string, s *world.Snap) {
	for _, a := range sortedKeys(union2(t, s.Val)) {
		if e, g := describeV(t[a]), describeV(s.Val[a]); e != g {
			eng.Fail("tally/"+strings.SplitN(what, " ", 2)[0], "%s: %s has\n  %s\ninstead of\n  %s", what, a, g, e)
		}
	}
}

func attachN03(w *world.World, st *eng.Stats) {
	var before *world.Snap
	jails, returns := 0, 0
	w.BeforeBegin = append(w.BeforeBegin, func(req abci.RequestBeginBlock) {
		if w.Height > 1 {
			before = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, res abci.ResponseBeginBlock) {
		if w.Height <= 1 {
			return
		}
		t, s := newTally(before), w.Snap()
		t.block(before, req, st)
		for a, v := range t {
			if v.Jailed && !before.Val[a].Jailed {
				jails++
			}
		}
		t.votes(before, s, st)
		t.compare("BeginBlock", s)
		for _, a := range sortedKeys(t) {
			if s.Val[a].Status && t[a].BannedForLife {
				eng.Fail("ban/on", "%s has been banned but is still on", a)
			}
		}
	})
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		t, s := newTally(before), w.Snap()
		if res.Code == 0 {
			for _, m := range tx.Msgs {
				switch x := m.(type) {
				case *noding.MsgOn:
					if t[x.Account] == nil {
						t[x.Account] = &noding.Info{}
					}
				case *noding.MsgUnjail:
					v := t[x.Account]
					switch {
					case v == nil || !v.Jailed:
						eng.Fail("unjail/free", "%s has been let out without being in", x.Account)
					case s.Height < v.UnjailAt:
						eng.Fail("unjail/early", "%s has been let out at %d instead of %d", x.Account, s.Height, v.UnjailAt)
					}
					v.Jailed = false
					returns++
					st.Count("unjailed")
				}
			}
			t.votes(before, s, st)
		} else if plain(before, tx) {
			if x, ok := tx.Msgs[0].(*noding.MsgUnjail); ok {
				if v := t[x.Account]; v != nil && v.Jailed && s.Height >= v.UnjailAt {
					eng.Fail("unjail/refused", "%s is not let out at %d though it is time (%d): %s", x.Account, s.Height, v.UnjailAt, res.Log)
				}
				st.Count("unjail-refused")
			}
		}
		t.compare("a transaction "+msgNames(tx), s)
		st.NonTrivial = jails > 0 && returns > 0
	})
	w.AfterCommit = append(w.AfterCommit, func() {
		s := w.Snap()
		on := map[string]bool{}
		for _, v := range s.Val {
			if vOn(v) {
				c, _ := consOf(v.PubKey)
				on[c] = true
			}
		}
		power := map[string]int64{}
		for _, v := range w.NextVals.Validators {
			power[string(v.Address)] = v.VotingPower
		}
		for _, a := range sortedKeys(s.Val) {
			v := s.Val[a]
			if vOn(v) {
				continue
			}
			for _, k := range []string{v.PubKey, v.LastPubKey} {
				if c, _ := consOf(k); c != "" && power[c] != 0 && !on[c] {
					eng.Fail("power/idle", "%s has power %d after block %d, being on %v, jailed %v, banned %v", a, power[c], w.Height, v.Status, v.Jailed, v.BannedForLife)
				}
			}
			if v.LastPower != 0 {
				eng.Fail("power/believed", "%s is believed to have power %d after block %d, being on %v, jailed %v, banned %v", a, v.LastPower, w.Height, v.Status, v.Jailed, v.BannedForLife)
			}
		}
	})
}

// --- N04: who may be on.

// keyBusy tells who, except acc, is on (maybe jailed for now) with the key.
func keyBusy(s *world.Snap, acc, key string) string {
	c, _ := consOf(key)
	for _, a := range sortedKeys(s.Val) {
		v := s.Val[a]
		if x, _ := consOf(v.PubKey); a != acc && v.Status && !v.BannedForLife && x == c {
			return a
		}
	}
	return ""
}

func attachN04(w *world.World, st *eng.Stats) {
	var before *world.Snap
	accepted, lost := 0, 0
	step := func(what string, s *world.Snap, ons, offs map[string]string, certain bool) {
		keys := map[string]string{}
		for _, a := range sortedKeys(s.Val) {
			v, o := s.Val[a], before.Val[a]
			if o == nil {
				o = &noding.Info{}
			}
			if v.Status && !v.BannedForLife {
				c, ok := consOf(v.PubKey)
				if !ok {
					eng.Fail("key/unusable", "%s: %s is on with key %q", what, a, v.PubKey)
				}
				if b := keys[c]; b != "" {
					eng.Fail("key/shared", "%s: both %s and %s are on with the same key", what, a, b)
				}
				keys[c] = a
			}
			if v.PubKey != o.PubKey && (ons[a] == "" || ons[a] != v.PubKey) {
				eng.Fail("key/changed", "%s: the key of %s has become %q without its owner switching it on with that", what, a, v.PubKey)
			}
			ok, known := qualified(s, a)
			if v.Status && !o.Status && ons[a] == "" {
				eng.Fail("on/alone", "%s: %s goes on by itself", what, a)
			}
			if !v.Status && o.Status && offs[a] == "" && !v.BannedForLife && certain && ok && known {
				eng.Fail("off/alone", "%s: %s goes off though it meets the criteria", what, a)
			}
			if v.Status && offs[a] != "" && ons[a] == "" {
				eng.Fail("off/ignored", "%s: %s is still on", what, a)
			}
			if !v.Status && o.Status && offs[a] == "" {
				st.Count("lost")
				lost++
			}
			if vOn(v) && (!ok || !known) {
				was, _ := qualified(before, a)
				same := before.P.Noding.MinCriteria == s.P.Noding.MinCriteria
				changed := before.Ref[a] == nil || fmt.Sprint(before.Ref[a].Delegated) != fmt.Sprint(s.Ref[a].Delegated) || before.Ref[a].Status > s.Ref[a].Status ||
					before.Bal[a].D != s.Bal[a].D || o.Staff != v.Staff
				if same && was || changed && certain || o.Jailed || !o.Status {
					i, b := s.Ref[a], s.Bal[a]
					eng.Fail("on/unqualified", "%s: %s is on with status %v, own stake %d, total stake %d, staff %v; at least %v, %d, %d is demanded", what, a, i.Status, b.D, totalStake(s, a), v.Staff,
						s.P.Noding.MinCriteria.Status, s.P.Noding.MinCriteria.SelfStake, s.P.Noding.MinCriteria.TotalStake)
				}
				st.Count("grandfathered")
			}
		}
	}
	w.BeforeBegin = append(w.BeforeBegin, func(req abci.RequestBeginBlock) {
		if w.Height > 1 {
			before = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, res abci.ResponseBeginBlock) {
		if w.Height > 1 {
			// Several things happen in a row here; criteria may have been failed for a moment.
			step("BeginBlock", w.Snap(), nil, nil, false)
		}
	})
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		s := w.Snap()
		ons, offs := map[string]string{}, map[string]string{}
		if res.Code == 0 {
			for _, m := range tx.Msgs {
				switch x := m.(type) {
				case *noding.MsgOn:
					ons[x.Account] = x.PubKey
					delete(offs, x.Account)
				case *noding.MsgOff:
					offs[x.Account] = "off"
				case *noding.MsgUnjail:
					if ok, _ := qualified(s, x.Account); !ok {
						offs[x.Account] = "unjail"
					}
				}
			}
		}
		step(msgNames(tx), s, ons, offs, len(tx.Msgs) == 1)
		st.NonTrivial = accepted >= 2 && lost > 0
		if !plain(before, tx) {
			return
		}
		switch x := tx.Msgs[0].(type) {
		case *noding.MsgOn:
			v := before.Val[x.Account]
			ok, known := qualified(before, x.Account)
			_, usable := consOf(x.PubKey)
			why := ""
			switch {
			case v != nil && v.BannedForLife:
				why = "banned"
			case v != nil && v.Status:
				why = "on already"
			case !usable:
				why = "key of a wrong kind"
			case keyBusy(before, x.Account, x.PubKey) != "":
				why = "key in use"
			case !known || !ok:
				why = "not qualified"
			}
			st.Count("on/" + map[bool]string{true: "accepted", false: why}[why == ""])
			if (why == "") != (res.Code == 0) {
				eng.Fail("on/decision", "switching %s on: %q is expected, the result is %d %s", x.Account, why, res.Code, res.Log)
			}
			if why == "" {
				accepted++
				if n := s.Val[x.Account]; n == nil || !n.Status || n.PubKey != x.PubKey {
					eng.Fail("on/effect", "%s has been switched on with %s, but has %v", x.Account, x.PubKey, n)
				}
				c, _ := consOf(x.PubKey)
				if s.NodeIdx[c] != x.Account {
					eng.Fail("on/index", "%s has been switched on, but its key is known as %s's", x.Account, s.NodeIdx[c])
				}
			}
		case *noding.MsgOff:
			if v := before.Val[x.Account]; (v != nil) != (res.Code == 0) {
				eng.Fail("off/decision", "switching %s off: validator %v, the result is %d %s", x.Account, v != nil, res.Code, res.Log)
			}
		}
	})
}

func nodingGen(min, max int64) func(r *eng.R) *eng.Case {
	ops := []eng.W{{"next", 70}, {"on", 34}, {"off", 6}, {"unjail", 14}, {"evid", 4}, {"delegate", 14}, {"express", 10}, {"revoke", 4}, {"send", 4},
		{"transition", 5}, {"resolve", 5}, {"create", 2}, {"tariff", 4}, {"propose", 8}, {"vote", 14}, {"bundle", 2}, {"forge", 1}}
	g := chainGen(min, max, ops, func(r *eng.R, p map[string]int64) {
		p["n"] = r.Range(5, 16)
		p["vals"] = r.Range(1, 5)
		p["gov"] = r.Range(1, 3)
		p["maxvals"] = r.Of(1, 2, 2, 3, 4, 100)
		p["day"] = r.Of(0, 1, 1, 3)
		p["nodel"] = r.Of(30, 60)
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		biasProposals(c.Ops, r, "count", "criteria", "power", "addr", "")
		for i := range c.Ops {
			if op := &c.Ops[i]; op.K == "next" {
				if r.Chance(60) {
					op.A = r.Of(0, 1, 2, 5, 15)
				}
				if r.Chance(35) {
					op.C = r.Raw() & r.Raw()
				}
			}
		}
		return c
	}
}

func init() {
	base := []string{"user 0's staff validator keeps validating, so that somebody always does", "software upgrades lie in the far future"}
	reg := func(id, rule, suite string, attach func(*world.World, *eng.Stats), quick, thorough int) {
		eng.Register(&eng.Property{ID: id, Rule: rule, Assumptions: base, Suites: []*eng.Suite{
			{Name: suite, Gen: nodingGen(50, 150), Run: chainRun(attach), Quick: quick, Thorough: thorough}}})
	}
	reg("N01", "histories of validators going on and off, missing blocks, offending and changing stakes; every list of updates is fed to Tendermint's own validator set and afterwards compared with what the application has recorded; non-trivial if the set changed at least three times", "mirror", attachN01, 250, 20000)
	tree := func(tweak func(r *eng.R, p map[string]int64)) func(r *eng.R) *eng.Case {
		return func(r *eng.R) *eng.Case {
			c := &eng.Case{P: world.GenP(r)}
			treeTweak(r, c.P)
			tweak(r, c.P)
			ws := append([]eng.W{{K: "on", N: 15}, {K: "unjail", N: 3}}, treeOps()...)
			c.Ops = longGaps(world.GenOps(r, r.Range(50, 140), ws), r, int(r.Of(0, 40, 70)))
			return c
		}
	}
	also := func(id string, gen func(r *eng.R) *eng.Case, attach func(*world.World, *eng.Stats), quick, thorough int) {
		p := eng.Get(id)
		p.Suites = append(p.Suites, &eng.Suite{Name: "tree", Gen: gen, Run: chainRun(attach), Quick: quick, Thorough: thorough})
	}
	reg("N02", "histories of validators as for N01 with varying numbers of seats; the selection, the powers and the lottery queue are recomputed after every block; non-trivial if more than two were on and not everybody got a seat", "selection", attachN02, 250, 20000)
	reg("N03", "histories of validators as for N01; all counters, jail terms, offences and bans are predicted for every BeginBlock and transaction; non-trivial if somebody was jailed and let out", "offences", attachN03, 250, 20000)
	reg("N04", "histories of validators as for N01; the decision on every switch-on and the state of everybody after every step are predicted; non-trivial if at least two were accepted and somebody lost its qualification", "admission", attachN04, 250, 20000)
	for id, attach := range map[string]func(*world.World, *eng.Stats){"N01": attachN01, "N02": attachN02, "N03": attachN03} {
		p := eng.Get(id)
		p.Suites = append(p.Suites, &eng.Suite{Name: "crowd", Gen: crowd(nodingGen(30, 70)), Run: chainRun(attach), Quick: 10, Thorough: 800})
	}
	also("N02", tree(func(r *eng.R, p map[string]int64) {
		p["vals"], p["mstatus"], p["mself"], p["mtotal"] = r.Range(2, 4), 1, 0, 0
		p["jail"] = 4
		// Of stakes at all levels, so that a status that opens less lines means less stake
		p["nodel"], p["rich"], p["n"], p["shape"] = r.Of(0, 10, 30), r.Of(2, 2, 3, 1), r.Range(20, 34), r.Range(0, 6)
	}), attachN02, 60, 8000)
	also("N04", tree(func(r *eng.R, p map[string]int64) {
		p["vals"], p["mstatus"] = r.Range(2, 4), r.Of(1, 1, 2)
		p["jail"] = 4
		if r.Bool() {
			p["nodel"], p["rich"], p["n"], p["shape"] = r.Of(0, 10, 30), r.Of(2, 2, 3, 1), r.Range(20, 34), r.Range(0, 6)
		}
	}), attachN04, 50, 6000)
}
