package props

import (
	"sort"

	sdk "github.com/cosmos/cosmos-sdk/types"
	abci "github.com/tendermint/tendermint/abci/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// R01: the referral tree is a forest and its aggregates equal those recomputed from the balances and activity flags.

func lvl(xs []sdk.Int, i int) int64 {
	if i >= len(xs) || xs[i].IsNil() {
		return 0
	}
	return xs[i].Int64()
}
func cnt(xs []uint64, i int) int64 {
	if i >= len(xs) {
		return 0
	}
	return int64(xs[i])
}

func checkForest(s *world.Snap, at string) {
	f := func(sig, format string, args ...interface{}) {
		eng.Fail("forest/"+sig, at+": "+format, args...)
	}
	listedBy := map[string]string{}
	for _, a := range sortedKeys(s.Ref) {
		r := s.Ref[a]
		for _, c := range r.Referrals {
			if by, ok := listedBy[c]; ok {
				f("listed-twice", "%s is listed as a referral of %s and of %s", c, by, a)
			}
			listedBy[c] = a
			ci := s.Ref[c]
			if ci == nil {
				f("unknown-referral", "%s lists %s which has no record", a, c)
			}
			if ci.Banished {
				f("banished-listed", "%s lists the banished %s", a, c)
			}
			if ci.Referrer != a {
				f("referrer-mismatch", "%s lists %s whose referrer is %q", a, c, ci.Referrer)
			}
		}
		if r.Banished && len(r.Referrals) > 0 {
			f("banished-parent", "%s is banished and has referrals %v", a, r.Referrals)
		}
	}
	for _, a := range sortedKeys(s.Ref) {
		r := s.Ref[a]
		if !r.Banished && r.Referrer != "" && listedBy[a] != r.Referrer {
			f("not-listed", "%s has the referrer %s who does not list it", a, r.Referrer)
		}
		if r.Referrer == "" && listedBy[a] != "" {
			f("root-listed", "%s has no referrer but %s lists it", a, listedBy[a])
		}
		// Going up ends, also on the way a banished account would come back.
		n := 0
		for x := a; x != ""; n++ {
			if n > len(s.Ref) {
				f("cycle", "going up from %s does not end (at %s)", a, x)
			}
			xi := s.Ref[x]
			if xi == nil {
				f("unknown-referrer", "%s has the unknown ancestor %s", a, x)
			}
			x = xi.Referrer
		}
	}
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func checkAggregates(s *world.Snap, at string) {
	for _, a := range sortedKeys(s.Ref) {
		r := s.Ref[a]
		level := []string{a}
		for l := 0; l <= 10; l++ {
			var c, d, n int64
			var next []string
			for _, x := range level {
				b := s.Bal[x]
				c += b.Total()
				d += b.D
				if s.Ref[x].Active {
					n++
				}
				next = append(next, s.Ref[x].Referrals...)
			}
			if lvl(r.Coins, l) != c {
				eng.Fail(aggSig("coins", l), "%s: %s has %d coins recorded at level %d, in fact there are %d", at, a, lvl(r.Coins, l), l, c)
			}
			if lvl(r.Delegated, l) != d {
				eng.Fail(aggSig("delegated", l), "%s: %s has %d delegated recorded at level %d, in fact there are %d", at, a, lvl(r.Delegated, l), l, d)
			}
			if cnt(r.ActiveRefCounts, l) != n {
				eng.Fail(aggSig("active", l), "%s: %s has %d active recorded at level %d, in fact there are %d", at, a, cnt(r.ActiveRefCounts, l), l, n)
			}
			level = next
		}
		act := map[string]bool{}
		for _, x := range r.Referrals {
			if s.Ref[x].Active {
				act[x] = true
			}
		}
		for _, x := range r.ActiveReferrals {
			if !act[x] {
				eng.Fail("agg/active-list", "%s: %s lists %s as active (twice, or it is not)", at, a, x)
			}
			delete(act, x)
		}
		if len(act) > 0 {
			eng.Fail("agg/active-list", "%s: %s does not list %v as active", at, a, sortedKeys(act))
		}
	}
}

func aggSig(what string, l int) string {
	switch {
	case l == 0:
		return "agg/" + what + "-own"
	default:
		return "agg/" + what
	}
}

func attachR01(w *world.World, st *eng.Stats) {
	shape := ""
	look := func(at string) {
		s := w.Snap()
		checkForest(s, at)
		checkAggregates(s, at)
		// non-trivial: the tree changed its form
		h := ""
		for _, a := range sortedKeys(s.Ref) {
			h += s.Ref[a].Referrer + ","
		}
		if shape != "" && h != shape {
			st.Count("tree changed")
			st.NonTrivial = true
		}
		shape = h
		st.Count("states checked")
	}
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if res.Code == 0 {
			look("after " + msgNames(tx))
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) { look("after BeginBlock") })
	w.AfterCommit = append(w.AfterCommit, func() { look("after the block") })
}

func msgNames(tx *world.Tx) string {
	s := ""
	for i, m := range tx.Msgs {
		if i > 0 {
			s += "+"
		}
		s += m.Type()
	}
	return s
}

func treeTweak(r *eng.R, p map[string]int64) {
	if r.Chance(50) {
		p["shape"] = r.Of(0, 4)
		p["n"] = r.Range(14, 30)
	}
	p["day"] = r.Of(1, 2, 3, 0)
	p["nodel"] = r.Of(60, 85, 85) // daily interest of everybody would take most of the time
}

func treeOps() []eng.W {
	return []eng.W{{"next", 60}, {"send", 10}, {"burn", 2}, {"delegate", 14}, {"revoke", 5}, {"express", 10},
		{"on", 3}, {"off", 1}, {"tariff", 14}, {"create", 8}, {"transition", 10}, {"resolve", 10}, {"profile", 2}, {"buyim", 1}}
}

// longGaps makes most gaps long ones, so that months pass in a short history.
func longGaps(ops []eng.Op, r *eng.R, pc int) []eng.Op {
	for i := range ops {
		if ops[i].K == "next" && r.Chance(pc) {
			ops[i].A = r.Of(6, 7, 10, 11, 12, 12, 13, 14, 14)
		}
	}
	return ops
}

func treeGen(min, max int64, ws []eng.W) func(r *eng.R) *eng.Case {
	g := chainGen(min, max, ws, treeTweak)
	return func(r *eng.R) *eng.Case {
		c := g(r)
		c.Ops = longGaps(c.Ops, r, int(r.Of(0, 40, 70)))
		return c
	}
}

// crowd makes the network big: more than a hundred accounts, some of them with dozens of referrals, most of them validators.
func crowd(gen func(r *eng.R) *eng.Case) func(r *eng.R) *eng.Case {
	return func(r *eng.R) *eng.Case {
		c := gen(r)
		c.P["n"], c.P["shape"] = r.Range(110, 160), r.Of(1, 1, 3, 5, 6)
		c.P["vals"], c.P["maxvals"], c.P["gov"] = r.Range(2, 108), r.Of(3, 30, 100, 100), r.Range(1, 40)
		return c
	}
}

func init() {
	eng.Register(&eng.Property{
		ID:   "R01",
		Rule: "histories of signed transactions and blocks over a generated tree; after genesis, every accepted transaction, BeginBlock and commit the whole forest and all per-level aggregates are recomputed; non-trivial if the tree changed its form (registration, compression, banishment, return, transition)",
		Suites: []*eng.Suite{
			{Name: "tree", Gen: treeGen(60, 160, treeOps()), Run: chainRun(attachR01), Quick: 120, Thorough: 20000},
			{Name: "all", Gen: chainGen(60, 160, world.AllOps(), nil), Run: chainRun(attachR01), Quick: 40, Thorough: 6000},
			{Name: "crowd", Gen: crowd(treeGen(40, 80, treeOps())), Run: chainRun(attachR01), Quick: 8, Thorough: 600},
		},
	})
}
