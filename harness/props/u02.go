package props

import (
	"fmt"
	"sort"

	"github.com/arterynetwork/artr/util"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// U02: the list helpers against sets.

func eqS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func genU02(r *eng.R) *eng.Case {
	c := &eng.Case{P: map[string]int64{"alpha": r.Range(1, 9)}}
	for n := r.Range(3, 40); n > 0; n-- {
		k := r.OfS("sorted+", "sorted+", "sorted-", "end+", "end+", "end-", "fast-", "has", "merge")
		c.Ops = append(c.Ops, eng.Op{K: k, A: r.Raw(), B: r.Raw(), C: r.Raw()})
	}
	return c
}

func runU02(c *eng.Case, st *eng.Stats) *eng.Violation {
	alpha := int(c.P["alpha"]) + 1
	item := func(x int64) string {
		return []string{"", "a", "aa", "ab", "b", "ba", "c", "zz", "\x00", "é"}[eng.Mod(x, alpha)]
	}
	// three lists: sorted, in order of addition, unordered
	var srt, end, fast []string
	mSrt, mFast := map[string]bool{}, map[string]bool{}
	var mEnd []string
	sorted := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	has := func(xs []string, x string) bool {
		for _, y := range xs {
			if x == y {
				return true
			}
		}
		return false
	}
	fail := func(i int, op eng.Op, got, want interface{}) {
		eng.Fail("u02/"+op.K, "step %d (%s %q): got %q, want %q", i, op.K, item(op.A), fmt.Sprint(got), fmt.Sprint(want))
	}
	for i, op := range c.Ops {
		x := item(op.A)
		var got, want bool
		switch op.K {
		case "sorted+":
			want = !mSrt[x]
			mSrt[x] = true
			got = util.AddStringSorted(&srt, x)
		case "sorted-":
			want = mSrt[x]
			delete(mSrt, x)
			got = util.RemoveStringPreserveOrder(&srt, x)
		case "end+":
			want = !has(mEnd, x)
			if want {
				mEnd = append(mEnd, x)
			}
			got = util.AddStringOntoEnd(&end, x)
			if want {
				mFast[x] = true
			}
			mFast[x] = true
			util.AddStringOntoEnd(&fast, x)
		case "end-":
			want = has(mEnd, x)
			var e2 []string
			for _, y := range mEnd {
				if y != x {
					e2 = append(e2, y)
				}
			}
			mEnd = e2
			got = util.RemoveStringPreserveOrder(&end, x)
		case "fast-":
			want = mFast[x]
			delete(mFast, x)
			got = util.RemoveStringFast(&fast, x)
		case "has":
			for _, l := range [][]string{srt, end, fast} {
				if util.ContainsString(l, x) != has(l, x) {
					fail(i, op, !has(l, x), has(l, x))
				}
			}
		case "merge":
			// two sorted lists drawn from the operand's bits
			a, b, u := map[string]bool{}, map[string]bool{}, map[string]bool{}
			for j := 0; j < alpha; j++ {
				if op.B>>uint(j)&1 == 1 {
					a[item(int64(j))] = true
					u[item(int64(j))] = true
				}
				if op.C>>uint(j)&1 == 1 {
					b[item(int64(j))] = true
					u[item(int64(j))] = true
				}
			}
			// which go on in somebody else's memory
			fa, fb := append(sorted(a), "~", "~~", "~~~"), append(sorted(b), "~", "~~", "~~~")
			la, lb := fa[:len(a)], fb[:len(b)]
			m := util.MergeStringsSorted(la, lb)
			if !eqS(fa[len(a):], []string{"~", "~~", "~~~"}) || !eqS(fb[len(b):], []string{"~", "~~", "~~~"}) {
				fail(i, op, "what is behind the operands changed", "")
			}
			if !eqS(m, sorted(u)) {
				fail(i, op, m, sorted(u))
			}
			if !eqS(la, sorted(a)) || !eqS(lb, sorted(b)) {
				fail(i, op, "operands changed", "")
			}
			st.Count("merge")
			if len(la) > 0 && len(lb) > 0 {
				st.Count("merge of non-empty lists")
			}
			m2 := util.MergeStringsSorted(srt, la)
			if len(la) > 0 && len(lb) > 0 && len(srt) > 0 { // another merge of the same list leaves the first one's result
				was := append([]string{}, m2...)
				util.MergeStringsSorted(srt, lb)
				if !eqS(m2, was) {
					fail(i, op, m2, was)
				}
			}
			mu := map[string]bool{}
			for k := range mSrt {
				mu[k] = true
			}
			for k := range a {
				mu[k] = true
			}
			if !eqS(m2, sorted(mu)) {
				fail(i, op, m2, sorted(mu))
			}
		}
		if got != want {
			fail(i, op, got, want)
		}
		if !eqS(srt, sorted(mSrt)) {
			fail(i, op, srt, sorted(mSrt))
		}
		if !eqS(end, mEnd) {
			fail(i, op, end, mEnd)
		}
		f := append([]string{}, fast...)
		sort.Strings(f)
		if !eqS(f, sorted(mFast)) {
			fail(i, op, f, sorted(mFast))
		}
		st.Steps++
		if got && len(op.K) > 0 && op.K[len(op.K)-1] == '-' {
			st.Count("effective removal")
		}
	}
	st.NonTrivial = st.Classes["effective removal"] > 0 && len(c.Ops) >= 5
	return nil
}

// runU02Gov: membership lists of addresses.
func runU02Gov(c *eng.Case, st *eng.Stats) *eng.Violation {
	var g voting.Government
	var model []string
	for i, op := range c.Ops {
		u := world.U(eng.Mod(op.A, 6))
		pos := -1
		for j, x := range model {
			if x == u.B {
				pos = j
			}
		}
		switch op.K {
		case "add":
			if pos < 0 {
				model = append(model, u.B)
				g.Append(u.Addr)
			}
		case "del":
			if pos >= 0 {
				model = append(append([]string{}, model[:pos]...), model[pos+1:]...)
				st.Count("effective removal")
			}
			g.Remove(u.Addr)
		}
		if g.Contains(u.Addr) != (pos >= 0 && op.K != "del" || op.K == "add") {
			eng.Fail("u02/gov-contains", "step %d: wrong answer for %s after %s", i, u.B, op.K)
		}
		if !eqS(g.Strings(), model) {
			eng.Fail("u02/gov-list", "step %d: %v, want %v", i, g.Strings(), model)
		}
		for j, m := range g.GetMembers() {
			if m.String() != model[j] || g.GetMember(j).String() != model[j] {
				eng.Fail("u02/gov-members", "step %d: member %d", i, j)
			}
		}
		st.Steps++
	}
	st.NonTrivial = st.Classes["effective removal"] > 0 && len(c.Ops) >= 5
	return nil
}

func genU02Gov(r *eng.R) *eng.Case {
	c := &eng.Case{P: map[string]int64{}}
	for n := r.Range(3, 30); n > 0; n-- {
		c.Ops = append(c.Ops, eng.Op{K: r.OfS("add", "add", "del", "has"), A: r.Range(0, 5)})
	}
	return c
}

func init() {
	eng.Register(&eng.Property{
		ID:   "U02",
		Rule: "a case counts as non-trivial if it has at least five operations and at least one removal that removed something",
		Suites: []*eng.Suite{
			{Name: "lists", Gen: genU02, Run: runU02, Quick: 40000, Thorough: 800000},
			{Name: "members", Gen: genU02Gov, Run: runU02Gov, Quick: 10000, Thorough: 200000},
		},
	})
}
