package props

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"

	"verif/harness/eng"
)

// M03: the fee and its split, against math/big.

func genM03(r *eng.R) *eng.Case {
	c := &eng.Case{P: map[string]int64{}}
	// fee fraction in [0, 1]
	d := r.Of(1, 2, 3, 7, 100, 1000, 1000, 997, 1_000_000)
	n := r.Range(0, d)
	if r.Chance(50) {
		n = r.Range(0, min64(d, 10))
	}
	c.P["fn"], c.P["fd"] = n, d
	// split: shares a/b and e/f that sum up to one at most
	for {
		b, f := r.Of(1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 20, 25, 50, 100), r.Of(1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 50, 100)
		a, e := r.Range(0, b), r.Range(0, f)
		if ratOf(a, b).Add(ratOf(a, b), ratOf(e, f)).Cmp(big.NewRat(1, 1)) > 0 {
			continue
		}
		c.P["an"], c.P["ad"], c.P["bn"], c.P["bd"] = a, b, e, f
		break
	}
	for i := 0; i < 10; i++ {
		x := r.Magnitude(18)
		switch r.Intn(4) {
		case 0:
			x = r.Range(0, 400)
		case 1:
			x = r.Of(0, 1, 999, 1000, 1001, 1<<62, 1<<63-1)
		}
		m := r.Of(0, 0, 1, 99, 100, 1000, 10_000_000, r.Magnitude(15))
		c.Ops = append(c.Ops, eng.Op{K: "fee", A: x, B: m})
	}
	return c
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func quo(n, d int64) int64 {
	if d == 0 {
		d = 1
	}
	return n / d
}

// floorMul is floor(x*n/d) for non-negative numbers.
func floorMul(x, n, d int64) *big.Int {
	z := new(big.Int).Mul(big.NewInt(x), big.NewInt(n))
	return z.Quo(z, big.NewInt(d))
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func lcm64(a, b int64) int64 { return a / gcd(a, b) * b }

func runM03(c *eng.Case, st *eng.Stats) *eng.Violation {
	g := func(k string) int64 { return abs(c.P[k]) }
	fn, fd := g("fn"), den(g("fd"))
	an, ad, bn, bd := g("an"), den(g("ad")), g("bn"), den(g("bd"))
	if fn > fd || ratOf(an, ad).Add(ratOf(an, ad), ratOf(bn, bd)).Cmp(big.NewRat(1, 1)) > 0 {
		return nil // only reachable while shrinking
	}
	fr, pa, pb := util.NewFraction(fn, fd), util.NewFraction(an, ad), util.NewFraction(bn, bd)
	L := lcm64(ad, bd)
	if got := util.CalculateTransactionFeeSplitRatiosLCM(pa, pb); !got.Equal(sdk.NewInt(L)) {
		eng.Fail("m03/lcm", "common denominator of %s and %s is %s, want %d", pa, pb, got, L)
	}
	for _, op := range c.Ops {
		x, m := abs(op.A), abs(op.B)
		want := floorMul(x, fn, fd)
		if m != 0 && want.Cmp(big.NewInt(m)) > 0 {
			want.SetInt64(m)
			st.Count("capped")
		}
		want.Sub(want, new(big.Int).Mod(want, big.NewInt(L)))
		fee := util.CalculateFee(sdk.NewInt(x), fr, m, pa, pb)
		if fee.BigInt().Cmp(want) != 0 {
			eng.Fail("m03/fee", "fee on %d at %s (max %d, split %s:%s) is %s, want %s", x, fr, m, pa, pb, fee, want)
		}
		p, q, b := util.SplitFee(fee, pa, pb)
		f64 := fee.Int64()
		wp, wq := floorMul(f64, an, ad), floorMul(f64, bn, bd)
		wb := new(big.Int).Sub(new(big.Int).Sub(fee.BigInt(), wp), wq)
		if p.BigInt().Cmp(wp) != 0 || q.BigInt().Cmp(wq) != 0 || b.BigInt().Cmp(wb) != 0 {
			eng.Fail("m03/split", "fee %s is split %s:%s into %s, %s, %s; want %s, %s, %s", fee, pa, pb, p, q, b, wp, wq, wb)
		}
		if !p.Add(q).Add(b).Equal(fee) || p.IsNegative() || q.IsNegative() || b.IsNegative() {
			eng.Fail("m03/split-sum", "fee %s is split into %s, %s, %s", fee, p, q, b)
		}
		st.Steps++
		if fee.IsPositive() {
			st.Count("positive fee")
			if p.IsPositive() && q.IsPositive() && b.IsPositive() {
				st.Count("three-way split")
			}
		} else {
			st.Count("zero fee")
		}
	}
	st.NonTrivial = st.Classes["positive fee"] > 0 && L > 1
	return nil
}

func init() {
	eng.Register(&eng.Property{
		ID:          "M03",
		Rule:        "a case counts as non-trivial if it has a positive fee and split shares with a common denominator above one",
		Assumptions: []string{"the fee fraction is between 0 and 1, the shares are non-negative and sum up to 1 at most (as parameter validation demands of the shares)"},
		Suites: []*eng.Suite{
			{Name: "fee", Gen: genM03, Run: runM03, Quick: 60000, Thorough: 1000000},
		},
	})
}
