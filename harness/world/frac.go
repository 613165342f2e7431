package world

import (
	"math/big"
	"strings"

	"github.com/arterynetwork/artr/util"

	"verif/harness/eng"
)

// Fractions, read through their text so that no arithmetic of the code under test is involved.

func Rat(f util.Fraction) *big.Rat {
	s := f.String()
	d := "1"
	if strings.HasSuffix(s, "%") {
		s, d = s[:len(s)-1], "100"
	} else if i := strings.IndexByte(s, '/'); i >= 0 {
		s, d = s[:i], s[i+1:]
	}
	n, ok1 := new(big.Int).SetString(s, 10)
	m, ok2 := new(big.Int).SetString(d, 10)
	if !ok1 || !ok2 || m.Sign() == 0 {
		eng.Bug("cannot read the fraction %q", f.String())
	}
	return new(big.Rat).SetFrac(n, m)
}

// FracOf gives numerator and denominator as written.
func FracOf(f util.Fraction) (int64, int64) {
	s := f.String()
	d := "1"
	if strings.HasSuffix(s, "%") {
		s, d = s[:len(s)-1], "100"
	} else if i := strings.IndexByte(s, '/'); i >= 0 {
		s, d = s[:i], s[i+1:]
	}
	n, ok1 := new(big.Int).SetString(s, 10)
	m, ok2 := new(big.Int).SetString(d, 10)
	if !ok1 || !ok2 || !n.IsInt64() || !m.IsInt64() {
		eng.Bug("cannot read the fraction %q", f.String())
	}
	return n.Int64(), m.Int64()
}

// mulFrac is floor(x*f) for non-negative values.
func mulFrac(x int64, f util.Fraction) int64 { return FloorRat(x, Rat(f)) }

// FloorRat is floor(x*r) for non-negative values.
func FloorRat(x int64, r *big.Rat) int64 {
	z := new(big.Int).Mul(big.NewInt(x), r.Num())
	z.Quo(z, r.Denom())
	if !z.IsInt64() {
		eng.Bug("%d * %s is out of range", x, r)
	}
	return z.Int64()
}
