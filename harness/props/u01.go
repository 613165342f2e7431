package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"

	"gopkg.in/yaml.v3"

	"github.com/arterynetwork/artr/util"

	"verif/harness/eng"
)

// U01: fraction arithmetic against math/big's rationals, text forms against an own grammar.

func fracNum(r *eng.R) int64 {
	var x int64
	switch r.Intn(5) {
	case 0:
		x = r.Range(0, 12)
	case 1:
		x = r.Of(0, 1, 2, 99, 100, 101, 1000, 1<<31, 1<<62, 1<<63-1)
	case 2:
		x = r.Range(0, 200)
	default:
		x = r.Magnitude(18)
	}
	if r.Chance(35) {
		x = -x
	}
	return x
}

func fracDen(r *eng.R) int64 {
	x := fracNum(r)
	if r.Chance(40) {
		x = r.Of(1, 2, 3, 4, 5, 6, 7, 10, 12, 30, 100, 1000)
	}
	if x < 0 && r.Chance(70) {
		x = -x
	}
	return x
}

func den(x int64) int64 {
	if x == 0 {
		return 1
	}
	return x
}

type fr struct {
	f util.Fraction
	r *big.Rat
}

func ratOf(n, d int64) *big.Rat { return new(big.Rat).SetFrac(big.NewInt(n), big.NewInt(d)) }

// val reads a fraction's value back through its public surface (as text).
func fracVal(f util.Fraction) *big.Rat {
	var m map[string]interface{}
	_ = m
	s := f.String()
	x, ok := parseRat(s)
	if !ok {
		eng.Fail("u01/text-form", "a fraction is written as %q, which is not a supported form", s)
	}
	return x
}

var (
	rePct  = regexp.MustCompile(`\A(-?[0-9]+)%\z`)
	reFrac = regexp.MustCompile(`\A(-?[0-9]+)(/[0-9]+)?\z`)
	// results of arithmetic on negative denominators may be written with a minus below
	reAny = regexp.MustCompile(`\A(-?[0-9]+)(/-?[0-9]+)?\z`)
)

func parseRat(s string) (*big.Rat, bool) {
	if m := rePct.FindStringSubmatch(s); m != nil {
		n, _ := new(big.Int).SetString(m[1], 10)
		return new(big.Rat).SetFrac(n, big.NewInt(100)), true
	}
	m := reAny.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	n, _ := new(big.Int).SetString(m[1], 10)
	d := big.NewInt(1)
	if m[2] != "" {
		d, _ = new(big.Int).SetString(m[2][1:], 10)
	}
	if d.Sign() == 0 {
		return nil, false
	}
	return new(big.Rat).SetFrac(n, d), true
}

func runU01Arith(c *eng.Case, st *eng.Stats) *eng.Violation {
	// A little register machine: op A (register), B (register), C/D fresh operand.
	regs := []fr{}
	mk := func(n, d int64) fr { return fr{util.NewFraction(n, den(d)), ratOf(n, den(d))} }
	regs = append(regs, mk(1, 1))
	check := func(i int, what string, got util.Fraction, want *big.Rat) {
		if v := fracVal(got); v.Cmp(want) != 0 {
			eng.Fail("u01/"+what, "op %d: %s gives %s, want %s", i, what, got, want.RatString())
		}
	}
	big1 := new(big.Int).Lsh(big.NewInt(1), 220)
	for i, op := range c.Ops {
		x := regs[eng.Mod(op.A, len(regs))]
		y := regs[eng.Mod(op.B, len(regs))]
		before := [2]*big.Rat{new(big.Rat).Set(x.r), new(big.Rat).Set(y.r)}
		var res *fr
		switch op.K {
		case "new":
			z := mk(op.C, op.D)
			check(i, "NewFraction", z.f, z.r)
			res = &z
		case "int":
			z := fr{util.FractionInt(op.C), new(big.Rat).SetInt64(op.C)}
			check(i, "FractionInt", z.f, z.r)
			res = &z
		case "pct":
			z := fr{util.Percent(op.C), ratOf(op.C, 100)}
			check(i, "Percent", z.f, z.r)
			res = &z
		case "pml":
			z := fr{util.Permille(op.C), ratOf(op.C, 1000)}
			check(i, "Permille", z.f, z.r)
			res = &z
		case "add":
			z := fr{x.f.Add(y.f), new(big.Rat).Add(x.r, y.r)}
			check(i, "Add", z.f, z.r)
			res = &z
		case "sub":
			z := fr{x.f.Sub(y.f), new(big.Rat).Sub(x.r, y.r)}
			check(i, "Sub", z.f, z.r)
			res = &z
		case "mul":
			z := fr{x.f.Mul(y.f), new(big.Rat).Mul(x.r, y.r)}
			check(i, "Mul", z.f, z.r)
			res = &z
		case "div":
			if y.r.Sign() == 0 {
				continue
			}
			z := fr{x.f.Div(y.f), new(big.Rat).Quo(x.r, y.r)}
			check(i, "Div", z.f, z.r)
			res = &z
		case "neg":
			z := fr{x.f.Neg(), new(big.Rat).Neg(x.r)}
			check(i, "Neg", z.f, z.r)
			res = &z
		case "red":
			z := fr{x.f.Clone().Reduce(), x.r}
			check(i, "Reduce", z.f, z.r)
			want := x.r.RatString()
			if s := z.f.String(); s != want && !(x.r.Denom().IsInt64() && x.r.Denom().Int64() == 100 && s == x.r.Num().String()+"%") {
				eng.Fail("u01/Reduce", "op %d: Reduce of %s gives %s, lowest terms are %s", i, x.f, s, want)
			}
			res = &z
		case "redin":
			// The very register is reduced, nothing else may change.
			z := fr{x.f.Reduce(), x.r}
			check(i, "Reduce", z.f, z.r)
			res = &z
		case "muli":
			z := fr{x.f.MulInt64(op.C), new(big.Rat).Mul(x.r, new(big.Rat).SetInt64(op.C))}
			check(i, "MulInt64", z.f, z.r)
			res = &z
		case "divi":
			if op.C == 0 {
				continue
			}
			z := fr{x.f.DivInt64(op.C), new(big.Rat).Quo(x.r, new(big.Rat).SetInt64(op.C))}
			check(i, "DivInt64", z.f, z.r)
			res = &z
		case "clone":
			z := fr{x.f.Clone(), x.r}
			check(i, "Clone", z.f, z.r)
			res = &z
		case "cmp":
			cmp := x.r.Cmp(y.r)
			for _, t := range []struct {
				n         string
				got, want bool
			}{
				{"Equal", x.f.Equal(y.f), cmp == 0}, {"GT", x.f.GT(y.f), cmp > 0}, {"LT", x.f.LT(y.f), cmp < 0},
				{"GTE", x.f.GTE(y.f), cmp >= 0}, {"LTE", x.f.LTE(y.f), cmp <= 0},
				{"IsZero", x.f.IsZero(), x.r.Sign() == 0}, {"IsPositive", x.f.IsPositive(), x.r.Sign() > 0},
				{"IsNegative", x.f.IsNegative(), x.r.Sign() < 0}, {"IsNullValue", x.f.IsNullValue(), false},
			} {
				if t.got != t.want {
					eng.Fail("u01/"+t.n, "op %d: %s of %s and %s is %v, want %v", i, t.n, x.f, y.f, t.got, t.want)
				}
			}
			if cmp == 0 {
				st.Count("equal operands")
			}
		case "intpart":
			want := new(big.Int).Quo(x.r.Num(), x.r.Denom())
			if x.f.BigInt().Cmp(want) != 0 {
				eng.Fail("u01/BigInt", "op %d: integer part of %s is %s, want %s", i, x.f, x.f.BigInt(), want)
			}
			if want.IsInt64() && x.f.Int64() != want.Int64() {
				eng.Fail("u01/Int64", "op %d: integer part of %s is %d, want %s", i, x.f, x.f.Int64(), want)
			}
			if !x.r.IsInt() {
				st.Count("integer part of a non-integer")
			}
		}
		// operands keep their values
		check(i, op.K+"-operand", x.f, before[0])
		check(i, op.K+"-operand", y.f, before[1])
		for j, z := range regs {
			if fracVal(z.f).Cmp(z.r) != 0 {
				eng.Fail("u01/"+op.K+"-others", "op %d: %s changes another number (register %d) from %s to %s", i, op.K, j, z.r.RatString(), z.f)
			}
		}
		if res != nil {
			st.Count("arithmetic")
			if res.r.Sign() < 0 {
				st.Count("negative result")
			}
			if res.r.Num().CmpAbs(big1) > 0 || res.r.Denom().CmpAbs(big1) > 0 {
				continue // keep the numbers bounded
			}
			if res.r.Num().BitLen() > 63 || res.r.Denom().BitLen() > 63 {
				st.Count("beyond 64 bits")
			}
			if len(regs) < 12 {
				regs = append(regs, *res)
			} else {
				regs[eng.Mod(op.A^op.B, len(regs))] = *res
			}
			roundTrip(i, *res)
		}
		st.Steps++
	}
	st.NonTrivial = st.Classes["arithmetic"] >= 5
	return nil
}

// roundTrip writes a value in all forms and reads it back. Only a positive denominator can be written.
func roundTrip(i int, z fr) {
	s := z.f.String()
	if m := reFrac.FindString(s); m == "" && !rePct.MatchString(s) {
		return
	}
	chk := func(form string, err error, got util.Fraction) {
		if err != nil {
			eng.Fail("u01/roundtrip-"+form, "op %d: %s cannot be read back from %s: %v", i, s, form, err)
		}
		if v := fracVal(got); v.Cmp(z.r) != 0 {
			eng.Fail("u01/roundtrip-"+form, "op %d: %s is read back from %s as %s", i, s, form, got)
		}
	}
	p, err := util.ParseFraction(s)
	chk("text", err, p)
	bz, err := json.Marshal(z.f)
	if err != nil {
		eng.Fail("u01/roundtrip-json", "%v", err)
	}
	var j util.Fraction
	chk("json", json.Unmarshal(bz, &j), j)
	j = util.Fraction{}
	err = json.Unmarshal(bz, &j)
	chk("json", err, j)
	bz = make([]byte, z.f.Size()+3)
	n, err := z.f.MarshalTo(bz)
	if err != nil || n != z.f.Size() {
		eng.Fail("u01/roundtrip-binary", "MarshalTo of %s: %d bytes of %d, %v", s, n, z.f.Size(), err)
	}
	var b util.Fraction
	err = b.Unmarshal(bz[:n])
	chk("binary", err, b)
	am, err := z.f.MarshalAmino()
	if err != nil {
		eng.Fail("u01/roundtrip-amino", "%v", err)
	}
	var a util.Fraction
	err = a.UnmarshalAmino(am)
	chk("amino", err, a)
	yz, err := yaml.Marshal(z.f)
	if err != nil {
		eng.Fail("u01/roundtrip-yaml", "%v", err)
	}
	var y util.Fraction
	err = yaml.Unmarshal(yz, &y)
	chk("yaml", err, y)
}

func genU01Arith(r *eng.R) *eng.Case {
	c := &eng.Case{P: map[string]int64{}}
	n := r.Range(6, 40)
	for i := int64(0); i < n; i++ {
		k := r.Weighted([]eng.W{{"new", 8}, {"int", 2}, {"pct", 2}, {"pml", 2}, {"add", 5}, {"sub", 5}, {"mul", 4}, {"div", 4},
			{"neg", 2}, {"red", 2}, {"redin", 3}, {"muli", 2}, {"divi", 2}, {"clone", 1}, {"cmp", 5}, {"intpart", 3}})
		op := eng.Op{K: k, A: r.Range(0, 11), B: r.Range(0, 11), C: fracNum(r), D: fracDen(r)}
		if r.Chance(15) && k == "cmp" {
			op.B = op.A
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runU01Text(c *eng.Case, st *eng.Stats) *eng.Violation {
	for _, op := range c.Ops {
		s := op.S
		got, err := util.ParseFraction(s)
		var want *big.Rat
		ok := false
		null := s == "" || s == "nil"
		if !null && (reFrac.MatchString(s) || rePct.MatchString(s)) {
			want, ok = parseRat(s)
		}
		switch {
		case null:
			if err != nil || !got.IsNullValue() {
				eng.Fail("u01/parse-null", "%q: %v %v", s, got, err)
			}
			st.Count("null")
		case ok:
			if err != nil {
				eng.Fail("u01/parse-refused", "%q is refused: %v", s, err)
			}
			if fracVal(got).Cmp(want) != 0 {
				eng.Fail("u01/parse-value", "%q is read as %s", s, got)
			}
			st.Count("well-formed")
		default:
			if err == nil {
				eng.Fail("u01/parse-accepted", "malformed %q is read as %s", s, got)
			}
			st.Count("malformed")
		}
		j, _ := json.Marshal(s)
		var f util.Fraction
		if jerr := json.Unmarshal(j, &f); string(j) == fmt.Sprintf("%q", s) && (jerr == nil) != (err == nil) {
			eng.Fail("u01/json-text", "%q: as text %v, in JSON %v", s, err, jerr)
		}
		var b util.Fraction
		if berr := b.Unmarshal([]byte(s)); (berr == nil) != (err == nil) {
			eng.Fail("u01/binary-text", "%q: as text %v, in binary %v", s, err, berr)
		}
		st.Steps++
	}
	st.NonTrivial = st.Classes["well-formed"] > 0 && st.Classes["malformed"] > 0
	return nil
}

func genU01Text(r *eng.R) *eng.Case {
	c := &eng.Case{P: map[string]int64{}}
	for i := 0; i < 12; i++ {
		var s string
		switch r.Intn(4) {
		case 0:
			s = fmt.Sprintf("%d/%d", fracNum(r), abs(fracDen(r)))
		case 1:
			s = fmt.Sprintf("%d%%", fracNum(r))
		case 2:
			s = fmt.Sprint(fracNum(r))
		default:
			s = r.OfS("", "nil", "1/0", "0/0", "007/08", "-0", "00", "99999999999999999999999999/7", "-5/100", "--1", "+1", "1//2", "1/2/3", "1/", "/2", "%", "1/-2", "1.5", "0x1", "1_0", " 1", "1 ", "1\n", "5%%", "5/10%", "NaN", "1e3", "١/٢")
		}
		for r.Chance(30) {
			// mutate
			bz := []byte(s)
			chars := "0123456789/%-+ .,exnil\n\x00\"'"
			ch := chars[r.Intn(len(chars))]
			switch {
			case len(bz) > 0 && r.Bool():
				bz[r.Intn(len(bz))] = ch
			case len(bz) > 0 && r.Bool():
				k := r.Intn(len(bz))
				bz = append(bz[:k], bz[k+1:]...)
			default:
				k := r.Intn(len(bz) + 1)
				bz = append(bz[:k], append([]byte{ch}, bz[k:]...)...)
			}
			s = string(bz)
		}
		c.Ops = append(c.Ops, eng.Op{K: "parse", S: s})
	}
	return c
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func init() {
	eng.Register(&eng.Property{
		ID:          "U01",
		Rule:        "a case counts as non-trivial if it did at least five arithmetic operations whose results were compared with math/big rationals, or (text) contained both well-formed and malformed text",
		Assumptions: []string{"denominators are non-zero, as every constructor call in the code base has it", "a fraction with a negative denominator has no textual form and is only checked arithmetically"},
		Suites: []*eng.Suite{
			{Name: "arith", Gen: genU01Arith, Run: runU01Arith, Quick: 20000, Thorough: 400000},
			{Name: "text", Gen: genU01Text, Run: runU01Text, Quick: 20000, Thorough: 400000},
		},
	})
}
