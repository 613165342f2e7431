package eng

import "time"

// Shrink reduces a failing case while it keeps failing with the same signature.
func Shrink(s *Suite, c *Case, sig string, budget time.Duration) (*Case, *Violation, int) {
	deadline := time.Now().Add(budget)
	best := c.Clone()
	var bestV *Violation
	tries := 0
	try := func(d *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		v, herr := Exec(s, d, &Stats{})
		if herr != nil || v == nil || v.Sig != sig {
			return false
		}
		best, bestV = d, v
		return true
	}
	// Truncate first: the failing prefix usually suffices.
	lo, hi := 0, len(best.Ops)
	for lo < hi {
		mid := (lo + hi) / 2
		d := best.Clone()
		if mid > len(d.Ops) {
			break
		}
		d.Ops = d.Ops[:mid]
		if try(d) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		// ddmin over the operations
		for chunk := (len(best.Ops) + 1) / 2; chunk >= 1; chunk /= 2 {
			for i := 0; i < len(best.Ops); {
				d := best.Clone()
				end := i + chunk
				if end > len(d.Ops) {
					end = len(d.Ops)
				}
				d.Ops = append(append([]Op(nil), d.Ops[:i]...), d.Ops[end:]...)
				if try(d) {
					changed = true
				} else {
					i += chunk
				}
				if time.Now().After(deadline) {
					break
				}
			}
		}
		// numbers towards zero
		for i := range best.Ops {
			for f := 0; f < 4; f++ {
				get := func(o *Op) *int64 { return [](*int64){&o.A, &o.B, &o.C, &o.D}[f] }
				if shrinkInt(func() int64 { return *get(&best.Ops[i]) }, func(x int64) bool {
					d := best.Clone()
					*get(&d.Ops[i]) = x
					return try(d)
				}) {
					changed = true
				}
			}
			for len(best.Ops[i].S) > 0 {
				d := best.Clone()
				d.Ops[i].S = d.Ops[i].S[:len(d.Ops[i].S)/2]
				if !try(d) {
					break
				}
				changed = true
			}
		}
		for _, k := range sortedKeys(best.P) {
			k := k
			if shrinkInt(func() int64 { return best.P[k] }, func(x int64) bool {
				d := best.Clone()
				d.P[k] = x
				return try(d)
			}) {
				changed = true
			}
		}
	}
	if bestV == nil {
		bestV, _ = Exec(s, best, &Stats{})
	}
	return best, bestV, tries
}

func shrinkInt(get func() int64, try func(int64) bool) bool {
	x := get()
	if x == 0 {
		return false
	}
	if try(0) {
		return true
	}
	changed := false
	if x < 0 && try(-x) {
		changed = true
		x = -x
	}
	for _, d := range []int64{1 << 20, 1000, 10, 2} {
		for {
			x = get()
			y := x / d
			if y == x || y == 0 || !try(y) {
				break
			}
			changed = true
		}
	}
	// round numbers read better
	for _, m := range []int64{1_000_000, 1000, 10} {
		x = get()
		if x%m != 0 && x/m > 0 && try(x/m*m) {
			changed = true
			break
		}
	}
	return changed
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}
