package props

import (
	"verif/harness/eng"
	"verif/harness/world"
)

// chainGen draws a genesis and a history. tweak, if given, adjusts the genesis parameters.
func chainGen(minOps, maxOps int64, ws []eng.W, tweak func(r *eng.R, p map[string]int64)) func(r *eng.R) *eng.Case {
	return func(r *eng.R) *eng.Case {
		c := &eng.Case{P: world.GenP(r)}
		if tweak != nil {
			tweak(r, c.P)
		}
		c.Ops = world.GenOps(r, r.Range(minOps, maxOps), ws)
		return c
	}
}

// chainRun runs the case with whatever attach hooks into the world.
func chainRun(attach func(w *world.World, st *eng.Stats)) func(c *eng.Case, st *eng.Stats) *eng.Violation {
	return func(c *eng.Case, st *eng.Stats) *eng.Violation {
		w := world.New(c.P, st)
		attach(w, st)
		w.Run(c.Ops)
		return nil
	}
}

// reweigh takes the common operations with some weights replaced.
func reweigh(over ...eng.W) []eng.W {
	ws := world.AllOps()
	for _, o := range over {
		found := false
		for i := range ws {
			if ws[i].K == o.K {
				ws[i].N = o.N
				found = true
			}
		}
		if !found {
			ws = append(ws, o)
		}
	}
	return ws
}
