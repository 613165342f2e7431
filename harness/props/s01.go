package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"time"

	"github.com/cosmos/cosmos-sdk/store"
	sdk "github.com/cosmos/cosmos-sdk/types"
	params "github.com/cosmos/cosmos-sdk/x/params/keeper"
	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
	"github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/arterynetwork/artr/app"
	schedulek "github.com/arterynetwork/artr/x/schedule/keeper"
	schedule "github.com/arterynetwork/artr/x/schedule/types"

	"verif/harness/eng"
)

// S01: the scheduler against a priority queue. Tasks carry what their handler does: nothing, panic, schedule further
// tasks, cancel others.

type s01task struct {
	t    time.Time
	name string
	data []byte
}

type s01world struct {
	cms  sdk.CommitMultiStore
	k    schedulek.Keeper
	ctx  sdk.Context
	unit time.Duration
	now  time.Time

	model []s01task // in execution order
	want  []s01task // executed by the model
	got   []s01task
	st    *eng.Stats
}

var s01names = []string{"alpha", "beta", "nobody", "alphabet"}

// Task data: kind, x, y, z, depth, id
func s01data(kind, x, y, z, depth byte, id uint16) []byte {
	bz := []byte{kind, x, y, z, depth, 0, 0}
	binary.BigEndian.PutUint16(bz[5:], id)
	return bz
}

func (w *s01world) at(units int64) time.Time { return world0.Add(time.Duration(units) * w.unit) }

var world0 = time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)

func (w *s01world) modelAdd(t s01task) {
	i := sort.Search(len(w.model), func(i int) bool { return w.model[i].t.After(t.t) })
	w.model = append(w.model, s01task{})
	copy(w.model[i+1:], w.model[i:])
	w.model[i] = t
}

func (w *s01world) modelDel(t time.Time, name string, data []byte, all bool) {
	var r []s01task
	for _, x := range w.model {
		if x.t.Equal(t) && x.name == name && (all || bytes.Equal(x.data, data)) {
			w.st.Count("cancelled")
			continue
		}
		r = append(r, x)
	}
	w.model = r
}

// act is what a handler does; real tells whether to do it in the code under test or in the model.
func (w *s01world) act(ctx sdk.Context, t s01task, real bool) {
	kind, x, y, z, depth := t.data[0], t.data[1], t.data[2], t.data[3], t.data[4]
	switch kind % 8 {
	case 0, 1, 2:
	case 3: // panics halfway
		if depth > 0 {
			w.child(ctx, t, x, y, z, depth, real)
		}
		if real {
			panic("handler fails")
		}
	case 4, 5: // schedules one or two more
		if depth > 0 {
			w.child(ctx, t, x, y, z, depth, real)
			if kind%8 == 5 {
				w.child(ctx, t, y, z, x, depth, real)
			}
		}
	case 6: // cancels one of the pending ones
		d := s01data(y%3, 0, 0, 0, 0, uint16(z%8))
		at := t.t.Add(time.Duration(x%6) * w.unit)
		if real {
			w.k.Delete(ctx, at, s01names[y%4], d)
		} else {
			w.modelDel(at, s01names[y%4], d, false)
		}
	case 7:
		at := t.t.Add(time.Duration(x%6) * w.unit)
		if real {
			w.k.DeleteAll(ctx, at, s01names[y%4])
		} else {
			w.modelDel(at, s01names[y%4], nil, true)
		}
	}
}

func (w *s01world) child(ctx sdk.Context, t s01task, x, y, z, depth byte, real bool) {
	c := s01task{t: t.t.Add(time.Duration(int(x%9)-1) * w.unit), name: s01names[y%4], data: s01data(z, y, x, z+1, depth-1, uint16(z%8))}
	if real {
		w.k.ScheduleTask(ctx, c.t, c.name, c.data)
	} else {
		w.modelAdd(c)
		if !c.t.After(w.now) {
			w.st.Count("scheduled by a task for the same block")
		}
	}
}

func newS01(unit time.Duration, st *eng.Stats) *s01world {
	w := &s01world{unit: unit, st: st}
	ec := app.NewEncodingConfig()
	db := dbm.NewMemDB()
	w.cms = store.NewCommitMultiStore(db)
	sk, pk, tk := sdk.NewKVStoreKey(schedule.StoreKey), sdk.NewKVStoreKey(paramtypes.StoreKey), sdk.NewTransientStoreKey(paramtypes.TStoreKey)
	w.cms.MountStoreWithDB(sk, sdk.StoreTypeIAVL, db)
	w.cms.MountStoreWithDB(pk, sdk.StoreTypeIAVL, db)
	w.cms.MountStoreWithDB(tk, sdk.StoreTypeTransient, db)
	if err := w.cms.LoadLatestVersion(); err != nil {
		eng.Bug("%v", err)
	}
	pkeeper := params.NewKeeper(ec.Marshaler, ec.Amino, pk, tk)
	w.k = schedulek.NewKeeper(ec.Marshaler, sk, pkeeper.Subspace(schedule.ModuleName))
	for _, n := range s01names {
		if n == "nobody" {
			continue
		}
		n := n
		w.k.AddHook(n, func(ctx sdk.Context, data []byte, t time.Time) {
			x := s01task{t, n, append([]byte(nil), data...)}
			w.got = append(w.got, x)
			w.act(ctx, x, true)
		})
	}
	return w
}

func fmtTasks(ts []s01task) string {
	s := ""
	for _, t := range ts {
		s += fmt.Sprintf("\n  %s %s %x", t.t.Format("15:04:05.999999999"), t.name, t.data)
	}
	return s
}

func sameTasks(a, b []s01task) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].t.Equal(b[i].t) || a[i].name != b[i].name || !bytes.Equal(a[i].data, b[i].data) {
			return false
		}
	}
	return true
}

func runS01(c *eng.Case, st *eng.Stats) *eng.Violation {
	unit := []time.Duration{time.Nanosecond, time.Second, time.Hour}[eng.Mod(c.P["unit"], 3)]
	w := newS01(unit, st)
	w.now = world0.Add(100 * unit)
	base := int64(100)
	for i, op := range c.Ops {
		ctx := sdk.NewContext(w.cms.CacheMultiStore(), tmproto.Header{Time: w.now, Height: int64(i + 1)}, false, log.NewNopLogger())
		if op.D == 1 { // in the time zone of somebody else
			ctx = ctx.WithBlockTime(w.now.In(time.FixedZone("x", 3600)))
		}
		switch op.K {
		case "add":
			b := op.B
			t := s01task{w.at(base + int64(eng.Mod(op.A, 14)) - 2), s01names[eng.Mod(b, 4)], s01data(byte(b>>2), byte(b>>10), byte(b>>18), byte(b>>26), byte(eng.Mod(op.C, 4)), uint16(eng.Mod(op.C>>4, 8)))}
			if op.D == 2 { // plain tasks that can be cancelled by name
				t.data = s01data(byte(b>>2)%3, 0, 0, 0, 0, uint16(eng.Mod(op.C>>4, 8)))
			}
			w.k.ScheduleTask(ctx, t.t, t.name, t.data)
			w.modelAdd(t)
		case "many":
			n := eng.Mod(op.C, 700)
			for j := 0; j < n; j++ {
				h := int(uint64(op.B)>>(j%48)) + j
				t := s01task{w.at(base + int64(eng.Mod(op.A, 6)) + int64(j%(1+eng.Mod(op.D, 3)))), s01names[h%4], s01data(0, 0, 0, 0, 0, uint16(j))}
				if j%23 == 0 { // some of them do something
					t.data = s01data(byte(h), byte(h>>3), byte(h>>5), byte(h>>7), 1, uint16(j))
				}
				w.k.ScheduleTask(ctx, t.t, t.name, t.data)
				w.modelAdd(t)
			}
		case "del":
			t, n := w.at(base+int64(eng.Mod(op.A, 14))-2), s01names[eng.Mod(op.B, 4)]
			d := s01data(byte(eng.Mod(op.C, 3)), 0, 0, 0, 0, uint16(eng.Mod(op.C>>4, 8)))
			// half of the time something that exists
			if op.D == 2 && len(w.model) > 0 {
				m := w.model[eng.Mod(op.A, len(w.model))]
				t, n, d = m.t, m.name, m.data
			}
			w.k.Delete(ctx, t, n, d)
			w.modelDel(t, n, d, false)
		case "delall":
			t, n := w.at(base+int64(eng.Mod(op.A, 14))-2), s01names[eng.Mod(op.B, 4)]
			if op.D == 2 && len(w.model) > 0 {
				m := w.model[eng.Mod(op.A, len(w.model))]
				t, n = m.t, m.name
			}
			w.k.DeleteAll(ctx, t, n)
			w.modelDel(t, n, nil, true)
		case "block":
			base += int64(eng.Mod(op.A, 8))
			w.now = w.at(base).Add(time.Duration(eng.Mod(op.B, 3)-1) * time.Nanosecond)
			ctx = ctx.WithBlockTime(w.now)
			w.got, w.want = nil, nil
			n := 0
			for len(w.model) > 0 && !w.model[0].t.After(w.now) {
				t := w.model[0]
				w.model = w.model[1:]
				if t.name != "nobody" {
					w.want = append(w.want, t)
					w.act(ctx, t, false)
				} else {
					st.Count("no handler")
				}
				if n++; n > 100000 {
					eng.Bug("the model does not end")
				}
			}
			w.k.PerformSchedule(ctx)
			if !sameTasks(w.got, w.want) {
				eng.Fail("s01/executed", "step %d: block at %s executes:%s\nwant:%s", i, w.now.Format("15:04:05.999999999"), fmtTasks(w.got), fmtTasks(w.want))
			}
			st.Add("executed", int64(len(w.want)))
			if len(w.want) > 1 {
				st.Count("several in a block")
			}
			if len(w.want) > 100 {
				st.Count("hundreds in a block")
			}
		}
		// everything pending, and a range of it
		var got []s01task
		for _, t := range w.k.GetTasks(ctx, time.Unix(0, 0), world0.Add(1000000*time.Hour)) {
			got = append(got, s01task{t.Time, t.HandlerName, t.Data})
		}
		if !sameTasks(got, w.model) {
			eng.Fail("s01/pending", "step %d (%s): pending:%s\nwant:%s", i, op.K, fmtTasks(got), fmtTasks(w.model))
		}
		lo, hi := w.at(base-1), w.at(base+4)
		got = nil
		for _, t := range w.k.GetTasks(ctx, lo, hi) {
			got = append(got, s01task{t.Time, t.HandlerName, t.Data})
		}
		var sub []s01task
		for _, t := range w.model {
			if !t.t.Before(lo) && t.t.Before(hi) {
				sub = append(sub, t)
			}
		}
		if !sameTasks(got, sub) {
			eng.Fail("s01/range", "step %d: tasks in [%s, %s):%s\nwant:%s", i, lo, hi, fmtTasks(got), fmtTasks(sub))
		}
		ctx.MultiStore().(sdk.CacheMultiStore).Write()
		st.Steps++
	}
	st.NonTrivial = st.Classes["several in a block"] > 0
	return nil
}

func genS01(r *eng.R) *eng.Case {
	c := &eng.Case{P: map[string]int64{"unit": r.Range(0, 2)}}
	for n := r.Range(4, 40); n > 0; n-- {
		k := r.Weighted([]eng.W{{"add", 10}, {"del", 2}, {"delall", 1}, {"block", 5}})
		c.Ops = append(c.Ops, eng.Op{K: k, A: r.Raw(), B: r.Raw(), C: r.Raw(), D: r.Range(0, 2)})
	}
	c.Ops = append(c.Ops, eng.Op{K: "block", A: 7}, eng.Op{K: "block", A: 7})
	return c
}

// genS01Many : crowds of tasks.
func genS01Many(r *eng.R) *eng.Case {
	c := genS01(r)
	for n := r.Range(1, 3); n > 0; n-- {
		i := r.Intn(len(c.Ops) - 1)
		c.Ops[i] = eng.Op{K: "many", A: r.Raw(), B: r.Raw(), C: r.Of(r.Range(10, 150), r.Range(10, 699)), D: r.Range(0, 2)}
	}
	return c
}

func init() {
	eng.Register(&eng.Property{
		ID:   "S01",
		Rule: "a case counts as non-trivial if at least one block executed two or more tasks",
		Suites: []*eng.Suite{
			{Name: "queue", Gen: genS01, Run: runS01, Quick: 12000, Thorough: 300000},
			{Name: "crowds", Gen: genS01Many, Run: runS01, Quick: 300, Thorough: 20000},
		},
	})
}
