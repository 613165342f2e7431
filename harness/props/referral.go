package props

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/arterynetwork/artr/util"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"

	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// R02-R05: what happens to single accounts of the referral tree.

// step is one thing that happened: a transaction, a scheduled task, or anything else within a block.
type step struct {
	before, after *world.Snap
	tx            *world.Tx
	ok            bool
	log           string
	task          *schedule.Task
	failed        bool
	now           time.Time
	what          string
}

// multi tells that several messages have been handled in between.
func (x *step) multi() bool { return x.tx != nil && len(x.tx.Msgs) > 1 }

func (x *step) isTask(name, acc string) bool {
	return x.task != nil && x.task.HandlerName == name && string(x.task.Data) == acc
}

// offTree are the stores that no oracle of steps looks at after single tasks.
var offTree = []string{schedule.StoreKey, profile.StoreKey, profile.AliasStoreKey, profile.CardStoreKey, delegating.MainStoreKey,
	noding.StoreKey, noding.IdxStoreKey, voting.StoreKey, earning.StoreKey, auth.StoreKey}

// eachStep calls f for everything that happens, in order, such that one step begins where the previous one ended. What
// happens between transactions and tasks is a step, too. It needs the tasks to be observable.
func eachStep(w *world.World, f func(x *step)) {
	var cur, before *world.Snap
	gap := func(s *world.Snap, what string) {
		if cur != nil && cur != s {
			f(&step{before: cur, after: s, now: w.Time, what: what})
		}
		cur = s
	}
	w.BeforeTx = append(w.BeforeTx, func(*world.Tx) { gap(w.Snap(), "block"); before = cur })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		cur = w.Snap()
		f(&step{before: before, after: cur, tx: tx, ok: res.Code == 0, log: res.Log, now: w.Time, what: msgNames(tx)})
	})
	w.BeforeTask = append(w.BeforeTask, func(ctx sdk.Context, t schedule.Task) {
		gap(w.SnapCtx(ctx, offTree...), "block")
		before = cur
	})
	w.AfterTask = append(w.AfterTask, func(ctx sdk.Context, t schedule.Task, failed bool) {
		cur = w.SnapCtx(ctx, offTree...)
		f(&step{before: before, after: cur, task: &t, failed: failed, now: w.Time, what: t.HandlerName})
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) { gap(w.Snap(), "block") })
	w.AfterCommit = append(w.AfterCommit, func() { gap(w.Snap(), "block") })
}

func timeEq(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Equal(*b)
}
func due(t *time.Time, now time.Time) bool { return t != nil && !t.After(now) }

func hasTask(s *world.Snap, t time.Time, name, acc string) bool {
	for i := range s.Tasks {
		k := &s.Tasks[i]
		if k.HandlerName == name && string(k.Data) == acc && k.Time.Equal(t) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- R02

const heroDeprecated = 8

func nextStatus(x referral.Status) referral.Status {
	if x+1 == heroDeprecated {
		return x + 2
	}
	return x + 1
}
func prevStatus(x referral.Status) referral.Status {
	if x-1 == heroDeprecated {
		return x - 2
	}
	return x - 1
}

var statusRules = map[referral.Status]struct {
	levels int
	coins  int64 // ARTR delegated within the levels
	count  int   // so many active referrals...
	size   int64 // ... with so many active referrals each
	team   int64 // 3 active referrals with so many active people each, themselves counted in
}{
	referral.STATUS_LEADER:            {4, 20_000, 2, 2, 0},
	referral.STATUS_MASTER:            {6, 50_000, 3, 3, 0},
	referral.STATUS_CHAMPION:          {8, 150_000, 3, 3, 10},
	referral.STATUS_BUSINESSMAN:       {10, 300_000, 3, 3, 50},
	referral.STATUS_PROFESSIONAL:      {10, 700_000, 3, 3, 100},
	referral.STATUS_TOP_LEADER:        {10, 1_500_000, 3, 3, 300},
	referral.STATUS_ABSOLUTE_CHAMPION: {10, 3_000_000, 3, 3, 600},
}

// meets tells if the account meets the requirements of the status.
func meets(ref map[string]*referral.Info, a string, st referral.Status) bool {
	r := ref[a]
	if st <= referral.STATUS_UNSPECIFIED {
		return true
	}
	if r == nil || r.Banished {
		return false
	}
	if st == referral.STATUS_LUCKY {
		return true
	}
	q, ok := statusRules[st]
	if !ok {
		return false
	}
	d := sdk.ZeroInt()
	for i := 0; i <= q.levels && i < len(r.Delegated); i++ {
		if !r.Delegated[i].IsNil() {
			d = d.Add(r.Delegated[i])
		}
	}
	if d.LT(sdk.NewInt(q.coins * 1_000_000)) {
		return false
	}
	wide, teams := 0, 0
	for _, c := range r.ActiveReferrals {
		ci := ref[c]
		if ci == nil {
			continue
		}
		if cnt(ci.ActiveRefCounts, 1) >= q.size {
			wide++
		}
		n := int64(0)
		for i := range ci.ActiveRefCounts {
			n += cnt(ci.ActiveRefCounts, i)
		}
		if n >= q.team {
			teams++
		}
	}
	return wide >= q.count && (q.team == 0 || teams >= 3)
}

// checkStatus tells what is wrong with the account's status and the time of its downgrade as such.
func checkStatus(ref map[string]*referral.Info, a string) (sig, text string) {
	r := ref[a]
	if r.Banished {
		if r.Status != referral.STATUS_UNSPECIFIED || r.StatusDowngradeAt != nil {
			return "banished", fmt.Sprintf("%s is banished and has status %s (to be downgraded %s)", a, r.Status, timeStr(r.StatusDowngradeAt))
		}
		return
	}
	if !meets(ref, a, r.Status) {
		if r.StatusDowngradeAt == nil {
			return "no-downgrade", fmt.Sprintf("%s does not meet the requirements of its status %s and no downgrade is scheduled", a, r.Status)
		}
		return
	}
	if r.StatusDowngradeAt != nil {
		return "needless-downgrade", fmt.Sprintf("%s meets the requirements of its status %s and yet is to be downgraded at %s", a, r.Status, r.StatusDowngradeAt)
	}
	if n := nextStatus(r.Status); n <= referral.STATUS_ABSOLUTE_CHAMPION && meets(ref, a, n) {
		return "not-raised", fmt.Sprintf("%s has status %s and meets the requirements of %s", a, r.Status, n)
	}
	return
}

func sameRef(a, b *referral.Info) bool { return a == b || reflect.DeepEqual(a, b) }

func attachR02(w *world.World, st *eng.Stats) {
	known := map[string]bool{} // whose status has been right at least once
	eachStep(w, func(x *step) {
		for _, a := range sortedKeys(union2(x.before.Ref, x.after.Ref)) {
			b, n := x.before.Ref[a], x.after.Ref[a]
			if n == nil {
				eng.Fail("status/lost", "%s lost its record (%s)", a, x.what)
			}
			if sig, text := checkStatus(x.after.Ref, a); sig != "" {
				if known[a] || b == nil {
					eng.Fail("status/"+sig, "after %s: %s", x.what, text)
				}
			} else {
				known[a] = true
			}
			if b == nil || sameRef(b, n) {
				continue
			}
			switch {
			case n.Status == b.Status:
			case n.Status > b.Status:
				st.Count("raised")
				st.NonTrivial = true
				for s := nextStatus(b.Status); s <= n.Status && !x.multi(); s = nextStatus(s) {
					if !meets(x.after.Ref, a, s) {
						eng.Fail("status/raised", "%s raised %s from %s to %s though the requirements of %s are not met", x.what, a, b.Status, n.Status, s)
					}
				}
			case !b.Banished && n.Banished:
				st.Count("banished")
			case n.Status == referral.STATUS_LUCKY && x.isTask("referral/compression", a):
				st.Count("lost by compression")
			default:
				st.Count("downgraded")
				st.NonTrivial = true
				if !x.isTask("referral/downgrade", a) || !due(b.StatusDowngradeAt, x.now) {
					eng.Fail("status/downgraded", "%s lowered %s from %s to %s, the downgrade is scheduled for %s, now %s", x.what, a, b.Status, n.Status, timeStr(b.StatusDowngradeAt), x.now)
				}
				if n.Status != prevStatus(b.Status) {
					eng.Fail("status/downgrade-step", "%s was lowered from %s to %s at once", a, b.Status, n.Status)
				}
			}
			if n.StatusDowngradeAt != nil && !timeEq(b.StatusDowngradeAt, n.StatusDowngradeAt) {
				st.Count("downgrade scheduled")
				if want := x.now.Add(2 * oneDay(x.after)); !n.StatusDowngradeAt.Equal(want) {
					eng.Fail("status/grace", "%s scheduled the downgrade of %s for %s instead of %s", x.what, a, n.StatusDowngradeAt, want)
				}
				if b.StatusDowngradeAt != nil && n.Status == b.Status && !x.multi() {
					eng.Fail("status/postponed", "%s postponed the downgrade of %s from %s to %s", x.what, a, b.StatusDowngradeAt, n.StatusDowngradeAt)
				}
			}
			if b.StatusDowngradeAt != nil && n.StatusDowngradeAt == nil && n.Status == b.Status {
				st.Count("downgrade cancelled")
			}
		}
	})
	w.AfterCommit = append(w.AfterCommit, func() {
		s := w.Snap()
		for _, a := range sortedKeys(s.Ref) {
			r := s.Ref[a]
			if r.StatusDowngradeAt == nil {
				continue
			}
			if due(r.StatusDowngradeAt, w.Time) && known[a] {
				eng.Fail("status/overdue", "the downgrade of %s was due at %s, now %s", a, r.StatusDowngradeAt, w.Time)
			}
			if !hasTask(s, *r.StatusDowngradeAt, "referral/downgrade", a) {
				eng.Fail("status/no-task", "nothing is scheduled for the downgrade of %s at %s", a, r.StatusDowngradeAt)
			}
		}
	})
}

func statusTweak(r *eng.R, p map[string]int64) {
	p["shape"] = r.Of(2, 6, 6, 1, 3)
	p["n"] = r.Of(14, 20, 40, 40)
	p["inactive"] = r.Of(0, 0, 5, 20)
	p["rich"] = r.Of(2, 2, 3, 4)
	p["day"] = r.Of(1, 2, 3)
	p["nodel"] = r.Of(30, 60, 80)
	p["dust"] = r.Of(0, 999)
}

// R02, the requirements themselves: any totals, not only those that small trees can have.
func statusGen(r *eng.R) *eng.Case {
	c := &eng.Case{P: map[string]int64{"n": 16, "shape": 1, "seed": r.Int63n(1 << 20), "vals": 1, "gov": 1, "day": 3, "nodel": 100, "inactive": 50}}
	for i := r.Range(2, 8); i > 0; i-- {
		c.Ops = append(c.Ops, eng.Op{K: "trial", A: r.Int63n(1 << 40), B: r.Int63n(1 << 40), C: r.Int63n(1 << 40), D: r.Range(0, 4)})
	}
	return c
}

func runStatus(c *eng.Case, st *eng.Stats) *eng.Violation {
	w := world.New(c.P, st)
	w.Run([]eng.Op{{K: "next", A: 1}})
	var parent string
	s := w.Snap()
	for _, a := range sortedKeys(s.Ref) {
		if r := s.Ref[a]; parent == "" || len(r.Referrals) > len(s.Ref[parent].Referrals) {
			parent = a
		}
	}
	key := w.App.GetKeys()[referral.StoreKey]
	k := w.App.GetReferralKeeper()
	for _, op := range c.Ops {
		r := eng.NewR(op.A)
		ctx := w.Scratch()
		put := func(a string, i *referral.Info) {
			bz, err := i.Marshal()
			mustNil(err)
			ctx.KVStore(key).Set([]byte(a), bz)
		}
		ref := map[string]*referral.Info{}
		for a, i := range s.Ref {
			cp := *i
			ref[a] = &cp
		}
		sts := []referral.Status{1, 2, 3, 4, 5, 6, 7, 9}
		if int(referral.STATUS_ABSOLUTE_CHAMPION) != 9 {
			sts = nil
			for x := referral.STATUS_LUCKY; x <= referral.STATUS_ABSOLUTE_CHAMPION; x = nextStatus(x) {
				sts = append(sts, x)
			}
		}
		// aim at the border of one of the statuses
		aim := sts[1+r.Intn(len(sts)-1)]
		q := statusRules[aim]
		near := func(x int64) uint64 {
			y := x + r.Of(-1, 0, 0, 0, 0, 1, x)
			if y < 0 {
				y = 0
			}
			return uint64(y)
		}
		p := ref[parent]
		p.Delegated = append([]sdk.Int{}, p.Delegated...)
		for len(p.Delegated) < 11 {
			p.Delegated = append(p.Delegated, sdk.ZeroInt())
		}
		left := q.coins*1_000_000 + r.Of(-1, 0, 0, 1, 1_000_000, q.coins*500_000, -1_000_000)
		own := s.Bal[parent].D
		left -= own
		for i := 1; i <= 10; i++ {
			x := int64(0)
			if left > 0 && r.Chance(30) {
				x = r.Int63n(left + 1)
			}
			if i == q.levels && r.Chance(70) || i == q.levels+1 && i <= 10 && r.Chance(40) {
				x = left
			}
			if x < 0 {
				x = 0
			}
			left -= x
			p.Delegated[i] = sdk.NewInt(x)
		}
		p.Delegated[0] = sdk.NewInt(own)
		p.ActiveReferrals = nil
		for _, ch := range p.Referrals {
			ci := ref[ch]
			cs := make([]uint64, 11)
			ci.Active = r.Chance(85)
			if ci.Active {
				cs[0] = 1
				p.ActiveReferrals = append(p.ActiveReferrals, ch)
			}
			team := int64(near(q.team))
			cs[1] = near(q.size)
			rest := team - int64(cs[0]+cs[1])
			for i := 2; i <= 10 && rest > 0; i++ {
				x := r.Int63n(rest + 1)
				if i == 10 || r.Chance(20) {
					x = rest
				}
				cs[i] = uint64(x)
				rest -= x
			}
			ci.ActiveRefCounts = cs
			put(ch, ci)
		}
		canon := p.ActiveReferrals
		sortStrings(canon)
		p.Status = sts[r.Intn(len(sts))]
		if r.Chance(50) {
			p.Status = aim
		}
		p.StatusDowngradeAt, p.Banished = nil, false
		now := w.Time
		switch r.Intn(4) {
		case 0:
			t := now.Add(-time.Second)
			p.StatusDowngradeAt = &t
		case 1:
			t := now.Add(time.Hour)
			p.StatusDowngradeAt = &t
		}
		put(parent, p)
		for x := referral.STATUS_LUCKY; x <= referral.STATUS_ABSOLUTE_CHAMPION; x = nextStatus(x) {
			got, err := k.AreStatusRequirementsFulfilled(ctx, parent, x)
			if want := meets(ref, parent, x); err != nil || got.Overall != want {
				eng.Fail("status/requirements", "requirements of %s: %v (error %v), expected %v; delegated %v, active referrals %v", x, got, err, want, p.Delegated, counts(ref, p.ActiveReferrals))
			}
			st.Count("requirements checked")
			if meets(ref, parent, x) && x == aim {
				st.Count("aimed status met")
			}
		}
		// Some event makes the code look at the account.
		downAt := p.StatusDowngradeAt
		old := p.Status
		met := meets(ref, parent, old)
		what := "downgrade task"
		if eng.Mod(op.D, 3) == 0 {
			k.PerformDowngrade(ctx, []byte(parent), now)
		} else {
			what = "balance change"
			if err := k.OnBalanceChanged(ctx, parent); err != nil {
				eng.Fail("status/hook", "OnBalanceChanged: %v", err)
			}
		}
		n := new(referral.Info)
		mustNil(n.Unmarshal(ctx.KVStore(key).Get([]byte(parent))))
		after := map[string]*referral.Info{}
		for a, i := range ref {
			after[a] = i
		}
		after[parent] = n
		if sig, text := checkStatus(after, parent); sig != "" {
			eng.Fail("status/"+sig, "after a %s: %s", what, text)
		}
		down := eng.Mod(op.D, 3) == 0 && due(downAt, now)
		want, at := old, downAt
		if down {
			want, at = prevStatus(old), nil
			met = meets(after, parent, want)
		}
		if met {
			at = nil
			for want < referral.STATUS_ABSOLUTE_CHAMPION && meets(after, parent, nextStatus(want)) {
				want = nextStatus(want)
			}
		} else if at == nil {
			t := now.Add(2 * oneDay(s))
			at = &t
		}
		if n.Status != want || !timeEq(n.StatusDowngradeAt, at) {
			eng.Fail("status/update", "%s: status %s (downgrade at %s) became %s (%s), expected %s (%s)", what, old, timeStr(downAt), n.Status, timeStr(n.StatusDowngradeAt), want, timeStr(at))
		}
		st.Count("updates")
		if n.Status != old || !timeEq(downAt, n.StatusDowngradeAt) {
			st.NonTrivial = true
		}
	}
	return nil
}

func counts(ref map[string]*referral.Info, as []string) (r []string) {
	for _, a := range as {
		r = append(r, fmt.Sprint(ref[a].ActiveRefCounts))
	}
	return
}

func sortStrings(xs []string) {
	for i := range xs {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}

// ---------------------------------------------------------------- R03

func registrationClosed(s *world.Snap, a string, now time.Time) bool {
	r := s.Ref[a]
	if r == nil || r.Referrer == "" {
		return false
	}
	return r.Banished || !r.Active && (r.CompressionAt == nil || now.After(r.CompressionAt.Add(-oneMonth(s))))
}

func returnsUnder(s *world.Snap, a string, now time.Time) string {
	p := s.Ref[a].Referrer
	for p != "" && registrationClosed(s, p, now) {
		p = s.Ref[p].Referrer
	}
	return p
}

// tree is the form of the forest: everybody's referrer and referrals.
type tree struct {
	up   map[string]string
	down map[string][]string
	gone map[string]bool
}

func treeOf(s *world.Snap) *tree {
	t := &tree{map[string]string{}, map[string][]string{}, map[string]bool{}}
	for a, r := range s.Ref {
		t.up[a], t.down[a], t.gone[a] = r.Referrer, sorted(r.Referrals), r.Banished
	}
	return t
}

func (t *tree) move(a, to string) {
	t.detach(a)
	t.up[a] = to
	t.attach(a)
}
func (t *tree) detach(a string) {
	if p := t.up[a]; p != "" {
		t.down[p] = without(t.down[p], a)
	}
}
func (t *tree) attach(a string) {
	if p := t.up[a]; p != "" {
		t.down[p] = sorted(append(append([]string{}, t.down[p]...), a))
	}
}

func (t *tree) diff(s *world.Snap) string {
	all := map[string]bool{}
	for a := range t.up {
		all[a] = true
	}
	for a := range s.Ref {
		all[a] = true
	}
	for _, a := range sortedKeys(all) {
		r := s.Ref[a]
		up, ok := t.up[a]
		switch {
		case r == nil:
			return a + " disappeared"
		case !ok:
			return a + " appeared"
		case up != r.Referrer:
			return fmt.Sprintf("%s is under %q instead of %q", a, r.Referrer, up)
		case t.gone[a] != r.Banished:
			return fmt.Sprintf("%s is banished: %v instead of %v", a, r.Banished, t.gone[a])
		case !sameSet(t.down[a], r.Referrals) || len(t.down[a]) != len(r.Referrals):
			return fmt.Sprintf("%s has the referrals %v instead of %v", a, r.Referrals, t.down[a])
		}
	}
	return ""
}

func attachR03(w *world.World, st *eng.Stats) {
	f := func(sig, format string, args ...interface{}) { eng.Fail("life/"+sig, format, args...) }
	eachStep(w, func(x *step) {
		b, n := x.before, x.after
		t := treeOf(b)
		month := oneMonth(n)
		dust := b.P.Bank.DustDelegation
		compressed, banned := "", ""
		if x.task != nil {
			a := string(x.task.Data)
			r := b.Ref[a]
			switch x.task.HandlerName {
			case "referral/compression":
				if r != nil && due(r.CompressionAt, x.now) && r.Referrer != "" {
					compressed = a
					for _, c := range r.Referrals {
						t.move(c, r.Referrer)
					}
					st.Count("compressed")
					st.NonTrivial = true
					if len(r.Referrals) > 0 {
						st.Count("compressed with referrals")
					}
				} else {
					st.Count("compression not due any more")
				}
			case "referral/banish":
				if r != nil && due(r.BanishmentAt, x.now) {
					banned = a
					t.detach(a)
					t.gone[a] = true
					st.Count("banished")
					st.NonTrivial = true
					if r.Active || b.Bal[a].D > dust || r.Referrer == "" {
						f("banish-due", "%s is to be banished while it is active (%v), stakes %d or is a top level account", a, r.Active, b.Bal[a].D)
					}
				} else {
					st.Count("banishment not due any more")
				}
			}
		}
		if x.tx != nil && x.ok {
			for _, m := range x.tx.Msgs {
				switch m := m.(type) {
				case *profile.MsgCreateAccount:
					if _, ok := t.up[canon(m.Address)]; !ok {
						t.up[canon(m.Address)] = canon(m.Referrer)
						t.attach(canon(m.Address))
					}
				case *referral.MsgResolveTransition:
					a := canon(m.Subject)
					if r := b.Ref[a]; r != nil && !m.Decline && r.Transition != "" {
						t.move(a, r.Transition)
					}
				}
			}
		}
		// Who comes back is told by the code's own record, where to and why by the model.
		for _, a := range sortedKeys(union2(b.Ref, n.Ref)) {
			o, r := b.Ref[a], n.Ref[a]
			if o == nil || r == nil || !o.Banished || r.Banished {
				continue
			}
			st.Count("came back")
			st.NonTrivial = true
			to := returnsUnder(b, a, x.now)
			if !r.Active && n.Bal[a].D <= dust {
				f("return", "%s brought %s back which neither is active nor stakes", x.what, a)
			}
			if to != o.Referrer {
				st.Count("came back under another referrer")
			}
			t.up[a] = to
			t.attach(a)
			t.gone[a] = false
		}
		if !x.multi() {
			if d := t.diff(n); d != "" {
				f("tree", "%s: %s", x.what, d)
			}
		}
		for _, a := range sortedKeys(union2(b.Ref, n.Ref)) {
			o, r := b.Ref[a], n.Ref[a]
			if r == nil {
				continue
			}
			top := r.Referrer == ""
			p := func(sig, format string, args ...interface{}) {
				f(sig, "%s (compression %s, banishment %s, active %v) after %s: "+format,
					append([]interface{}{a, timeStr(r.CompressionAt), timeStr(r.BanishmentAt), r.Active, x.what}, args...)...)
			}
			inTwo := x.now.Add(2 * month)
			if r.Active && (r.CompressionAt != nil || r.BanishmentAt != nil || r.Banished) {
				p("active", "an active account is to be excluded")
			}
			if r.Banished && (r.CompressionAt != nil || r.BanishmentAt != nil) {
				p("banished", "a banished account is to be excluded")
			}
			if r.Banished && n.Bal[a].D > dust {
				p("banished-stake", "banished with stake %d (dust %d)", n.Bal[a].D, dust)
			}
			if o == nil {
				if !r.Active && (r.CompressionAt == nil || !r.CompressionAt.Equal(inTwo)) {
					p("new", "a new account must be compressed at %s", inTwo)
				}
				continue
			}
			if o == r && b.Bal[a].D == n.Bal[a].D && !due(r.CompressionAt, x.now) && !due(r.BanishmentAt, x.now) {
				continue
			}
			// What the deadlines must be now
			ca, ba := o.CompressionAt, o.BanishmentAt
			inOne := x.now.Add(month)
			switch {
			case a == banned:
				ca, ba = nil, nil
			case r.Active:
				ca, ba = nil, nil
			case o.Active && !r.Active:
				ca = &inTwo
			case a == compressed:
				ca = nil
				if n.Bal[a].D <= dust {
					ba = &inOne
				}
			case o.Banished:
				ca, ba = nil, nil
			case b.Bal[a].D != n.Bal[a].D:
				if n.Bal[a].D > dust {
					ba = nil
				} else if ba == nil && !top && (ca == nil || ca.Before(x.now)) {
					ba = &inOne
				}
			}
			if x.multi() {
				continue
			}
			if !timeEq(ca, r.CompressionAt) {
				p("compression-time", "the compression must be at %s", timeStr(ca))
			}
			if !timeEq(ba, r.BanishmentAt) {
				p("banishment-time", "the banishment must be at %s (stake %d, was %d)", timeStr(ba), n.Bal[a].D, b.Bal[a].D)
			}
			if a == compressed && (r.Status != referral.STATUS_LUCKY || len(r.ActiveReferrals) > 0) {
				p("compressed", "status %s, active referrals %v", r.Status, r.ActiveReferrals)
			}
		}
	})
	w.AfterCommit = append(w.AfterCommit, func() {
		s := w.Snap()
		for _, a := range sortedKeys(s.Ref) {
			r := s.Ref[a]
			if r.Referrer == "" {
				continue
			}
			if due(r.CompressionAt, w.Time) {
				f("compression-overdue", "%s should have been compressed at %s, now %s", a, r.CompressionAt, w.Time)
			}
			if due(r.BanishmentAt, w.Time) {
				f("banishment-overdue", "%s should have been banished at %s, now %s", a, r.BanishmentAt, w.Time)
			}
			if r.CompressionAt != nil && !hasTask(s, *r.CompressionAt, "referral/compression", a) {
				f("compression-task", "nothing is scheduled for the compression of %s at %s", a, r.CompressionAt)
			}
			if r.BanishmentAt != nil && !hasTask(s, *r.BanishmentAt, "referral/banish", a) {
				f("banishment-task", "nothing is scheduled for the banishment of %s at %s", a, r.BanishmentAt)
			}
		}
	})
}

// ---------------------------------------------------------------- R05

// moveRefused tells why the account cannot be moved, "" if it can.
func moveRefused(s *world.Snap, a, to string, now time.Time) string {
	r := s.Ref[a]
	switch {
	case r == nil:
		return "unknown subject"
	case s.Ref[to] == nil:
		return "unknown destination"
	case r.Banished:
		return "subject is banished"
	case a == to:
		return "destination is the subject"
	case r.Referrer == to:
		return "destination is the referrer already"
	case registrationClosed(s, to, now):
		return "destination is closed"
	}
	for p, i := s.Ref[to].Referrer, 0; p != "" && i <= len(s.Ref); p, i = s.Ref[p].Referrer, i+1 {
		if p == a {
			return "destination is below the subject"
		}
	}
	return ""
}

func attachR05(w *world.World, st *eng.Stats) {
	f := func(sig, format string, args ...interface{}) { eng.Fail("move/"+sig, format, args...) }
	asked := map[string]time.Time{}
	eachStep(w, func(x *step) {
		b, n := x.before, x.after
		var req *referral.MsgRequestTransition
		var res *referral.MsgResolveTransition
		if x.tx != nil && x.ok {
			for _, m := range x.tx.Msgs {
				switch m := m.(type) {
				case *referral.MsgRequestTransition:
					req = m
				case *referral.MsgResolveTransition:
					res = m
				}
			}
		}
		if x.multi() && (req != nil || res != nil) {
			for a, r := range n.Ref {
				if r.Transition == "" {
					delete(asked, a)
				} else if o := b.Ref[a]; o == nil || o.Transition != r.Transition {
					asked[a] = x.now
				} else {
					// it may have been declined and requested again
					asked[a] = time.Time{}
				}
			}
			return
		}
		if req != nil {
			a, to := canon(req.Subject), canon(req.Destination)
			if why := moveRefused(b, a, to, x.now); why != "" {
				f("request", "the request to move %s under %s was accepted: %s", a, to, why)
			}
			if b.Ref[a].Transition != "" {
				f("request-twice", "%s requested a transition while another one is pending", a)
			}
			if n.Ref[a].Transition != to {
				f("pending", "%s requested to be moved under %s, %q is pending", a, to, n.Ref[a].Transition)
			}
			if got, want := n.Bal[world.ModuleAddr("fee_collector")].U-b.Bal[world.ModuleAddr("fee_collector")].U, int64(b.P.Referral.TransitionPrice)+x.tx.Fee.AmountOf(util.ConfigMainDenom).Int64(); got != want {
				f("price", "the fee collector got %d instead of %d for the request", got, want)
			}
			if got, want := b.Bal[a].U-n.Bal[a].U, int64(b.P.Referral.TransitionPrice)+x.tx.Fee.AmountOf(util.ConfigMainDenom).Int64(); got != want {
				f("price", "%s paid %d instead of %d for the request", a, got, want)
			}
			asked[a] = x.now
			st.Count("requested")
		}
		if x.tx != nil && !x.ok && len(x.tx.Msgs) == 1 {
			if m, ok := x.tx.Msgs[0].(*referral.MsgResolveTransition); ok && !x.tx.Forged {
				a := canon(m.Subject)
				if r := b.Ref[a]; r != nil && r.Transition != "" && canon(m.Signer) == r.Referrer && !m.Decline && moveRefused(b, a, r.Transition, x.now) == "" && n.Acc[r.Referrer].Seq > b.Acc[r.Referrer].Seq {
					f("affirm-refused", "%s affirmed the transition of %s under %s, it was refused: %s", r.Referrer, a, r.Transition, x.log)
				}
				st.Count("resolving refused")
			}
		}
		var moved string
		if res != nil {
			a := canon(res.Subject)
			r := b.Ref[a]
			if r == nil || r.Referrer != canon(res.Signer) {
				f("consent", "%s resolved the transition of %s", res.Signer, a)
			}
			if n.Ref[a].Transition != "" {
				f("resolved", "the transition of %s is still pending", a)
			}
			if !res.Decline {
				if r.Transition == "" {
					f("nothing-pending", "a transition of %s was affirmed though none is pending", a)
				}
				if why := moveRefused(b, a, r.Transition, x.now); why != "" {
					f("affirm", "%s was moved under %s: %s", a, r.Transition, why)
				}
				moved = a
				st.Count("moved")
				st.NonTrivial = true
				t := treeOf(b)
				t.move(a, r.Transition)
				if d := t.diff(n); d != "" {
					f("tree", "after moving %s: %s", a, d)
				}
				for _, y := range sortedKeys(b.Ref) {
					o, k := b.Ref[y], n.Ref[y]
					if o.Active != k.Active || !timeEq(o.CompressionAt, k.CompressionAt) || !timeEq(o.BanishmentAt, k.BanishmentAt) || y != a && o.Transition != k.Transition {
						f("others", "moving %s changed %s: %v -> %v", a, y, o, k)
					}
				}
			} else {
				st.Count("declined")
			}
		}
		for _, a := range sortedKeys(union2(b.Ref, n.Ref)) {
			o, r := b.Ref[a], n.Ref[a]
			if o == nil || r == nil || o == r {
				if o == nil && r != nil && r.Transition != "" {
					f("new", "%s is new and has a pending transition", a)
				}
				continue
			}
			if o.Transition == r.Transition {
				continue
			}
			switch {
			case req != nil && canon(req.Subject) == a:
			case res != nil && canon(res.Subject) == a:
			case x.isTask("referral/transition-timeout", a) && r.Transition == "":
				st.Count("timed out")
				st.NonTrivial = true
				if at, ok := asked[a]; ok && !at.IsZero() && at.Add(oneDay(n)).After(x.now) {
					f("timeout-early", "the transition of %s requested at %s timed out at %s", a, at, x.now)
				}
			default:
				f("changed", "%s changed the pending transition of %s from %q to %q", x.what, a, o.Transition, r.Transition)
			}
			if r.Transition == "" {
				delete(asked, a)
			}
		}
		_ = moved
	})
	w.AfterCommit = append(w.AfterCommit, func() {
		s := w.Snap()
		for _, a := range sortedKeys(s.Ref) {
			if at, ok := asked[a]; ok && !at.IsZero() && s.Ref[a].Transition != "" && !at.Add(oneDay(s)).After(w.Time) {
				f("timeout-late", "the transition of %s requested at %s is still pending at %s", a, at, w.Time)
			}
		}
	})
}

// transitionGen makes some of the requests be asked again soon.
func transitionGen(r *eng.R) *eng.Case {
	c := treeGen(50, 120, []eng.W{{"next", 40}, {"transition", 30}, {"resolve", 30}, {"tariff", 8}, {"delegate", 4}, {"create", 4}, {"send", 3}, {"express", 2}})(r)
	if r.Chance(60) {
		for i := range c.Ops {
			if c.Ops[i].K == "next" {
				c.Ops[i].A = r.Of(1, 2, 3, 4, 5, 6, 7, 10)
			}
			if c.Ops[i].K == "transition" && r.Chance(50) {
				c.Ops[i].A = r.Range(0, 4)
			}
		}
	}
	return c
}

var _ = strings.TrimSpace

func init() {
	eng.Register(&eng.Property{
		ID:   "R02",
		Rule: "history: after every transaction, task and block part every account's status is compared with the requirements recomputed from the referral records; requirements: statuses, team sizes and stakes drawn around the borders of every status; non-trivial if a status was raised or lowered or a downgrade was scheduled or cancelled",
		Suites: []*eng.Suite{
			{Name: "history", Gen: chainGen(50, 120, reweigh(eng.W{"delegate", 20}, eng.W{"express", 14}, eng.W{"revoke", 8}, eng.W{"tariff", 16}, eng.W{"transition", 10}, eng.W{"resolve", 10}, eng.W{"next", 50}), statusTweak), Run: chainRun(attachR02), Quick: 70, Thorough: 12000},
			{Name: "tree", Gen: treeGen(60, 140, treeOps()), Run: chainRun(attachR02), Quick: 30, Thorough: 6000},
			{Name: "requirements", Gen: statusGen, Run: runStatus, Quick: 400, Thorough: 100000},
		},
	})
	eng.Register(&eng.Property{
		ID:   "R03",
		Rule: "histories over months; after every transaction, task and block part the forest's form and every account's deadlines are compared with a model; non-trivial if an account was compressed, banished or came back",
		Suites: []*eng.Suite{
			{Name: "tree", Gen: treeGen(60, 160, treeOps()), Run: chainRun(attachR03), Quick: 70, Thorough: 15000},
			{Name: "all", Gen: chainGen(60, 160, world.AllOps(), nil), Run: chainRun(attachR03), Quick: 30, Thorough: 5000},
		},
	})
	eng.Register(&eng.Property{
		ID:   "R05",
		Rule: "histories with many transition requests and resolutions by arbitrary signers; every change of a pending transition and of the forest's form is compared with a model; non-trivial if an account was moved or a request timed out",
		Suites: []*eng.Suite{
			{Name: "moves", Gen: transitionGen, Run: chainRun(attachR05), Quick: 80, Thorough: 15000},
			{Name: "tree", Gen: treeGen(60, 140, treeOps()), Run: chainRun(attachR05), Quick: 30, Thorough: 5000},
		},
	})
}

func mustNil(err error) {
	if err != nil {
		eng.Bug("%v", err)
	}
}

// ---------------------------------------------------------------- R04

func feeGen(r *eng.R) *eng.Case {
	c := &eng.Case{P: world.GenP(r)}
	c.P["n"], c.P["shape"] = r.Range(12, 40), r.Of(0, 0, 4, 4, 3, 5)
	c.P["nodel"], c.P["rich"] = r.Of(0, 30), r.Of(1, 2, 2, 3)
	c.P["unjail"] = r.Of(1, 2)
	for i := r.Range(4, 16); i > 0; i-- {
		c.Ops = append(c.Ops, eng.Op{K: "trial", A: r.Int63n(1 << 40), B: r.Int63n(1 << 40), C: r.Range(0, 9), D: r.Range(0, 9)})
	}
	return c
}

// feeTrials gives people of a real tree arbitrary statuses and makes some of them validators, then pays somebody.
func feeTrials(c *eng.Case, st *eng.Stats) *eng.Violation { return feeTrialsWith(c, st, nil) }

// feeTrialsWith also shows the events of every payment to look.
func feeTrialsWith(c *eng.Case, st *eng.Stats, look func(before, after *world.Snap, evs sdk.Events, what string)) *eng.Violation {
	w := world.New(c.P, st)
	w.Run([]eng.Op{{K: "next", A: 1}, {K: "next", A: 2}, {K: "next", A: 1}})
	s := w.Snap()
	all := sortedKeys(s.Ref)
	var sts []referral.Status
	for x := referral.STATUS_LUCKY; x <= referral.STATUS_ABSOLUTE_CHAMPION; x = nextStatus(x) {
		sts = append(sts, x)
	}
	for _, op := range c.Ops {
		r := eng.NewR(op.A)
		ctx := w.Scratch().WithBlockHeight(w.Height)
		put := func(store string, key []byte, bz []byte, err error) {
			mustNil(err)
			ctx.KVStore(w.App.GetKeys()[store]).Set(key, bz)
		}
		share := []int{5, 30, 60, 100}[eng.Mod(op.C, 4)]
		for i, a := range all {
			info := *s.Ref[a]
			info.Status = sts[r.Intn(len(sts))]
			if eng.Mod(op.D, 3) == 0 { // growing on the way up
				info.Status = sts[(len(all)-i)*len(sts)/(len(all)+1)]
			}
			bz, err := info.Marshal()
			put(referral.StoreKey, []byte(a), bz, err)
			if r.Chance(share) {
				v := noding.NewInfo(world.ConsBech(i), r.Int63n(100))
				v.Status = !r.Chance(10)
				v.Jailed = r.Chance(10)
				v.BannedForLife = r.Chance(10)
				if r.Chance(15) {
					v.UnjailAt = ctx.BlockHeight() + r.Range(-8, 1)
				} else {
					v.UnjailAt = -1000
				}
				bz, err := v.Marshal()
				put(noding.StoreKey, accBytes(a), bz, err)
			}
		}
		// the one who is paid, preferably deep in the tree
		a := all[r.Intn(len(all))]
		for i := 0; i < 4; i++ {
			if b := all[r.Intn(len(all))]; depth(s, b) > depth(s, a) {
				a = b
			}
		}
		if eng.Mod(op.B, 3) != 0 { // a stake so small that not all the shares are anything
			bk := w.App.GetBankKeeper()
			cs := bk.GetBalance(ctx, accBytes(a))
			x := s.P.Bank.DustDelegation + r.Of(r.Range(1, 40_000), r.Range(4000, 70_000), r.Range(1, 1000), 1+r.Magnitude(7))
			rest := cs.Sub(sdk.NewCoins(sdk.NewCoin(util.ConfigDelegatedDenom, cs.AmountOf(util.ConfigDelegatedDenom))))
			mustNil(bk.SetBalance(ctx, accBytes(a), rest.Add(sdk.NewInt64Coin(util.ConfigDelegatedDenom, x))))
		}
		rec := delegating.Record{NextAccrue: &s.Time}
		bz, err := rec.Marshal()
		put(delegating.MainStoreKey, accBytes(a), bz, err)

		// Statuses that are too low are raised as soon as the code looks at them, so let it look.
		for _, x := range all {
			if err := w.App.GetReferralKeeper().OnBalanceChanged(ctx, x); err != nil {
				eng.Fail("fees/hook", "OnBalanceChanged: %v", err)
			}
		}
		before := w.SnapCtx(ctx)
		want := validatorShares(before, a)
		got, err := w.App.GetReferralKeeper().GetReferralValidatorFeesForDelegating(ctx, a)
		if err != nil {
			eng.Fail("fees/error", "fees of %s: %v", a, err)
		}
		if len(got) != len(want) {
			eng.Fail("fees/list", "fees of %s: %v, expected %v; above: %s", a, got, want, above(before, a))
		}
		sum := util.FractionZero()
		for i, g := range got {
			if g.Beneficiary != want[i].acc || world.Rat(g.Ratio).Cmp(want[i].ratio) != 0 {
				eng.Fail("fees/list", "fees of %s: %v, expected %v; above: %s", a, got, want, above(before, a))
			}
			sum = sum.Add(g.Ratio)
		}
		if sum.GT(util.Permille(6)) {
			eng.Fail("fees/total", "fees of %s are %v in total", a, sum)
		}
		st.Count("lists compared")
		if len(want) > 1 {
			st.Count("several beneficiaries")
			st.NonTrivial = true
		}
		// and the payment itself
		l := newLedger(before)
		paid := l.interest(before, a, big.NewRat(1, 1))
		sk := w.App.GetScheduleKeeper()
		sk.ScheduleTask(ctx, s.Time, delegating.AccrueHookName, accBytes(a))
		pay := ctx.WithEventManager(sdk.NewEventManager())
		sk.PerformSchedule(pay)
		after := w.SnapCtx(ctx)
		if look != nil {
			look(before, after, pay.EventManager().Events(), "paying the interest of "+a)
		}
		for _, x := range sortedKeys(union2(l.bal, after.Bal)) {
			if l.bal[x] != after.Bal[x] {
				eng.Fail("fees/paid", "the interest of %s (%d): %s has %+v, expected %+v, before %+v; shares %v", a, paid, x, after.Bal[x], l.bal[x], before.Bal[x], want)
			}
		}
		if paid > 0 && len(want) > 0 {
			st.Count("payments with beneficiaries")
		}
	}
	return nil
}

func depth(s *world.Snap, a string) (n int) {
	for s.Ref[a] != nil && s.Ref[a].Referrer != "" && n < 100 {
		a = s.Ref[a].Referrer
		n++
	}
	return
}

func above(s *world.Snap, a string) string {
	var r []string
	for i := 0; i < 22 && s.Ref[a] != nil && s.Ref[a].Referrer != ""; i++ {
		a = s.Ref[a].Referrer
		r = append(r, fmt.Sprintf("%d:%s %s validator %v", i+1, a, s.Ref[a].Status, activeValidator(s, a)))
	}
	return strings.Join(r, ", ")
}

// attachR04 looks at the lists of everybody in states that come about by themselves.
func attachR04(w *world.World, st *eng.Stats) {
	w.AfterCommit = append(w.AfterCommit, func() {
		s := w.Snap()
		ctx := w.Scratch()
		for _, a := range sortedKeys(s.Ref) {
			want := validatorShares(s, a)
			got, err := w.App.GetReferralKeeper().GetReferralValidatorFeesForDelegating(ctx, a)
			ok := err == nil && len(got) == len(want)
			for i := range want {
				ok = ok && got[i].Beneficiary == want[i].acc && world.Rat(got[i].Ratio).Cmp(want[i].ratio) == 0
			}
			if !ok {
				eng.Fail("fees/list", "fees of %s: %v (error %v), expected %v; above: %s", a, got, err, want, above(s, a))
			}
			if len(want) > 0 {
				st.Count("lists that are not empty")
				st.NonTrivial = true
			}
		}
	})
}

func init() {
	eng.Register(&eng.Property{
		ID:   "R04",
		Rule: "trials: real trees whose people get arbitrary statuses and validator records, the list of beneficiaries and a day's payment are compared with a model; history: the lists of everybody after every block; non-trivial if there were several beneficiaries (trials) or one (history)",
		Suites: []*eng.Suite{
			{Name: "trials", Gen: feeGen, Run: feeTrials, Quick: 300, Thorough: 60000},
			{Name: "history", Gen: chainGen(40, 100, nodingWeights(), func(r *eng.R, p map[string]int64) {
				statusTweak(r, p)
				p["mstatus"], p["mself"], p["mtotal"] = 1, r.Of(0, 1_000_000), 0
			}), Run: chainRun(attachR04), Quick: 40, Thorough: 6000},
		},
	})
}

func nodingWeights() []eng.W {
	return reweigh(eng.W{K: "on", N: 30}, eng.W{K: "off", N: 4}, eng.W{K: "delegate", N: 12}, eng.W{K: "tariff", N: 14}, eng.W{K: "next", N: 40})
}
