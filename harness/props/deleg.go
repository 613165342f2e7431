package props

import (
	"fmt"
	"math/big"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/arterynetwork/artr/util"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// D01, D02: the delegation ledger. The state before a transaction or a scheduled task gives, by exact rational
// arithmetic, the state after it.

func activeValidator(s *world.Snap, acc string) bool {
	v := s.Val[acc]
	return v != nil && v.Status && !v.Jailed && !v.BannedForLife && s.Height-v.UnjailAt >= 6*int64(s.P.Noding.UnjailAfter)
}

func activeProfile(s *world.Snap, acc string) bool {
	p := s.Prof[acc]
	return p != nil && p.ActiveUntil != nil && p.ActiveUntil.After(s.Time)
}

func oneDay(s *world.Snap) time.Duration { return time.Duration(s.P.Schedule.DayNanos) }

func activeEarner(s *world.Snap, acc string) (vpn, storage bool) {
	e := s.Earn[acc]
	if e == nil {
		return
	}
	ok := func(t *time.Time) bool { return t != nil && t.Add(2*oneDay(s)).After(s.Time) }
	return ok(e.Vpn), ok(e.Storage)
}

// dailyRate is the share of the delegation an account earns in a day.
func dailyRate(s *world.Snap, acc string) *big.Rat {
	d := s.Bal[acc].D
	r := new(big.Rat)
	if d <= s.P.Bank.DustDelegation {
		return r
	}
	vpn, storage := activeEarner(s, acc)
	for i, on := range []bool{true, activeValidator(s, acc), activeProfile(s, acc), vpn, storage} {
		if !on {
			continue
		}
		b := new(big.Rat)
		for _, step := range s.P.Delegating.AccruePercentageTable {
			if uint64(d) >= step.Start {
				b = world.Rat(step.PercentList[i])
			}
		}
		r.Add(r, b)
	}
	return r.Quo(r, big.NewRat(30, 1))
}

type share struct {
	acc   string
	ratio *big.Rat
}

// validatorShares are the parts of a delegation's monthly amount that go to the validators above it.
func validatorShares(s *world.Snap, acc string) (r []share) {
	steps := []struct {
		status  referral.Status
		depth   int
		permill int64
	}{
		{referral.STATUS_MASTER, 4, 1}, {referral.STATUS_CHAMPION, 6, 2}, {referral.STATUS_BUSINESSMAN, 10, 3},
		{referral.STATUS_PROFESSIONAL, 12, 4}, {referral.STATUS_TOP_LEADER, 14, 5}, {referral.STATUS_ABSOLUTE_CHAMPION, 20, 6},
	}
	paid := int64(0)
	cur := s.Ref[acc]
	for i := 0; i < 20 && cur != nil && cur.Referrer != ""; i++ {
		a := cur.Referrer
		cur = s.Ref[a]
		if cur == nil || !activeValidator(s, a) {
			continue
		}
		due := int64(0)
		for _, st := range steps {
			if cur.Status >= st.status && i < st.depth {
				due = st.permill
			}
		}
		if due > paid {
			r = append(r, share{a, big.NewRat(due-paid, 1000)})
			paid = due
		}
	}
	return
}

type ledger struct {
	bal map[string]world.Bal
	del map[string]*delegating.Record // nil: no record
	add []schedule.Task
	rem []schedule.Task
	sup map[string]int64 // supply changes
}

func newLedger(s *world.Snap) *ledger {
	l := &ledger{bal: map[string]world.Bal{}, del: map[string]*delegating.Record{}, sup: map[string]int64{}}
	for k, v := range s.Bal {
		l.bal[k] = v
	}
	for k, v := range s.Del {
		c := *v
		c.Requests = append([]delegating.RevokeRequest(nil), v.Requests...)
		l.del[k] = &c
	}
	return l
}

func (l *ledger) move(acc string, u, d, r int64) {
	b := l.bal[acc]
	b.U += u
	b.D += d
	b.R += r
	l.bal[acc] = b
	l.sup[util.ConfigMainDenom] += u
	l.sup[util.ConfigDelegatedDenom] += d
	l.sup[util.ConfigRevokingDenom] += r
}

func splittable() string { return world.ModuleAddr(util.SplittableFeeCollectorName) }

// interest pays for a part of a day.
func (l *ledger) interest(s *world.Snap, acc string, part *big.Rat) (paid int64) {
	d := s.Bal[acc].D
	rate := dailyRate(s, acc)
	x := world.FloorRat(d, new(big.Rat).Mul(rate, part))
	if x <= 0 {
		return 0
	}
	fee := s.P.Fee(x)
	l.move(acc, x-fee, 0, 0)
	l.move(splittable(), fee, 0, 0)
	base := world.FloorRat(d, part)
	for _, sh := range validatorShares(s, acc) {
		l.move(sh.acc, world.FloorRat(base, new(big.Rat).Quo(sh.ratio, big.NewRat(30, 1))), 0, 0)
	}
	return x
}

// settle pays the part of the day that has passed and starts a new day.
func (l *ledger) settle(s *world.Snap, acc string) (paid int64, part *big.Rat) {
	rec := l.del[acc]
	if rec == nil {
		rec = &delegating.Record{}
		l.del[acc] = rec
	}
	if rec.NextAccrue != nil {
		left := rec.NextAccrue.Sub(s.Time)
		part = new(big.Rat).Sub(big.NewRat(1, 1), big.NewRat(int64(left), int64(oneDay(s))))
		paid = l.interest(s, acc, part)
		l.rem = append(l.rem, schedule.Task{Time: *rec.NextAccrue, HandlerName: delegating.AccrueHookName, Data: accBytes(acc)})
	}
	return
}

func (l *ledger) newDay(s *world.Snap, acc string) {
	rec := l.del[acc]
	rec.NextAccrue = nil
	if l.bal[acc].D > s.P.Bank.DustDelegation {
		t := s.Time.Add(oneDay(s))
		rec.NextAccrue = &t
		l.add = append(l.add, schedule.Task{Time: t, HandlerName: delegating.AccrueHookName, Data: accBytes(acc)})
	}
}

func accBytes(acc string) []byte {
	a, err := sdk.AccAddressFromBech32(acc)
	if err != nil {
		eng.Bug("%v", err)
	}
	return a
}

func (l *ledger) revoke(s *world.Snap, acc string, x int64, p delegating.Revoke) {
	l.settle(s, acc)
	set := x - world.FloorRat(x, world.Rat(p.Burn))
	l.move(acc, 0, -x, set)
	l.newDay(s, acc)
	t := s.Time.Add(time.Duration(p.Period) * oneDay(s))
	l.del[acc].Requests = append(l.del[acc].Requests, delegating.RevokeRequest{Time: t, Amount: sdk.NewInt(set)})
	l.add = append(l.add, schedule.Task{Time: t, HandlerName: delegating.RevokeHookName, Data: accBytes(acc)})
}

// delegate tells whether the account can afford it.
func (l *ledger) delegate(s *world.Snap, acc string, x int64) bool {
	fee := s.P.Fee(x)
	if x < s.P.Delegating.MinDelegate || l.bal[acc].U < fee {
		return false
	}
	l.move(acc, -fee, 0, 0)
	l.move(splittable(), fee, 0, 0)
	l.settle(s, acc)
	if l.bal[acc].U < x-fee {
		return false
	}
	l.move(acc, -(x - fee), x-fee, 0)
	l.newDay(s, acc)
	return true
}

// tasks of the delegation kinds only
func delTasks(s *world.Snap) map[string]int {
	m := map[string]int{}
	for _, t := range s.Tasks {
		if t.HandlerName == delegating.AccrueHookName || t.HandlerName == delegating.RevokeHookName {
			m[taskKey(t)]++
		}
	}
	return m
}
func taskKey(t schedule.Task) string {
	return fmt.Sprintf("%s %s %s", t.Time.UTC().Format(time.RFC3339Nano), t.HandlerName, sdk.AccAddress(t.Data))
}

func recStr(r *delegating.Record) string {
	if r == nil {
		return "none"
	}
	s := "next "
	if r.NextAccrue != nil {
		s += r.NextAccrue.UTC().Format(time.RFC3339Nano)
	} else {
		s += "never"
	}
	if r.MissedPart != nil {
		s += " missed " + r.MissedPart.String()
	}
	return s + " requests " + reqStr(r.Requests)
}

func reqStr(rs []delegating.RevokeRequest) string {
	m := map[string]int{}
	for _, x := range rs {
		m[x.Time.UTC().Format(time.RFC3339Nano)+" "+x.Amount.String()]++
	}
	return fmt.Sprint(m) // sorted by key
}

// compare demands that the state after is the predicted one. balances of "except" are not compared.
func (l *ledger) compare(before, after *world.Snap, what string) {
	accs := map[string]bool{}
	for a := range l.bal {
		accs[a] = true
	}
	for a := range after.Bal {
		accs[a] = true
	}
	for _, a := range sortedKeys(accs) {
		if l.bal[a] != after.Bal[a] {
			eng.Fail("ledger/balance", "%s: %s had %+v and should have %+v but has %+v", what, a, before.Bal[a], l.bal[a], after.Bal[a])
		}
	}
	l.compareRecords(before, after, what)
	for _, d := range []string{util.ConfigMainDenom, util.ConfigDelegatedDenom, util.ConfigRevokingDenom} {
		if after.Supply[d] != before.Supply[d]+l.sup[d] {
			eng.Fail("ledger/supply", "%s: the supply of %s was %d and should be %d but is %d", what, d, before.Supply[d], before.Supply[d]+l.sup[d], after.Supply[d])
		}
	}
}

func (l *ledger) compareRecords(before, after *world.Snap, what string) {
	accs := map[string]bool{}
	for a := range l.del {
		accs[a] = true
	}
	for a := range after.Del {
		accs[a] = true
	}
	for _, a := range sortedKeys(accs) {
		x, y := l.del[a], after.Del[a]
		if x == nil {
			x = &delegating.Record{}
		}
		if y == nil {
			y = &delegating.Record{}
		}
		if recStr(x) != recStr(y) {
			eng.Fail("ledger/record", "%s: the record of %s was [%s] and should be [%s] but is [%s]", what, a, recStr(before.Del[a]), recStr(x), recStr(y))
		}
	}
	m := delTasks(before)
	for _, t := range l.rem {
		if m[taskKey(t)] > 0 {
			// removing takes all equal ones
			delete(m, taskKey(t))
		}
	}
	for _, t := range l.add {
		m[taskKey(t)]++
	}
	n := delTasks(after)
	for _, k := range sortedKeys(union(m, n)) {
		if m[k] != n[k] {
			eng.Fail("ledger/task", "%s: task %s should be pending %d times but is %d times", what, k, m[k], n[k])
		}
	}
}

func union(a, b map[string]int) map[string]int {
	r := map[string]int{}
	for k := range a {
		r[k] = 1
	}
	for k := range b {
		r[k] = 1
	}
	return r
}

// delInvariants holds in every state between transactions; begun tells that the tasks of the block have been performed.
func delInvariants(s *world.Snap, at string, begun bool) {
	accs := map[string]bool{}
	for a := range s.Bal {
		accs[a] = true
	}
	for a := range s.Del {
		accs[a] = true
	}
	n := delTasks(s)
	for _, a := range sortedKeys(accs) {
		rec := s.Del[a]
		if rec == nil {
			rec = &delegating.Record{}
		}
		sum := int64(0)
		for _, r := range rec.Requests {
			sum += r.Amount.Int64()
			if !r.Time.After(s.Time) {
				eng.Fail("revoking/overdue", "%s: %s of %s matured at %s and is still pending at %s", at, r.Amount, a, r.Time, s.Time)
			}
			if n[taskKey(schedule.Task{Time: r.Time, HandlerName: delegating.RevokeHookName, Data: accBytes(a)})] == 0 {
				eng.Fail("revoking/no-task", "%s: nothing is going to pay %s to %s at %s", at, r.Amount, a, r.Time)
			}
		}
		if sum != s.Bal[a].R {
			eng.Fail("revoking/sum", "%s: %s has %d set aside, the pending revocations are %d", at, a, s.Bal[a].R, sum)
		}
		if rec.NextAccrue != nil {
			if !rec.NextAccrue.After(s.Time) || rec.NextAccrue.Sub(s.Time) > oneDay(s) {
				eng.Fail("accrue/time", "%s: the next accrual of %s is %s, now it is %s", at, a, rec.NextAccrue, s.Time)
			}
			if n[taskKey(schedule.Task{Time: *rec.NextAccrue, HandlerName: delegating.AccrueHookName, Data: accBytes(a)})] != 1 {
				eng.Fail("accrue/no-task", "%s: the accrual of %s at %s is scheduled %d times", at, a, rec.NextAccrue, n[taskKey(schedule.Task{Time: *rec.NextAccrue, HandlerName: delegating.AccrueHookName, Data: accBytes(a)})])
			}
		}
	}
}

// attachDel watches every transaction and every task.
func attachDel(w *world.World, st *eng.Stats) {
	var before *world.Snap
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		l := newLedger(before)
		if len(tx.Msgs) != 1 {
			return
		}
		what := fmt.Sprintf("transaction %T", tx.Msgs[0])
		switch m := tx.Msgs[0].(type) {
		case *delegating.MsgDelegate:
			x := m.MicroCoins.Int64()
			can := before.Acc[m.Address] != (world.Acc{}) || before.Prof[m.Address] != nil
			if can {
				can = l.delegate(before, m.Address, x)
			}
			if can != (res.Code == 0) {
				eng.Fail("delegate/acceptance", "delegating %d with %+v, fee %d, minimum %d: accepted %v, should be %v (%s)", x, before.Bal[m.Address], before.P.Fee(x), before.P.Delegating.MinDelegate, res.Code == 0, can, res.Log)
			}
			if !can {
				l = newLedger(before)
			} else if part := before.Del[m.Address]; part != nil && part.NextAccrue != nil {
				st.Count("partial day paid")
			}
			l.compare(before, after, what)
		case *delegating.MsgRevoke:
			delRevoke(before, after, l, m.Address, m.MicroCoins.Int64(), before.P.Delegating.Revoke, res, st)
		case *delegating.MsgExpressRevoke:
			delRevoke(before, after, l, m.Address, m.MicroCoins.Int64(), before.P.Delegating.ExpressRevoke, res, st)
		default:
			// nobody's stake is touched
			for _, a := range sortedKeys(after.Bal) {
				x, y := before.Bal[a], after.Bal[a]
				if x.D != y.D || x.R != y.R {
					eng.Fail("stake/touched", "%s changes the stake of %s from %+v to %+v", what, a, x, y)
				}
			}
			l.compareRecords(before, after, what)
		}
		delInvariants(after, what, true)
	})
	var tb *world.Snap
	w.BeforeTask = append(w.BeforeTask, func(ctx sdk.Context, t schedule.Task) { tb = w.SnapCtx(ctx) })
	w.AfterTask = append(w.AfterTask, func(ctx sdk.Context, t schedule.Task, failed bool) {
		ta := w.SnapCtx(ctx)
		what := fmt.Sprintf("task %s due %s at %s", t.HandlerName, t.Time.UTC().Format(time.RFC3339Nano), tb.Time.UTC().Format(time.RFC3339Nano))
		l := newLedger(tb)
		switch t.HandlerName {
		case delegating.AccrueHookName:
			acc := sdk.AccAddress(t.Data).String()
			rec := l.del[acc]
			if rec == nil || rec.NextAccrue == nil || !rec.NextAccrue.Equal(t.Time) {
				st.Count("stale accrual")
			} else if dailyRate(tb, acc).Sign() == 0 {
				st.Count("accrual stops")
				rec.NextAccrue = nil
			} else {
				l.interest(tb, acc, big.NewRat(1, 1))
				st.Count("accrual")
				if n := len(validatorShares(tb, acc)); n > 0 {
					st.Count("accrual with validators' shares")
					if n > 1 {
						st.Count("accrual with several validators' shares")
					}
				}
				next := t.Time.Add(oneDay(tb))
				rec.NextAccrue = &next
				l.add = append(l.add, schedule.Task{Time: next, HandlerName: delegating.AccrueHookName, Data: t.Data})
				st.NonTrivial = true
			}
			l.compare(tb, ta, what)
		case delegating.RevokeHookName:
			acc := sdk.AccAddress(t.Data).String()
			if rec := l.del[acc]; rec != nil {
				var keep []delegating.RevokeRequest
				for _, r := range rec.Requests {
					if r.Time.After(tb.Time) {
						keep = append(keep, r)
						continue
					}
					l.move(acc, r.Amount.Int64(), 0, -r.Amount.Int64())
					st.Count("revocation paid")
				}
				rec.Requests = keep
			}
			l.compare(tb, ta, what)
		case "referral/banish":
			acc := string(t.Data)
			if d := tb.Bal[acc].D; !tb.Ref[acc].Banished && ta.Ref[acc].Banished && d > 0 {
				l.revoke(tb, acc, d, tb.P.Delegating.Revoke)
				st.Count("delegation of a banished account revoked")
			}
			l.compare(tb, ta, what)
		default:
			for _, a := range sortedKeys(ta.Bal) {
				x, y := tb.Bal[a], ta.Bal[a]
				if x.D != y.D || x.R != y.R {
					eng.Fail("stake/touched", "%s changes the stake of %s from %+v to %+v", what, a, x, y)
				}
			}
			l.compareRecords(tb, ta, what)
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) {
		delInvariants(w.Snap(), "BeginBlock", true)
	})
}

func delRevoke(before, after *world.Snap, l *ledger, acc string, x int64, p delegating.Revoke, res abci.ResponseDeliverTx, st *eng.Stats) {
	can := x > 0 && x <= before.Bal[acc].D
	if can != (res.Code == 0) {
		eng.Fail("revoke/acceptance", "revoking %d with %+v: accepted %v, should be %v (%s)", x, before.Bal[acc], res.Code == 0, can, res.Log)
	}
	if can {
		l.revoke(before, acc, x, p)
		st.NonTrivial = true
	}
	l.compare(before, after, "revocation")
}

func init() {
	ops := []eng.W{{"next", 45}, {"delegate", 30}, {"revoke", 18}, {"express", 18}, {"send", 6}, {"burn", 1}, {"tariff", 3}, {"create", 2}, {"propose", 6}, {"vote", 12}}
	eng.Register(&eng.Property{
		ID:   "D01",
		Rule: "histories with all-zero rate tables (so that the ledger alone moves coins); each delegation, revocation and maturity is compared with the predicted balances, records and tasks; non-trivial if a revocation was accepted",
		Suites: []*eng.Suite{
			{Name: "ledger", Gen: d01Gen(ops), Run: chainRun(attachDel), Quick: 400, Thorough: 20000},
		},
	})
	eng.Register(&eng.Property{
		ID:   "D02",
		Rule: "histories with interest; each accrual (daily or partial) is compared with the predicted balances of everybody, computed with exact rationals; non-trivial if a daily accrual was paid",
		Suites: []*eng.Suite{
			{Name: "interest", Gen: d02Gen(), Run: chainRun(attachDel), Quick: 160, Thorough: 8000},
		},
	})
}

func d01Gen(ops []eng.W) func(r *eng.R) *eng.Case {
	g := chainGen(60, 160, ops, func(r *eng.R, p map[string]int64) {
		p["table"] = 4
		p["n"] = r.Range(4, 12)
		p["rich"] = r.Of(0, 1, 2, 3)
		p["gov"] = r.Range(1, 2)
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		biasProposals(c.Ops, r, "min", "revoke", "portion", "portions")
		return c
	}
}

// biasProposals makes proposals mostly of kinds with the given arguments.
func biasProposals(ops []eng.Op, r *eng.R, args ...string) {
	var is []int64
	for i, k := range world.PropKinds {
		for _, a := range args {
			if k.Args == a {
				is = append(is, int64(i))
			}
		}
	}
	for i := range ops {
		if ops[i].K == "propose" && r.Chance(85) {
			ops[i].B = is[r.Intn(len(is))]
		}
	}
}

func d02Gen() func(r *eng.R) *eng.Case {
	ops := []eng.W{{"next", 50}, {"delegate", 22}, {"revoke", 8}, {"express", 8}, {"send", 5}, {"tariff", 6}, {"earn", 8}, {"earnmulti", 4},
		{"on", 10}, {"off", 2}, {"unjail", 2}, {"propose", 4}, {"vote", 8}, {"create", 2}}
	g := chainGen(40, 110, ops, func(r *eng.R, p map[string]int64) {
		if r.Chance(40) { // a network with statuses that give shares
			p["shape"], p["n"], p["inactive"], p["rich"], p["vals"] = 6, 40, r.Of(0, 5), 2, r.Range(2, 8)
			p["nodel"] = r.Of(0, 50)
			p["unjail"] = r.Of(1, 1, 2)
		} else {
			p["n"] = r.Range(6, 16)
			p["gov"] = r.Range(1, 2)
		}
		p["dust"] = r.Of(0, 0, 0, 1, 999, 1_000_000)
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		biasProposals(c.Ops, r, "min", "table", "portion", "portions")
		for i := range c.Ops { // no long gaps: months take too much time
			if op := &c.Ops[i]; op.K == "next" && eng.Mod(op.A, 16) >= 12 && r.Chance(85) {
				op.A = r.Of(3, 4, 5, 6, 7, 10, 11)
			}
		}
		return c
	}
}
