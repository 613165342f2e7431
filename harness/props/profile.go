package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/arterynetwork/artr/util"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

func oneMonth(s *world.Snap) time.Duration { return 30 * oneDay(s) }

func future(t *time.Time, now time.Time) bool { return t != nil && t.After(now) }

func copyProfile(p *profile.Profile) *profile.Profile {
	if p == nil {
		return nil
	}
	q := *p
	if p.ActiveUntil != nil {
		t := *p.ActiveUntil
		q.ActiveUntil = &t
	}
	if p.ExtraImUntil != nil {
		t := *p.ExtraImUntil
		q.ExtraImUntil = &t
	}
	return &q
}

func timeStr(t *time.Time) string {
	if t == nil {
		return "never"
	}
	return t.UTC().Format("2006-01-02T15:04:05.999999999")
}

func limitsStr(p *profile.Profile) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("storage %d/%d vpn %d/%d im +%d until %s autopay %v", p.StorageCurrent, p.StorageLimit, p.VpnCurrent, p.VpnLimit, p.ImLimitExtra, timeStr(p.ExtraImUntil), p.AutoPayImExtra)
}

// shop is the reference model of everything that is sold: it knows what a purchase costs and what it changes.
type shop struct {
	s    *world.Snap // parameters and time
	prof map[string]*profile.Profile
}

func newShop(s *world.Snap) *shop {
	m := &shop{s: s, prof: map[string]*profile.Profile{}}
	for a, p := range s.Prof {
		m.prof[a] = copyProfile(p)
	}
	return m
}

// bill is what somebody is charged.
type bill struct {
	total, fee *big.Int
}

func floorOf(r *big.Rat) *big.Int {
	z := new(big.Int)
	z.Quo(r.Num(), r.Denom()) // truncates; the prices are not negative
	return z
}

func rat(x int64) *big.Rat { return new(big.Rat).SetInt64(x) }

func mul(xs ...*big.Rat) *big.Rat {
	z := rat(1)
	for _, x := range xs {
		z.Mul(z, x)
	}
	return z
}

func (m *shop) feeOn(x *big.Int) *big.Int {
	if !x.IsInt64() {
		return new(big.Int)
	}
	return big.NewInt(m.s.P.Fee(x.Int64()))
}

func (m *shop) rate() *big.Rat { return world.Rat(m.s.P.Profile.TokenRate) }

func (m *shop) part(until time.Time) *big.Rat {
	return big.NewRat(until.Sub(m.s.Time).Nanoseconds(), oneMonth(m.s).Nanoseconds())
}

const gb = util.GBSize

// tariff pays for a month. It returns why it cannot be (as far as that does not depend on money).
func (m *shop) tariff(acc string, gbs uint32, auto bool) (b bill, why string) {
	p, ps := m.prof[acc], &m.s.P.Profile
	base := uint64(ps.BaseStorageGb) * gb
	want := uint64(gbs) * gb
	if gbs == 0 {
		want = p.StorageLimit
		if want == 0 {
			want = base
		}
	} else if gbs < ps.BaseStorageGb {
		return b, "less storage than the base"
	} else if want < p.StorageCurrent {
		return b, "less storage than is used"
	}
	u64 := func(x uint64) *big.Rat { return new(big.Rat).SetInt(new(big.Int).SetUint64(x)) }
	diff := func(x, y uint64) *big.Rat { return new(big.Rat).Sub(u64(x), u64(y)) }
	price := mul(m.rate(), rat(int64(ps.StorageGbPrice)), big.NewRat(1, gb))
	sub := floorOf(mul(m.rate(), rat(int64(ps.SubscriptionPrice))))
	extra := mul(price, diff(want, base))
	active := future(p.ActiveUntil, m.s.Time)
	if active && want != p.StorageLimit {
		extra.Add(extra, mul(price, diff(want, p.StorageLimit), m.part(*p.ActiveUntil)))
		if extra.Sign() < 0 {
			extra = rat(0)
		}
	}
	b.fee = m.feeOn(sub)
	b.total = new(big.Int).Add(sub, floorOf(extra))

	p.StorageLimit = want
	t := m.s.Time
	if active || auto {
		t = *p.ActiveUntil
	}
	t = t.Add(oneMonth(m.s))
	p.ActiveUntil = &t
	if !active || auto {
		m.reset(acc)
	}
	return b, ""
}

// reset is the beginning of a paid month.
func (m *shop) reset(acc string) {
	p, ps := m.prof[acc], &m.s.P.Profile
	base := uint64(ps.BaseVpnGb) * gb
	if p.VpnCurrent > base {
		over := p.VpnCurrent - base
		if over > p.VpnLimit {
			over = p.VpnLimit
		}
		p.VpnLimit -= over
	}
	p.VpnCurrent = 0
	if p.VpnLimit < base {
		p.VpnLimit = base
	}
	if p.StorageLimit == 0 {
		p.StorageLimit = uint64(ps.BaseStorageGb) * gb
	}
}

func (m *shop) priced(r *big.Rat) bill {
	t := floorOf(r)
	return bill{t, m.feeOn(t)}
}

// prolong pays for the next month of extra messenger space.
func (m *shop) prolong(acc string) (b bill, why string) {
	p := m.prof[acc]
	if p.ImLimitExtra == 0 || p.ExtraImUntil == nil {
		return b, "nothing to prolong"
	}
	b = m.priced(mul(m.rate(), new(big.Rat).SetInt(new(big.Int).SetUint64(p.ImLimitExtra)), rat(int64(m.s.P.Profile.StorageGbPrice))))
	if b.total.Sign() <= 0 {
		return b, "free of charge"
	}
	t := p.ExtraImUntil.Add(oneMonth(m.s))
	p.ExtraImUntil = &t
	return b, ""
}

func add64(x uint64, gbs uint32, unit uint64) (uint64, bool) {
	z := new(big.Int).Mul(new(big.Int).SetUint64(unit), big.NewInt(int64(gbs)))
	z.Add(z, new(big.Int).SetUint64(x))
	return z.Uint64(), z.Cmp(big.NewInt(math.MaxInt64/gb*int64(unit))) <= 0
}

// apply executes one message on the profiles. touches tells that the message concerns them at all.
func (m *shop) apply(msg sdk.Msg) (b bill, why string, touches bool) {
	zero := func() { b = bill{new(big.Int), new(big.Int)} }
	acc := actor(msg)
	p, ps := m.prof[acc], &m.s.P.Profile
	touches = true
	switch x := msg.(type) {
	case *profile.MsgPayTariff, *profile.MsgBuyStorage, *profile.MsgBuyVpn, *profile.MsgBuyImExtraStorage, *profile.MsgGiveStorageUp,
		*profile.MsgGiveUpImExtra, *profile.MsgProlongImExtra, *profile.MsgUpdateProfile:
		if p == nil {
			return b, "there is no profile", true
		}
	case *profile.MsgSetStorageCurrent:
		if m.prof[x.Address] == nil {
			return b, "there is no profile", true
		}
	case *profile.MsgSetVpnCurrent:
		if m.prof[x.Address] == nil {
			return b, "there is no profile", true
		}
	}
	nothing := false
	switch x := msg.(type) {
	case *profile.MsgBuyStorage:
		nothing = x.ExtraStorage == 0
	case *profile.MsgBuyVpn:
		nothing = x.ExtraTraffic == 0
	case *profile.MsgBuyImExtraStorage:
		nothing = x.ExtraStorage == 0
	case *profile.MsgGiveStorageUp:
		nothing = x.Amount == 0
	}
	if nothing {
		return b, "nothing is asked for", true
	}
	switch x := msg.(type) {
	case *profile.MsgPayTariff:
		b, why = m.tariff(acc, x.StorageAmount, false)
	case *profile.MsgBuyStorage:
		if !future(p.ActiveUntil, m.s.Time) {
			return b, "not active", true
		}
		b = m.priced(mul(m.rate(), rat(int64(x.ExtraStorage)), rat(int64(ps.StorageGbPrice)), m.part(*p.ActiveUntil)))
		if b.total.Sign() <= 0 {
			return b, "free of charge", true
		}
		if base := uint64(ps.BaseStorageGb) * gb; p.StorageLimit < base {
			p.StorageLimit = base
		}
		l, ok := add64(p.StorageLimit, x.ExtraStorage, gb)
		if !ok {
			return b, "more storage than can be counted", true
		}
		p.StorageLimit = l
	case *profile.MsgBuyVpn:
		if !future(p.ActiveUntil, m.s.Time) {
			return b, "not active", true
		}
		b = m.priced(mul(m.rate(), rat(int64(x.ExtraTraffic)), rat(int64(ps.VpnGbPrice))))
		l, ok := add64(p.VpnLimit, x.ExtraTraffic, gb)
		if !ok {
			return b, "more traffic than can be counted", true
		}
		p.VpnLimit = l
	case *profile.MsgBuyImExtraStorage:
		on := p.ImLimitExtra != 0 && future(p.ExtraImUntil, m.s.Time)
		part := rat(1)
		if on {
			part = m.part(*p.ExtraImUntil)
		}
		b = m.priced(mul(m.rate(), rat(int64(x.ExtraStorage)), rat(int64(ps.StorageGbPrice)), part))
		if b.total.Sign() <= 0 {
			return b, "free of charge", true
		}
		have := uint64(0)
		if on {
			have = p.ImLimitExtra
		} else {
			t := m.s.Time.Add(oneMonth(m.s))
			p.ExtraImUntil = &t
		}
		l, ok := add64(have, x.ExtraStorage, 1)
		if !ok {
			return b, "more space than can be counted", true
		}
		p.ImLimitExtra = l
	case *profile.MsgGiveStorageUp:
		zero()
		l := uint64(x.Amount) * gb
		if base := uint64(ps.BaseStorageGb) * gb; l < base {
			l = base
		}
		if l < p.StorageCurrent {
			return b, "less than is used", true
		}
		if l >= p.StorageLimit {
			return b, "not less than it is", true
		}
		p.StorageLimit = l
	case *profile.MsgGiveUpImExtra:
		zero()
		have := p.ImLimitExtra
		if !future(p.ExtraImUntil, m.s.Time) {
			have = 0
		}
		if uint64(x.Amount) >= have {
			return b, "not less than it is", true
		}
		p.ImLimitExtra = uint64(x.Amount)
		if x.Amount == 0 {
			p.ExtraImUntil = nil
		}
	case *profile.MsgProlongImExtra:
		b, why = m.prolong(acc)
	case *profile.MsgUpdateProfile:
		zero()
		for _, u := range x.Updates {
			switch u.Field {
			case profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY:
				p.AutoPay = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_NODING:
				p.Noding = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_STORAGE:
				p.Storage = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_VALIDATOR:
				p.Validator = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_VPN:
				p.Vpn = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY:
				p.AutoPayImExtra = u.GetBool()
			case profile.MsgUpdateProfile_Update_FIELD_NICKNAME:
				p.Nickname = strings.TrimSpace(u.GetString_())
			}
		}
	case *profile.MsgCreateAccount:
		zero()
		n := &profile.Profile{}
		if q := x.Profile; q != nil {
			n.AutoPay, n.Noding, n.Storage, n.Validator, n.Vpn, n.AutoPayImExtra = q.AutoPay, q.Noding, q.Storage, q.Validator, q.Vpn, q.AutoPayImExtra
			n.Nickname = strings.TrimSpace(q.Nickname)
		}
		m.prof[x.Address] = n
	case *profile.MsgSetStorageCurrent:
		zero()
		m.prof[x.Address].StorageCurrent = x.Value
	case *profile.MsgSetVpnCurrent:
		zero()
		m.prof[x.Address].VpnCurrent = x.Value
	default:
		return b, "", false
	}
	return b, why, true
}

func isPurchase(m sdk.Msg) bool {
	switch m.(type) {
	case *profile.MsgBuyStorage, *profile.MsgBuyVpn, *profile.MsgBuyImExtraStorage, *profile.MsgProlongImExtra,
		*profile.MsgGiveStorageUp, *profile.MsgGiveUpImExtra:
		return true
	}
	return false
}

func isTariff(m sdk.Msg) bool { _, ok := m.(*profile.MsgPayTariff); return ok }

// charge checks who paid whom.
func charge(before, after *world.Snap, acc string, b bill, extraFee int64, sig, what string) {
	company := before.P.Referral.CompanyAccounts.ForSubscription
	exp := map[string]int64{}
	t, f := b.total.Int64(), b.fee.Int64()
	exp[acc] -= t + extraFee
	exp[company] += t - f
	exp[splittable()] += f
	exp[feeCollector()] += extraFee
	for _, a := range sortedKeys(union2(before.Bal, after.Bal)) {
		if d := after.Bal[a].U - before.Bal[a].U; d != exp[a] {
			eng.Fail(sig+"/charge", "%s: the price is %d with a fee of %d; the balance of %s (payer %s, company %s) changes by %d instead of %d", what, t, f, a, acc, company, d, exp[a])
		}
		if before.Bal[a].D != after.Bal[a].D || before.Bal[a].R != after.Bal[a].R {
			eng.Fail(sig+"/charge", "%s: the stake of %s changes from %+v to %+v", what, a, before.Bal[a], after.Bal[a])
		}
	}
}

func union2[V any](a, b map[string]V) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

func payable(b bill, have int64) bool { return b.total.IsInt64() && b.total.Int64() <= have }

// paidUp compares the paid periods and the activity as the referral part sees it.
func paidUp(m *shop, s *world.Snap, what string) {
	for _, a := range sortedKeys(s.Prof) {
		if e, g := m.prof[a], s.Prof[a]; e == nil {
			eng.Fail("period/profile", "%s: %s has got a profile", what, a)
		} else if timeStr(e.ActiveUntil) != timeStr(g.ActiveUntil) {
			eng.Fail("period/until", "%s: %s is paid until %s, it should be %s", what, a, timeStr(g.ActiveUntil), timeStr(e.ActiveUntil))
		}
	}
}

func activity(s *world.Snap, what string) {
	for _, a := range sortedKeys(s.Ref) {
		on := false
		if p := s.Prof[a]; p != nil {
			on = future(p.ActiveUntil, s.Time)
		}
		if s.Ref[a].Active != on {
			until := "never"
			if p := s.Prof[a]; p != nil {
				until = timeStr(p.ActiveUntil)
			}
			eng.Fail("period/active", "%s: %s is paid until %s, now is %s, and the referral tree has active=%v", what, a, until, timeStr(&s.Time), s.Ref[a].Active)
		}
	}
}

func sameLimits(m *shop, s *world.Snap, what string) {
	for _, a := range sortedKeys(s.Prof) {
		if e, g := m.prof[a], s.Prof[a]; e == nil {
			eng.Fail("limits/profile", "%s: %s has got a profile", what, a)
		} else if limitsStr(e) != limitsStr(g) {
			eng.Fail("limits/"+limitField(e, g), "%s: %s has %s, it should have %s", what, a, limitsStr(g), limitsStr(e))
		}
	}
}

func limitField(e, g *profile.Profile) string {
	switch {
	case e.StorageLimit != g.StorageLimit:
		return "storage"
	case e.VpnLimit != g.VpnLimit:
		return "vpn"
	case e.StorageCurrent != g.StorageCurrent || e.VpnCurrent != g.VpnCurrent:
		return "usage"
	}
	return "im"
}

var taskStores = []string{schedule.StoreKey, auth.StoreKey, "upgrade", referral.StoreKey, referral.IndexStoreKey, delegating.MainStoreKey, voting.StoreKey, noding.StoreKey, noding.IdxStoreKey, earning.StoreKey}

// attachShop checks everything that is sold. period: the subscription (P02); otherwise the limits (P03).
func attachShop(period bool) func(w *world.World, st *eng.Stats) {
	return func(w *world.World, st *eng.Stats) {
		sig := "limits"
		mine := isPurchase
		compare := sameLimits
		task := profile.RefreshImHookName
		if period {
			sig, mine, compare, task = "period", isTariff, paidUp, profile.RefreshHookName
		}
		var before *world.Snap
		w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
		w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
			after := w.Snap()
			what := msgNames(tx)
			m := newShop(before)
			var b bill
			why, concerned := "", false
			for _, msg := range tx.Msgs {
				if len(tx.Msgs) == 1 && !mine(msg) && !isTariff(msg) {
					if _, ok := msg.(*profile.MsgUpdateProfile); !ok && res.Code != 0 {
						continue // refusals of other messages are none of this property's business
					}
				}
				var w1 string
				var t bool
				b, w1, t = m.apply(msg)
				if t && mine(msg) {
					concerned = true
				}
				if why == "" {
					why = w1
				}
			}
			if res.Code != 0 {
				m = newShop(before)
			}
			compare(m, after, what)
			if period {
				activity(after, what)
			}
			if !concerned {
				return
			}
			if res.Code == 0 {
				if why != "" && len(tx.Msgs) == 1 {
					eng.Fail(sig+"/accepted", "%s by %s is accepted, but: %s", what, actor(tx.Msgs[0]), why)
				}
				if len(tx.Msgs) == 1 {
					acc := actor(tx.Msgs[0])
					x := tx.Fee.AmountOf(util.ConfigMainDenom).Int64()
					if !payable(b, before.Bal[acc].U-x) {
						eng.Fail(sig+"/accepted", "%s by %s costs %s and is accepted with a balance of %d", what, acc, b.total, before.Bal[acc].U)
					}
					charge(before, after, acc, b, x, sig, what)
					st.Count("paid " + what)
					st.NonTrivial = true
				}
				return
			}
			if plain(before, tx) && why == "" {
				acc := actor(tx.Msgs[0])
				if payable(b, before.Bal[acc].U) && (b.total.Cmp(b.fee) > 0 || !isPurchase(tx.Msgs[0]) && !isTariff(tx.Msgs[0]) || b.total.Sign() == 0 && !isTariff(tx.Msgs[0])) {
					eng.Fail(sig+"/refused", "%s by %s costs %s of %d and is refused: %s", what, acc, b.total, before.Bal[acc].U, res.Log)
				}
				st.Count("too expensive " + what)
			} else if why != "" {
				st.Count("refused: " + why)
			}
		})

		// Renewals, one by one.
		var tb *world.Snap
		var exp *shop // the profiles as the renewals have left them
		var prev time.Time
		done := map[string]bool{}
		w.BeforeBegin = append(w.BeforeBegin, func(req abci.RequestBeginBlock) {
			exp, done = nil, map[string]bool{}
			if w.Height > 1 {
				s := w.Snap()
				exp, prev = newShop(s), s.Time
			}
		})
		w.BeforeTask = append(w.BeforeTask, func(ctx sdk.Context, t schedule.Task) {
			if t.HandlerName == profile.RefreshHookName || t.HandlerName == profile.RefreshImHookName {
				tb = w.SnapCtx(ctx, taskStores...)
				if exp != nil {
					exp.s = tb
					compare(exp, tb, "tasks before "+taskKey(t))
				}
			}
		})
		w.AfterTask = append(w.AfterTask, func(ctx sdk.Context, t schedule.Task, failed bool) {
			if t.HandlerName != profile.RefreshHookName && t.HandlerName != profile.RefreshImHookName {
				return
			}
			ta := w.SnapCtx(ctx, taskStores...)
			acc := sdk.AccAddress(t.Data).String()
			m := newShop(tb)
			what := "renewal " + t.HandlerName + " of " + acc
			p := m.prof[acc]
			if p == nil {
				return
			}
			b := bill{new(big.Int), new(big.Int)}
			sure := true
			if t.HandlerName == profile.RefreshHookName {
				done[acc] = true
				switch {
				case future(p.ActiveUntil, tb.Time):
					m.reset(acc)
					st.Count("month of several")
				case p.AutoPay:
					var bb bill
					bb, _ = m.tariff(acc, 0, true)
					switch {
					case !payable(bb, tb.Bal[acc].U):
						m = newShop(tb)
						st.Count("autopay without money")
					case bb.total.Cmp(bb.fee) <= 0:
						sure = false
					default:
						b = bb
						st.Count("autopay")
						st.NonTrivial = true
					}
				default:
					st.Count("lapsed")
				}
			} else {
				ok := p.AutoPayImExtra
				if future(p.ExtraImUntil, tb.Time) {
					// Paid for already, whatever is left of what was paid for before
					ok = true
					st.Count("im task before its time")
				} else if ok {
					bb, why := m.prolong(acc)
					switch {
					case why == "free of charge":
						sure = false
					case why != "" || !payable(bb, tb.Bal[acc].U):
						ok = false
						m = newShop(tb)
						p = m.prof[acc]
						st.Count("im autopay without money")
					default:
						b = bb
						st.Count("im autopay")
						if !period {
							st.NonTrivial = true
						}
					}
				}
				if !ok {
					p.ImLimitExtra, p.ExtraImUntil, p.AutoPayImExtra = 0, nil, false
				}
			}
			if !sure {
				exp = newShop(ta)
				return
			}
			compare(m, ta, what)
			if t.HandlerName == task || !period {
				charge(tb, ta, acc, b, 0, sig, what)
			}
			exp = newShop(ta)
		})
		w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, res abci.ResponseBeginBlock) {
			s := w.Snap()
			if exp != nil && w.HooksTasks {
				compare(exp, s, "begin of block")
				if period {
					for _, a := range sortedKeys(s.Prof) {
						// whoever's period ended must have been dealt with
						if u := exp.prof[a].ActiveUntil; u != nil && u.After(prev) && !u.After(s.Time) && !done[a] {
							eng.Fail("period/forgotten", "the paid period of %s ended at %s and nothing happened in the block of %s", a, timeStr(u), timeStr(&s.Time))
						}
					}
				} else {
					for _, a := range sortedKeys(s.Prof) {
						if p := s.Prof[a]; p.ImLimitExtra != 0 && p.ExtraImUntil != nil && !p.ExtraImUntil.After(s.Time) && p.ExtraImUntil.After(prev) && !freeIm(s, p) {
							eng.Fail("limits/forgotten", "the extra messenger space of %s ended at %s and nothing happened in the block of %s", a, timeStr(p.ExtraImUntil), timeStr(&s.Time))
						}
					}
				}
			}
			if period {
				activity(s, "begin of block")
			}
		})
		var be *world.Snap
		w.BeforeEnd = append(w.BeforeEnd, func() { be = w.Snap() })
		w.AfterCommit = append(w.AfterCommit, func() {
			compare(newShop(be), w.Snap(), "end of block")
			if period {
				activity(w.Snap(), "end of block")
			}
		})
	}
}

func freeIm(s *world.Snap, p *profile.Profile) bool {
	m := &shop{s: s, prof: map[string]*profile.Profile{"x": copyProfile(p)}}
	_, why := m.prolong("x")
	return why != ""
}

// ------------------------------------------------------------------------------------------------------------- P01

func nickOf(p *profile.Profile) string {
	if p == nil {
		return ""
	}
	return p.Nickname
}

func nickKey(n string) string { return strings.ToLower(strings.TrimSpace(n)) }

// badNick tells why a nickname written by a user is not acceptable.
func badNick(n string) string {
	switch t := strings.TrimSpace(n); {
	case n == "":
		return ""
	case strings.ContainsAny(n, " */:'\"=[],."):
		return "forbidden characters"
	case len(t) < 3:
		return "too short"
	case strings.HasPrefix(strings.ToUpper(t), "ARTR-"):
		return "looks like a card number"
	}
	return ""
}

func checkNames(s *world.Snap, at string) {
	seen := map[string]string{}
	cards := map[uint64]string{}
	for _, a := range sortedKeys(s.Prof) {
		p := s.Prof[a]
		if k := nickKey(p.Nickname); k != "" {
			if o, ok := seen[k]; ok {
				eng.Fail("name/shared", "%s: %s and %s share the nickname %q", at, o, a, p.Nickname)
			}
			seen[k] = a
			if s.Alias[k] != a {
				eng.Fail("name/lost", "%s: %s has the nickname %q, which leads to %q", at, a, p.Nickname, s.Alias[k])
			}
		}
		if o, ok := cards[p.CardNumber]; ok {
			eng.Fail("card/shared", "%s: %s and %s share the card number %d", at, o, a, p.CardNumber)
		}
		cards[p.CardNumber] = a
		if s.Card[p.CardNumber] != a {
			eng.Fail("card/lost", "%s: %s has the card %d, which leads to %q", at, a, p.CardNumber, s.Card[p.CardNumber])
		}
	}
	for _, k := range sortedKeys(s.Alias) {
		if seen[k] == "" {
			eng.Fail("name/stale", "%s: nobody has the nickname %q any more, and it leads to %s", at, k, s.Alias[k])
		}
	}
	for c, a := range s.Card {
		if cards[c] == "" {
			eng.Fail("card/stale", "%s: nobody has the card %d, and it leads to %s", at, c, a)
		}
	}
}

func attachP01(w *world.World, st *eng.Stats) {
	cards := map[string]uint64{}
	names := map[string]bool{}
	var before *world.Snap
	check := func(at string) {
		s := w.Snap()
		checkNames(s, at)
		for _, a := range sortedKeys(s.Prof) {
			c := s.Prof[a].CardNumber
			if o, ok := cards[a]; ok && o != c {
				eng.Fail("card/changed", "%s: the card number of %s changes from %d to %d", at, a, o, c)
			}
			cards[a] = c
		}
		for a := range cards {
			if s.Prof[a] == nil {
				eng.Fail("card/gone", "%s: the profile of %s is gone", at, a)
			}
		}
	}
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) { check("begin of block") })
	w.BeforeTx = append(w.BeforeTx, func(*world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		check("after " + msgNames(tx))
		after := w.Snap()
		exp := map[string]string{}
		for a, p := range before.Prof {
			exp[a] = p.Nickname
		}
		bad, taken, odd, cost := "", "", false, int64(0)
		for _, m := range tx.Msgs {
			switch x := m.(type) {
			case *profile.MsgUpdateProfile:
				last := ""
				for _, u := range x.Updates { // of several nicknames the last one counts
					if u.Field == profile.MsgUpdateProfile_Update_FIELD_NICKNAME {
						n := u.GetString_()
						names[n] = true
						if b := badNick(n); b != "" {
							odd = true
						}
						last = n
						exp[x.Address] = strings.TrimSpace(n)
					}
				}
				if b := badNick(last); b != "" {
					bad = fmt.Sprintf("%q: %s", last, b)
				}
				if o := before.Alias[nickKey(last)]; o != "" && o != x.Address {
					taken = fmt.Sprintf("%q belongs to %s", last, o)
				}
				if n := exp[x.Address]; n != nickOf(before.Prof[x.Address]) && n != "" {
					cost = 1_000_000
				}
			case *profile.MsgCreateAccount:
				if x.Profile != nil {
					n := x.Profile.Nickname
					names[n] = true
					if b := badNick(n); b != "" {
						bad = fmt.Sprintf("%q: %s", n, b)
					}
					if o := before.Alias[nickKey(n)]; o != "" && nickKey(n) != "" {
						taken = fmt.Sprintf("%q belongs to %s", n, o)
					}
					exp[x.Address] = strings.TrimSpace(n)
				} else {
					exp[x.Address] = ""
				}
			}
		}
		if res.Code == 0 {
			if bad != "" {
				eng.Fail("name/malformed", "%s accepts the nickname %s", msgNames(tx), bad)
			}
			if taken != "" && len(tx.Msgs) == 1 {
				eng.Fail("name/taken", "%s accepts a nickname, although %s", msgNames(tx), taken)
			}
		} else {
			for a, p := range before.Prof {
				exp[a] = p.Nickname
			}
		}
		for _, a := range sortedKeys(after.Prof) {
			if g := after.Prof[a].Nickname; g != exp[a] {
				eng.Fail("name/set", "%s: %s is called %q, it should be %q", msgNames(tx), a, g, exp[a])
			}
			if before.Prof[a] != nil && before.Prof[a].Nickname != exp[a] && res.Code == 0 {
				st.Count("renamed")
				st.NonTrivial = true
			}
		}
		if x, ok := tx.Msgs[0].(*profile.MsgUpdateProfile); ok && plain(before, tx) && res.Code != 0 {
			if before.Prof[x.Address] != nil && bad == "" && taken == "" && !odd && before.Bal[x.Address].U >= cost {
				eng.Fail("name/refused", "%s %v of %s is refused: %s", msgNames(tx), x.Updates, x.Address, res.Log)
			}
			st.Count("refused name")
		}
	})
	rot := 0
	w.AfterCommit = append(w.AfterCommit, func() {
		check("end of block")
		s := w.Snap()
		q := newProfileQueries(w)
		accs := sortedKeys(s.Prof)
		for i := 0; i < 6; i++ { // a few in turns
			a := accs[rot%len(accs)]
			rot++
			p := s.Prof[a]
			q.byCard(p.CardNumber, a)
			q.byCard(p.CardNumber+1<<40, "")
			if n := p.Nickname; n != "" {
				q.byName(n, a)
				q.byName(strings.ToLower(n), a)
				if u := strings.ToUpper(n); strings.ToLower(u) == strings.ToLower(n) {
					q.byName(u, a)
				}
			}
			q.byAddr(a)
		}
		for _, n := range sortedKeys(names) {
			if k := strings.ToLower(n); s.Alias[k] == "" && n != "" && strings.TrimSpace(n) == n {
				q.byName(n, "")
			}
		}
		q.byCard(0, s.Card[0])
	})
}

type profileQueries struct{ w *world.World }

func newProfileQueries(w *world.World) profileQueries { return profileQueries{w} }

func (q profileQueries) query(path string, req interface{ Marshal() ([]byte, error) }, res interface{ Unmarshal([]byte) error }) bool {
	bz, err := req.Marshal()
	if err != nil {
		eng.Bug("cannot encode a query: %v", err)
	}
	r := q.w.App.Query(abci.RequestQuery{Path: path, Data: bz})
	if r.Code != 0 {
		return false
	}
	if err := res.Unmarshal(r.Value); err != nil {
		eng.Fail("query/answer", "%s: the answer cannot be decoded: %v", path, err)
	}
	return true
}

func (q profileQueries) same(what, acc, got string, p *profile.Profile) {
	if e := q.w.Snap().Prof[acc]; acc != got || e.String() != p.String() {
		eng.Fail("query/profile", "%s: got %s %v, it should be %s %v", what, got, p, acc, e)
	}
}

func (q profileQueries) byName(n, acc string) {
	var res profile.GetByNicknameResponse
	ok := q.query("/artery.profile.v1beta1.Query/GetByNickname", &profile.GetByNicknameRequest{Nickname: n}, &res)
	what := fmt.Sprintf("profile by nickname %q", n)
	if ok != (acc != "") {
		eng.Fail("query/name", "%s: found %v (%s), it should lead to %q", what, ok, res.Address, acc)
	}
	if ok {
		q.same(what, acc, res.Address, &res.Profile)
	}
}

func (q profileQueries) byCard(n uint64, acc string) {
	var res profile.GetByCardNumberResponse
	ok := q.query("/artery.profile.v1beta1.Query/GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: n}, &res)
	what := fmt.Sprintf("profile by card number %d", n)
	if ok != (acc != "") {
		eng.Fail("query/card", "%s: found %v (%s), it should lead to %q", what, ok, res.Address, acc)
	}
	if ok {
		q.same(what, acc, res.Address, &res.Profile)
	}
}

func (q profileQueries) byAddr(acc string) {
	var res profile.GetByAddressResponse
	ok := q.query("/artery.profile.v1beta1.Query/GetByAddress", &profile.GetByAddressRequest{Address: acc}, &res)
	if !ok {
		eng.Fail("query/address", "there is no profile of %s to be found", acc)
	}
	q.same("profile by address", acc, acc, &res.Profile)
}

// ------------------------------------------------------------------------------------------------------------- P04

// marks is the reference model of the earner marks.
type marks map[string]earning.Timestamps

func marksOf(s *world.Snap) marks {
	m := marks{}
	for a, t := range s.Earn {
		m[a] = *t
	}
	return m
}

func (m marks) apply(msg sdk.Msg) bool {
	set := func(e earning.Earner) {
		if e.Vpn == nil && e.Storage == nil {
			delete(m, e.Account)
		} else {
			m[e.Account] = earning.Timestamps{Vpn: e.Vpn, Storage: e.Storage}
		}
	}
	switch x := msg.(type) {
	case *earning.MsgSet:
		set(x.Earner)
	case *earning.MsgSetMultiple:
		for _, e := range x.Earners {
			set(e)
		}
	default:
		return false
	}
	return true
}

// expired drops what does not count any more.
func (m marks) expired(s *world.Snap) marks {
	r := marks{}
	live := func(t *time.Time) *time.Time {
		if t != nil && t.Add(2*oneDay(s)).After(s.Time) {
			return t
		}
		return nil
	}
	for a, t := range m {
		x := earning.Timestamps{Vpn: live(t.Vpn), Storage: live(t.Storage)}
		if x.Vpn != nil || x.Storage != nil {
			r[a] = x
		}
	}
	return r
}

func markStr(t earning.Timestamps) string { return timeStr(t.Vpn) + "/" + timeStr(t.Storage) }

// sameMarks: the live marks are as expected, and expired ones are at most as many.
func sameMarks(e marks, s *world.Snap, what string) {
	g := marksOf(s)
	for _, a := range sortedKeys(g) {
		x, ok := e[a]
		bad := !ok
		for _, p := range [][2]*time.Time{{x.Vpn, g[a].Vpn}, {x.Storage, g[a].Storage}} {
			bad = bad || p[1] != nil && timeStr(p[0]) != timeStr(p[1])
		}
		if bad {
			eng.Fail("marks/set", "%s: %s is marked (vpn/storage) %s, it should be %s", what, a, markStr(g[a]), markStr(x))
		}
	}
	el, gl := e.expired(s), g.expired(s)
	for _, a := range sortedKeys(el) {
		if markStr(el[a]) != markStr(gl[a]) {
			eng.Fail("marks/lost", "%s: %s should be marked (vpn/storage) %s and is %s", what, a, markStr(el[a]), markStr(gl[a]))
		}
	}
}

func attachP04(w *world.World, st *eng.Stats) {
	var before *world.Snap
	var lists map[string][]string
	roles := func(s *world.Snap) map[string][]string {
		return map[string][]string{"rate": s.P.Profile.TokenRateSigners, "storage": s.P.Profile.StorageSigners, "vpn": s.P.Profile.VpnSigners, "earning": s.P.Earning.Signers}
	}
	role := func(m sdk.Msg) string {
		switch m.(type) {
		case *profile.MsgSetRate:
			return "rate"
		case *profile.MsgSetStorageCurrent:
			return "storage"
		case *profile.MsgSetVpnCurrent:
			return "vpn"
		case *earning.MsgSet, *earning.MsgSetMultiple:
			return "earning"
		}
		return ""
	}
	state := func(s *world.Snap) (string, map[string]string) {
		m := map[string]string{}
		for a, p := range s.Prof {
			m[a] = fmt.Sprintf("%d/%d", p.StorageCurrent, p.VpnCurrent)
		}
		return world.Rat(s.P.Profile.TokenRate).String(), m
	}
	// unchanged: nothing but the monthly reset of the traffic happens outside transactions of the operators
	unchanged := func(b, a *world.Snap, what string) {
		r1, m1 := state(b)
		r2, m2 := state(a)
		if r1 != r2 {
			eng.Fail("operator/rate", "%s changes the rate from %s to %s", what, r1, r2)
		}
		for _, x := range sortedKeys(m2) {
			if m1[x] == m2[x] || m1[x] == "" {
				continue
			}
			if reset := fmt.Sprintf("%d/0", b.Prof[x].StorageCurrent); m2[x] != reset {
				eng.Fail("operator/usage", "%s changes the usage (storage/vpn) of %s from %s to %s", what, x, m1[x], m2[x])
			}
		}
		sameMarks(marksOf(b), a, what)
	}
	w.BeforeTx = append(w.BeforeTx, func(*world.Tx) { before = w.Snap(); lists = roles(before) })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		what := msgNames(tx)
		any := false
		for _, m := range tx.Msgs {
			any = any || role(m) != ""
		}
		if !any || res.Code != 0 {
			unchanged(before, after, what)
			if any && plain(before, tx) {
				if m := tx.Msgs[0]; contains(lists[role(m)], actor(m)) && settable(before, m) {
					eng.Fail("operator/refused", "%s by %s, who is appointed, is refused: %s", what, actor(m), res.Log)
				}
				st.Count("refused " + what)
			}
			return
		}
		// Accepted. A vote in the same transaction may have changed a list.
		now := roles(after)
		sh := newShop(before)
		mk := marksOf(before)
		rate := world.Rat(before.P.Profile.TokenRate)
		for _, m := range tx.Msgs {
			if r := role(m); r != "" {
				if !contains(lists[r], actor(m)) && !contains(now[r], actor(m)) {
					eng.Fail("operator/stranger", "%s by %s, who is not appointed for %s, is accepted", what, actor(m), r)
				}
				st.Count("set " + r)
				st.NonTrivial = true
			}
			if x, ok := m.(*profile.MsgSetRate); ok {
				rate = world.Rat(x.Value)
			}
			sh.apply(m)
			mk.apply(m)
		}
		if g := world.Rat(after.P.Profile.TokenRate); g.Cmp(rate) != 0 {
			eng.Fail("operator/value", "%s sets the rate to %s instead of %s", what, g, rate)
		}
		for _, a := range sortedKeys(after.Prof) {
			if e, g := sh.prof[a], after.Prof[a]; e != nil && (e.StorageCurrent != g.StorageCurrent || e.VpnCurrent != g.VpnCurrent) {
				eng.Fail("operator/value", "%s sets the usage (storage/vpn) of %s to %d/%d instead of %d/%d", what, a, g.StorageCurrent, g.VpnCurrent, e.StorageCurrent, e.VpnCurrent)
			}
		}
		sameMarks(mk, after, what)
		// Nothing else moves.
		if len(tx.Msgs) == 1 {
			for _, k := range sortedKeys(settings(before)) {
				if x, y := settings(before)[k], settings(after)[k]; x != y && k != "rate" {
					eng.Fail("operator/other", "%s changes %s from %s to %s", what, k, x, y)
				}
			}
		}
	})
	var bb *world.Snap
	w.BeforeBegin = append(w.BeforeBegin, func(abci.RequestBeginBlock) {
		bb = nil
		if w.Height > 1 {
			bb = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) {
		if bb != nil {
			unchanged(bb, w.Snap(), "begin of block")
		}
	})
	var be *world.Snap
	w.BeforeEnd = append(w.BeforeEnd, func() { be = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() { unchanged(be, w.Snap(), "end of block") })
}

// settable: whatever an operator wants to set can be set.
func settable(s *world.Snap, m sdk.Msg) bool {
	switch x := m.(type) {
	case *profile.MsgSetStorageCurrent:
		return s.Prof[x.Address] != nil
	case *profile.MsgSetVpnCurrent:
		return s.Prof[x.Address] != nil
	case *earning.MsgSetMultiple:
		return len(x.Earners) > 0
	}
	return true
}

// ------------------------------------------------------------------------------------------------------------- E01

func attachE01(w *world.World, st *eng.Stats) {
	mk := marks{}
	started := false
	q := newProfileQueries(w)
	check := func(at string) {
		s := w.Snap()
		if !started {
			mk, started = marksOf(s), true
		}
		sameMarks(mk, s, at)
	}
	active := func(at string) {
		s := w.Snap()
		live := mk.expired(s)
		ctx := w.Scratch()
		k := w.App.GetEarningKeeper()
		for i := 0; i < w.Known()+world.Strangers; i++ {
			u := world.U(i)
			v, g, err := k.IsActiveEarner(ctx, u.Addr)
			if err != nil {
				eng.Fail("marks/active", "%s: activity of %s: %v", at, u.B, err)
			}
			if x := live[u.B]; v != (x.Vpn != nil) || g != (x.Storage != nil) {
				eng.Fail("marks/active", "%s: at %s the activity of %s (vpn/storage) is %v/%v with marks %s", at, timeStr(&s.Time), u.B, v, g, markStr(mk[u.B]))
			}
			if v != g {
				st.Count("one of two active")
			}
		}
	}
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) {
		check("begin of block")
		active("begin of block")
	})
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if res.Code == 0 {
			for _, m := range tx.Msgs {
				if mk.apply(m) {
					st.Count("marked")
					st.NonTrivial = true
				}
			}
		}
		check(msgNames(tx))
	})
	w.AfterCommit = append(w.AfterCommit, func() {
		check("end of block")
		s := w.Snap()
		g := marksOf(s)
		// everybody at once
		var req earning.GetMultipleRequest
		for i := 0; i < w.Known()+world.Strangers; i++ {
			req.Addresses = append(req.Addresses, world.U(i).B)
		}
		var res earning.GetMultipleResponse
		if !q.query("/artery.earning.v1beta1.Query/GetMultiple", &req, &res) || len(res.Earners) != len(req.Addresses) {
			eng.Fail("marks/query", "asking for %d earners gives %d", len(req.Addresses), len(res.Earners))
		}
		for i, e := range res.Earners {
			if e.Account != req.Addresses[i] || timeStr(e.Vpn) != timeStr(g[e.Account].Vpn) || timeStr(e.Storage) != timeStr(g[e.Account].Storage) {
				eng.Fail("marks/query", "asking for %s gives %v, the marks are %s", req.Addresses[i], e, markStr(g[req.Addresses[i]]))
			}
		}
		var one earning.GetResponse
		a := req.Addresses[int(s.Height)%len(req.Addresses)]
		if !q.query("/artery.earning.v1beta1.Query/Get", &earning.GetRequest{Address: a}, &one) || one.Earner.Account != a ||
			timeStr(one.Earner.Vpn) != timeStr(g[a].Vpn) || timeStr(one.Earner.Storage) != timeStr(g[a].Storage) {
			eng.Fail("marks/query", "asking for %s gives %v, the marks are %s", a, one, markStr(g[a]))
		}
		// page by page
		limit := int32(1 + s.Height%5)
		seen := map[string]bool{}
		var last []string
		for page := int32(1); ; page++ {
			var l earning.ListResponse
			if !q.query("/artery.earning.v1beta1.Query/List", &earning.ListRequest{Limit: limit, Page: page}, &l) {
				eng.Fail("marks/list", "page %d of %d is not to be had", page, limit)
			}
			if len(l.List) == 0 {
				break
			}
			if int32(len(l.List)) > limit || len(last) > 0 && int32(len(last)) < limit {
				eng.Fail("marks/list", "page %d has %d entries after one of %d, the limit is %d", page, len(l.List), len(last), limit)
			}
			last = nil
			for _, e := range l.List {
				if seen[e.Account] {
					eng.Fail("marks/list", "%s is on two pages", e.Account)
				}
				seen[e.Account] = true
				last = append(last, e.Account)
				if timeStr(e.Vpn) != timeStr(g[e.Account].Vpn) || timeStr(e.Storage) != timeStr(g[e.Account].Storage) {
					eng.Fail("marks/list", "the list has %v, the marks are %s", e, markStr(g[e.Account]))
				}
			}
		}
		if len(seen) != len(g) {
			eng.Fail("marks/list", "the list has %d of %d earners", len(seen), len(g))
		}
	})
}

// ------------------------------------------------------------------------------------------------------------- P05

// closed tells whether nobody can be registered under the account any more.
func closed(s *world.Snap, acc string) bool {
	r := s.Ref[acc]
	if r == nil {
		return true
	}
	if r.Referrer == "" {
		return false
	}
	return r.Banished || !r.Active && (r.CompressionAt == nil || s.Time.After(r.CompressionAt.Add(-oneMonth(s))))
}

// greedy: the profile asks for more than its owner can set for free.
func greedy(p *profile.Profile) bool {
	return p.ActiveUntil != nil || p.ExtraImUntil != nil || p.StorageLimit|p.StorageCurrent|p.VpnLimit|p.VpnCurrent|p.ImLimitExtra|p.CardNumber != 0
}

func attachP05(w *world.World, st *eng.Stats) {
	var before *world.Snap
	w.BeforeTx = append(w.BeforeTx, func(*world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		what := msgNames(tx)
		made := map[string]*profile.MsgCreateAccount{}
		for _, m := range tx.Msgs {
			if x, ok := m.(*profile.MsgCreateAccount); ok {
				made[x.Address] = x
			}
		}
		for _, a := range sortedKeys(after.Prof) {
			if before.Prof[a] == nil && (made[a] == nil || res.Code != 0) {
				eng.Fail("register/stray", "%s creates a profile of %s", what, a)
			}
		}
		for _, a := range sortedKeys(after.Ref) {
			if before.Ref[a] == nil && (made[a] == nil || res.Code != 0) {
				eng.Fail("register/stray", "%s creates a place in the referral tree for %s", what, a)
			}
		}
		if len(made) == 0 {
			return
		}
		if len(tx.Msgs) != 1 {
			return
		}
		x := tx.Msgs[0].(*profile.MsgCreateAccount)
		p := &before.P
		price := p.Profile.RenamePrice
		if contains(p.Profile.Creators, x.Creator) && !tx.Upper {
			price = 0
		}
		why := ""
		_, exists := before.Acc[x.Address]
		nick := ""
		if x.Profile != nil {
			nick = strings.TrimSpace(x.Profile.Nickname)
			if b := badNick(x.Profile.Nickname); b != "" {
				why = "nickname " + b
			}
			if o := before.Alias[nickKey(nick)]; nick != "" && o != "" {
				why = "nickname taken"
			}
		}
		switch {
		case exists:
			why = "account exists"
		case before.Ref[x.Referrer] == nil:
			why = "unknown referrer"
		case x.Referrer == x.Address:
			why = "own referrer"
		case closed(before, x.Referrer):
			why = "referrer closed"
		case before.Bal[x.Creator].U-tx.Fee.AmountOf(util.ConfigMainDenom).Int64() < price && price > 0 && !tx.Upper:
			why = "not enough money"
		}
		if res.Code != 0 {
			st.Count("refused: " + why)
			if why == "" && plain(before, tx) && !(x.Profile != nil && greedy(x.Profile)) {
				eng.Fail("register/refused", "registration of %s under %s by %s is refused: %s", x.Address, x.Referrer, x.Creator, res.Log)
			}
			return
		}
		st.Count("registered")
		st.NonTrivial = true
		if why != "" {
			eng.Fail("register/accepted", "registration of %s under %s by %s is accepted, but: %s", x.Address, x.Referrer, x.Creator, why)
		}
		acc, ok := after.Acc[x.Address]
		if !ok {
			eng.Fail("register/account", "the registered %s has no account", x.Address)
		}
		for a, o := range before.Acc {
			if o.Num == acc.Num {
				eng.Fail("register/account", "the registered %s has the account number of %s", x.Address, a)
			}
		}
		sh := newShop(before)
		sh.apply(x)
		e, g := sh.prof[x.Address], after.Prof[x.Address]
		e.CardNumber = acc.Num ^ p.Profile.CardMagic
		if g == nil || g.String() != e.String() {
			eng.Fail("register/profile", "the registered %s has the profile %v, it should be %v", x.Address, g, e)
		}
		r := after.Ref[x.Address]
		at := before.Time.Add(2 * oneMonth(before))
		if r == nil || canon(r.Referrer) != x.Referrer || r.Active || r.Banished || len(r.Referrals) != 0 || r.Status != referral.STATUS_LUCKY || timeStr(r.CompressionAt) != timeStr(&at) {
			eng.Fail("register/place", "the registered %s has the place %v, it should be inactive under %s, to be compressed at %s", x.Address, r, x.Referrer, timeStr(&at))
		}
		if pr := after.Ref[x.Referrer]; !contains(pr.Referrals, x.Address) {
			eng.Fail("register/place", "the referrer %s does not have the registered %s", x.Referrer, x.Address)
		}
		if b := before.Bal[x.Address]; after.Bal[x.Address] != b && x.Address != x.Creator {
			eng.Fail("register/balance", "the registered %s has %+v after %+v", x.Address, after.Bal[x.Address], b)
		}
		fee := tx.Fee.AmountOf(util.ConfigMainDenom).Int64()
		if d := before.Bal[x.Creator].U - after.Bal[x.Creator].U; d != price+fee && !tx.Upper {
			eng.Fail("register/price", "the registration of %s costs %d, it should be %d", x.Address, d-fee, price)
		}
		for _, a := range sortedKeys(before.Prof) {
			if before.Prof[a].String() != after.Prof[a].String() {
				eng.Fail("register/other", "the registration of %s changes the profile of %s", x.Address, a)
			}
		}
	})
}

// ---------------------------------------------------------------------------------------------------- generators

// shopGen: rather short periods, so that renewals fall into the history.
func shopGen(min, max int64, ws []eng.W) func(r *eng.R) *eng.Case {
	return chainGenThen(min, max, ws, func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["inactive"] = r.Of(10, 30, 60)
		if r.Chance(50) {
			p["rate"], p["rated"] = r.Of(1, 10, 1000), r.Of(1, 3)
		}
	}, func(r *eng.R, ops []eng.Op) {
		for i := range ops {
			if ops[i].K == "next" && r.Chance(25) {
				ops[i].A = r.Of(3, 6, 7, 8, 9, 10, 12, 13)
			}
		}
		biasProposals(ops, r, "price", "addr", "portion")
	})
}

func chainGenThen(min, max int64, ws []eng.W, tweak func(r *eng.R, p map[string]int64), then func(r *eng.R, ops []eng.Op)) func(r *eng.R) *eng.Case {
	g := chainGen(min, max, ws, tweak)
	return func(r *eng.R) *eng.Case {
		c := g(r)
		then(r, c.Ops)
		return c
	}
}

func init() {
	base := []string{"user 0's staff validator keeps validating", "software upgrades lie in the far future"}
	shopOps := reweigh(eng.W{"tariff", 30}, eng.W{"buystorage", 10}, eng.W{"givestorage", 8}, eng.W{"buyvpn", 8}, eng.W{"buyim", 10},
		eng.W{"giveim", 5}, eng.W{"prolongim", 5}, eng.W{"rate", 5}, eng.W{"setstorage", 6}, eng.W{"setvpn", 8}, eng.W{"profile", 14},
		eng.W{"send", 14}, eng.W{"transition", 1}, eng.W{"resolve", 1}, eng.W{"poll", 1}, eng.W{"answer", 1}, eng.W{"on", 2}, eng.W{"bundle", 4})
	nameOps := reweigh(eng.W{"profile", 60}, eng.W{"create", 25}, eng.W{"tariff", 6}, eng.W{"on", 2}, eng.W{"poll", 1}, eng.W{"answer", 1},
		eng.W{"transition", 1}, eng.W{"resolve", 1}, eng.W{"bundle", 4}, eng.W{"next", 40})
	roleOps := reweigh(eng.W{"rate", 16}, eng.W{"setstorage", 16}, eng.W{"setvpn", 16}, eng.W{"earn", 14}, eng.W{"earnmulti", 8}, eng.W{"propose", 16},
		eng.W{"vote", 30}, eng.W{"forge", 2}, eng.W{"bundle", 4}, eng.W{"transition", 1}, eng.W{"resolve", 1}, eng.W{"delegate", 4}, eng.W{"send", 6})
	earnOps := reweigh(eng.W{"earn", 40}, eng.W{"earnmulti", 25}, eng.W{"propose", 3}, eng.W{"vote", 5}, eng.W{"bundle", 3}, eng.W{"send", 4}, eng.W{"transition", 1}, eng.W{"resolve", 1})
	regOps := reweigh(eng.W{"create", 50}, eng.W{"tariff", 12}, eng.W{"profile", 12}, eng.W{"forge", 2}, eng.W{"on", 2}, eng.W{"poll", 1}, eng.W{"answer", 1}, eng.W{"bundle", 3})

	eng.Register(&eng.Property{
		ID:          "P01",
		Rule:        "a nickname was changed",
		Assumptions: base,
		Suites:      []*eng.Suite{{Name: "names", Gen: shopGen(20, 90, nameOps), Run: chainRun(attachP01), Quick: 400, Thorough: 12000}},
	})
	eng.Register(&eng.Property{
		ID:          "P02",
		Rule:        "a subscription was paid for, by hand or automatically",
		Assumptions: base,
		Suites:      []*eng.Suite{{Name: "subscriptions", Gen: shopGen(20, 110, shopOps), Run: chainRun(attachShop(true)), Quick: 300, Thorough: 9000}},
	})
	eng.Register(&eng.Property{
		ID:          "P03",
		Rule:        "a limit was bought, given up or prolonged",
		Assumptions: base,
		Suites:      []*eng.Suite{{Name: "limits", Gen: shopGen(20, 110, shopOps), Run: chainRun(attachShop(false)), Quick: 300, Thorough: 9000}},
	})
	eng.Register(&eng.Property{
		ID:          "P04",
		Rule:        "an operator set something",
		Assumptions: base,
		Suites: []*eng.Suite{{Name: "operators", Gen: chainGenThen(20, 90, roleOps, smallTweak, func(r *eng.R, ops []eng.Op) {
			biasProposals(ops, r, "addr")
		}), Run: chainRun(attachP04), Quick: 350, Thorough: 10000}},
	})
	eng.Register(&eng.Property{
		ID:          "E01",
		Rule:        "an earner was marked",
		Assumptions: append([]string{"marks that count no more may be dropped at any time"}, base...),
		Suites:      []*eng.Suite{{Name: "marks", Gen: shopGen(20, 90, earnOps), Run: chainRun(attachE01), Quick: 300, Thorough: 9000}},
	})
	eng.Register(&eng.Property{
		ID:          "P05",
		Rule:        "an account was registered",
		Assumptions: base,
		Suites:      []*eng.Suite{{Name: "registrations", Gen: shopGen(20, 90, regOps), Run: chainRun(attachP05), Quick: 400, Thorough: 12000}},
	})
}
