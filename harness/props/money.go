package props

import (
	"fmt"
	"math/big"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

var denoms = []string{util.ConfigMainDenom, util.ConfigDelegatedDenom, util.ConfigRevokingDenom}

func feeCollector() string { return world.ModuleAddr(auth.FeeCollectorName) }

// modules are the accounts nobody has a key of.
func modules() map[string]bool {
	m := map[string]bool{}
	for _, n := range []string{auth.FeeCollectorName, util.SplittableFeeCollectorName, noding.ModuleName, earning.ModuleName, earning.VpnCollectorName, earning.StorageCollectorName} {
		m[world.ModuleAddr(n)] = true
	}
	return m
}

// ------------------------------------------------------------------------------------------------------------- M01

// checkSupply: the recorded supply is the sum of the balances, which are proper.
func checkSupply(s *world.Snap, at string) {
	for _, a := range sortedKeys(s.OddCoins) {
		eng.Fail("supply/coins", "%s: %s holds %v", at, a, s.OddCoins[a])
	}
	sum := map[string]int64{}
	for _, b := range s.Bal {
		sum[denoms[0]] += b.U
		sum[denoms[1]] += b.D
		sum[denoms[2]] += b.R
	}
	for _, d := range sortedKeys(s.Supply) {
		if d != denoms[0] && d != denoms[1] && d != denoms[2] {
			eng.Fail("supply/denom", "%s: there is a supply of %s", at, d)
		}
	}
	for _, d := range denoms {
		if s.Supply[d] != sum[d] {
			eng.Fail("supply/sum", "%s: the supply of %s is %d, the balances add up to %d", at, d, s.Supply[d], sum[d])
		}
	}
}

// expectSupply: the supply went from before to after by exactly the given change.
func expectSupply(before, after *world.Snap, change map[string]int64, what string) {
	for _, d := range denoms {
		if x := after.Supply[d] - before.Supply[d]; x != change[d] {
			eng.Fail("supply/change", "%s changes the supply of %s by %d instead of %d", what, d, x, change[d])
		}
	}
}

// feeSplit is what becomes of collected splittable fees.
func feeSplit(s *world.Snap, x int64) (proposer, company, burnt int64) {
	r := s.P.Bank.TransactionFeeSplitRatios
	proposer = world.FloorRat(x, world.Rat(r.ForProposer))
	company = world.FloorRat(x, world.Rat(r.ForCompany))
	return proposer, company, x - proposer - company
}

// proposerOf gives the account of the block's proposer.
func proposerOf(s *world.Snap, req abci.RequestBeginBlock) string {
	return s.NodeIdx[string(req.Header.ProposerAddress)]
}

// taskSupply is the change a task makes to the supply.
func taskSupply(tb, ta *world.Snap, t schedule.Task, st *eng.Stats) map[string]int64 {
	l := newLedger(tb)
	switch t.HandlerName {
	case delegating.AccrueHookName:
		acc := sdk.AccAddress(t.Data).String()
		if rec := l.del[acc]; rec != nil && rec.NextAccrue != nil && rec.NextAccrue.Equal(t.Time) && dailyRate(tb, acc).Sign() > 0 {
			l.interest(tb, acc, big.NewRat(1, 1))
			st.Count("accrual")
		}
	case delegating.RevokeHookName:
		acc := sdk.AccAddress(t.Data).String()
		if rec := l.del[acc]; rec != nil {
			for _, r := range rec.Requests {
				if !r.Time.After(tb.Time) {
					l.move(acc, r.Amount.Int64(), 0, -r.Amount.Int64())
				}
			}
			st.Count("maturity")
		}
	case "referral/banish":
		acc := string(t.Data)
		if d := tb.Bal[acc].D; !tb.Ref[acc].Banished && ta.Ref[acc].Banished && d > 0 {
			l.revoke(tb, acc, d, tb.P.Delegating.Revoke)
			st.Count("banished with a delegation")
		}
	}
	return l.sup
}

func attachM01(w *world.World, st *eng.Stats) {
	var before, begun *world.Snap
	var tasks map[string]int64
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		what := "transaction " + msgNames(tx)
		checkSupply(after, "after "+what)
		if len(tx.Msgs) != 1 {
			return
		}
		l := newLedger(before)
		if res.Code == 0 {
			switch m := tx.Msgs[0].(type) {
			case *bank.MsgBurn:
				l.sup[denoms[0]] -= int64(m.Amount)
				st.Count("burn")
				st.NonTrivial = true
			case *delegating.MsgDelegate:
				// the envelope's fee does not matter for the supply
				l.move(m.Address, 1<<50, 0, 0)
				l.sup = map[string]int64{}
				l.delegate(before, m.Address, m.MicroCoins.Int64())
				st.NonTrivial = true
			case *delegating.MsgRevoke:
				l.revoke(before, m.Address, m.MicroCoins.Int64(), before.P.Delegating.Revoke)
				st.NonTrivial = true
			case *delegating.MsgExpressRevoke:
				l.revoke(before, m.Address, m.MicroCoins.Int64(), before.P.Delegating.ExpressRevoke)
				st.NonTrivial = true
			}
		}
		expectSupply(before, after, l.sup, what)
	})
	var tb *world.Snap
	w.BeforeTask = append(w.BeforeTask, func(ctx sdk.Context, t schedule.Task) { tb = w.SnapCtx(ctx, schedule.StoreKey) })
	w.AfterTask = append(w.AfterTask, func(ctx sdk.Context, t schedule.Task, failed bool) {
		ta := w.SnapCtx(ctx, schedule.StoreKey)
		ch := taskSupply(tb, ta, t, st)
		what := fmt.Sprintf("task %s due %s", t.HandlerName, t.Time.UTC())
		expectSupply(tb, ta, ch, what)
		checkSupply(ta, "after "+what)
		for d, x := range ch {
			tasks[d] += x
		}
	})
	w.BeforeBegin = append(w.BeforeBegin, func(abci.RequestBeginBlock) {
		tasks = map[string]int64{}
		begun = nil
		if w.Height > 1 {
			begun = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, _ abci.ResponseBeginBlock) {
		after := w.Snap()
		checkSupply(after, "after BeginBlock")
		if begun == nil || !w.HooksTasks {
			return
		}
		if proposerOf(begun, req) != "" {
			_, _, b := feeSplit(begun, begun.Bal[splittable()].U)
			tasks[denoms[0]] -= b
			if b > 0 {
				st.Count("fees burnt")
				st.NonTrivial = true
			}
		}
		expectSupply(begun, after, tasks, "BeginBlock")
	})
	var ended *world.Snap
	w.BeforeEnd = append(w.BeforeEnd, func() { ended = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() {
		after := w.Snap()
		checkSupply(after, "after EndBlock")
		expectSupply(ended, after, nil, "EndBlock")
	})
}

// ------------------------------------------------------------------------------------------------------------- M04

func attachM04(w *world.World, st *eng.Stats) {
	var before *world.Snap
	var header abci.RequestBeginBlock
	owner := map[string]string{} // consensus address -> account that switched it on last
	for i := 0; i < w.Cfg.Vals; i++ {
		owner[string(world.ConsPub(i).Address())] = world.U(i).B
	}
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if res.Code != 0 {
			return
		}
		for _, m := range tx.Msgs {
			if on, ok := m.(*noding.MsgOn); ok {
				k, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, on.PubKey)
				if err == nil {
					owner[string(k.Address())] = on.Account
				}
			}
		}
	})
	done := false
	check := func(after *world.Snap) {
		if before == nil || done {
			return
		}
		done = true
		want := map[string]world.Bal{}
		for a, b := range before.Bal {
			want[a] = b
		}
		add := func(a string, x int64) {
			b := want[a]
			b.U += x
			want[a] = b
		}
		prop := owner[string(header.Header.ProposerAddress)]
		plain, split := before.Bal[feeCollector()].U, before.Bal[splittable()].U
		if prop != "" {
			add(feeCollector(), -plain)
			add(prop, plain)
			p, c, _ := feeSplit(before, split)
			add(splittable(), -split)
			add(prop, p)
			add(before.P.Bank.CompanyAccount, c)
			if plain > 0 {
				st.Count("plain fees paid out")
				st.NonTrivial = true
			}
			if split > 0 {
				st.Count("splittable fees paid out")
				st.NonTrivial = true
				if v := before.Val[prop]; v != nil && (!v.Status || v.Jailed || v.BannedForLife) {
					st.Count("paid to a proposer that is off, jailed or banned")
				}
			}
		} else {
			st.Count("unknown proposer")
		}
		accs := map[string]bool{}
		for a := range want {
			accs[a] = true
		}
		for a := range after.Bal {
			accs[a] = true
		}
		for _, a := range sortedKeys(accs) {
			if want[a] != after.Bal[a] {
				eng.Fail("payout/balance", "at the beginning of block %d with the fees %d and %d and the proposer %s the balance of %s goes from %+v to %+v, it should be %+v", w.Height, plain, split, prop, a, before.Bal[a], after.Bal[a], want[a])
			}
		}
	}
	w.BeforeBegin = append(w.BeforeBegin, func(req abci.RequestBeginBlock) {
		before, done, header = nil, false, req
		if w.Height > 1 {
			before = w.Snap()
		}
	})
	w.BeforeTask = append(w.BeforeTask, func(ctx sdk.Context, t schedule.Task) {
		if before != nil && !done {
			check(w.SnapCtx(ctx))
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) { check(w.Snap()) })
	var end *world.Snap
	w.BeforeEnd = append(w.BeforeEnd, func() { end = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() {
		after := w.Snap()
		for _, a := range sortedKeys(after.Bal) {
			if end.Bal[a] != after.Bal[a] {
				eng.Fail("payout/end", "the end of block %d changes the balance of %s from %+v to %+v", w.Height, a, end.Bal[a], after.Bal[a])
			}
		}
	})
}

// ------------------------------------------------------------------------------------------------------------- M02

func attachM02(w *world.World, st *eng.Stats) {
	var before *world.Snap
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if len(tx.Msgs) != 1 {
			return
		}
		m, ok := tx.Msgs[0].(*bank.MsgSend)
		if !ok {
			return
		}
		after := w.Snap()
		_, from := before.Acc[m.FromAddress]
		_, to := before.Acc[m.ToAddress]
		x, odd := world.BalOf(m.Amount)
		fee := before.P.Fee(x.U)
		have := before.Bal[m.FromAddress].U
		why := ""
		switch {
		case tx.Forged:
			why = "forged signature"
		case !from:
			why = "unknown sender"
		case !to:
			why = "unknown recipient"
		case odd || len(m.Amount) == 0:
			why = "improper coins"
		case x.D != 0 || x.R != 0:
			why = "not transferable"
		case x.U < before.P.Bank.MinSend:
			why = "below the minimum"
		case contains(before.P.Bank.BlockedSenders, m.FromAddress):
			why = "blocked sender"
		case x.U > have || fee > have-x.U:
			why = "insufficient funds"
		}
		desc := fmt.Sprintf("transfer of %s from %s (has %+v) to %s with the fee %d, minimum %d", sdk.Coins(m.Amount), m.FromAddress, before.Bal[m.FromAddress], m.ToAddress, fee, before.P.Bank.MinSend)
		if (why == "") != (res.Code == 0) {
			if why == "" {
				eng.Fail("send/refused", "%s is refused: %s", desc, res.Log)
			}
			eng.Fail("send/accepted/"+strings.ReplaceAll(why, " ", "-"), "%s is accepted although: %s", desc, why)
		}
		want := map[string]world.Bal{}
		for a, b := range before.Bal {
			want[a] = b
		}
		if why == "" {
			st.Count("transfers")
			st.NonTrivial = true
			if m.FromAddress == m.ToAddress {
				st.Count("transfers to oneself")
			}
			if x.U+fee == have {
				st.Count("transfers of everything")
			}
			if fee > 0 {
				st.Count("transfers with a fee")
			}
			b := want[m.FromAddress]
			b.U -= x.U + fee
			want[m.FromAddress] = b
			b = want[m.ToAddress]
			b.U += x.U
			want[m.ToAddress] = b
			b = want[splittable()]
			b.U += fee
			want[splittable()] = b
		} else {
			st.Count("refused: " + why)
		}
		accs := map[string]bool{}
		for a := range want {
			accs[a] = true
		}
		for a := range after.Bal {
			accs[a] = true
		}
		for _, a := range sortedKeys(accs) {
			if want[a] != after.Bal[a] {
				eng.Fail("send/balance", "%s (%s): %s had %+v, should have %+v, has %+v", desc, res.Log, a, before.Bal[a], want[a], after.Bal[a])
			}
		}
	})
}

// xsend sends to arbitrary recipients in arbitrary coins.
func xsend(w *world.World, op eng.Op) {
	s := w.Snap()
	a := w.Acct(op.A)
	if l := s.P.Bank.BlockedSenders; len(l) > 0 && eng.Mod(op.A/64, 5) == 0 {
		if u := world.UserByAddr(l[eng.Mod(op.A, len(l))]); u != nil {
			a = u
		}
	}
	m := w.Msg(eng.Op{K: "send", A: int64(a.Idx), B: op.B, C: op.C, D: op.D}).(*bank.MsgSend)
	switch eng.Mod(op.B/64, 8) {
	case 0:
		m.ToAddress = a.B
	case 1:
		m.ToAddress = sortedKeys(modules())[eng.Mod(op.B, len(modules()))]
	}
	switch eng.Mod(op.D/20, 24) {
	case 0: // entries out of order, repeated, of zero
		m.Amount = append(m.Amount, m.Amount...)
	case 1:
		m.Amount = append(m.Amount, sdk.Coin{Denom: "zzz", Amount: sdk.ZeroInt()})
	case 2:
		m.Amount = sdk.Coins{{Denom: util.ConfigMainDenom, Amount: sdk.NewInt(-1 - int64(eng.Mod(op.C, 1000)))}}
	case 3:
		m.Amount = sdk.Coins{{Denom: util.ConfigMainDenom, Amount: sdk.ZeroInt()}}
	}
	if eng.Mod(op.D/480, 12) == 0 {
		tx, err := w.MakeTx(nil, true, m)
		if err == nil {
			w.Deliver(tx)
		}
		return
	}
	w.SendAs(eng.Op{K: "send"}, m)
}

func runWith(attach func(w *world.World, st *eng.Stats), extra map[string]func(w *world.World, op eng.Op)) func(c *eng.Case, st *eng.Stats) *eng.Violation {
	return func(c *eng.Case, st *eng.Stats) *eng.Violation {
		w := world.New(c.P, st)
		w.Extra = extra
		attach(w, st)
		w.Run(c.Ops)
		return nil
	}
}

// ------------------------------------------------------------------------------------------------------------- M05

// actor is the account that acts by a message, as the message's documentation has it.
func actor(m sdk.Msg) string {
	switch m := m.(type) {
	case *bank.MsgSend:
		return m.FromAddress
	case *bank.MsgBurn:
		return m.Account
	case *delegating.MsgDelegate:
		return m.Address
	case *delegating.MsgRevoke:
		return m.Address
	case *delegating.MsgExpressRevoke:
		return m.Address
	case *noding.MsgOn:
		return m.Account
	case *noding.MsgOff:
		return m.Account
	case *noding.MsgUnjail:
		return m.Account
	case *profile.MsgCreateAccount:
		return m.Creator
	case *profile.MsgUpdateProfile:
		return m.Address
	case *profile.MsgSetStorageCurrent:
		return m.Sender
	case *profile.MsgSetVpnCurrent:
		return m.Sender
	case *profile.MsgPayTariff:
		return m.Address
	case *profile.MsgBuyStorage:
		return m.Address
	case *profile.MsgGiveStorageUp:
		return m.Address
	case *profile.MsgBuyVpn:
		return m.Address
	case *profile.MsgSetRate:
		return m.Sender
	case *profile.MsgBuyImExtraStorage:
		return m.Address
	case *profile.MsgGiveUpImExtra:
		return m.Address
	case *profile.MsgProlongImExtra:
		return m.Address
	case *referral.MsgRequestTransition:
		return m.Subject
	case *referral.MsgResolveTransition:
		return m.Signer
	case *voting.MsgPropose:
		return m.Proposal.Author
	case *voting.MsgVote:
		return m.Voter
	case *voting.MsgStartPoll:
		return m.Poll.Author
	case *voting.MsgAnswerPoll:
		return m.Respondent
	case *earning.MsgSet:
		return m.Signer
	case *earning.MsgSetMultiple:
		return m.Signer
	}
	return ""
}

// owned is what of a profile only its owner may change for the worse.
func owned(p *profile.Profile) profile.Profile {
	c := *p
	c.VpnCurrent, c.StorageCurrent = 0, 0
	return c
}

func attachM05(w *world.World, st *eng.Stats) {
	mods := modules()
	var before *world.Snap
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		what := "transaction " + msgNames(tx)
		signed := map[string]bool{}
		for _, u := range tx.Signers {
			signed[u.B] = true
		}
		if tx.Forged {
			if res.Code == 0 {
				eng.Fail("forged/accepted", "%s is accepted with a forged signature", what)
			}
			signed = map[string]bool{}
			st.Count("forged")
		}
		moves := map[string]string{} // consented moves in the tree
		if res.Code == 0 {
			for _, m := range tx.Msgs {
				if a := actor(m); !signed[a] {
					eng.Fail("unsigned/"+m.Type(), "%s of %s is accepted, it is signed by %v only", m.Type(), a, sortedKeys(signed))
				}
				if r, ok := m.(*referral.MsgResolveTransition); ok && !r.Decline {
					if i := before.Ref[r.Subject]; i != nil {
						moves[r.Subject] = i.Transition
						for _, n := range tx.Msgs { // asked for in the same transaction
							if q, ok := n.(*referral.MsgRequestTransition); ok && q.Subject == r.Subject && moves[r.Subject] == "" {
								moves[r.Subject] = q.Destination
							}
						}
					}
				}
			}
			if len(tx.Signers) > 1 {
				st.Count("several signers")
			}
		}
		for _, a := range sortedKeys(before.Bal) {
			x, y := before.Bal[a], after.Bal[a]
			if !signed[a] && !mods[a] && (y.U < x.U || y.D < x.D || y.R < x.R) {
				eng.Fail("loss/balance", "%s, signed by %v, takes the holdings of %s from %+v to %+v", what, sortedKeys(signed), a, x, y)
			}
		}
		for _, a := range sortedKeys(before.Prof) {
			x, y := before.Prof[a], after.Prof[a]
			if y == nil {
				eng.Fail("loss/profile", "%s removes the profile of %s", what, a)
			}
			if !signed[a] && x != y {
				if u, v := owned(x), owned(y); u.String() != v.String() {
					eng.Fail("loss/profile", "%s, signed by %v, changes the profile of %s from %s to %s", what, sortedKeys(signed), a, x, y)
				}
				st.Count("usage of somebody else set")
			}
		}
		for _, a := range sortedKeys(before.Ref) {
			x, y := before.Ref[a], after.Ref[a]
			if y == nil {
				eng.Fail("loss/referral", "%s removes %s from the tree", what, a)
			}
			if signed[a] {
				continue
			}
			if x.Referrer != y.Referrer && moves[a] != y.Referrer {
				eng.Fail("loss/place", "%s, signed by %v, moves %s from %q to %q", what, sortedKeys(signed), a, x.Referrer, y.Referrer)
			}
			if x.Active != y.Active || x.Banished != y.Banished {
				eng.Fail("loss/activity", "%s, signed by %v, changes the activity of %s: active %v to %v, banished %v to %v", what, sortedKeys(signed), a, x.Active, y.Active, x.Banished, y.Banished)
			}
			if x.Transition == "" && y.Transition != "" {
				eng.Fail("loss/transition", "%s, signed by %v, requests a transition of %s", what, sortedKeys(signed), a)
			}
		}
		for _, a := range sortedKeys(before.Val) {
			x, y := before.Val[a], after.Val[a]
			if !signed[a] && (y == nil || !x.Status && y.Status || x.PubKey != y.PubKey || x.Jailed != y.Jailed) {
				eng.Fail("loss/validator", "%s, signed by %v, changes the validator %s from %v to %v", what, sortedKeys(signed), a, x, y)
			}
		}
		if res.Code == 0 && len(tx.Msgs) > 0 {
			st.NonTrivial = true
		}
	})
	var tb *world.Snap
	w.BeforeTask = append(w.BeforeTask, func(ctx sdk.Context, t schedule.Task) { tb = w.SnapCtx(ctx, schedule.StoreKey) })
	w.AfterTask = append(w.AfterTask, func(ctx sdk.Context, t schedule.Task, failed bool) {
		ta := w.SnapCtx(ctx, schedule.StoreKey)
		who := sdk.AccAddress(t.Data).String()
		for _, a := range sortedKeys(tb.Bal) {
			x, y := tb.Bal[a], ta.Bal[a]
			if mods[a] || y.U >= x.U && y.D >= x.D && y.R >= x.R {
				continue
			}
			ok := false
			switch t.HandlerName {
			case profile.RefreshHookName: // automatic renewal of the subscription
				p := tb.Prof[a]
				ok = a == who && p.AutoPay && y.D == x.D && y.R == x.R
				st.Count("automatic renewal")
			case profile.RefreshImHookName:
				p := tb.Prof[a]
				ok = a == who && p.AutoPayImExtra && y.D == x.D && y.R == x.R
				st.Count("automatic messenger renewal")
			case delegating.RevokeHookName:
				ok = a == who && y.U-x.U == x.R-y.R && y.D == x.D
				st.Count("maturity")
			case "referral/banish":
				ok = a == string(t.Data) && y.D == 0 && y.U >= x.U
			}
			if !ok {
				eng.Fail("loss/task", "task %s of %s takes the holdings of %s from %+v to %+v", t.HandlerName, who, a, x, y)
			}
		}
	})
	var bb *world.Snap
	chk := func(after *world.Snap, what string) {
		for _, a := range sortedKeys(bb.Bal) {
			x, y := bb.Bal[a], after.Bal[a]
			if !mods[a] && (y.U < x.U || y.D < x.D || y.R < x.R) {
				eng.Fail("loss/block", "%s takes the holdings of %s from %+v to %+v", what, a, x, y)
			}
		}
	}
	w.BeforeBegin = append(w.BeforeBegin, func(abci.RequestBeginBlock) {
		bb = nil
		if w.Height > 1 {
			bb = w.Snap()
		}
	})
	w.BeforeTask = append(w.BeforeTask, func(ctx sdk.Context, t schedule.Task) {
		if bb != nil {
			chk(w.SnapCtx(ctx), "the beginning of the block")
			bb = nil
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) {
		if bb != nil {
			chk(w.Snap(), "the beginning of the block")
		}
	})
	w.BeforeEnd = append(w.BeforeEnd, func() { bb = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() { chk(w.Snap(), "the end of the block") })
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func smallTweak(r *eng.R, p map[string]int64) {
	p["n"] = r.Range(4, 14)
	p["gov"] = r.Range(1, 2)
	p["nodel"] = r.Of(30, 60)
}

func init() {
	eng.Register(&eng.Property{
		ID:   "M01",
		Rule: "histories of signed transactions and blocks; after every transaction, scheduled task, BeginBlock and EndBlock the supply is compared with the sum of the balances and its change with the predicted one; non-trivial if coins were burnt, delegated or revoked",
		Suites: []*eng.Suite{
			{Name: "supply", Gen: m01Gen(), Run: chainRun(attachM01), Quick: 120, Thorough: 12000},
		},
	})
	eng.Register(&eng.Property{
		ID:   "M02",
		Rule: "histories with many transfers by and to arbitrary accounts; acceptance and all balances are predicted; non-trivial if a transfer was accepted",
		Suites: []*eng.Suite{
			{Name: "send", Gen: m02Gen(), Run: runWith(attachM02, map[string]func(*world.World, eng.Op){"xsend": xsend}), Quick: 500, Thorough: 30000},
		},
	})
	eng.Register(&eng.Property{
		ID:          "M04",
		Rule:        "histories with fee-paying transactions, also with network fees; all balances right after the payout at the beginning of each block are predicted; non-trivial if there were fees to pay out",
		Assumptions: []string{"the proposer of a block is the account that last switched on a node with the key that consensus names; if nobody ever did, the fees stay collected until a block with a known proposer"},
		Suites: []*eng.Suite{
			{Name: "payout", Gen: m04Gen(), Run: chainRun(attachM04), Quick: 300, Thorough: 16000},
		},
	})
	eng.Register(&eng.Property{
		ID:   "M05",
		Rule: "histories of all kinds of transactions (also several messages with several signers, and forged ones), with arbitrary accounts in every address field; non-trivial if a transaction was accepted",
		Suites: []*eng.Suite{
			{Name: "losses", Gen: m05Gen(), Run: chainRun(attachM05), Quick: 90, Thorough: 8000},
		},
	})
}

func m01Gen() func(r *eng.R) *eng.Case {
	g := chainGen(60, 140, reweigh(eng.W{"burn", 8}, eng.W{"bundle", 4}), func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["txfee"] = r.Of(0, 1)
		if p["fee"] == 0 {
			p["fee"] = r.Of(3, 10, 333)
		}
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		c.Ops = longGaps(c.Ops, r, int(r.Of(0, 0, 30)))
		biasProposals(c.Ops, r, "min", "revoke", "portion", "portions", "table")
		return c
	}
}

func m02Gen() func(r *eng.R) *eng.Case {
	ops := []eng.W{{"next", 20}, {"xsend", 60}, {"delegate", 4}, {"express", 4}, {"create", 2}, {"propose", 6}, {"vote", 10}}
	g := chainGen(40, 120, ops, func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["table"] = 4
		p["nodel"] = 80
		p["blocked"] = r.Of(0, 3, 4)
		p["minsend"] = r.Of(0, 1, 1000, 1_000_000)
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		biasProposals(c.Ops, r, "min", "portion", "portions", "addr")
		return c
	}
}

func m04Gen() func(r *eng.R) *eng.Case {
	ops := reweigh(eng.W{"send", 40}, eng.W{"on", 14}, eng.W{"off", 6}, eng.W{"evid", 4}, eng.W{"tariff", 12}, eng.W{"transition", 8})
	g := chainGen(50, 120, ops, func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["txfee"] = r.Of(0, 1, 1)
		p["vals"] = r.Range(1, 5)
		p["mself"], p["mtotal"] = r.Of(0, 0, 1_000_000), 0
		if p["fee"] < 10 {
			p["fee"] = r.Of(3, 10, 333)
		}
		p["nodel"] = 80
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		biasProposals(c.Ops, r, "min", "portion", "portions")
		return c
	}
}

func m05Gen() func(r *eng.R) *eng.Case {
	g := chainGen(60, 140, reweigh(eng.W{"bundle", 8}, eng.W{"forge", 6}), func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["txfee"] = r.Of(0, 1)
	})
	return func(r *eng.R) *eng.Case {
		c := g(r)
		c.Ops = longGaps(c.Ops, r, int(r.Of(0, 30, 60)))
		return c
	}
}
