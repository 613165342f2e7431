package world

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"github.com/gogo/protobuf/proto"

	sdk "github.com/cosmos/cosmos-sdk/types"
	abci "github.com/tendermint/tendermint/abci/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
)

// Operations. Every number of an eng.Op is raw and is reduced here against the state of the moment.

const Strangers = 3 // how many users without an account are in the pool at any moment

// Acct picks a user: everybody who has an account, and a few who do not.
func (w *World) Acct(x int64) *User {
	return &users[eng.Mod(x, w.Known()+Strangers)]
}

func sameMsg(a, b sdk.Msg) bool {
	x, err := proto.Marshal(a)
	if err != nil {
		eng.Bug("%v", err)
	}
	y, err := proto.Marshal(b)
	if err != nil {
		eng.Bug("%v", err)
	}
	return bytes.Equal(x, y)
}

// busy picks somebody something is going to happen to.
func (s *Snap) busy(x int64) *User {
	var l []string
	for k, r := range s.Ref {
		d, v := s.Del[k], s.Val[k]
		if r.StatusDowngradeAt != nil || r.BanishmentAt != nil || r.Transition != "" || r.Banished || d != nil && len(d.Requests) > 0 || v != nil && (v.Jailed) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	if len(l) == 0 {
		return nil
	}
	return UserByAddr(l[eng.Mod(x, len(l))])
}

// Insider picks somebody who has an account.
func (w *World) Insider(x int64) *User { return &users[eng.Mod(x, w.Known())] }

// Known is the number of users that have an account. They are the first ones.
func (w *World) Known() int {
	n := w.Cfg.N
	s := w.Snap()
	for n < NUsers-Strangers {
		if _, ok := s.Prof[users[n].B]; !ok {
			break
		}
		n++
	}
	return n
}

// Amount picks an amount for somebody who has that much; limit is a threshold of the moment.
func Amount(x, have, limit int64) int64 {
	k := x / 10
	if k < 0 {
		k = -k
	}
	switch eng.Mod(x, 10) {
	case 0:
		return have
	case 1:
		return have / 2
	case 2:
		return have + 1
	case 3:
		return limit
	case 4:
		return limit - 1
	case 5:
		return k % 5
	case 6:
		return have - k%1000
	case 7:
		return limit + k%1_000_000
	default:
		if have <= 0 {
			return k % 1_000_000
		}
		for i := k % 7; i > 0 && have > 10; i-- {
			have /= 10
		}
		return k%have + 1
	}
}

// Fee is the transaction fee as the parameters have it (reference computation).
func (p *Params) Fee(amount int64) int64 {
	if amount <= 0 {
		return 0
	}
	f := mulFrac(amount, p.Bank.TransactionFee)
	if m := p.Bank.MaxTransactionFee; m != 0 && f > m {
		f = m
	}
	l := p.FeeLCM()
	return f - f%l
}

func (p *Params) FeeLCM() int64 {
	r := p.Bank.TransactionFeeSplitRatios
	_, d1 := FracOf(r.ForProposer)
	_, d2 := FracOf(r.ForCompany)
	return lcm(d1, d2)
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func lcm(a, b int64) int64 { return a / gcd(a, b) * b }

// Do executes one operation. It returns false if the kind is unknown.
func (w *World) Do(op eng.Op) bool {
	switch op.K {
	case "next":
		w.absentees(op.C)
		w.Proposer = eng.Mod(op.D, 1000)
		w.Next(w.Dt(op.A, op.B))
		return true
	case "evid":
		w.evidence(op)
		return true
	}
	if f := w.Extra[op.K]; f != nil {
		f(w, op)
		return true
	}
	switch op.K {
	case "bundle": // several messages in one transaction
		var msgs []sdk.Msg
		for i := int64(0); i < 2+int64(eng.Mod(op.C, 2)); i++ {
			if m := w.Msg(w.SubOp(op, i)); m != nil {
				msgs = append(msgs, m)
			}
		}
		w.SendAs(op, msgs...)
		return true
	case "forge": // signed by somebody else
		m := w.Msg(w.SubOp(op, 0))
		w.Forgery = eng.Mod(op.C, Forgeries)
		if w.Forgery == ForgedMessage { // the same signer has agreed to something else
			o := w.SubOp(op, 0)
			o.B, o.C, o.D = o.B/7+op.D, o.C/5+op.D, o.D+op.C
			w.Other = w.Msg(o)
			if m == nil || w.Other == nil || sameMsg(m, w.Other) || !m.GetSigners()[0].Equals(w.Other.GetSigners()[0]) {
				w.Forgery, w.Other = ForgedSignature, nil
			}
		}
		tx, err := w.MakeTx(nil, true, m)
		if err == nil {
			w.Deliver(tx)
		}
		return true
	}
	msg := w.Msg(op)
	if msg == nil {
		return false
	}
	w.SendAs(op, msg)
	return true
}

// SubOp derives a simple operation from one that is made of several.
func (w *World) SubOp(op eng.Op, i int64) eng.Op {
	r := eng.NewR(op.B ^ (i+1)*0x9e3779b9)
	var ws []eng.W
	for _, x := range AllOps() {
		if x.K != "next" && x.K != "evid" {
			ws = append(ws, x)
		}
	}
	o := eng.Op{K: r.Weighted(ws), A: r.Raw(), B: r.Raw(), C: r.Raw(), D: r.Raw()}
	if eng.Mod(op.A, 2) == 0 {
		o.A = op.D // one signer for all, mostly
	}
	return o
}

// SendAs signs and delivers if the keys of the signers are at hand and the message can be signed at all.
func (w *World) SendAs(op eng.Op, msgs ...sdk.Msg) (res abci.ResponseDeliverTx, sent bool) {
	fee := sdk.Coins(nil)
	if w.P["txfee"] > 0 && eng.Mod(op.A/7, 3) == 0 {
		fee = sdk.NewCoins(sdk.NewInt64Coin(util.ConfigMainDenom, int64(eng.Mod(op.B/5, 5000))))
	}
	w.upper = eng.Mod(op.A/13+op.D, 41) == 0
	tx, err := w.MakeTx(fee, false, msgs...)
	w.upper = false
	if err != nil {
		if w.St != nil {
			w.St.Count("unsendable " + op.K)
		}
		return res, false
	}
	res = w.Deliver(tx)
	if w.St != nil {
		if res.Code == 0 {
			w.St.Count("ok " + op.K)
		} else {
			w.St.Count("refused " + op.K)
		}
	}
	return res, true
}

// Run executes a history: opens the first block, does the operations, closes the last block.
func (w *World) Run(ops []eng.Op) {
	if !w.InBlk {
		w.Next(5 * time.Second)
	}
	for _, op := range ops {
		if !w.Do(op) {
			eng.Bug("unknown operation %q", op.K)
		}
	}
	w.End()
}

// Dt is the time until the next block.
// maxJump is the most days a block may be away from the previous one.
const maxJump = 90

func (w *World) Dt(mode, x int64) time.Duration {
	day := w.Cfg.Day
	if x < 0 {
		x = -x
	}
	due := func(k int64, d time.Duration) time.Duration {
		// the k-th distinct moment some task is due
		var ts []time.Time
		for _, t := range w.Snap().Tasks {
			if t.Time.After(w.Time) && (len(ts) == 0 || t.Time.After(ts[len(ts)-1])) {
				ts = append(ts, t.Time)
			}
		}
		if len(ts) == 0 {
			return 5 * time.Second
		}
		r := ts[int(k%int64(len(ts)))].Sub(w.Time) + d
		if r < 0 {
			r = 0
		}
		if r > maxJump*day { // every delegator gets its profit for each day skipped, so a long jump takes its time
			r = maxJump * day
		}
		return r
	}
	switch eng.Mod(mode, 16) {
	case 0, 1, 2:
		return 5 * time.Second
	case 3, 4:
		return time.Duration(x % int64(day))
	case 5:
		return day
	case 6, 7:
		return due(0, 0)
	case 8:
		return due(0, -1)
	case 9:
		return due(0, 1)
	case 10, 11:
		return due(x%12, 0)
	case 12:
		return due(x, 0)
	case 13:
		return day*time.Duration(1+x%4) + time.Duration(x%7)
	case 14:
		return day*30 + time.Duration(x%3-1)
	default:
		return time.Nanosecond
	}
}

// absentees fixes who does not sign the block that is open now. User 0's validator always signs.
func (w *World) absentees(mask int64) {
	if mask == 0 {
		return
	}
	for i, v := range w.Vals.Validators {
		if mask>>uint(i%40)&1 == 1 && fmt.Sprintf("%X", []byte(v.Address)) != w.protected() {
			w.Absent[fmt.Sprintf("%X", []byte(v.Address))] = true
		}
	}
}

// protected is the validator that keeps the chain going: user 0's.
func (w *World) protected() string { return fmt.Sprintf("%X", []byte(ConsPub(0).Address())) }

// evidence of double signing against somebody who has been in a validator set: A picks, B tells the age.
func (w *World) evidence(op eng.Op) {
	var as [][]byte
	for _, v := range w.Vals.Validators {
		as = append(as, v.Address)
	}
	for _, s := range w.Seen {
		as = append(as, s)
	}
	if len(as) == 0 {
		return
	}
	a := as[eng.Mod(op.A, len(as))]
	if fmt.Sprintf("%X", a) == w.protected() {
		return
	}
	w.Evidence = append(w.Evidence, abci.Evidence{
		Type: abci.EvidenceType_DUPLICATE_VOTE, Validator: abci.Validator{Address: a, Power: 1 + int64(eng.Mod(op.C, 100))},
		Height: w.Height - int64(eng.Mod(op.B, 5)), Time: w.Time, TotalVotingPower: 100,
	})
}

// Msg builds the message of an operation; nil if the kind is unknown.
func (w *World) Msg(op eng.Op) sdk.Msg {
	s := w.Snap()
	a := w.Acct(op.A)
	if w.P["busy"] > 0 && int64(eng.Mod(op.A/11, 100)) < w.P["busy"] {
		if u := s.busy(op.A); u != nil {
			a = u
		}
	}
	bal := s.Bal[a.B]
	switch op.K {
	case "send":
		b := w.Acct(op.B)
		x := w.sendable(bal.U, op.C, s.P.Bank.MinSend)
		cs := sdk.Coins{}
		add := func(d string, x int64) {
			if x > 0 {
				cs = cs.Add(sdk.NewInt64Coin(d, x))
			}
		}
		switch eng.Mod(op.D, 20) {
		case 18:
			add(util.ConfigDelegatedDenom, Amount(op.C, bal.D, 1))
		case 19:
			add(util.ConfigMainDenom, x)
			add(util.ConfigRevokingDenom, Amount(op.C, bal.R, 1))
		case 17:
			add(util.ConfigMainDenom, x)
			add("foo", 5)
		default:
			add(util.ConfigMainDenom, x)
		}
		return bank.NewMsgSend(a.Addr, b.Addr, cs)
	case "burn":
		x := Amount(op.C, bal.U, 1)
		if x < 0 {
			x = 0
		}
		return &bank.MsgBurn{Account: a.B, Amount: uint64(x)}
	case "delegate":
		return &delegating.MsgDelegate{Address: a.B, MicroCoins: sdk.NewInt(Amount(op.C, bal.U, s.P.Delegating.MinDelegate))}
	case "revoke":
		return &delegating.MsgRevoke{Address: a.B, MicroCoins: sdk.NewInt(Amount(op.C, bal.D, s.P.Bank.DustDelegation+1))}
	case "express":
		return &delegating.MsgExpressRevoke{Address: a.B, MicroCoins: sdk.NewInt(Amount(op.C, bal.D, s.P.Bank.DustDelegation+1))}
	case "on":
		k := a.Idx
		switch eng.Mod(op.D, 8) {
		case 6:
			k = eng.Mod(op.B, w.Known())
		case 7:
			k = NConsKeys - 1 - eng.Mod(op.B, 8)
		case 5: // somebody's who is on or in jail
			var ks []string
			for _, v := range s.Val {
				if v.Status && v.PubKey != "" && (v.Jailed || eng.Mod(op.B, 4) == 0) {
					ks = append(ks, v.PubKey)
				}
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				return &noding.MsgOn{Account: a.B, PubKey: ks[eng.Mod(op.B, len(ks))]}
			}
		case 4:
			if eng.Mod(op.B, 10) == 0 { // a key that is none of a consensus engine
				return &noding.MsgOn{Account: a.B, PubKey: sdk.MustBech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, a.Priv.PubKey())}
			}
		}
		return &noding.MsgOn{Account: a.B, PubKey: ConsBech(k)}
	case "off":
		if a.Idx == 0 {
			a = &users[1]
		}
		return &noding.MsgOff{Account: a.B}
	case "unjail":
		return &noding.MsgUnjail{Account: a.B}
	case "tariff":
		return &profile.MsgPayTariff{Address: a.B, StorageAmount: uint32(w.storage(op.B, s.Prof[a.B], &s.P))}
	case "buystorage":
		return &profile.MsgBuyStorage{Address: a.B, ExtraStorage: uint32(small(op.B))}
	case "givestorage":
		return &profile.MsgGiveStorageUp{Address: a.B, Amount: uint32(w.storage(op.B, s.Prof[a.B], &s.P))}
	case "buyvpn":
		return &profile.MsgBuyVpn{Address: a.B, ExtraTraffic: uint32(small(op.B))}
	case "buyim":
		return &profile.MsgBuyImExtraStorage{Address: a.B, ExtraStorage: uint32(small(op.B))}
	case "giveim":
		have := int64(0)
		if p := s.Prof[a.B]; p != nil {
			have = int64(p.ImLimitExtra)
		}
		if eng.Mod(op.C, 3) == 0 {
			return &profile.MsgGiveUpImExtra{Address: a.B}
		}
		return &profile.MsgGiveUpImExtra{Address: a.B, Amount: uint32(nonneg(Amount(op.B, have, 1)))}
	case "prolongim":
		return &profile.MsgProlongImExtra{Address: a.B}
	case "rate":
		return &profile.MsgSetRate{Sender: w.signer(op.A, s.P.Profile.TokenRateSigners).B, Value: util.NewFraction(1+op.B%200_000, 1+op.C%9)}
	case "setstorage":
		b := w.Acct(op.B)
		x := uint64(0)
		if p := s.Prof[b.B]; p != nil {
			x = uint64(nonneg(Amount(op.C, int64(p.StorageLimit), int64(p.StorageCurrent))))
		}
		return &profile.MsgSetStorageCurrent{Sender: w.signer(op.A, s.P.Profile.StorageSigners).B, Address: b.B, Value: x}
	case "setvpn":
		b := w.Acct(op.B)
		x := uint64(0)
		if p := s.Prof[b.B]; p != nil {
			x = uint64(nonneg(Amount(op.C, int64(p.VpnLimit), int64(p.VpnCurrent))))
		}
		return &profile.MsgSetVpnCurrent{Sender: w.signer(op.A, s.P.Profile.VpnSigners).B, Address: b.B, Value: x}
	case "profile":
		return w.profileMsg(a, op)
	case "create":
		return w.createMsg(op)
	case "transition":
		return &referral.MsgRequestTransition{Subject: a.B, Destination: w.Acct(op.B).B}
	case "resolve":
		subj := a
		// mostly somebody who has a pending request
		var ps []string
		for k, r := range s.Ref {
			if r.Transition != "" {
				ps = append(ps, k)
			}
		}
		sort.Strings(ps)
		if len(ps) > 0 && eng.Mod(op.C, 10) < 9 {
			if u := UserByAddr(ps[eng.Mod(op.A, len(ps))]); u != nil {
				subj = u
			}
		}
		signer := w.Acct(op.B)
		if r := s.Ref[subj.B]; r != nil && eng.Mod(op.C/10, 10) < 8 {
			if u := UserByAddr(r.Referrer); u != nil {
				signer = u
			}
		}
		return &referral.MsgResolveTransition{Signer: signer.B, Subject: subj.B, Decline: eng.Mod(op.D, 3) == 0}
	case "propose":
		return &voting.MsgPropose{Proposal: w.Proposal(op)}
	case "vote":
		u := a
		if eng.Mod(op.C, 10) < 9 {
			u = w.voter(op.A)
		}
		return &voting.MsgVote{Voter: u.B, Agree: eng.Mod(op.B, 4) != 0}
	case "poll":
		return &voting.MsgStartPoll{Poll: w.poll(op)}
	case "answer":
		return &voting.MsgAnswerPoll{Respondent: a.B, Yes: eng.Mod(op.B, 2) == 0}
	case "earn":
		b := w.Acct(op.B)
		return &earning.MsgSet{Earner: w.earner(b, op.C, op.D), Signer: w.signer(op.A, s.P.Earning.Signers).B}
	case "earnmulti":
		m := &earning.MsgSetMultiple{Signer: w.signer(op.A, s.P.Earning.Signers).B}
		for i := int64(0); i < 1+op.C%4; i++ {
			m.Earners = append(m.Earners, w.earner(w.Acct(op.B+i*3), op.C+i, op.D+i))
		}
		return m
	}
	return nil
}

func nonneg(x int64) int64 {
	if x < 0 {
		return 0
	}
	return x
}

func small(x int64) int64 {
	if x < 0 {
		x = -x
	}
	switch x % 6 {
	case 0:
		return 0
	case 1:
		return 1
	case 5:
		if x/6%4 == 0 { // near what the field can hold
			return 1<<32 - 1 - x/24%1000
		}
		return x / 6 % 1_000_000
	default:
		return x / 6 % 60
	}
}

// storage is an amount of storage in GB near the limits of the moment.
func (w *World) storage(x int64, p *profile.Profile, ps *Params) int64 {
	base := int64(ps.Profile.BaseStorageGb)
	have := base
	if p != nil && p.StorageLimit > 0 {
		have = int64(p.StorageLimit / util.GBSize)
	}
	cur := int64(0)
	if p != nil {
		cur = int64(p.StorageCurrent / util.GBSize)
	}
	k := x / 8
	if eng.Mod(x, 61) == 60 { // where the price, in bytes, does not fit into 64 bits
		pr := int64(ps.Profile.StorageGbPrice)
		if pr < 4 {
			return 1<<32 - 1 - nonneg(k)%40
		}
		return (1<<34-nonneg(k)%2000)/pr + base
	}
	switch eng.Mod(x, 8) {
	case 0:
		return 0
	case 1:
		return base
	case 2:
		return have
	case 3:
		return cur + k%2
	case 4:
		return have + k%40
	case 5:
		return nonneg(base - 1)
	default:
		return base + k%50
	}
}

// sendable is Amount, aware of the fee that comes on top.
func (w *World) sendable(have, x, limit int64) int64 {
	p := &w.Snap().P
	if eng.Mod(x, 10) != 0 && eng.Mod(x, 10) != 6 {
		return Amount(x, have, limit)
	}
	// the largest amount that leaves enough for the fee (or one more, one time of three)
	lo, hi := int64(0), have
	for lo < hi {
		m := (lo + hi + 1) / 2
		if m+p.Fee(m) <= have {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return lo + (x/10)%3/2
}

func (w *World) signer(x int64, list []string) *User {
	if len(list) > 0 && eng.Mod(x/64, 10) < 7 {
		if u := UserByAddr(list[eng.Mod(x, len(list))]); u != nil {
			return u
		}
	}
	return w.Acct(x)
}

func (w *World) earner(u *User, c, d int64) earning.Earner {
	e := earning.Earner{Account: u.B}
	ts := func(x int64) *time.Time {
		var t time.Time
		switch eng.Mod(x, 6) {
		case 0:
			return nil
		case 1:
			t = w.Time
		case 2:
			t = w.Time.Add(-2 * w.Cfg.Day)
		case 3:
			t = w.Time.Add(-time.Duration(x / 6 % int64(3*w.Cfg.Day)))
		case 4:
			t = w.Time.Add(-2*w.Cfg.Day + time.Duration(x/6%3-1))
		default:
			t = w.Time.Add(time.Duration(x / 6 % int64(w.Cfg.Day)))
		}
		return &t
	}
	e.Vpn, e.Storage = ts(c), ts(d)
	return e
}

var Nicks = []string{"", "User1", "user2", "USER3", "abc", "ABC", " abc ", "ab", "ARTR-1111-2222-3333", "artr-x", "ARTR", "Zoë", "x y z", "nick-name", "  ", "\tabc", "verylongnicknameverylongnicknameverylongnickname"}

func (w *World) nick(x int64) string {
	if eng.Mod(x, 3) == 0 {
		return fmt.Sprintf("nick%d", x/3%50)
	}
	return Nicks[eng.Mod(x/3, len(Nicks))]
}

func strUpd(f profile.MsgUpdateProfile_Update_Field, v string) profile.MsgUpdateProfile_Update {
	return profile.MsgUpdateProfile_Update{Field: f, Value: &profile.MsgUpdateProfile_Update_String_{String_: v}}
}
func boolUpd(f profile.MsgUpdateProfile_Update_Field, v bool) profile.MsgUpdateProfile_Update {
	return profile.MsgUpdateProfile_Update{Field: f, Value: &profile.MsgUpdateProfile_Update_Bool{Bool: v}}
}

func (w *World) profileMsg(a *User, op eng.Op) sdk.Msg {
	m := &profile.MsgUpdateProfile{Address: a.B}
	for i := int64(0); i <= op.D%3; i++ {
		x := op.B >> uint(i*7)
		switch eng.Mod(x, 8) {
		case 0, 1:
			m.Updates = append(m.Updates, boolUpd(profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY, x/8%2 == 0))
		case 2:
			m.Updates = append(m.Updates, boolUpd(profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY, x/8%2 == 0))
		case 3:
			fs := []profile.MsgUpdateProfile_Update_Field{
				profile.MsgUpdateProfile_Update_FIELD_NODING, profile.MsgUpdateProfile_Update_FIELD_STORAGE,
				profile.MsgUpdateProfile_Update_FIELD_VALIDATOR, profile.MsgUpdateProfile_Update_FIELD_VPN,
			}
			m.Updates = append(m.Updates, boolUpd(fs[eng.Mod(x/16, 4)], x/8%2 == 0))
		default:
			m.Updates = append(m.Updates, strUpd(profile.MsgUpdateProfile_Update_FIELD_NICKNAME, w.nick(op.C>>uint(i*5))))
		}
	}
	return m
}

func (w *World) createMsg(op eng.Op) sdk.Msg {
	n := w.Known()
	u := &users[n]
	if eng.Mod(op.B, 8) == 0 {
		u = w.Acct(op.B / 8)
	}
	m := &profile.MsgCreateAccount{Creator: w.signer(op.A, w.Snap().P.Profile.Creators).B, Address: u.B, Referrer: w.Acct(op.C).B}
	switch eng.Mod(op.D, 4) {
	case 0:
		m.Profile = &profile.Profile{Nickname: w.nick(op.D / 4), Noding: op.D/64%2 == 0, AutoPay: op.D/128%2 == 0}
	case 1:
		if eng.Mod(op.D/4, 3) == 0 { // asks for what it has not paid for
			t := w.Time.Add(100 * w.Cfg.Day)
			m.Profile = &profile.Profile{ActiveUntil: &t, StorageLimit: 1 << 50, VpnLimit: 1 << 50, ImLimitExtra: 100, ExtraImUntil: &t, CardNumber: 7}
		}
	}
	return m
}

// voter is mostly a government member who has not voted yet.
func (w *World) voter(x int64) *User {
	s := w.Snap()
	var l []string
	for _, g := range s.V.Gov {
		if !contains(s.V.Agreed, g) && !contains(s.V.Disagreed, g) {
			l = append(l, g)
		}
	}
	if len(l) == 0 || x%8 == 0 {
		l = s.V.Gov
	}
	if len(l) > 0 {
		if u := UserByAddr(l[eng.Mod(x/8, len(l))]); u != nil {
			return u
		}
	}
	return w.Acct(x)
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// oddName makes some names hard to quote.
func oddName(s string, c int64) string {
	odd := []string{"", "", "", "", "", "", " <b>&", " \"q\"", " \\ \\\"", " tab\tline\n", " Ünïcode\u2028", " '%s' {}", " \\u0026", "\"", "\x7f\x01"}
	return s + odd[eng.Mod(c, len(odd))]
}

func (w *World) poll(op eng.Op) voting.Poll {
	s := w.Snap()
	a := w.Acct(op.A)
	if len(s.V.Gov) > 0 && eng.Mod(op.A/64, 10) < 8 {
		if u := UserByAddr(s.V.Gov[eng.Mod(op.A, len(s.V.Gov))]); u != nil {
			a = u
		}
	}
	p := voting.Poll{Author: a.B, Name: oddName(fmt.Sprintf("poll %d", op.B%7), op.B/7), Question: "?"}
	switch eng.Mod(op.B, 6) {
	case 0:
	case 1:
		q := util.NewFraction(0, 1)
		p.Quorum = &q
	case 2:
		q := util.NewFraction(1, 1)
		p.Quorum = &q
	case 3:
		q := util.NewFraction(1, 2)
		p.Quorum = &q
	case 4:
		q := util.NewFraction(2, 3)
		p.Quorum = &q
	default:
		q := util.NewFraction(1+op.B/6%9, 9)
		p.Quorum = &q
	}
	switch eng.Mod(op.C, 4) {
	case 0:
		p.Requirements = &voting.Poll_CanValidate{CanValidate: &voting.Poll_Unit{}}
	case 1:
	default:
		p.Requirements = &voting.Poll_MinStatus{MinStatus: referral.Status(1 + op.C/4%3)}
	}
	return p
}

// Now builds a table of all proposal kinds.
type PropKind struct {
	T    voting.ProposalType
	Args string
}

var PropKinds = []PropKind{
	{voting.PROPOSAL_TYPE_ENTER_PRICE, "price"}, {voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, "price"},
	{voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE, "price"}, {voting.PROPOSAL_TYPE_TRANSITION_PRICE, "price"},
	{voting.PROPOSAL_TYPE_GOVERNMENT_ADD, "addr"}, {voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, "addr"}, {voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, "addr"}, {voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, "addr"}, {voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, "addr"}, {voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, "addr"}, {voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, "addr"}, {voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, "addr"}, {voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE, "addr"},
	{voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE, "upgrade"}, {voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE, ""},
	{voting.PROPOSAL_TYPE_MIN_SEND, "min"}, {voting.PROPOSAL_TYPE_MIN_DELEGATE, "min"},
	{voting.PROPOSAL_TYPE_DUST_DELEGATION, "min"}, {voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE, "min"},
	{voting.PROPOSAL_TYPE_MAX_VALIDATORS, "count"}, {voting.PROPOSAL_TYPE_LUCKY_VALIDATORS, "count"},
	{voting.PROPOSAL_TYPE_JAIL_AFTER, "count"}, {voting.PROPOSAL_TYPE_GENERAL_AMNESTY, ""},
	{voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA, "criteria"}, {voting.PROPOSAL_TYPE_VOTING_POWER, "power"},
	{voting.PROPOSAL_TYPE_TRANSACTION_FEE, "portion"}, {voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS, "portions"},
	{voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE, "table"},
	{voting.PROPOSAL_TYPE_REVOKE, "revoke"}, {voting.PROPOSAL_TYPE_EXPRESS_REVOKE, "revoke"},
	// kinds that are of no effect any more
	{voting.PROPOSAL_TYPE_VALIDATOR_BONUS, "portion"}, {voting.PROPOSAL_TYPE_BURN_ON_REVOKE, "portion"},
	{voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_STATUS, "status"}, {voting.PROPOSAL_TYPE_REVOKE_PERIOD, "period"},
}

// Kinds that are of no effect either, and are proposed even less often.
var oldKinds = []voting.ProposalType{
	voting.PROPOSAL_TYPE_DELEGATION_AWARD, voting.PROPOSAL_TYPE_DELEGATION_NETWORK_AWARD,
	voting.PROPOSAL_TYPE_PRODUCT_NETWORK_AWARD, voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_RANGES,
}

func oldProposal(p *voting.Proposal, c, d int64) {
	p.Type = oldKinds[eng.Mod(d, len(oldKinds))]
	switch p.Type {
	case voting.PROPOSAL_TYPE_DELEGATION_AWARD:
		p.Args = &voting.Proposal_DelegationAward{DelegationAward: &voting.DelegationAwardArgs{Award: delegating.Percentage{
			Minimal: c%7 + 1, ThousandPlus: c%7 + 2, TenKPlus: c%7 + 2, HundredKPlus: c%7 + 5}}}
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_RANGES:
		p.Args = &voting.Proposal_AccruePercentageRanges{AccruePercentageRanges: &voting.AccruePercentageRangesArgs{
			AccruePercentageRanges: []delegating.PercentageRange{{Start: 0, Percent: util.Percent(c % 20)}, {Start: uint64(c) + 1, Percent: util.Percent(c%20 + 1)}}}}
	default:
		a := referral.NetworkAward{Company: util.Percent(c % 7)}
		for i := int64(0); i < 10; i++ {
			a.Network = append(a.Network, util.Percent((c+i)%5))
		}
		p.Args = &voting.Proposal_NetworkAward{NetworkAward: &voting.NetworkAwardArgs{Award: a}}
	}
}

// Proposal: A author, B kind, C and D its argument.
func (w *World) Proposal(op eng.Op) voting.Proposal {
	s := w.Snap()
	a := w.Acct(op.A)
	if len(s.V.Gov) > 0 && eng.Mod(op.A/64, 10) < 8 {
		if u := UserByAddr(s.V.Gov[eng.Mod(op.A, len(s.V.Gov))]); u != nil {
			a = u
		}
	}
	k := PropKinds[eng.Mod(op.B, len(PropKinds))]
	p := voting.Proposal{Author: a.B, Name: oddName(fmt.Sprintf("p%d", op.C%100), op.C/100), Type: k.T}
	c, d := op.C, op.D
	if eng.Mod(c, 41) == 7 {
		oldProposal(&p, c, d)
		return p
	}
	switch k.Args {
	case "price":
		x := []int64{0, 1, c % 5000, c % 5000, 1<<32 - 1}[eng.Mod(d, 5)]
		p.Args = &voting.Proposal_Price{Price: &voting.PriceArgs{Price: uint32(x)}}
	case "addr":
		b := w.Acct(c).B
		if l := w.listOf(k.T); len(l) > 0 && eng.Mod(d, 3) == 0 {
			b = l[eng.Mod(c, len(l))]
		}
		if k.T == voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE && b == users[0].B {
			b = users[1].B // the assumption is that user 0 keeps validating
		}
		p.Args = &voting.Proposal_Address{Address: &voting.AddressArgs{Address: b}}
	case "upgrade":
		t := w.Time.Add(1000 * 30 * 24 * time.Hour)
		p.Args = &voting.Proposal_SoftwareUpgrade{SoftwareUpgrade: &voting.SoftwareUpgradeArgs{Name: fmt.Sprintf("u%d", c%5), Time: &t, Info: "i"}}
	case "min":
		x := []int64{0, 1, c % 1_000_000, c % 1_000_000_000_000, -1, -c, 1 << 50}[eng.Mod(d, 7)]
		p.Args = &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: x}}
	case "count":
		x := []int64{0, 1, c % 6, c % 6, 1<<32 - 1}[eng.Mod(d, 5)]
		p.Args = &voting.Proposal_Count{Count: &voting.CountArgs{Count: uint32(x)}}
	case "criteria":
		mc := noding.MinCriteria{Status: referral.Status(1 + c%4), SelfStake: uint64(c / 4 % 20_000_000_000), TotalStake: uint64(c / 7 % 40_000_000_000)}
		switch eng.Mod(d, 6) {
		case 0:
			mc.Status = referral.Status(c % 12)
		case 1, 2, 3:
			mc.TotalStake += mc.SelfStake
		}
		p.Args = &voting.Proposal_MinCriteria{MinCriteria: &voting.MinCriteriaArgs{MinCriteria: &mc}}
	case "power":
		v := Slices(c)
		switch eng.Mod(d, 6) {
		case 0:
			v.LuckiesVotingPower = c % 100
		case 3:
			v.LuckiesVotingPower = (c % 100) << 52 // Beyond what consensus survives, must be refused
		case 1:
			v.Slices = nil
		case 2:
			v.Slices = append([]noding.Distribution_Slice{}, v.Slices...)
			v.Slices[0].VotingPower = c % 200
			v.Slices[0].Part = util.Percent(c % 130)
		}
		p.Args = &voting.Proposal_VotingPower{VotingPower: &v}
	case "portion":
		f := util.NewFraction(c%1200-10, 1000)
		if eng.Mod(d, 3) > 0 {
			f = util.NewFraction(c%20, 1000)
		}
		p.Args = &voting.Proposal_Portion{Portion: &voting.PortionArgs{Fraction: f}}
	case "portions":
		sp := Splits[eng.Mod(c, len(Splits))]
		fs := []util.Fraction{sp[0], sp[1]}
		switch eng.Mod(d, 6) {
		case 0:
			fs = fs[:1]
		case 1:
			fs = append(fs, util.Percent(1))
		case 2:
			fs = []util.Fraction{util.NewFraction(c%8, 7), util.NewFraction(c/8%10, 9)}
		case 3:
			fs = []util.Fraction{util.NewFraction(c%97, 97), util.NewFraction(c/97%89, 89)}
		}
		p.Args = &voting.Proposal_Portions{Portions: &voting.PortionsArgs{Fractions: fs}}
	case "table":
		t := append([]delegating.PercentageListRange{}, Table(c)...)
		switch eng.Mod(d, 8) {
		case 0:
			t[0].Start = uint64(c)
		case 1:
			t[0].PercentList = t[0].PercentList[:4]
		case 2:
			t = nil
		}
		p.Args = &voting.Proposal_AccruePercentageTable{AccruePercentageTable: &voting.AccruePercentageTableArgs{AccruePercentageTable: t}}
	case "revoke":
		r := delegating.Revoke{Period: uint32(c % 20), Burn: util.Percent(c / 20 % 110)}
		p.Args = &voting.Proposal_Revoke{Revoke: &voting.RevokeArgs{Revoke: &r}}
	case "status":
		p.Args = &voting.Proposal_Status{Status: &voting.StatusArgs{Status: referral.Status(1 + c%5)}}
	case "period":
		p.Args = &voting.Proposal_Period{Period: &voting.PeriodArgs{Days: uint32(c % 10)}}
	}
	return p
}

// listOf is the list an address proposal works on.
func (w *World) listOf(t voting.ProposalType) []string {
	s := w.Snap()
	switch t {
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD, voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		return s.V.Gov
	case voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		return s.P.Profile.Creators
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		return s.P.Earning.Signers
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		return s.P.Profile.TokenRateSigners
	case voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		return s.P.Profile.VpnSigners
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		return s.P.Profile.StorageSigners
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		return s.P.Bank.BlockedSenders
	}
	return nil
}

// GenOps draws a history with the given weights.
func GenOps(r *eng.R, n int64, ws []eng.W) (ops []eng.Op) {
	// Most things take several steps of one and the same account, so some histories are about few accounts, and in some
	// an account goes on acting for a while.
	var few []int64
	sticky, last := false, int64(0)
	switch r.Intn(4) {
	case 2:
		for k := 1 + r.Intn(3); k > 0; k-- {
			few = append(few, r.Raw())
		}
	case 3:
		sticky, last = true, r.Raw()
	}
	for ; n > 0; n-- {
		op := eng.Op{K: r.Weighted(ws), A: r.Raw(), B: r.Raw(), C: r.Raw(), D: r.Raw()}
		switch op.K {
		case "next", "evid", "propose", "vote", "resolve", "bundle", "forge":
		default:
			if len(few) != 0 && r.Chance(75) {
				op.A = few[r.Intn(len(few))]
			} else if sticky && r.Chance(65) {
				op.A = last
			}
			last = op.A
		}
		if op.K == "next" && r.Chance(70) {
			op.C = 0 // everybody signs
		}
		ops = append(ops, op)
	}
	return
}

// AllOps touches everything.
func AllOps() []eng.W {
	return []eng.W{{"next", 60}, {"send", 16}, {"burn", 2}, {"delegate", 12}, {"revoke", 6}, {"express", 5},
		{"on", 8}, {"off", 2}, {"unjail", 3}, {"evid", 1}, {"tariff", 12}, {"buystorage", 2}, {"givestorage", 2}, {"buyvpn", 2},
		{"buyim", 2}, {"giveim", 1}, {"prolongim", 1}, {"rate", 1}, {"setstorage", 2}, {"setvpn", 2}, {"profile", 6}, {"create", 5},
		{"transition", 6}, {"resolve", 5}, {"propose", 6}, {"vote", 10}, {"poll", 2}, {"answer", 5}, {"earn", 4}, {"earnmulti", 2}}
}
