package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"encoding/binary"
	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	"github.com/gogo/protobuf/proto"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// G04: whatever is sent, the chain goes on.

type fuzzer struct {
	w *world.World
	r *eng.R
	s *world.Snap
}

var (
	typInt      = reflect.TypeOf(sdk.Int{})
	typFraction = reflect.TypeOf(util.Fraction{})
	typTime     = reflect.TypeOf(time.Time{})
)

func (z *fuzzer) int64() int64 {
	switch z.r.Intn(6) {
	case 0:
		return oddInt(z.r)
	case 1:
		x := int64(1)
		for i := z.r.Intn(19); i > 0; i-- {
			x *= 10
		}
		return x - int64(z.r.Intn(2))
	case 2:
		return int64(1)<<uint(z.r.Intn(63)) - int64(z.r.Intn(2))
	default:
		return int64(z.r.Intn(200))
	}
}

func (z *fuzzer) account() string {
	if z.r.Chance(8) {
		return oddText(z.r)
	}
	if z.r.Chance(8) {
		ms := []string{util.SplittableFeeCollectorName, "fee_collector", "voting", "bank"}
		return world.ModuleAddr(ms[z.r.Intn(len(ms))])
	}
	a := world.U(z.r.Intn(z.w.Known() + 2)).B
	if z.r.Chance(5) {
		a = strings.ToUpper(a)
	}
	return a
}

func (z *fuzzer) text(name string) string {
	n := strings.ToLower(name)
	if strings.Contains(n, "pubkey") || strings.Contains(n, "pub_key") {
		if z.r.Chance(80) {
			return world.ConsBech(z.r.Intn(40))
		}
		return oddText(z.r)
	}
	for _, x := range []string{"address", "account", "creator", "author", "voter", "sender", "recipient", "subject", "destination", "signer", "respondent", "governor",
		"referrer", "from", "to", "newcomer", "members", "delegator", "referral", "target"} {
		if strings.Contains(n, x) && z.r.Chance(95) {
			return z.account()
		}
	}
	switch z.r.Intn(5) {
	case 0:
		return z.account()
	case 1:
		return oddText(z.r)
	case 2:
		return strings.Repeat("ы", z.r.Intn(300))
	default:
		return []string{"alice", "Bob", "user1", "uartr", "uartrd", "uartrr", "name", "1", "100", "artr"}[z.r.Intn(10)]
	}
}

func (z *fuzzer) time() time.Time {
	switch z.r.Intn(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(-62135596800, 0).UTC() // the least Protobuf knows
	case 2:
		return time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)
	case 3:
		return z.w.Time
	default:
		return z.w.Time.Add(time.Duration(z.r.Range(-90*24, 90*24)) * time.Hour).UTC()
	}
}

// fill gives a field a random value.
func (z *fuzzer) fill(v reflect.Value, name string, parent reflect.Value, depth int) {
	switch v.Type() {
	case typInt:
		x := sdk.NewInt(z.int64())
		if z.r.Chance(5) {
			x, _ = sdk.NewIntFromString("1" + strings.Repeat("0", 20+z.r.Intn(50)))
		}
		v.Set(reflect.ValueOf(x))
		return
	case typFraction:
		d := z.int64()
		if d == 0 {
			d = 1
		}
		v.Set(reflect.ValueOf(util.NewFraction(z.int64(), d)))
		return
	case typTime:
		v.Set(reflect.ValueOf(z.time()))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(z.text(name))
	case reflect.Bool:
		v.SetBool(z.r.Chance(50))
	case reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(z.int64() >> (64 - uint(v.Type().Bits())))
		if z.r.Chance(60) {
			v.SetInt(int64(z.r.Intn(20)))
		}
	case reflect.Uint32, reflect.Uint64, reflect.Uint8, reflect.Uint:
		v.SetUint(uint64(z.int64()) >> (64 - uint(v.Type().Bits())))
		if z.r.Chance(60) {
			v.SetUint(uint64(z.r.Intn(20)))
		}
	case reflect.Ptr:
		if depth > 6 || z.r.Chance(10) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := reflect.New(v.Type().Elem())
		z.fill(n.Elem(), name, reflect.Value{}, depth+1)
		v.Set(n)
	case reflect.Slice:
		n := z.r.Intn(4)
		if z.r.Chance(3) {
			n = 200
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			z.fill(s.Index(i), name, reflect.Value{}, depth+1)
		}
		v.Set(s)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(voting.Proposal{}) && z.r.Chance(80) {
			p := z.w.Proposal(eng.Op{A: z.r.Raw(), B: z.r.Raw(), C: z.r.Raw(), D: z.r.Raw()})
			v.Set(reflect.ValueOf(p))
			z.mutate(v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				z.fill(f, v.Type().Field(i).Name, v, depth+1)
			}
		}
	case reflect.Interface:
		if parent.IsValid() && parent.CanAddr() {
			if o, ok := parent.Addr().Interface().(interface{ XXX_OneofWrappers() []interface{} }); ok {
				var fit []reflect.Type
				for _, x := range o.XXX_OneofWrappers() {
					if t := reflect.TypeOf(x); t.Implements(v.Type()) {
						fit = append(fit, t)
					}
				}
				if len(fit) > 0 && !z.r.Chance(5) {
					n := reflect.New(fit[z.r.Intn(len(fit))].Elem())
					z.fill(n.Elem(), name, reflect.Value{}, depth+1)
					v.Set(n)
				}
			}
		}
	}
}

// leaf is a field that can be changed.
type leaf struct {
	v, parent reflect.Value
	name      string
}

func leaves(v reflect.Value, name string, parent reflect.Value) (r []leaf) {
	switch v.Type() {
	case typInt, typFraction, typTime:
		return []leaf{{v, parent, name}}
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				r = append(r, leaves(f, v.Type().Field(i).Name, v)...)
			}
		}
	case reflect.Ptr, reflect.Interface:
		r = append(r, leaf{v, parent, name})
		if !v.IsNil() {
			r = append(r, leaves(v.Elem(), name, reflect.Value{})...)
		}
	case reflect.Slice:
		r = append(r, leaf{v, parent, name})
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				r = append(r, leaves(v.Index(i), name, reflect.Value{})...)
			}
		}
	default:
		if v.CanSet() {
			r = append(r, leaf{v, parent, name})
		}
	}
	return
}

func (z *fuzzer) mutate(v reflect.Value) {
	for i := 1 + z.r.Intn(2); i > 0; i-- {
		var ls []leaf
		for _, l := range leaves(v, "", reflect.Value{}) {
			if l.v.CanSet() {
				ls = append(ls, l)
			}
		}
		if len(ls) == 0 {
			return
		}
		l := ls[z.r.Intn(len(ls))]
		z.fill(l.v, l.name, l.parent, 1)
	}
}

// msgTypes are all the kinds of messages there are.
func msgTypes(w *world.World) []string {
	var r []string
	for _, u := range w.EC.InterfaceRegistry.ListImplementations("cosmos.base.v1beta1.Msg") {
		if strings.HasPrefix(u, "/artery.") {
			r = append(r, u)
		}
	}
	sort.Strings(r)
	return r
}

func clone(m sdk.Msg) (c sdk.Msg) {
	bz, err := proto.Marshal(m)
	must(err)
	c = reflect.New(reflect.TypeOf(m).Elem()).Interface().(sdk.Msg)
	must(proto.Unmarshal(bz, c))
	return c
}

// message makes a message up; nil if it cannot even be encoded.
func (z *fuzzer) message() (m sdk.Msg) {
	defer func() {
		if e := recover(); e != nil {
			m = nil
		}
	}()
	if z.r.Chance(60) {
		if x := z.w.Msg(z.w.SubOp(eng.Op{K: "fuzz", A: z.r.Raw(), B: z.r.Raw(), C: z.r.Raw(), D: z.r.Raw()}, 0)); x != nil {
			m = clone(x)
			z.mutate(reflect.ValueOf(m).Elem())
		}
	}
	if m == nil {
		ts := msgTypes(z.w)
		x, err := z.w.EC.InterfaceRegistry.Resolve(ts[z.r.Intn(len(ts))])
		must(err)
		m = x.(sdk.Msg)
		z.fill(reflect.ValueOf(m).Elem(), "", reflect.Value{}, 0)
	}
	m = tame(clone(m))
	return m
}

// tame leaves out what stops a chain by intention: the last validator's leaving and planned upgrades.
func tame(m sdk.Msg) sdk.Msg {
	switch m := m.(type) {
	case *noding.MsgOff:
		if canon(m.Account) == world.U(0).B {
			return nil
		}
	case *voting.MsgPropose:
		if m.Proposal.Type == voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE {
			return nil
		}
		if a := m.Proposal.GetAddress(); m.Proposal.Type == voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE && a != nil && canon(a.Address) == world.U(0).B {
			return nil
		}
	}
	return m
}

// junk encodes messages with signatures that are worth nothing.
func (z *fuzzer) junk(msgs ...sdk.Msg) (bz []byte) {
	defer func() {
		if recover() != nil {
			bz = nil
		}
	}()
	b := z.w.EC.TxConfig.NewTxBuilder()
	must(b.SetMsgs(msgs...))
	b.SetGasLimit(uint64(z.int64()))
	b.SetMemo(z.text("memo"))
	if z.r.Chance(50) {
		b.SetTimeoutHeight(uint64(z.r.Intn(5)))
	}
	var sigs []signing.SignatureV2
	for i := z.r.Intn(3); i > 0; i-- {
		u := world.U(z.r.Intn(8))
		sigs = append(sigs, signing.SignatureV2{PubKey: u.Priv.PubKey(), Sequence: uint64(z.r.Intn(4)),
			Data: &signing.SingleSignatureData{SignMode: signing.SignMode(z.r.Intn(4)), Signature: []byte(oddText(z.r))}})
	}
	must(b.SetSignatures(sigs...))
	bz, err := z.w.EC.TxConfig.TxEncoder()(b.GetTx())
	must(err)
	return bz
}

// garble changes an encoded transaction.
func (z *fuzzer) garble(bz []byte) []byte {
	bz = append([]byte(nil), bz...)
	for i := 1 + z.r.Intn(4); i > 0; i-- {
		if len(bz) == 0 {
			return []byte{byte(z.r.Intn(256))}
		}
		at := z.r.Intn(len(bz))
		switch z.r.Intn(6) {
		case 0:
			bz[at] ^= 1 << uint(z.r.Intn(8))
		case 1:
			bz[at] = byte(z.r.Intn(256))
		case 2:
			bz = bz[:at]
		case 3:
			end := at + z.r.Intn(len(bz)-at+1)
			bz = append(bz[:end:end], bz[at:]...)
		case 4:
			end := at + z.r.Intn(len(bz)-at+1)
			bz = append(bz[:at:at], bz[end:]...)
		default:
			var v [binary.MaxVarintLen64]byte
			bz = append(bz[:at:at], v[:binary.PutUvarint(v[:], uint64(z.int64()))]...)
		}
	}
	return bz
}

func attachG04(w *world.World, st *eng.Stats) {
	if w.Extra == nil {
		w.Extra = map[string]func(w *world.World, op eng.Op){}
	}
	taken := 0
	send := func(bz []byte, what string) {
		if bz == nil {
			return
		}
		res := w.Deliver(&world.Tx{Bytes: bz})
		if res.Code == 0 {
			st.Count("accepted " + what)
		} else {
			st.Count("refused " + what)
		}
		w.App.CheckTx(abci.RequestCheckTx{Tx: bz})
	}
	w.Extra["fuzz"] = func(w *world.World, op eng.Op) {
		z := &fuzzer{w, eng.NewR(op.A), w.Snap()}
		var msgs []sdk.Msg
		for i := 1 + z.r.Intn(3)/2; i > 0; i-- {
			if m := z.message(); m != nil {
				msgs = append(msgs, m)
			}
		}
		if len(msgs) == 0 {
			st.Count("nothing to send")
			return
		}
		tx, err := func() (tx *world.Tx, err error) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("no signers: %v", e)
				}
			}()
			return w.MakeTx(nil, false, msgs...)
		}()
		if err != nil || len(tx.Signers) == 0 {
			send(z.junk(msgs...), "unsigned message")
			return
		}
		if res := w.Deliver(tx); res.Code == 0 {
			taken++
			st.Count("accepted message")
			st.Count("accepted " + msgNames(tx))
		} else {
			st.Count("refused message")
		}
	}
	w.Extra["bytes"] = func(w *world.World, op eng.Op) {
		z := &fuzzer{w, eng.NewR(op.A), w.Snap()}
		m := w.Msg(w.SubOp(op, 0))
		if m == nil {
			return
		}
		tx, err := w.MakeTx(nil, false, m)
		if err != nil {
			return
		}
		send(z.garble(tx.Bytes), "garbled bytes")
	}
	w.Extra["bold"] = func(w *world.World, op eng.Op) {
		z := &fuzzer{w, eng.NewR(op.A), w.Snap()}
		if z.s.V.Proposal != nil || len(z.s.V.Gov) == 0 {
			return
		}
		var m sdk.Msg
		func() {
			defer func() {
				if recover() != nil {
					m = nil
				}
			}()
			x := &voting.MsgPropose{}
			x.Proposal = z.w.Proposal(eng.Op{A: z.r.Raw(), B: z.r.Raw(), C: z.r.Raw(), D: z.r.Raw()})
			if x.Proposal.Args != nil {
				z.mutate(reflect.ValueOf(x.Proposal.Args).Elem())
			}
			x.Proposal.Author = z.s.V.Gov[z.r.Intn(len(z.s.V.Gov))]
			m = tame(clone(x))
		}()
		if m == nil || world.UserByAddr(m.(*voting.MsgPropose).Proposal.Author) == nil {
			return
		}
		if w.Send(m).Code != 0 {
			st.Count("bold proposal refused")
			return
		}
		taken++
		st.Count("bold proposal " + m.(*voting.MsgPropose).Proposal.Type.String())
		w.Extra["pass"](w, op)
	}
	w.Extra["pass"] = func(w *world.World, op eng.Op) {
		if w.Snap().V.Proposal == nil {
			return
		}
		for _, g := range w.Snap().V.Gov {
			if w.Snap().V.Proposal == nil {
				return
			}
			if world.UserByAddr(g) != nil {
				if w.Send(&voting.MsgVote{Voter: g, Agree: true}).Code == 0 {
					st.Count("vote for whatever is proposed")
				}
			}
		}
	}
	w.Extra["odd"] = func(w *world.World, op eng.Op) {
		// evidence against a key nobody has ever had
		w.Evidence = append(w.Evidence, abci.Evidence{Type: abci.EvidenceType(1 + eng.Mod(op.A, 2)),
			Validator: abci.Validator{Address: []byte(strings.Repeat(string(rune('a'+eng.Mod(op.B, 20))), 20)), Power: 1}, Height: w.Height, Time: w.Time, TotalVotingPower: 10})
	}
	w.Extra["ask"] = func(w *world.World, op eng.Op) {
		w.App.Query(anyQuery(eng.NewR(op.A), w.Snap().Accounts()))
	}
	w.AfterCommit = append(w.AfterCommit, func() {
		checkSupply(w.Snap(), "after a block")
	})
	w.Extra["alive"] = func(w *world.World, op eng.Op) {
		for _, d := range []time.Duration{time.Second, w.Cfg.Day + w.Cfg.Day/24, 31 * w.Cfg.Day, 20 * w.Cfg.Day} {
			w.Next(d)
			s := w.Snap()
			checkForest(s, "at last")
			checkAggregates(s, "at last")
			transferWorks(w, st)
		}
		if taken > 0 {
			st.NonTrivial = true
		}
	}
}

// transferWorks sends coins between two accounts that can do it, which must succeed.
func transferWorks(w *world.World, st *eng.Stats) {
	s := w.Snap()
	x := s.P.Bank.MinSend
	if x < 1 {
		x = 1
	}
	blocked := map[string]bool{}
	for _, a := range s.P.Bank.BlockedSenders {
		blocked[canon(a)] = true
	}
	for i := 0; i < w.Known(); i++ {
		u := world.U(i)
		if blocked[u.B] || s.Bal[u.B].U/3 < x || s.Ref[u.B] == nil {
			continue
		}
		to := world.U((i + 1) % w.Known())
		res := w.Send(bank.NewMsgSend(u.Addr, to.Addr, sdk.NewCoins(sdk.NewInt64Coin(util.ConfigMainDenom, x))))
		if res.Code != 0 {
			eng.Fail("alive/transfer", "%s has %d uartr and cannot send %d to %s: %s", u.B, s.Bal[u.B].U, x, to.B, res.Log)
		}
		st.Count("transfer still works")
		return
	}
	st.Count("nobody can transfer")
}

func fuzzGen(min, max int64) func(r *eng.R) *eng.Case {
	ws := append(reweigh(eng.W{K: "next", N: 60}), eng.W{K: "fuzz", N: 130}, eng.W{K: "bold", N: 40}, eng.W{K: "bytes", N: 15}, eng.W{K: "pass", N: 18}, eng.W{K: "odd", N: 3}, eng.W{K: "ask", N: 10})
	return chainGen(min, max, ws, func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["rseed"] = r.Raw()
	})
}

func init() {
	eng.Register(&eng.Property{
		ID: "G04",
		Rule: "messages of every kind with random or mutated fields, signed by whom they name as signers, garbled transactions, odd queries and evidence against unknown keys go between ordinary operations; " +
			"then blocks come after a day, a month and more, and a transfer must still succeed; non-trivial: at least one message with made up fields has been accepted",
		Assumptions: []string{
			"the consensus engine is not part of the system: what it calls the application with is as its interface says",
			"planned software upgrades, which stop the chain by intention, and the leaving of the last validator are left out",
		},
		Suites: []*eng.Suite{{
			Name: "fuzz",
			Gen: func(r *eng.R) *eng.Case {
				c := fuzzGen(40, 110)(r)
				c.Ops = append(c.Ops, eng.Op{K: "alive"})
				return c
			},
			Run:   chainRun(attachG04),
			Quick: 250, Thorough: 12000,
		}},
	})
}
