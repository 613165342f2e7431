package world

import (
	"encoding/binary"
	"reflect"
	"sort"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"
	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
)

// Params are the parameters of all parts.
type Params struct {
	Bank       bank.Params
	Delegating delegating.Params
	Noding     noding.Params
	Profile    profile.Params
	Referral   referral.Params
	Voting     voting.Params
	Earning    earning.Params
	Schedule   schedule.Params
}

// Bal is what one account holds.
type Bal struct{ U, D, R int64 } // uartr, uartrd, uartrr

func (b Bal) Total() int64 { return b.U + b.D + b.R }

// Snap is the decoded state at one moment. It is read straight from the stores, not through the code under test.
type Snap struct {
	Height int64
	Time   time.Time
	Raw    Raw

	Bal      map[string]Bal
	OddCoins map[string]sdk.Coins // entries that are not positive amounts of the three known denominations
	Supply   map[string]int64
	Ref      map[string]*referral.Info
	Prof     map[string]*profile.Profile
	Del      map[string]*delegating.Record
	Val      map[string]*noding.Info
	Lottery  []string // accounts in queue order
	LotteryN []uint64
	NodeIdx  map[string]string // consensus address (raw) -> account
	Tasks    []schedule.Task   // in store order
	Earn     map[string]*earning.Timestamps
	Acc      map[string]Acc
	Alias    map[string]string
	Card     map[uint64]string
	V        Voting
	P        Params
}

type Acc struct{ Num, Seq uint64 }

type Voting struct {
	Gov, Agreed, Disagreed []string
	Proposal               *voting.Proposal
	Start                  int64
	History                []voting.ProposalHistoryRecord
	Poll                   *voting.Poll
	Yes, No                uint64
	Answers                map[string]bool
	PollHistory            []voting.PollHistoryItem
}

// Dirty drops the cached snapshot.
func (w *World) Dirty() { w.snapValid = false }

// Snap reads the state as of now (cached until something is executed).
func (w *World) Snap() *Snap {
	if !w.snapValid {
		w.snap = w.snapOf(w.Ctx())
		w.snapValid = true
	}
	return w.snap
}

func must(err error) {
	if err != nil {
		eng.Bug("cannot decode the state: %v", err)
	}
}

func (w *World) snapOf(ctx sdk.Context, without ...string) *Snap {
	s := &Snap{Height: w.Height, Time: w.Time, Raw: RawOf(w.App, ctx, without...)}
	s.decode(w)
	// Reading the parameters is slow; mostly they have not changed.
	if r := s.Raw[paramtypes.StoreKey]; w.parRaw == nil || !reflect.DeepEqual(r, w.parRaw) {
		w.parRaw, w.par = r, w.params(ctx)
	}
	s.P = w.par
	return s
}

// SnapCtx reads the state as a context has it, except for the given stores. Within a block with many tasks the store
// of the schedule is slow to read.
func (w *World) SnapCtx(ctx sdk.Context, without ...string) *Snap { return w.snapOf(ctx, without...) }

type unmarshaler[T any] interface {
	*T
	Unmarshal([]byte) error
}

// memo decodes a record; equal bytes give the same object, which nobody may change.
func memo[T any, P unmarshaler[T]](w *World, v []byte) *T {
	if w.memo == nil {
		w.memo = map[memoKey]interface{}{}
	}
	var zero *T
	k := memoKey{reflect.TypeOf(zero), string(v)}
	if x, ok := w.memo[k]; ok {
		return x.(*T)
	}
	x := new(T)
	must(P(x).Unmarshal(v))
	w.memo[k] = x
	return x
}

type memoKey struct {
	t reflect.Type
	v string
}

func (w *World) params(ctx sdk.Context) Params {
	var p Params
	p.Bank = w.App.GetBankKeeper().GetParams(ctx)
	p.Delegating = w.App.GetDelegatingKeeper().GetParams(ctx)
	p.Noding = w.App.GetNodingKeeper().GetParams(ctx)
	p.Profile = w.App.GetProfileKeeper().GetParams(ctx)
	p.Referral = w.App.GetReferralKeeper().GetParams(ctx)
	p.Voting = w.App.GetVotingKeeper().GetParams(ctx)
	p.Earning = w.App.GetEarningKeeper().GetParams(ctx)
	p.Schedule = w.App.GetScheduleKeeper().GetParams(ctx)
	return p
}

var bechMemo = map[string]string{}

func bech(k string) string {
	x, ok := bechMemo[k]
	if !ok {
		x = sdk.AccAddress([]byte(k)).String()
		bechMemo[k] = x
	}
	return x
}

func (s *Snap) decode(w *World) {
	raw := s.Raw
	s.Bal, s.OddCoins, s.Supply = map[string]Bal{}, map[string]sdk.Coins{}, map[string]int64{}
	for k, v := range raw[bank.StoreKey] {
		switch {
		case len(k) > len(bank.BalancesPrefix) && k[:len(bank.BalancesPrefix)] == string(bank.BalancesPrefix):
			b := memo[bank.Balance](w, v)
			a := bech(k[len(bank.BalancesPrefix):])
			x, odd := BalOf(b.Coins)
			s.Bal[a] = x
			if odd {
				s.OddCoins[a] = b.Coins
			}
		case k == string(bank.SupplyKey):
			var b bank.Supply
			must(b.Unmarshal(v))
			for _, c := range b.Total {
				s.Supply[c.Denom] = i64(c.Amount)
			}
		}
	}
	s.Ref = map[string]*referral.Info{}
	for k, v := range raw[referral.StoreKey] {
		x := memo[referral.Info](w, v)
		s.Ref[k] = x
	}
	s.Prof = map[string]*profile.Profile{}
	for k, v := range raw[profile.StoreKey] {
		x := memo[profile.Profile](w, v)
		s.Prof[bech(k)] = x
	}
	s.Alias = map[string]string{}
	for k, v := range raw[profile.AliasStoreKey] {
		s.Alias[k] = bech(string(v))
	}
	s.Card = map[uint64]string{}
	for k, v := range raw[profile.CardStoreKey] {
		if len(k) == 8 {
			s.Card[binary.BigEndian.Uint64([]byte(k))] = bech(string(v))
		}
	}
	s.Del = map[string]*delegating.Record{}
	for k, v := range raw[delegating.MainStoreKey] {
		x := memo[delegating.Record](w, v)
		s.Del[bech(k)] = x
	}
	s.Val = map[string]*noding.Info{}
	for k, v := range raw[noding.StoreKey] {
		x := memo[noding.Info](w, v)
		s.Val[bech(k)] = x
	}
	s.NodeIdx = map[string]string{}
	var idx []string
	for k, v := range raw[noding.IdxStoreKey] {
		switch {
		case k[0] == 1:
			s.NodeIdx[k[1:]] = bech(string(v))
		case k[0] == 3:
			idx = append(idx, k)
		}
	}
	sort.Strings(idx)
	for _, k := range idx {
		s.Lottery = append(s.Lottery, bech(string(raw[noding.IdxStoreKey][k])))
		s.LotteryN = append(s.LotteryN, binary.BigEndian.Uint64([]byte(k[1:])))
	}
	s.Earn = map[string]*earning.Timestamps{}
	for k, v := range raw[earning.StoreKey] {
		x := memo[earning.Timestamps](w, v)
		s.Earn[bech(k)] = x
	}
	var keys []string
	for k := range raw[schedule.StoreKey] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x := memo[schedule.Schedule](w, raw[schedule.StoreKey][k])
		s.Tasks = append(s.Tasks, x.Tasks...)
	}
	s.Acc = map[string]Acc{}
	for k, v := range raw[auth.StoreKey] {
		if len(k) > 0 && k[0] == auth.AddressStoreKeyPrefix[0] {
			var a auth.AccountI
			must(w.EC.Marshaler.UnmarshalInterface(v, &a))
			s.Acc[a.GetAddress().String()] = Acc{a.GetAccountNumber(), a.GetSequence()}
		}
	}
	s.V.Answers = map[string]bool{}
	gov := func(bz []byte) []string {
		var g voting.Government
		must(g.Unmarshal(bz))
		return g.Members
	}
	keys = nil
	for k := range raw[voting.StoreKey] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := raw[voting.StoreKey][k]
		switch {
		case k == string(voting.KeyGovernment):
			s.V.Gov = gov(v)
		case k == string(voting.KeyAgreedMembers):
			s.V.Agreed = gov(v)
		case k == string(voting.KeyDisagreedMembers):
			s.V.Disagreed = gov(v)
		case k == string(voting.KeyCurrentVote):
			s.V.Proposal = &voting.Proposal{}
			must(s.V.Proposal.Unmarshal(v))
		case k == string(voting.KeyStartBlock):
			s.V.Start = int64(binary.BigEndian.Uint64(v))
		case k[0] == 'h':
			var r voting.ProposalHistoryRecord
			must(r.Unmarshal(v))
			s.V.History = append(s.V.History, r)
		case k == "p/q":
			s.V.Poll = &voting.Poll{}
			must(s.V.Poll.Unmarshal(v))
		case k == "p/y":
			s.V.Yes = binary.BigEndian.Uint64(v)
		case k == "p/n":
			s.V.No = binary.BigEndian.Uint64(v)
		case len(k) > 4 && k[:4] == "p/a/":
			s.V.Answers[k[4:]] = string(v) == string(voting.ValueYes)
		case len(k) > 4 && k[:4] == "p/h/":
			var r voting.PollHistoryItem
			must(r.Unmarshal(v))
			s.V.PollHistory = append(s.V.PollHistory, r)
		}
	}
}

func i64(x sdk.Int) int64 {
	if !x.IsInt64() {
		return 1<<63 - 1
	}
	return x.Int64()
}

// BalOf splits coins into the known denominations; odd tells that the list is not a proper one.
func BalOf(cs []sdk.Coin) (b Bal, odd bool) {
	last := ""
	for _, c := range cs {
		if c.Denom <= last || !c.Amount.IsPositive() {
			odd = true
		}
		last = c.Denom
		switch c.Denom {
		case util.ConfigMainDenom:
			b.U += i64(c.Amount)
		case util.ConfigDelegatedDenom:
			b.D += i64(c.Amount)
		case util.ConfigRevokingDenom:
			b.R += i64(c.Amount)
		default:
			odd = true
		}
	}
	return
}

// SortedBals lists the accounts in a fixed order.
func (s *Snap) Accounts() []string {
	m := map[string]bool{}
	for k := range s.Bal {
		m[k] = true
	}
	for k := range s.Ref {
		m[k] = true
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// TasksOf filters the pending tasks.
func (s *Snap) TasksOf(handler string, data string) (r []time.Time) {
	for _, t := range s.Tasks {
		if t.HandlerName == handler && string(t.Data) == data {
			r = append(r, t.Time)
		}
	}
	return
}

// ParamsAt reads the parameters the way the modules do.
func (w *World) ParamsAt(ctx sdk.Context) Params { return w.params(ctx) }
