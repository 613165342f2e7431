package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"

	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

type marshaler interface{ Marshal() ([]byte, error) }

func grpcPath(module, method string) string {
	return "/artery." + module + ".v1beta1.Query/" + method
}

func grpcQuery(module, method string, req marshaler) abci.RequestQuery {
	bz, err := req.Marshal()
	must(err)
	return abci.RequestQuery{Path: grpcPath(module, method), Data: bz}
}

func must(err error) {
	if err != nil {
		eng.Bug("%v", err)
	}
}

// oddText is something that's not what is asked for.
func oddText(r *eng.R) string {
	xs := []string{"", " ", "artr1", "artr1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqjw3v5f", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", "0", "-1", "ARTR1",
		"ff", "\x00", "\xff\xfe", "2021-01-01T00:00:00Z", "9999-99-99", "artrvalcons1qqqq", strings.Repeat("a", 5000)}
	return xs[r.Intn(len(xs))]
}

func oddInt(r *eng.R) int64 {
	xs := []int64{0, 1, 2, 3, 5, 7, 10, 100, -1, -2, 1<<31 - 1, -1 << 31, 1<<63 - 1, -1 << 63}
	return xs[r.Intn(len(xs))]
}

// anyQuery is a query that may be answered or not; its answer does not matter.
func anyQuery(r *eng.R, accs []string) abci.RequestQuery {
	acc := func() string {
		if len(accs) == 0 || r.Chance(12) {
			return oddText(r)
		}
		return accs[r.Intn(len(accs))]
	}
	num := func() int32 {
		if r.Chance(30) {
			return int32(oddInt(r))
		}
		return int32(r.Intn(12))
	}
	var q abci.RequestQuery
	switch r.Intn(10) {
	case 0:
		q = grpcQuery("bank", "Balance", &bank.BalanceRequest{AccAddress: acc()})
		if r.Chance(30) {
			q = grpcQuery("bank", "Supply", &bank.SupplyRequest{})
		}
	case 1:
		switch r.Intn(3) {
		case 0:
			q = grpcQuery("delegating", "Revoking", &delegating.RevokingRequest{AccAddress: acc()})
		case 1:
			q = grpcQuery("delegating", "Accumulation", &delegating.AccumulationRequest{AccAddress: acc()})
		default:
			q = grpcQuery("delegating", "Get", &delegating.GetRequest{AccAddress: acc()})
		}
	case 2:
		switch r.Intn(3) {
		case 0:
			q = grpcQuery("earning", "Get", &earning.GetRequest{Address: acc()})
		case 1:
			q = grpcQuery("earning", "GetMultiple", &earning.GetMultipleRequest{Addresses: []string{acc(), acc()}})
		default:
			q = grpcQuery("earning", "List", &earning.ListRequest{Limit: num(), Page: num()})
		}
	case 3:
		switch r.Intn(7) {
		case 0:
			q = grpcQuery("noding", "Get", &noding.GetRequest{Account: acc()})
		case 1:
			q = grpcQuery("noding", "State", &noding.StateRequest{Account: acc()})
		case 2:
			q = grpcQuery("noding", "Proposer", &noding.ProposerRequest{Height: int64(num())})
		case 3:
			q = grpcQuery("noding", "IsAllowed", &noding.IsAllowedRequest{Account: acc()})
		case 4:
			q = grpcQuery("noding", "Operator", &noding.OperatorRequest{ConsAddress: acc(), Format: noding.OperatorRequest_Format(r.Intn(4))})
		case 5:
			q = grpcQuery("noding", "SwitchedOn", &noding.SwitchedOnRequest{})
		default:
			q = grpcQuery("noding", "Queue", &noding.QueueRequest{})
		}
	case 4:
		switch r.Intn(3) {
		case 0:
			q = grpcQuery("profile", "GetByAddress", &profile.GetByAddressRequest{Address: acc()})
		case 1:
			q = grpcQuery("profile", "GetByNickname", &profile.GetByNicknameRequest{Nickname: []string{"alice", "Bob", oddText(r)}[r.Intn(3)]})
		default:
			q = grpcQuery("profile", "GetByCardNumber", &profile.GetByCardNumberRequest{CardNumber: uint64(oddInt(r))})
		}
	case 5:
		switch r.Intn(5) {
		case 0:
			q = grpcQuery("referral", "Get", &referral.GetRequest{AccAddress: acc(), Light: r.Chance(50)})
		case 1:
			q = grpcQuery("referral", "Coins", &referral.CoinsRequest{AccAddress: acc(), MaxDepth: uint32(num())})
		case 2:
			q = grpcQuery("referral", "CheckStatus", &referral.CheckStatusRequest{AccAddress: acc(), Status: referral.Status(r.Intn(11))})
		case 3:
			q = grpcQuery("referral", "ValidateTransition", &referral.ValidateTransitionRequest{Subject: acc(), Target: acc()})
		default:
			q = grpcQuery("referral", "AllWithStatus", &referral.AllWithStatusRequest{Status: referral.Status(r.Intn(11))})
		}
	case 6:
		if r.Chance(50) {
			q = grpcQuery("schedule", "All", &schedule.AllRequest{})
		} else {
			q = grpcQuery("schedule", "Get", &schedule.GetRequest{Since: oddText(r), To: "2031-01-01T00:00:00Z"})
		}
	case 7:
		switch r.Intn(5) {
		case 0:
			q = grpcQuery("voting", "History", &voting.HistoryRequest{Limit: num(), Page: num()})
		case 1:
			q = grpcQuery("voting", "Government", &voting.GovernmentRequest{})
		case 2:
			q = grpcQuery("voting", "Current", &voting.CurrentRequest{})
		case 3:
			q = grpcQuery("voting", "Poll", &voting.PollRequest{})
		default:
			q = grpcQuery("voting", "PollHistory", &voting.PollHistoryRequest{Limit: num(), Page: num()})
		}
	case 8:
		m := []string{"bank", "delegating", "earning", "noding", "profile", "referral", "schedule", "voting"}[r.Intn(8)]
		q = abci.RequestQuery{Path: grpcPath(m, "Params")}
	default:
		xs := []string{"delegating/revoke", "delegating/accum", "delegating/params", "earning/params", "noding/status", "noding/info", "noding/proposer",
			"noding/allowed", "noding/operator/hex", "noding/params", "noding/switched-on", "noding/state", "profile/params", "referral/coins",
			"referral/check-status", "referral/validate-transition", "referral/params", "referral/info", "voting/params", "voting/government",
			"voting/current", "voting/history", "bank/balances", "acc/account", "schedule/params"}
		p := "custom/" + xs[r.Intn(len(xs))]
		for i := r.Intn(3); i > 0; i-- {
			if r.Chance(60) {
				p += "/" + acc()
			} else {
				p += "/" + strconv.FormatInt(oddInt(r), 10)
			}
		}
		q = abci.RequestQuery{Path: p}
	}
	if r.Chance(5) && len(q.Data) > 0 { // garbage
		d := append([]byte(nil), q.Data...)
		d[r.Intn(len(d))] ^= byte(1 + r.Intn(255))
		q.Data = d
	}
	if r.Chance(3) {
		q.Path = []string{"", "/", "custom", "custom/", "/custom/voting/", "/store/acc/key", "/app/version", "/p2p/x", fmt.Sprint(q.Path, "/")}[r.Intn(9)]
	}
	if r.Chance(10) {
		q.Height = oddInt(r)
	}
	return q
}

// ------------------------------------------------------------------------------------------------------------- G05

type asker struct {
	w  *world.World
	s  *world.Snap
	r  *eng.R
	st *eng.Stats
}

type unmarshaler interface{ Unmarshal([]byte) error }

// ask sends a query; ok tells whether it is answered.
func (a *asker) ask(module, method string, req marshaler, res unmarshaler) bool {
	r := a.w.App.Query(grpcQuery(module, method, req))
	if r.Code != 0 {
		return false
	}
	if err := res.Unmarshal(r.Value); err != nil {
		eng.Fail("query/answer", "%s.%s: the answer cannot be decoded: %v", module, method, err)
	}
	a.st.Count("answered " + module + "." + method)
	return true
}

func (a *asker) is(what string, want, got interface{}) {
	if e, g := fmt.Sprintf("%+v", want), fmt.Sprintf("%+v", got); e != g {
		eng.Fail("query/"+strings.Fields(what)[0], "at height %d: %s: the answer is\n  %s\nit should be\n  %s", a.s.Height, what, g, e)
	}
}

// found fails if a query is answered and should not be, or the other way round.
func (a *asker) found(what string, want, got bool) bool {
	a.is(what+" (answered)", want, got)
	return want
}

func coinsOf(b world.Bal) (r []string) {
	for _, x := range []struct {
		d string
		n int64
	}{{util.ConfigMainDenom, b.U}, {util.ConfigDelegatedDenom, b.D}, {util.ConfigRevokingDenom, b.R}} {
		if x.n != 0 {
			r = append(r, fmt.Sprintf("%d%s", x.n, x.d))
		}
	}
	sort.Strings(r)
	return
}

func coinList(cs []sdk.Coin) (r []string) {
	for _, c := range cs {
		r = append(r, c.String())
	}
	sort.Strings(r)
	return
}

func (a *asker) bank(acc string) {
	var b bank.BalanceResponse
	if a.found("bank.Balance of "+acc, true, a.ask("bank", "Balance", &bank.BalanceRequest{AccAddress: acc}, &b)) {
		a.is("bank.Balance of "+acc, coinsOf(a.s.Bal[acc]), coinList(b.Balance))
	}
	var s bank.SupplyResponse
	a.found("bank.Supply", true, a.ask("bank", "Supply", &bank.SupplyRequest{}, &s))
	var want []string
	for d, n := range a.s.Supply {
		want = append(want, fmt.Sprintf("%d%s", n, d))
	}
	sort.Strings(want)
	a.is("bank.Supply", want, coinList(s.Supply.Total))
}

func (a *asker) delegating(acc string) {
	rec := a.s.Del[acc]
	var r delegating.RevokingResponse
	a.found("delegating.Revoking of "+acc, true, a.ask("delegating", "Revoking", &delegating.RevokingRequest{AccAddress: acc}, &r))
	var want []delegating.RevokeRequest
	if rec != nil {
		want = rec.Requests
	}
	a.is("delegating.Revoking of "+acc, reqStr(want), reqStr(r.Revoking))

	var g delegating.GetResponse
	a.found("delegating.Get of "+acc, true, a.ask("delegating", "Get", &delegating.GetRequest{AccAddress: acc}, &g))
	if rec == nil {
		if d := g.Data; d != nil && (d.NextAccrue != nil || len(d.Requests) != 0) {
			a.is("delegating.Get of "+acc, "nothing", d)
		}
	} else {
		a.is("delegating.Get of "+acc, recStr(rec), recStr(g.Data))
	}

	var c delegating.AccumulationResponse
	what := "delegating.Accumulation of " + acc
	if !a.found(what, rec != nil && rec.NextAccrue != nil, a.ask("delegating", "Accumulation", &delegating.AccumulationRequest{AccAddress: acc}, &c)) {
		return
	}
	day := oneDay(a.s)
	a.is(what+": end", rec.NextAccrue.UTC(), c.End.UTC())
	a.is(what+": start", rec.NextAccrue.Add(-day).UTC(), c.Start.UTC())
	rate := dailyRate(a.s, acc)
	a.is(what+": daily percent", rate.RatString(), world.Rat(c.PercentDaily).RatString())
	total := mul(rate, rat(a.s.Bal[acc].D))
	passed := new(big.Rat).SetFrac64(int64(a.s.Time.Sub(rec.NextAccrue.Add(-day))), int64(day))
	now := mul(total, passed)
	if rec.MissedPart != nil {
		missed := mul(total, world.Rat(*rec.MissedPart))
		total = new(big.Rat).Sub(total, missed)
		now = new(big.Rat).Sub(now, missed)
	}
	a.is(what+": total", truncated(total), c.TotalUartrs)
	a.is(what+": current", truncated(now), c.CurrentUartrs)
}

// enc writes a record down; its own text form panics if there is a fraction inside.
func enc(m marshaler) string {
	bz, err := m.Marshal()
	must(err)
	return fmt.Sprintf("%q", bz)
}

// truncated rounds towards zero.
func truncated(x *big.Rat) string { return new(big.Int).Quo(x.Num(), x.Denom()).String() }

func earnerStr(acc string, t *earning.Timestamps) string {
	if t == nil {
		return acc + " -/-"
	}
	return acc + " " + timeStr(t.Vpn) + "/" + timeStr(t.Storage)
}

func earnerOf(e earning.Earner) string {
	return earnerStr(e.Account, &earning.Timestamps{Vpn: e.Vpn, Storage: e.Storage})
}

// page cuts a list as a query with a limit and the number of a page does; nil for numbers that mean nothing.
func page(n int, limit, page int32) (from, to int) {
	l, p := int64(limit), int64(page)
	if from64 := l * (p - 1); from64 < int64(n) {
		from = int(from64)
	} else {
		return n, n
	}
	if to64 := l * p; to64 < int64(n) {
		to = int(to64)
	} else {
		to = n
	}
	return
}

func (a *asker) limits() (limit, page int32) {
	limit, page = int32(1+a.r.Intn(6)), int32(1+a.r.Intn(4))
	if a.r.Chance(10) {
		limit = 1 << uint(20+a.r.Intn(11))
	}
	if a.r.Chance(10) {
		page = 1 << uint(20+a.r.Intn(11))
	}
	return
}

func (a *asker) earning(acc, other string) {
	want := func(x string) string {
		if e := a.s.Earn[x]; e != nil {
			return earnerStr(x, e)
		}
		return earnerStr(x, &earning.Timestamps{})
	}
	var g earning.GetResponse
	a.found("earning.Get of "+acc, true, a.ask("earning", "Get", &earning.GetRequest{Address: acc}, &g))
	a.is("earning.Get of "+acc, want(acc), earnerOf(g.Earner))
	var m earning.GetMultipleResponse
	a.found("earning.GetMultiple", true, a.ask("earning", "GetMultiple", &earning.GetMultipleRequest{Addresses: []string{other, acc, other}}, &m))
	var got []string
	for _, e := range m.Earners {
		got = append(got, earnerOf(e))
	}
	a.is("earning.GetMultiple", []string{want(other), want(acc), want(other)}, got)

	var keys []string
	for k := range a.s.Raw[earning.StoreKey] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var list []string
	for _, k := range keys {
		x := sdk.AccAddress([]byte(k)).String()
		list = append(list, want(x))
	}
	limit, p := a.limits()
	var l earning.ListResponse
	what := fmt.Sprintf("earning.List limit %d page %d of %d", limit, p, len(list))
	a.found(what, true, a.ask("earning", "List", &earning.ListRequest{Limit: limit, Page: p}, &l))
	from, to := page(len(list), limit, p)
	got = nil
	for _, e := range l.List {
		got = append(got, earnerOf(e))
	}
	a.is(what, list[from:to], got)
	if len(list) > int(limit) {
		a.st.Count("several pages of earners")
	}
}

func (a *asker) noding(acc string) {
	v := a.s.Val[acc]
	var g noding.GetResponse
	if a.found("noding.Get of "+acc, v != nil, a.ask("noding", "Get", &noding.GetRequest{Account: acc}, &g)) {
		a.is("noding.Get of "+acc, v.String(), g.Info.String())
	}
	state := noding.VALIDATOR_STATE_OFF
	switch {
	case v == nil:
	case v.BannedForLife:
		state = noding.VALIDATOR_STATE_BAN
	case v.Jailed:
		state = noding.VALIDATOR_STATE_JAIL
	case !v.Status:
	case v.LastPower == 0:
		state = noding.VALIDATOR_STATE_SPARE
	case v.LotteryNo != 0:
		state = noding.VALIDATOR_STATE_LUCKY
	default:
		state = noding.VALIDATOR_STATE_TOP
	}
	var st noding.StateResponse
	a.found("noding.State of "+acc, true, a.ask("noding", "State", &noding.StateRequest{Account: acc}, &st))
	a.is("noding.State of "+acc, state, st.State)

	ok, known := qualified(a.s, acc)
	var al noding.IsAllowedResponse
	// nobody outside the tree is allowed, whether the answer is that or an error
	if answered := a.ask("noding", "IsAllowed", &noding.IsAllowedRequest{Account: acc}, &al); answered || known {
		a.found("noding.IsAllowed of "+acc, true, answered)
		a.is("noding.IsAllowed of "+acc, ok, al.Verdict)
	}

	var on []string
	for x, v := range a.s.Val {
		if vOn(v) {
			on = append(on, x)
		}
	}
	sort.Strings(on)
	var so noding.SwitchedOnResponse
	a.found("noding.SwitchedOn", true, a.ask("noding", "SwitchedOn", &noding.SwitchedOnRequest{}, &so))
	a.is("noding.SwitchedOn", on, sorted(so.Accounts))

	var q noding.QueueResponse
	a.found("noding.Queue", true, a.ask("noding", "Queue", &noding.QueueRequest{}, &q))
	var want, got []string
	for i, x := range a.s.Lottery {
		want = append(want, fmt.Sprint(a.s.LotteryN[i], x))
	}
	for _, x := range q.Queue {
		got = append(got, fmt.Sprint(x.No, x.Account))
	}
	a.is("noding.Queue", want, got)

	idx := sortedKeys(a.s.NodeIdx)
	if len(idx) > 0 {
		c := idx[a.r.Intn(len(idx))]
		for f, text := range map[noding.OperatorRequest_Format]string{
			noding.OperatorRequest_FORMAT_UNSPECIFIED: sdk.ConsAddress([]byte(c)).String(),
			noding.OperatorRequest_FORMAT_BECH32:      sdk.ConsAddress([]byte(c)).String(),
			noding.OperatorRequest_FORMAT_HEX:         fmt.Sprintf("%X", c),
		} {
			var o noding.OperatorResponse
			a.found("noding.Operator of "+text, true, a.ask("noding", "Operator", &noding.OperatorRequest{ConsAddress: text, Format: f}, &o))
			a.is("noding.Operator of "+text, a.s.NodeIdx[c], o.Account)
		}
	}
	var o noding.OperatorResponse
	nobody := fmt.Sprintf("%040X", a.r.Intn(1000)+1)
	a.found("noding.Operator of nobody", false, a.ask("noding", "Operator", &noding.OperatorRequest{ConsAddress: nobody, Format: noding.OperatorRequest_FORMAT_HEX}, &o))
}

// proposers checks who is said to have proposed a block. Who has proposed a block is recorded at the height before it,
// which is a listed finding; here it's only checked that either all of the heights are so, or none.
func (a *asker) proposers(known map[int64]string, off int64) {
	for h, acc := range known {
		var p noding.ProposerResponse
		h := h - off
		if h == 0 {
			continue
		}
		what := fmt.Sprintf("noding.Proposer of block %d", h)
		if a.found(what, acc != "", a.ask("noding", "Proposer", &noding.ProposerRequest{Height: h}, &p)) {
			a.is(what, acc, p.Account)
		}
	}
	var p noding.ProposerResponse
	acc := known[a.s.Height]
	if a.found("noding.Proposer of the last block", acc != "", a.ask("noding", "Proposer", &noding.ProposerRequest{}, &p)) {
		a.is("noding.Proposer of the last block", acc, p.Account)
		a.st.Count("the last proposer is known")
	}
}

// proposerOffset tells how the heights are counted: 0 for the right way, 1 for the known wrong one.
func (a *asker) proposerOffset(h int64) int64 {
	var p noding.ProposerResponse
	if a.ask("noding", "Proposer", &noding.ProposerRequest{Height: h}, &p) {
		return 0
	}
	return 1
}

// runProposer asks about a block right after it, and fails if the answer is not about that block.
func runProposer(c *eng.Case, st *eng.Stats) *eng.Violation {
	w := world.New(c.P, st)
	known := map[int64]string{}
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, _ abci.ResponseBeginBlock) {
		known[req.Header.Height] = w.Snap().NodeIdx[string(req.Header.ProposerAddress)]
	})
	w.Run(c.Ops)
	a := &asker{w, w.Snap(), eng.NewR(1), st}
	for h, acc := range known {
		var p noding.ProposerResponse
		ok := a.ask("noding", "Proposer", &noding.ProposerRequest{Height: h}, &p)
		if ok != (acc != "") || p.Account != acc {
			eng.Fail("query/proposer-height", "block %d has been proposed by %s, the answer is %q", h, acc, p.Account)
		}
	}
	return nil
}

func (a *asker) profile(acc string) {
	p := a.s.Prof[acc]
	var r profile.GetByAddressResponse
	if a.found("profile.GetByAddress of "+acc, p != nil, a.ask("profile", "GetByAddress", &profile.GetByAddressRequest{Address: acc}, &r)) {
		a.is("profile.GetByAddress of "+acc, p.String(), r.Profile.String())
		if p.Nickname != "" {
			q := newProfileQueries(a.w)
			q.byName(p.Nickname, acc)
			q.byCard(p.CardNumber, acc)
		}
	}
}

func infoStr(r *referral.Info, light bool) string {
	c := *r
	if light {
		c.Referrals, c.ActiveReferrals = nil, nil
	}
	return c.String()
}

func (a *asker) referral(acc, other string) {
	r := a.s.Ref[acc]
	light := a.r.Chance(50)
	var g referral.GetResponse
	if r == nil { // it's all the same whether an account is unknown or empty
		if a.ask("referral", "Get", &referral.GetRequest{AccAddress: acc}, &g) {
			a.is("referral.Get of unknown "+acc, infoStr(&referral.Info{}, false), g.Info.String())
		}
		return
	}
	if a.found("referral.Get of "+acc, r != nil, a.ask("referral", "Get", &referral.GetRequest{AccAddress: acc, Light: light}, &g)) {
		a.is(fmt.Sprintf("referral.Get of %s (light: %v)", acc, light), infoStr(r, light), g.Info.String())
	}
	depth := a.r.Intn(13)
	what := fmt.Sprintf("referral.Coins of %s to the depth of %d", acc, depth)
	var c referral.CoinsResponse
	if a.found(what, r != nil, a.ask("referral", "Coins", &referral.CoinsRequest{AccAddress: acc, MaxDepth: uint32(depth)}, &c)) {
		if depth == 0 {
			depth = 10
		}
		if l := linesOpened[r.Status]; l < depth {
			depth = l
		}
		var total, del int64
		for l := 0; l <= depth; l++ {
			total += lvl(r.Coins, l)
			del += lvl(r.Delegated, l)
		}
		a.is(what, fmt.Sprint(total, "/", del), fmt.Sprint(c.Total, "/", c.Delegated))
	}
	st := referral.Status(1 + a.r.Intn(10))
	var cs referral.CheckStatusResponse
	what = fmt.Sprintf("referral.CheckStatus of %s for %s", acc, st)
	if a.found(what, r != nil && st.Validate() == nil, a.ask("referral", "CheckStatus", &referral.CheckStatusRequest{AccAddress: acc, Status: st}, &cs)) {
		a.is(what, meets(a.s.Ref, acc, st), cs.Result.Overall)
		all := true
		for _, x := range cs.Result.Criteria {
			all = all && x.Met
		}
		a.is(what+": the criteria and the conclusion", cs.Result.Overall, all)
	}
	var v referral.ValidateTransitionResponse
	a.found("referral.ValidateTransition", true, a.ask("referral", "ValidateTransition", &referral.ValidateTransitionRequest{Subject: acc, Target: other}, &v))
	if r == nil || r.Transition == "" {
		why := moveRefused(a.s, acc, other, a.s.Time)
		a.is(fmt.Sprintf("referral.ValidateTransition of %s to %s (%s, %s)", acc, other, why, v.Error), why == "", v.Ok)
		a.is("referral.ValidateTransition (an error and the verdict)", v.Error == "", v.Ok)
	}
	st = referral.Status(2 + a.r.Intn(9))
	var aws referral.AllWithStatusResponse
	what = fmt.Sprintf("referral.AllWithStatus %s", st)
	if a.found(what, st >= referral.STATUS_BUSINESSMAN && st.Validate() == nil, a.ask("referral", "AllWithStatus", &referral.AllWithStatusRequest{Status: st}, &aws)) {
		var want []string
		for x, i := range a.s.Ref {
			if i.Status == st {
				want = append(want, x)
			}
		}
		a.is(what, sorted(want), sorted(aws.Accounts))
		if len(want) > 0 {
			a.st.Count("accounts with an indexed status")
		}
	}
}

func tasksStr(ts []schedule.Task) (r []string) {
	for _, t := range ts {
		r = append(r, taskKey(t))
	}
	return
}

func (a *asker) schedule() {
	var all schedule.AllResponse
	a.found("schedule.All", true, a.ask("schedule", "All", &schedule.AllRequest{}, &all))
	a.is("schedule.All", tasksStr(a.s.Tasks), tasksStr(all.Tasks))
	if len(a.s.Tasks) == 0 {
		return
	}
	at := func() time.Time {
		t := a.s.Tasks[a.r.Intn(len(a.s.Tasks))].Time
		switch a.r.Intn(4) {
		case 0:
			t = t.Add(1)
		case 1:
			t = t.Add(-1)
		case 2:
			t = t.Add(time.Duration(a.r.Intn(int(40 * 24 * time.Hour))))
		}
		return t.UTC()
	}
	since, to := at(), at()
	if to.Before(since) {
		since, to = to, since
	}
	what := fmt.Sprintf("schedule.Get since %s to %s", since, to)
	var g schedule.GetResponse
	a.found(what, true, a.ask("schedule", "Get", &schedule.GetRequest{Since: since.Format(time.RFC3339Nano), To: to.Format(time.RFC3339Nano)}, &g))
	var want []schedule.Task
	for _, t := range a.s.Tasks {
		if !t.Time.Before(since) && t.Time.Before(to) {
			want = append(want, t)
		}
	}
	a.is(what, tasksStr(want), tasksStr(g.Tasks))
}

func (a *asker) voting() {
	v := a.s.V
	var g voting.GovernmentResponse
	a.found("voting.Government", true, a.ask("voting", "Government", &voting.GovernmentRequest{}, &g))
	a.is("voting.Government", sorted(v.Gov), sorted(g.Members))

	var c voting.CurrentResponse
	a.found("voting.Current", true, a.ask("voting", "Current", &voting.CurrentRequest{}, &c))
	if v.Proposal == nil {
		a.is("voting.Current", "", c.Proposal.Author)
		a.is("voting.Current votes", "", strings.Join(append(c.Agreed, c.Disagreed...), " "))
	} else {
		a.is("voting.Current", enc(v.Proposal), enc(&c.Proposal))
		a.is("voting.Current members", sorted(v.Gov), sorted(c.Government))
		a.is("voting.Current for", sorted(v.Agreed), sorted(c.Agreed))
		a.is("voting.Current against", sorted(v.Disagreed), sorted(c.Disagreed))
		a.st.Count("an open proposal is seen")
	}

	limit, p := a.limits()
	what := fmt.Sprintf("voting.History limit %d page %d of %d", limit, p, len(v.History))
	var h voting.HistoryResponse
	a.found(what, true, a.ask("voting", "History", &voting.HistoryRequest{Limit: limit, Page: p}, &h))
	from, to := page(len(v.History), limit, p)
	var want, got []string
	for _, x := range v.History[from:to] {
		want = append(want, enc(&x))
	}
	for _, x := range h.History {
		got = append(got, enc(&x))
	}
	a.is(what, want, got)
	if len(v.History) > int(limit) {
		a.st.Count("several pages of proposals")
	}

	var po voting.PollResponse
	if a.found("voting.Poll", v.Poll != nil, a.ask("voting", "Poll", &voting.PollRequest{}, &po)) {
		a.is("voting.Poll", enc(v.Poll), enc(&po.Poll))
		yes, no := uint64(0), uint64(0)
		for _, ans := range v.Answers {
			if ans {
				yes++
			} else {
				no++
			}
		}
		a.is("voting.Poll counts", fmt.Sprint(yes, no), fmt.Sprint(po.Yes, po.No))
		a.st.Count("an open poll is seen")
	}
	limit, p = a.limits()
	first := p
	switch a.r.Intn(6) {
	case 0:
		limit, p, first = 0, 0, 1 // all of them
	case 1:
		p, first = 0, 1
	}
	what = fmt.Sprintf("voting.PollHistory limit %d page %d of %d", limit, p, len(v.PollHistory))
	var ph voting.PollHistoryResponse
	a.found(what, true, a.ask("voting", "PollHistory", &voting.PollHistoryRequest{Limit: limit, Page: p}, &ph))
	if limit == 0 {
		limit = int32(len(v.PollHistory) + 1)
	}
	from, to = page(len(v.PollHistory), limit, first)
	want, got = nil, nil
	for _, x := range v.PollHistory[from:to] {
		want = append(want, enc(&x))
	}
	for _, x := range ph.History {
		got = append(got, enc(&x))
	}
	a.is(what, want, got)
	if len(v.PollHistory) > 1 {
		a.st.Count("several polls")
	}
}

func (a *asker) params() {
	var b bank.ParamsResponse
	a.found("bank.Params", true, a.ask("bank", "Params", &bank.ParamsRequest{}, &b))
	a.is("bank.Params", a.s.P.Bank, b.Params)
	var d delegating.ParamsResponse
	a.found("delegating.Params", true, a.ask("delegating", "Params", &delegating.ParamsRequest{}, &d))
	a.is("delegating.Params", a.s.P.Delegating, *d.Params)
	var e earning.ParamsResponse
	a.found("earning.Params", true, a.ask("earning", "Params", &earning.ParamsRequest{}, &e))
	a.is("earning.Params", a.s.P.Earning, e.Params)
	var n noding.ParamsResponse
	a.found("noding.Params", true, a.ask("noding", "Params", &noding.ParamsRequest{}, &n))
	a.is("noding.Params", a.s.P.Noding, n.Params)
	var p profile.ParamsResponse
	a.found("profile.Params", true, a.ask("profile", "Params", &profile.ParamsRequest{}, &p))
	a.is("profile.Params", a.s.P.Profile, p.Params)
	var r referral.ParamsResponse
	a.found("referral.Params", true, a.ask("referral", "Params", &referral.ParamsRequest{}, &r))
	a.is("referral.Params", a.s.P.Referral, r.Params)
	var s schedule.ParamsResponse
	a.found("schedule.Params", true, a.ask("schedule", "Params", &schedule.ParamsRequest{}, &s))
	a.is("schedule.Params", a.s.P.Schedule, s.Params)
	var v voting.ParamsResponse
	a.found("voting.Params", true, a.ask("voting", "Params", &voting.ParamsRequest{}, &v))
	a.is("voting.Params", a.s.P.Voting, v.Params)
}

// legacy asks the same by the former interface and compares the answers, both written as JSON.
func (a *asker) legacy(acc, other string) {
	w := a.w
	cdc := w.EC.Amino
	ask := func(path string, req interface{}) ([]byte, bool) {
		q := abci.RequestQuery{Path: "custom/" + path}
		if req != nil {
			bz, err := cdc.MarshalJSON(req)
			must(err)
			q.Data = bz
		}
		res := w.App.Query(q)
		a.st.Count("legacy " + strings.Join(strings.SplitN(path, "/", 3)[:2], "/"))
		return res.Value, res.Code == 0
	}
	same := func(path string, req interface{}, ok bool, want interface{}) {
		got, answered := ask(path, req)
		if !a.found("legacy "+path, ok, answered) {
			return
		}
		bz, err := cdc.MarshalJSON(want)
		must(err)
		var e, g interface{}
		must(json.Unmarshal(bz, &e))
		if err := json.Unmarshal(got, &g); err != nil {
			eng.Fail("query/legacy", "%s: not JSON: %v: %q", path, err, got)
		}
		a.is("legacy "+path, e, g)
	}
	switch a.r.Intn(6) {
	case 0:
		var res delegating.RevokingResponse
		ok := a.ask("delegating", "Revoking", &delegating.RevokingRequest{AccAddress: acc}, &res)
		same("delegating/"+delegating.QueryRevoking, delegating.RevokingRequest{AccAddress: acc}, ok, res)
		var acm delegating.AccumulationResponse
		ok = a.ask("delegating", "Accumulation", &delegating.AccumulationRequest{AccAddress: acc}, &acm)
		same("delegating/"+delegating.QueryAccumulation, delegating.RevokingRequest{AccAddress: acc}, ok, acm)
		same("delegating/"+delegating.QueryParams, nil, true, a.s.P.Delegating)
	case 1:
		same("earning/"+earning.QueryParams, nil, true, a.s.P.Earning)
		same("noding/"+noding.QueryParams, nil, true, a.s.P.Noding)
		same("referral/"+referral.QueryParams, nil, true, a.s.P.Referral)
		same("voting/"+voting.QueryParams, nil, true, a.s.P.Voting)
	case 2:
		v := a.s.Val[acc]
		if v != nil {
			same("noding/"+noding.QueryInfo+"/"+acc, nil, true, *v)
		} else {
			same("noding/"+noding.QueryInfo+"/"+acc, nil, false, nil)
		}
		same("noding/"+noding.QueryStatus+"/"+acc, nil, true, v != nil && vOn(v))
		ok, known := qualified(a.s, acc)
		got, answered := ask("noding/"+noding.QueryAllowed+"/"+acc, nil)
		if answered || known {
			a.found("legacy noding/allowed", true, answered)
			var x noding.IsAllowedResponse
			must(cdc.UnmarshalJSON(got, &x))
			a.is("legacy noding/allowed of "+acc, ok, x.Verdict)
		}
		var st noding.StateResponse
		a.ask("noding", "State", &noding.StateRequest{Account: acc}, &st)
		if got, ok := ask("noding/"+noding.QueryState+"/"+acc, nil); a.found("legacy noding/state", true, ok) {
			a.is("legacy noding/state of "+acc, []byte{byte(st.State)}, got)
		}
	case 3:
		p := a.s.Prof[acc]
		if p == nil {
			return
		}
		same("profile/"+profile.QueryProfileByAddress, profile.GetByAddressRequest{Address: acc}, true, profile.GetByAddressResponse{Profile: *p})
		same("profile/"+profile.QueryProfileByCardNumber, profile.GetByCardNumberRequest{CardNumber: p.CardNumber}, true, profile.GetByCardNumberResponse{Address: acc, Profile: *p})
		if p.Nickname != "" {
			same("profile/"+profile.QueryProfileByNickname, profile.GetByNicknameRequest{Nickname: p.Nickname}, true, profile.GetByNicknameResponse{Address: acc, Profile: *p})
		}
	case 4:
		r := a.s.Ref[acc]
		if r == nil {
			return
		}
		same("referral/"+referral.QueryInfo, referral.GetRequest{AccAddress: acc}, true, *r)
		req := referral.CoinsRequest{AccAddress: acc, MaxDepth: uint32(a.r.Intn(12))}
		var c referral.CoinsResponse
		ok := a.ask("referral", "Coins", &req, &c)
		same("referral/"+referral.QueryCoinsInNetwork, req, ok, c)
		vt := referral.ValidateTransitionRequest{Subject: acc, Target: other}
		var v referral.ValidateTransitionResponse
		ok = a.ask("referral", "ValidateTransition", &vt, &v)
		same("referral/"+referral.QueryValidateTransition, vt, ok, v)
	default:
		same("voting/"+voting.QueryGovernment, nil, true, voting.GovernmentResponse{Members: a.s.V.Gov})
	}
}

func attachG05(w *world.World, st *eng.Stats) {
	r := eng.NewR(w.P["rseed"])
	known := map[int64]string{}
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, _ abci.ResponseBeginBlock) {
		h := req.Header.Height
		if acc, ok := w.Snap().NodeIdx[string(req.Header.ProposerAddress)]; ok {
			known[h] = acc
		} else {
			known[h] = ""
		}
	})
	n, off := 0, int64(-1)
	w.AfterCommit = append(w.AfterCommit, func() {
		s := w.Snap()
		a := &asker{w, s, r, st}
		if acc := known[s.Height]; acc != "" && off < 0 {
			off = a.proposerOffset(s.Height)
		}
		accs := s.Accounts()
		for i := 0; i < 2; i++ {
			acc, other := accs[r.Intn(len(accs))], accs[r.Intn(len(accs))]
			a.bank(acc)
			a.delegating(acc)
			a.earning(acc, other)
			a.noding(acc)
			a.profile(acc)
			a.referral(acc, other)
			a.legacy(acc, other)
		}
		a.schedule()
		a.voting()
		if r.Chance(20) && off >= 0 {
			a.params()
			a.proposers(known, off)
		}
		n++
		if len(s.V.History)+len(s.V.PollHistory) > 0 && len(s.Earn) > 1 && n > 5 {
			st.NonTrivial = true
		}
	})
}

func init() {
	eng.Register(&eng.Property{
		ID: "G05",
		Rule: "after every block of a history the answers about two random accounts and about everything that is common are compared with the committed state, decoded separately; " +
			"non-trivial: more than 5 blocks, more than one earner, a proposal or a poll has been finished",
		Assumptions: []string{"the interfaces above ABCI (the command line, gRPC and REST servers) are not exercised"},
		Suites: []*eng.Suite{{
			Name:  "answers",
			Gen:   chainGen(40, 100, reweigh(eng.W{K: "next", N: 24}, eng.W{K: "earn", N: 8}, eng.W{K: "earnmulti", N: 8}), func(r *eng.R, p map[string]int64) { smallTweak(r, p); p["rseed"] = r.Raw() }),
			Run:   chainRun(attachG05),
			Quick: 150, Thorough: 6000,
		}, {
			Name: "proposer",
			Gen: func(r *eng.R) *eng.Case {
				return &eng.Case{P: world.GenP(r), Ops: []eng.Op{{K: "next", D: r.Raw()}, {K: "next", D: r.Raw()}}}
			},
			Run:   runProposer,
			Quick: 2, Thorough: 2,
		}},
	})
}
