package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// event is one event as a listener gets it.
type event struct {
	T string
	A map[string]string
}

// eventKeys are the attributes of every known event.
var eventKeys = map[string]string{
	"transfer":                  "sender recipient amount",
	"burn":                      "account amount",
	"delegate":                  "account ucoins commission_to commission_amount",
	"freeze":                    "account ucoins",
	"undelegate":                "account ucoins",
	"accrue":                    "account ucoins fee bonus_flags",
	"validator_accrue":          "account accounts ucoins",
	"pay_tariff":                "address expire_at total commission_to commission_amount",
	"activity_changed":          "address active_now",
	"update_limits_reset_used":  "address",
	"auto_pay_failed":           "address error",
	"buy_vpn":                   "address new_limit used total",
	"buy_storage":               "address new_limit used total",
	"give_up_storage":           "address new_limit used",
	"buy_extra_im_storage":      "address new_limit total expire_at",
	"give_up_im_storage":        "address new_limit",
	"im_auto_pay_failed":        "address error",
	"validator_banished":        "address reason",
	"validator_jailed":          "address",
	"byzantine":                 "address banned evidences",
	"status_updated":            "address before after",
	"status_will_be_downgraded": "address time",
	"status_downgrade_canceled": "address",
	"compression":               "address referrer referrals",
	"transition_requested":      "address before after",
	"transition_performed":      "address before after",
	"transition_declined":       "address before after reason",
	"acc_banished":              "address",
	"proposal_created":          "name author type",
	"proposal_vote":             "voter agreed",
	"voting_finished":           "name agreed",
	"poll_finished":             "name yes no decision",
}

func eventsOf(list []abci.Event, st *eng.Stats) (evs []event) {
	for _, e := range list {
		x := event{e.Type, map[string]string{}}
		for _, a := range e.Attributes {
			if _, ok := x.A[string(a.Key)]; ok {
				eng.Fail("event/twice", "the event %s has the attribute %s twice", e.Type, a.Key)
			}
			x.A[string(a.Key)] = string(a.Value)
		}
		if e.Type == "message" {
			evs = append(evs, x)
			continue
		}
		keys, ok := eventKeys[e.Type]
		if !ok {
			eng.Fail("event/unknown", "an event of an unknown type is announced: %s %v", e.Type, x.A)
		}
		for _, k := range strings.Fields(keys) {
			if _, ok := x.A[k]; !ok {
				eng.Fail("event/attribute", "the event %s has no attribute %s: %v", e.Type, k, x.A)
			}
		}
		if st != nil {
			st.Count("event " + e.Type)
		}
		evs = append(evs, x)
	}
	return
}

func (e event) String() string { return fmt.Sprintf("%s%v", e.T, e.A) }

func (e event) u(k string) int64 {
	x, err := strconv.ParseInt(e.A[k], 10, 64)
	if err != nil {
		eng.Fail("event/number", "%s is not a number in the event %s", k, e)
	}
	return x
}

func (e event) yes(k string) bool {
	if e.A[k] != "true" && e.A[k] != "false" {
		eng.Fail("event/bool", "%s is neither true nor false in the event %s", k, e)
	}
	return e.A[k] == "true"
}

func (e event) t(k string) time.Time {
	x, err := time.Parse(time.RFC3339Nano, e.A[k])
	if err != nil {
		eng.Fail("event/time", "%s is not a time in the event %s", k, e)
	}
	return x
}

func (e event) list(k string) (xs []string) {
	if err := json.Unmarshal([]byte(e.A[k]), &xs); err != nil {
		eng.Fail("event/list", "%s is not a list in the event %s", k, e)
	}
	return
}

func (e event) coins(k string) (b world.Bal) {
	var cs []struct{ Denom, Amount string }
	if err := json.Unmarshal([]byte(e.A[k]), &cs); err != nil {
		eng.Fail("event/coins", "%s is not a list of coins in the event %s", k, e)
	}
	for _, c := range cs {
		x, err := strconv.ParseInt(c.Amount, 10, 64)
		if err != nil {
			eng.Fail("event/coins", "%s has no amount in the event %s", k, e)
		}
		switch c.Denom {
		case util.ConfigMainDenom:
			b.U += x
		case util.ConfigDelegatedDenom:
			b.D += x
		case util.ConfigRevokingDenom:
			b.R += x
		default:
			eng.Fail("event/coins", "%s has unknown coins in the event %s", k, e)
		}
	}
	return
}

// flow is what the events tell about one account.
type flow struct {
	world.Bal
	frozen  int64 // coins that have been delegated and are being revoked now, without what's burnt
	freezes int
}

func flowsOf(evs []event, msgs []sdk.Msg, st *eng.Stats) map[string]*flow {
	fs := map[string]*flow{}
	at := func(a string) *flow {
		if fs[a] == nil {
			fs[a] = &flow{}
		}
		return fs[a]
	}
	for _, e := range evs {
		switch e.T {
		case "transfer":
			x := e.coins("amount")
			f, t := at(e.A["sender"]), at(e.A["recipient"])
			f.U, f.D, f.R = f.U-x.U, f.D-x.D, f.R-x.R
			t.U, t.D, t.R = t.U+x.U, t.D+x.D, t.R+x.R
		case "burn":
			x := e.coins("amount")
			f := at(e.A["account"])
			f.U, f.D, f.R = f.U-x.U, f.D-x.D, f.R-x.R
		case "delegate":
			f := at(e.A["account"])
			f.U -= e.u("ucoins")
			f.D += e.u("ucoins")
		case "freeze":
			f := at(e.A["account"])
			f.R += e.u("ucoins")
			f.frozen += e.u("ucoins")
			f.freezes++
		case "undelegate":
			f := at(e.A["account"])
			f.R -= e.u("ucoins")
			f.U += e.u("ucoins")
		case "accrue":
			at(e.A["account"]).U += e.u("ucoins")
			at(world.ModuleAddr(util.SplittableFeeCollectorName)).U += e.u("fee")
		case "validator_accrue":
			to, n := e.list("accounts"), e.list("ucoins")
			if len(to) != len(n) {
				eng.Fail("event/list", "lists of different length in the event %s", e)
			}
			for i := range to {
				x, err := strconv.ParseInt(n[i], 10, 64)
				if err != nil {
					eng.Fail("event/number", "ucoins of the event %s", e)
				}
				at(to[i]).U += x
				if x < 20 {
					st.Count("tiny bonus")
				}
			}
			if len(to) > 1 {
				st.Count("several bonuses")
			}
		case "pay_tariff":
			to, n := e.list("commission_to"), e.list("commission_amount")
			if len(to) != len(n) {
				eng.Fail("event/list", "lists of different length in the event %s", e)
			}
			for i := range to {
				x, err := strconv.ParseInt(n[i], 10, 64)
				if err != nil {
					eng.Fail("event/number", "commission_amount of the event %s", e)
				}
				at(to[i]).U += x
				at(e.A["address"]).U -= x
			}
		}
	}
	for _, m := range msgs {
		// MsgBurn has no event of its own
		if b, ok := m.(*bank.MsgBurn); ok {
			at(b.Account).U -= int64(b.Amount)
		}
	}
	return fs
}

// coinsTold compares the coins the events tell of with the balances.
func coinsTold(before, after *world.Snap, list []abci.Event, msgs []sdk.Msg, what string, st *eng.Stats) (kinds map[string]bool) {
	kinds = map[string]bool{}
	evs := eventsOf(list, st)
	for _, e := range evs {
		kinds[e.T] = true
	}
	fs := flowsOf(evs, msgs, st)
	for a := range union2(before.Bal, after.Bal) {
		if fs[a] == nil {
			fs[a] = &flow{}
		}
	}
	for _, a := range sortedKeys(fs) {
		f, b, n := fs[a], before.Bal[a], after.Bal[a]
		if n.U-b.U != f.U {
			eng.Fail("events/coins", "%s: the account %s gets %d uartr, and the events tell of %d: %v", what, a, n.U-b.U, f.U, list)
		}
		if n.R-b.R != f.R {
			eng.Fail("events/revoking", "%s: the account %s gets %d uartrr, and the events tell of %d: %v", what, a, n.R-b.R, f.R, list)
		}
		// f.D is what's been added, at least f.frozen is taken
		lost := b.D + f.D - n.D
		if lost < f.frozen || (lost > 0) != (f.freezes > 0) {
			eng.Fail("events/delegated", "%s: the account %s gets %d uartrd, and the events tell of %d delegated and %d frozen: %v", what, a, n.D-b.D, f.D, f.frozen, list)
		}
		if f.U != 0 || f.R != 0 || f.D != 0 {
			st.Count("account moved")
		}
	}
	return kinds
}

// attachT01 : the coins the events of every step tell of are the coins that have moved.
func attachT01(w *world.World, st *eng.Stats) {
	kinds := map[string]bool{}
	watchEvents(w, func(before, after *world.Snap, list []abci.Event, msgs []sdk.Msg, what string) {
		for k := range coinsTold(before, after, list, msgs, what, st) {
			kinds[k] = true
		}
		if kinds["accrue"] && (kinds["delegate"] || kinds["freeze"]) && (kinds["pay_tariff"] || kinds["validator_accrue"]) {
			st.NonTrivial = true
		}
	})
}

// watchEvents calls step for every transaction that is accepted, and for the beginning and the end of every block.
func watchEvents(w *world.World, step func(before, after *world.Snap, list []abci.Event, msgs []sdk.Msg, what string)) {
	var before *world.Snap
	mark := func() {
		before = nil
		if w.Height > 1 {
			before = w.Snap()
		}
	}
	w.BeforeBegin = append(w.BeforeBegin, func(req abci.RequestBeginBlock) { mark() })
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, res abci.ResponseBeginBlock) {
		if before != nil {
			step(before, w.Snap(), res.Events, nil, "the beginning of a block")
		}
	})
	w.BeforeTx = append(w.BeforeTx, func(tx *world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		if res.Code != 0 {
			if len(res.Events) != 0 {
				eng.Fail("events/refused", "%s is refused and announces %v", msgNames(tx), res.Events)
			}
			return
		}
		step(before, w.Snap(), res.Events, tx.Msgs, msgNames(tx))
	})
	w.BeforeEnd = append(w.BeforeEnd, func() { before = w.Snap() })
	w.AfterEnd = append(w.AfterEnd, func(res abci.ResponseEndBlock) {
		step(before, w.Snap(), res.Events, nil, "the end of a block")
	})
}

// announced is what attachT02 follows through one step.
type announced struct {
	before, after *world.Snap
	what          string
	evs           []event
	st            *eng.Stats
	block         bool // it's a part of a block's own, not a transaction
	single        bool // a transaction of one message
}

func (x *announced) fail(sig, format string, args ...interface{}) {
	eng.Fail("announced/"+sig, "%s: %s; announced: %v", x.what, fmt.Sprintf(format, args...), x.evs)
}

// of lists the events of some types about one account.
func (x *announced) of(acc string, types ...string) (evs []event) {
	for _, e := range x.evs {
		for _, t := range types {
			if e.T == t && e.A["address"] == acc {
				evs = append(evs, e)
			}
		}
	}
	return
}

func infoOf(s *world.Snap, a string) referral.Info {
	if r := s.Ref[a]; r != nil {
		return *r
	}
	return referral.Info{}
}

// tagged are the parts which announce their messages under their names; the other ones rely on the short type only.
var tagged = map[string]string{bank.RouterKey: bank.ModuleName, profile.RouterKey: profile.ModuleName, referral.RouterKey: referral.ModuleName, voting.RouterKey: voting.ModuleName}

func (x *announced) messages(msgs []sdk.Msg) {
	var got, want []string
	for _, e := range x.evs {
		if e.T == "message" {
			got = append(got, e.A["module"]+" "+e.A["action"])
		}
	}
	for _, m := range msgs {
		want = append(want, " "+m.Type())
		if n := tagged[m.Route()]; n != "" {
			want = append(want, n+" "+proto.MessageName(m))
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		x.fail("messages", "the messages are %q and not %q", got, want)
	}
}

func (x *announced) referrals() {
	compressed, moved, back := map[string]event{}, map[string]event{}, map[string]bool{}
	for _, e := range x.evs {
		switch e.T {
		case "compression":
			compressed[e.A["address"]] = e
		case "transition_performed":
			moved[e.A["address"]] = e
		}
	}
	for a := range x.after.Ref {
		if infoOf(x.before, a).Banished && !infoOf(x.after, a).Banished {
			back[a] = true
		}
	}
	for _, a := range sortedKeys(union2(x.before.Ref, x.after.Ref)) {
		if x.before.Ref[a] == nil {
			continue // a new account
		}
		b, n := infoOf(x.before, a), infoOf(x.after, a)
		// status
		status, silent := b.Status, false
		for _, e := range x.of(a, "status_updated") {
			from, to := e.A["before"], e.A["after"]
			if from == to {
				x.fail("status-same", "the status of %s changes from %s to %s", a, from, to)
			}
			if from != status.String() {
				if _, ok := compressed[a]; !ok && !back[a] || from != referral.STATUS_LUCKY.String() {
					x.fail("status-from", "the status of %s is %s before it changes from %s", a, status, from)
				}
			}
			v, ok := referral.Status_value[to]
			if !ok {
				x.fail("status-name", "there's no status %s", to)
			}
			status = referral.Status(v)
		}
		if n.Status != status {
			_, silent = compressed[a]
			silent = silent && n.Status == referral.STATUS_LUCKY
			silent = silent || back[a] && n.Status == referral.STATUS_LUCKY
			silent = silent || len(x.of(a, "acc_banished")) > 0 && n.Status == referral.STATUS_UNSPECIFIED
			if !silent {
				x.fail("status", "%s has the status %s and should have %s", a, n.Status, status)
			}
		}
		// deadline of a downgrade
		at := b.StatusDowngradeAt
		for _, e := range x.of(a, "status_will_be_downgraded", "status_downgrade_canceled", "status_updated") {
			switch {
			case e.T == "status_will_be_downgraded":
				if at != nil {
					x.fail("downgrade-again", "the status of %s will be downgraded at %s already", a, at)
				}
				t := e.t("time")
				at = &t
			case e.T == "status_downgrade_canceled":
				if at == nil {
					x.fail("downgrade-cancel", "no downgrade of %s is to be cancelled", a)
				}
				at = nil
			case referral.Status_value[e.A["after"]] < referral.Status_value[e.A["before"]]:
				at = nil
			}
		}
		if timeStr(n.StatusDowngradeAt) != timeStr(at) {
			if _, ok := compressed[a]; !(ok || back[a] || len(x.of(a, "acc_banished")) > 0) || n.StatusDowngradeAt != nil {
				x.fail("downgrade", "the status of %s will be downgraded at %s and not at %s", a, timeStr(n.StatusDowngradeAt), timeStr(at))
			}
		}
		// place in the tree
		ref := b.Referrer
		for _, e := range x.evs {
			switch {
			case e.T == "compression" && contains(e.list("referrals"), a):
				if ref != e.A["address"] {
					x.fail("compression-of", "%s is listed under %s but is under %s", a, e.A["address"], ref)
				}
				ref = e.A["referrer"]
			case e.T == "transition_performed" && e.A["address"] == a:
				if ref != e.A["before"] {
					x.fail("moved-from", "%s is moved from %s but is under %s", a, e.A["before"], ref)
				}
				ref = e.A["after"]
			}
		}
		if ref != n.Referrer && !back[a] {
			x.fail("referrer", "%s is under %s and should be under %s", a, n.Referrer, ref)
		}
		if e, ok := compressed[a]; ok {
			if e.A["referrer"] != b.Referrer && moved[a].T == "" {
				if _, ok := compressed[b.Referrer]; !ok {
					x.fail("compression-to", "%s is under %s and not under %s", a, b.Referrer, e.A["referrer"])
				}
			}
		}
		if _, ok := compressed[a]; !ok && len(b.Referrals) > 0 && len(n.Referrals) == 0 && len(moved) == 0 && len(x.of(b.Referrals[0], "acc_banished")) == 0 {
			x.fail("compressed", "%s loses its referrals", a)
		}
		// pending transition
		pending := b.Transition
		for _, e := range x.of(a, "transition_requested", "transition_performed", "transition_declined") {
			if e.T == "transition_requested" {
				if pending != "" {
					x.fail("requested-again", "%s asks to be moved under %s already", a, pending)
				}
				pending = e.A["after"]
				continue
			}
			if pending != e.A["after"] {
				x.fail("transition-of", "%s asks to be moved under %q", a, pending)
			}
			if e.T == "transition_declined" && (e.A["reason"] == "REASON_TIMEOUT") != x.block {
				x.fail("declined-reason", "the transition of %s is declined for %s", a, e.A["reason"])
			}
			pending = ""
		}
		if pending != n.Transition {
			x.fail("pending", "%s asks to be moved under %q and not %q", a, n.Transition, pending)
		}
		// banishment and activity
		if now := len(x.of(a, "acc_banished")) > 0; now != (n.Banished && !b.Banished) {
			x.fail("banished", "%s banished: before %t, after %t", a, b.Banished, n.Banished)
		}
		active := b.Active
		for _, e := range x.of(a, "activity_changed") {
			active = e.yes("active_now")
		}
		if active != n.Active {
			x.fail("activity", "%s active: before %t, after %t", a, b.Active, n.Active)
		}
	}
}

func (x *announced) validators() {
	for _, a := range sortedKeys(union2(x.before.Val, x.after.Val)) {
		b, n := x.before.Val[a], x.after.Val[a]
		if b == nil || n == nil {
			continue
		}
		if now := len(x.of(a, "validator_jailed")) > 0; now != (n.Jailed && !b.Jailed) {
			x.fail("jailed", "validator %s jailed: before %t, after %t", a, b.Jailed, n.Jailed)
		}
		byz := x.of(a, "byzantine")
		if len(byz) != len(n.Infractions)-len(b.Infractions) {
			x.fail("byzantine", "validator %s has %d infractions before and %d after", a, len(b.Infractions), len(n.Infractions))
		}
		for i, e := range byz {
			if e.yes("banned") != (len(b.Infractions)+i+1 > 1) {
				x.fail("banned", "validator %s banned: %s after %d infractions", a, e.A["banned"], len(b.Infractions)+i+1)
			}
		}
		for _, e := range x.of(a, "validator_banished") {
			if n.Status || !b.Status {
				x.fail("off", "validator %s on: before %t, after %t", a, b.Status, n.Status)
			}
			// Within a block there may be several reasons one after another.
			if x.single {
				min, ref, total := x.after.P.Noding.MinCriteria, infoOf(x.after, a), int64(0)
				for i := 0; i < len(ref.Delegated) && i <= 10; i++ {
					total += ref.Delegated[i].Int64()
				}
				var want string
				switch {
				case ref.Status < min.Status:
					want = "REASON_NOT_ENOUGH_STATUS"
				case x.after.Bal[a].D < int64(min.SelfStake):
					want = "REASON_NOT_ENOUGH_SELF_STAKE"
				case total < int64(min.TotalStake):
					want = "REASON_NOT_ENOUGH_TOTAL_STAKE"
				}
				if e.A["reason"] != want {
					x.fail("reason", "the validator %s is switched off for the reason %q and not %q", a, e.A["reason"], want)
				}
				x.st.Count(e.A["reason"])
			} else if noding.Reason_value[e.A["reason"]] <= 0 {
				x.fail("reason", "the validator %s is switched off for the reason %q", a, e.A["reason"])
			}
		}
	}
}

func (x *announced) votes() {
	p := x.before.V.Proposal
	history := append([]voting.ProposalHistoryRecord{}, x.before.V.History...)
	agreed, disagreed := append([]string{}, x.before.V.Agreed...), append([]string{}, x.before.V.Disagreed...)
	type short struct{ name, author, typ string }
	var now *short
	if p != nil {
		now = &short{p.Name, p.Author, p.Type.String()}
	}
	created, finished, polls := 0, 0, 0
	done := x.after.V.History[len(history):]
	items := map[string]int{}
	for _, r := range x.before.V.PollHistory {
		items[r.Poll.Name+fmt.Sprint(r.Yes, r.No, r.Decision)]--
	}
	for _, r := range x.after.V.PollHistory {
		items[r.Poll.Name+fmt.Sprint(r.Yes, r.No, r.Decision)]++
	}
	for _, e := range x.evs {
		switch e.T {
		case "proposal_created":
			if now != nil {
				x.fail("created-again", "a proposal is created while %v is voted for", *now)
			}
			now = &short{e.A["name"], e.A["author"], e.A["type"]}
			agreed, disagreed = []string{strings.ToLower(e.A["author"])}, nil
			created++
		case "proposal_vote":
			if now == nil {
				x.fail("vote", "a vote for no proposal")
			}
			if e.yes("agreed") {
				agreed = append(agreed, e.A["voter"])
			} else {
				disagreed = append(disagreed, e.A["voter"])
			}
		case "voting_finished":
			if now == nil || now.name != e.A["name"] {
				x.fail("finished-name", "%q is finished while the proposal is %v", e.A["name"], now)
			}
			if finished >= len(done) {
				x.fail("finished", "a finished voting is not in the history")
			}
			r := done[finished]
			finished++
			if (short{r.Proposal.Name, r.Proposal.Author, r.Proposal.Type.String()}) != *now {
				x.fail("finished-of", "the finished voting in the history is %s and not %v", r.Proposal.Name, *now)
			}
			if fmt.Sprint(r.Agreed, r.Disagreed) != fmt.Sprint(agreed, disagreed) {
				x.fail("voted", "the votes in the history are %v and %v, and not %v and %v", r.Agreed, r.Disagreed, agreed, disagreed)
			}
			// everyone has to vote, two thirds have to agree
			if yes := e.yes("agreed"); yes != (len(agreed)+len(disagreed) == len(r.Government) && 3*len(agreed) >= 2*len(r.Government)) {
				x.fail("decision", "the decision is %t with %d votes for it of %d", yes, len(agreed), len(r.Government))
			}
			now = nil
			agreed, disagreed = nil, nil
		case "poll_finished":
			polls++
			yes, no := e.A["yes"], e.A["no"]
			k := e.A["name"]
			d := voting.Decision(voting.Decision_value[e.A["decision"]])
			k += yes + " " + no + " " + d.String()
			if items[k] <= 0 {
				x.fail("poll", "the finished poll %q is not in the history: %v", k, items)
			}
			items[k]--
		}
	}
	if finished != len(done) {
		x.fail("unfinished", "%d votings are finished and %d announced", len(done), finished)
	}
	for k, n := range items {
		if n > 0 {
			x.fail("poll-silent", "the end of the poll %q is not announced", k)
		}
	}
	q := x.after.V.Proposal
	if (q != nil) != (now != nil) || q != nil && (short{q.Name, q.Author, q.Type.String()}) != *now {
		x.fail("proposal", "the proposal is %v and should be %v", q, now)
	}
	if q != nil && fmt.Sprint(x.after.V.Agreed, x.after.V.Disagreed) != fmt.Sprint(agreed, disagreed) {
		x.fail("votes", "the votes are %v and %v and should be %v and %v", x.after.V.Agreed, x.after.V.Disagreed, agreed, disagreed)
	}
}

func (x *announced) limits() {
	for _, a := range sortedKeys(x.after.Prof) {
		b, n := x.before.Prof[a], x.after.Prof[a]
		if b == nil {
			continue
		}
		last := func(types ...string) (e event, ok bool) {
			evs := x.of(a, types...)
			if len(evs) == 0 {
				return event{}, false
			}
			return evs[len(evs)-1], true
		}
		num := func(e event, k string, want uint64) {
			if e.A[k] != fmt.Sprint(want) {
				x.fail("limit-"+e.T, "%s of %s is %d and not %s", k, a, want, e.A[k])
			}
		}
		reset := len(x.of(a, "update_limits_reset_used")) > 0
		paid, isPaid := last("pay_tariff")
		if isPaid && timeStr(n.ActiveUntil) != timeStr(ptr(paid.t("expire_at"))) {
			x.fail("expire", "%s is active until %s and not %s", a, timeStr(n.ActiveUntil), paid.A["expire_at"])
		}
		if !isPaid && timeStr(n.ActiveUntil) != timeStr(b.ActiveUntil) {
			x.fail("paid", "%s is active until %s after %s", a, timeStr(n.ActiveUntil), timeStr(b.ActiveUntil))
		}
		if e, ok := last("buy_storage", "give_up_storage"); ok && !isPaid {
			num(e, "new_limit", n.StorageLimit)
			num(e, "used", n.StorageCurrent)
		} else if !ok && !isPaid && !reset && n.StorageLimit != b.StorageLimit {
			x.fail("storage", "the storage of %s is %d after %d", a, n.StorageLimit, b.StorageLimit)
		}
		if e, ok := last("buy_vpn"); ok && !reset {
			num(e, "new_limit", n.VpnLimit)
			num(e, "used", n.VpnCurrent)
		} else if !ok && !reset && n.VpnLimit != b.VpnLimit {
			x.fail("vpn", "the VPN of %s is %d after %d", a, n.VpnLimit, b.VpnLimit)
		}
		if reset && n.VpnCurrent != 0 && len(x.evs) == 1 {
			x.fail("reset", "the VPN of %s is not reset", a)
		}
		if e, ok := last("buy_storage", "buy_vpn", "buy_extra_im_storage"); ok {
			to, paid := x.after.P.Referral.CompanyAccounts.ForSubscription, int64(-1)
			for _, t := range x.evs {
				if t.T == "transfer" && t.A["sender"] == a && canon(t.A["recipient"]) == canon(to) {
					paid = t.coins("amount").U
				}
			}
			if paid != e.u("total") {
				x.fail("total", "%s pays %d and not %s", a, paid, e.A["total"])
			}
		}
		if isPaid {
			sum := int64(0)
			for _, n := range paid.list("commission_amount") {
				k, err := strconv.ParseInt(n, 10, 64)
				must(err)
				sum += k
			}
			rest := paid.u("total") - sum
			found := false
			for _, t := range x.evs {
				found = found || t.T == "transfer" && t.A["sender"] == a && t.A["recipient"] == world.ModuleAddr(util.SplittableFeeCollectorName) && t.coins("amount").U == rest
			}
			if !found {
				x.fail("tariff-total", "of the %s %s pays %d are not announced", paid.A["total"], a, rest)
			}
		}
		e, ok := last("buy_extra_im_storage", "give_up_im_storage", "im_auto_pay_failed")
		if !ok && (n.ImLimitExtra != b.ImLimitExtra || timeStr(n.ExtraImUntil) != timeStr(b.ExtraImUntil)) {
			x.fail("im", "the extra storage of %s changes from %d until %s to %d until %s", a, b.ImLimitExtra, timeStr(b.ExtraImUntil), n.ImLimitExtra, timeStr(n.ExtraImUntil))
		}
		if ok {
			if e.T != "im_auto_pay_failed" {
				// 5 GB are free
				total := uint64(5)
				if n.ExtraImUntil != nil && n.ExtraImUntil.After(x.after.Time) {
					total += n.ImLimitExtra
				}
				num(e, "new_limit", total<<30)
			}
			switch e.T {
			case "buy_extra_im_storage":
				if timeStr(n.ExtraImUntil) != timeStr(ptr(e.t("expire_at"))) {
					x.fail("im-until", "%s has the extra storage until %s and not %s", a, timeStr(n.ExtraImUntil), e.A["expire_at"])
				}
			case "im_auto_pay_failed":
				if n.ImLimitExtra != 0 || n.ExtraImUntil != nil {
					x.fail("im-failed", "%s keeps the extra storage", a)
				}
			}
		}
	}
}

func ptr[T any](x T) *T { return &x }

// attachT02 : the events of every step tell exactly of what has changed.
func attachT02(w *world.World, st *eng.Stats) {
	kinds := map[string]bool{}
	watchEvents(w, func(before, after *world.Snap, list []abci.Event, msgs []sdk.Msg, what string) {
		x := &announced{before, after, what, eventsOf(list, st), st, msgs == nil, len(msgs) == 1}
		x.messages(msgs)
		x.referrals()
		x.validators()
		x.votes()
		x.limits()
		for _, e := range x.evs {
			kinds[e.T] = true
		}
		if len(kinds) >= 10 {
			st.NonTrivial = true
		}
	})
}

func init() {
	eventOps := reweigh(eng.W{K: "tariff", N: 30}, eng.W{K: "buystorage", N: 8}, eng.W{K: "givestorage", N: 6}, eng.W{K: "buyvpn", N: 8}, eng.W{K: "buyim", N: 10},
		eng.W{K: "giveim", N: 5}, eng.W{K: "prolongim", N: 5}, eng.W{K: "setvpn", N: 6}, eng.W{K: "poll", N: 10}, eng.W{K: "answer", N: 14}, eng.W{K: "propose", N: 12}, eng.W{K: "vote", N: 20})
	status := func(r *eng.R, p map[string]int64) { statusTweak(r, p) }
	gens := []struct {
		name                         string
		gen                          func(r *eng.R) *eng.Case
		quick1, thor1, quick2, thor2 int
	}{
		{"history", chainGen(50, 120, world.AllOps(), nil), 120, 12000, 60, 6000},
		{"tree", treeGen(60, 140, treeOps()), 40, 6000, 30, 6000},
		{"shop", shopGen(60, 140, eventOps), 60, 6000, 60, 6000},
		{"status", chainGen(50, 120, reweigh(eng.W{K: "delegate", N: 20}, eng.W{K: "express", N: 14}, eng.W{K: "revoke", N: 8}, eng.W{K: "tariff", N: 16}, eng.W{K: "transition", N: 10}, eng.W{K: "resolve", N: 10}, eng.W{K: "next", N: 50}), status), 30, 6000, 40, 6000},
		{"moves", transitionGen, 30, 6000, 40, 6000},
		{"nodes", nodingGen(50, 120), 30, 6000, 60, 6000},
		{"stakes", func(r *eng.R) *eng.Case { return eng.Get("N04").Suites[1].Gen(r) }, 20, 3000, 40, 6000},
		{"delegations", d02Gen(), 40, 6000, 20, 3000},
		{"polls", voteGen(60, 160, reweigh(eng.W{K: "poll", N: 25}, eng.W{K: "answer", N: 60}, eng.W{K: "propose", N: 25}, eng.W{K: "vote", N: 40}, eng.W{K: "bundle", N: 4})), 20, 3000, 60, 6000},
	}
	t01 := &eng.Property{
		ID:   "T01",
		Rule: "histories over months; for every accepted transaction and every beginning and end of a block the coins the events tell of are compared with the balances, account by account; non-trivial if the history had interest, a delegation or revocation, and a paid tariff or a validator's reward",
	}
	t02 := &eng.Property{
		ID:   "T02",
		Rule: "histories over months; for every accepted transaction and every beginning and end of a block the state before is carried on by the events and compared with the state after; non-trivial if the history had at least ten kinds of events",
	}
	for _, g := range gens {
		t01.Suites = append(t01.Suites, &eng.Suite{Name: g.name, Gen: g.gen, Run: chainRun(attachT01), Quick: g.quick1, Thorough: g.thor1})
		t02.Suites = append(t02.Suites, &eng.Suite{Name: g.name, Gen: g.gen, Run: chainRun(attachT02), Quick: g.quick2, Thorough: g.thor2})
	}
	t01.Suites = append(t01.Suites, &eng.Suite{Name: "bonuses", Gen: feeGen, Run: func(c *eng.Case, st *eng.Stats) *eng.Violation {
		return feeTrialsWith(c, st, func(before, after *world.Snap, evs sdk.Events, what string) {
			coinsTold(before, after, evs.ToABCIEvents(), nil, what, st)
		})
	}, Quick: 200, Thorough: 20000})
	eng.Register(t01)
	eng.Register(t02)
}
