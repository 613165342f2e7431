package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	upgrade "github.com/cosmos/cosmos-sdk/x/upgrade/types"
	abci "github.com/tendermint/tendermint/abci/types"

	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

func sorted(l []string) []string {
	r := append([]string{}, l...)
	sort.Strings(r)
	return r
}

func sameSet(a, b []string) bool {
	x, y := sorted(a), sorted(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func without(l []string, x string) (r []string) {
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return
}

func with(l []string, x string) []string {
	if contains(l, x) {
		return l
	}
	return append(append([]string{}, l...), x)
}

// plain tells that nothing but the messages decides whether the transaction is accepted.
func plain(s *world.Snap, tx *world.Tx) bool {
	for _, u := range tx.Signers {
		if _, ok := s.Acc[u.B]; !ok {
			return false
		}
	}
	return len(tx.Msgs) == 1 && !tx.Forged && !tx.Upper && tx.Fee.IsZero()
}

// ballot is the reference model of the vote that is going on.
type ballot struct {
	gov, yes, no []string
	open         *voting.Proposal
	end          time.Time
	start        int64
	closed       []voting.ProposalHistoryRecord
	agreed       []*voting.Proposal // those that have been agreed, to be applied
}

func newBallot(s *world.Snap) *ballot {
	b := &ballot{gov: append([]string{}, s.V.Gov...), yes: append([]string{}, s.V.Agreed...), no: append([]string{}, s.V.Disagreed...), open: s.V.Proposal, start: s.V.Start}
	if b.open != nil {
		b.end = *b.open.EndTime
	}
	return b
}

func (b *ballot) close(height int64) {
	agreed := len(b.yes)+len(b.no) == len(b.gov) && 3*len(b.yes) >= 2*len(b.gov)
	b.closed = append(b.closed, voting.ProposalHistoryRecord{Proposal: *b.open, Government: append([]string{}, b.gov...),
		Agreed: b.yes, Disagreed: b.no, Started: b.start, Finished: height})
	if agreed {
		b.agreed = append(b.agreed, b.open)
		switch b.open.Type {
		case voting.PROPOSAL_TYPE_GOVERNMENT_ADD:
			b.gov = with(b.gov, canon(b.open.GetAddress().Address))
		case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
			b.gov = without(b.gov, canon(b.open.GetAddress().Address))
		}
	}
	b.open, b.yes, b.no, b.start = nil, nil, nil, 0
}

func (b *ballot) maybeClose(height int64) {
	if len(b.yes)+len(b.no) == len(b.gov) {
		b.close(height)
	}
}

// propose says why a proposal must be refused ("" if it must not) and whether it certainly is to be accepted.
func (b *ballot) propose(s *world.Snap, p voting.Proposal) (why string, sure bool) {
	switch {
	case b.open != nil:
		return "another proposal is open", true
	case !contains(b.gov, p.Author):
		return "the author is not in the government", true
	}
	why, sure = unusable(s, b.gov, p)
	return
}

// unusable says why a value cannot be used, and if that is sure; only clear cases are decided.
func unusable(s *world.Snap, gov []string, p voting.Proposal) (why string, sure bool) {
	last := func(l []string) (string, bool) {
		if len(l) == 1 && l[0] == canon(p.GetAddress().Address) {
			return "the last entry of the list", true
		}
		return "", true
	}
	switch p.Type {
	case voting.PROPOSAL_TYPE_ENTER_PRICE, voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
		if p.GetPrice().Price == 0 {
			return "a price of zero", true
		}
		return "", true
	case voting.PROPOSAL_TYPE_TRANSITION_PRICE, voting.PROPOSAL_TYPE_LUCKY_VALIDATORS, voting.PROPOSAL_TYPE_GENERAL_AMNESTY, voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE,
		voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD,
		voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD,
		voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE, voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		return "", true
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD:
		if contains(gov, canon(p.GetAddress().Address)) {
			return "a governor already", true
		}
		return "", true
	case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		if !contains(gov, canon(p.GetAddress().Address)) {
			return "not a governor", true
		}
		return last(gov)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		return last(s.P.Profile.Creators)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		return last(s.P.Profile.TokenRateSigners)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		return last(s.P.Profile.VpnSigners)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		return last(s.P.Profile.StorageSigners)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		return last(s.P.Earning.Signers)
	case voting.PROPOSAL_TYPE_MIN_SEND, voting.PROPOSAL_TYPE_DUST_DELEGATION, voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE, voting.PROPOSAL_TYPE_MIN_DELEGATE:
		x := p.GetMinAmount().MinAmount
		if x < 0 || x == 0 && p.Type == voting.PROPOSAL_TYPE_MIN_DELEGATE {
			return "an amount that is too small", true
		}
		return "", true
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS, voting.PROPOSAL_TYPE_JAIL_AFTER:
		if p.GetCount().Count == 0 {
			return "a count of zero", true
		}
		return "", true
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		f := world.Rat(p.GetPortion().Fraction)
		if f.Sign() < 0 || f.Cmp(big.NewRat(1, 1)) >= 0 {
			return "not a portion", true
		}
		return "", true
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		fs := p.GetPortions().Fractions
		if len(fs) != 2 {
			return "not two portions", true
		}
		a, b := world.Rat(fs[0]), world.Rat(fs[1])
		if a.Sign() < 0 || b.Sign() < 0 || new(big.Rat).Add(a, b).Cmp(big.NewRat(1, 1)) > 0 {
			return "not portions", true
		}
		return "", false
	case voting.PROPOSAL_TYPE_REVOKE, voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		b := world.Rat(p.GetRevoke().Revoke.Burn)
		if b.Sign() < 0 || b.Cmp(big.NewRat(1, 1)) > 0 {
			return "not a portion", true
		}
		return "", false
	}
	return "", false
}

// apply executes a message that was accepted. It fails if it should not have been.
func (b *ballot) apply(s *world.Snap, m sdk.Msg) {
	switch m := m.(type) {
	case *voting.MsgPropose:
		if why, _ := b.propose(s, m.Proposal); why != "" {
			eng.Fail("vote/propose", "the proposal %s by %s was accepted: %s", m.Proposal.Type, m.Proposal.Author, why)
		}
		p := m.Proposal
		end := s.Time.Add(time.Duration(s.P.Voting.VotingPeriod) * time.Hour)
		p.EndTime = &end
		b.open, b.end, b.start = &p, end, s.Height
		b.yes, b.no = []string{p.Author}, nil
		b.maybeClose(s.Height)
	case *voting.MsgVote:
		switch {
		case b.open == nil:
			eng.Fail("vote/none", "a vote of %s was accepted although there is nothing to vote on", m.Voter)
		case !contains(b.gov, m.Voter):
			eng.Fail("vote/outsider", "a vote of %s was accepted, the government is %v", m.Voter, b.gov)
		case contains(b.yes, m.Voter) || contains(b.no, m.Voter):
			eng.Fail("vote/twice", "%s voted twice", m.Voter)
		}
		if m.Agree {
			b.yes = append(b.yes, m.Voter)
		} else {
			b.no = append(b.no, m.Voter)
		}
		b.maybeClose(s.Height)
	}
}

// expire is what the passage of time does.
func (b *ballot) expire(s *world.Snap) {
	if b.open != nil && !s.Time.Before(b.end) {
		b.close(s.Height)
	}
}

func govRecStr(r voting.ProposalHistoryRecord) string {
	return fmt.Sprintf("%s by %s until %s, %d..%d, of %v yes %v no %v, args %v", r.Proposal.Type, canon(r.Proposal.Author), r.Proposal.EndTime, r.Started, r.Finished, sorted(r.Government), sorted(r.Agreed), sorted(r.Disagreed), argStr(r.Proposal))
}

// canon writes an address in lower case.
func canon(a string) string { return strings.ToLower(a) }

func argStr(p voting.Proposal) string {
	bz, err := json.Marshal(p.Args)
	if err != nil {
		eng.Bug("cannot print %v: %v", p.Args, err)
	}
	return strings.ReplaceAll(string(bz), "ARTR1", "artr1") // good enough to compare case-insensitively below
}

func propStr(p *voting.Proposal) string {
	if p == nil {
		return "none"
	}
	return strings.ToLower(fmt.Sprintf("%s %q by %s until %s: %s", p.Type, p.Name, p.Author, p.EndTime, argStr(*p)))
}

func (b *ballot) compare(before, after *world.Snap, what string) {
	v := after.V
	if !sameSet(v.Gov, b.gov) {
		eng.Fail("vote/government", "%s: the government is %v, not %v", what, v.Gov, b.gov)
	}
	if propStr(v.Proposal) != propStr(b.open) {
		eng.Fail("vote/open", "%s: the open proposal is %s, not %s", what, propStr(v.Proposal), propStr(b.open))
	}
	if !sameSet(v.Agreed, b.yes) || !sameSet(v.Disagreed, b.no) {
		eng.Fail("vote/votes", "%s: agreed %v and disagreed %v are counted, not %v and %v", what, v.Agreed, v.Disagreed, b.yes, b.no)
	}
	if b.open != nil && v.Start != b.start {
		eng.Fail("vote/start", "%s: the proposal started at %d, not at %d", what, v.Start, b.start)
	}
	want := append([]voting.ProposalHistoryRecord{}, before.V.History...)
	want = append(want, b.closed...)
	if len(want) != len(v.History) {
		eng.Fail("vote/history", "%s: there are %d proposals in the history, not %d", what, len(v.History), len(want))
	}
	for i := range want {
		if x, y := strings.ToLower(govRecStr(v.History[i])), strings.ToLower(govRecStr(want[i])); x != y {
			eng.Fail("vote/record", "%s: the history says %s, not %s", what, x, y)
		}
	}
	n := 0
	for _, t := range after.Tasks {
		if t.HandlerName == voting.VoteHookName {
			n++
			if b.open == nil || !t.Time.Equal(b.end) {
				eng.Fail("vote/task", "%s: the end of a vote is scheduled for %s, %s is open", what, t.Time, propStr(b.open))
			}
		}
	}
	if b.open != nil && n != 1 {
		eng.Fail("vote/task", "%s: the end of the vote is scheduled %d times", what, n)
	}
}

// attachVote: V01.
func attachVote(w *world.World, st *eng.Stats) {
	var before *world.Snap
	var n, refused, expired int
	w.BeforeTx = append(w.BeforeTx, func(*world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		b := newBallot(before)
		if res.Code == 0 {
			for _, m := range tx.Msgs {
				b.apply(before, m)
			}
		} else if plain(before, tx) {
			switch m := tx.Msgs[0].(type) {
			case *voting.MsgPropose:
				if why, sure := b.propose(before, m.Proposal); why == "" && sure {
					eng.Fail("vote/refused-proposal", "the proposal %s by %s was refused: %s", propStr(&m.Proposal), m.Proposal.Author, res.Log)
				}
				refused++
			case *voting.MsgVote:
				if b.open != nil && contains(b.gov, m.Voter) && !contains(b.yes, m.Voter) && !contains(b.no, m.Voter) {
					eng.Fail("vote/refused", "the vote of %s was refused: %s", m.Voter, res.Log)
				}
				refused++
			}
		}
		b.compare(before, after, msgNames(tx))
		n += len(b.closed)
		for _, p := range b.agreed {
			st.Count("agreed " + p.Type.String()[len("PROPOSAL_TYPE_"):])
		}
		if len(b.closed) > len(b.agreed) {
			st.Count("rejected by votes")
		}
		if n >= 2 && refused > 0 || expired > 0 && n > 0 {
			st.NonTrivial = true
		}
	})
	w.BeforeBegin = append(w.BeforeBegin, func(abci.RequestBeginBlock) {
		if w.Height > 1 {
			before = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(req abci.RequestBeginBlock, _ abci.ResponseBeginBlock) {
		if before == nil {
			return
		}
		after := w.Snap()
		b := newBallot(before)
		b.expire(after)
		b.compare(before, after, "the beginning of a block")
		if len(b.closed) > 0 {
			expired++
			st.Count("expired")
		}
	})
	w.BeforeEnd = append(w.BeforeEnd, func() { before = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() {
		newBallot(before).compare(before, w.Snap(), "the end of a block")
	})
}

// ------------------------------------------------------------------------------------------------------------- V02

// settings is everything votes decide on, as text by name.
func settings(s *world.Snap) map[string]string {
	m := map[string]string{}
	put := func(name string, x interface{}) {
		bz, err := json.Marshal(x)
		if err != nil {
			eng.Bug("cannot print %s: %v", name, err)
		}
		m[name] = string(bz)
	}
	list := func(name string, l []string) { put(name, sorted(l)) }
	b := s.P.Bank
	put("min send", b.MinSend)
	put("dust", b.DustDelegation)
	put("fee", world.Rat(b.TransactionFee))
	put("max fee", b.MaxTransactionFee)
	put("fee split", []*big.Rat{world.Rat(b.TransactionFeeSplitRatios.ForProposer), world.Rat(b.TransactionFeeSplitRatios.ForCompany)})
	put("company", b.CompanyAccount)
	list("blocked", b.BlockedSenders)
	d := s.P.Delegating
	put("min delegate", d.MinDelegate)
	put("revoke", []interface{}{d.Revoke.Period, world.Rat(d.Revoke.Burn)})
	put("express", []interface{}{d.ExpressRevoke.Period, world.Rat(d.ExpressRevoke.Burn)})
	put("table", d.AccruePercentageTable)
	n := s.P.Noding
	put("max validators", n.MaxValidators)
	put("lottery", n.LotteryValidators)
	put("jail after", n.JailAfter)
	put("criteria", n.MinCriteria)
	put("power", n.VotingPower)
	n.MaxValidators, n.LotteryValidators, n.JailAfter, n.MinCriteria, n.VotingPower = 0, 0, 0, noding.MinCriteria{}, noding.Distribution{}
	put("noding", n)
	p := s.P.Profile
	put("price", p.SubscriptionPrice)
	put("vpn price", p.VpnGbPrice)
	put("storage price", p.StorageGbPrice)
	put("rate", world.Rat(p.TokenRate))
	list("creators", p.Creators)
	list("rate signers", p.TokenRateSigners)
	list("vpn signers", p.VpnSigners)
	list("storage signers", p.StorageSigners)
	put("profile", []interface{}{p.RenamePrice, p.CardMagic, p.BaseStorageGb, p.BaseVpnGb})
	r := s.P.Referral
	put("transition price", r.TransitionPrice)
	r.TransitionPrice = 0
	put("referral", r)
	list("earning signers", s.P.Earning.Signers)
	put("voting", s.P.Voting)
	put("schedule", s.P.Schedule)
	list("government", s.V.Gov)
	var staff []string
	for a, v := range s.Val {
		if v.Staff {
			staff = append(staff, a)
		}
	}
	list("staff", staff)
	m["upgrade"] = upgradeStr(s)
	return m
}

func upgradeStr(s *world.Snap) string {
	bz := s.Raw[upgrade.StoreKey][string(upgrade.PlanKey())]
	if bz == nil {
		return "none"
	}
	var p upgrade.Plan
	if err := p.Unmarshal(bz); err != nil {
		eng.Bug("cannot read the upgrade plan: %v", err)
	}
	return fmt.Sprintf("%s %s %d %s", p.Name, p.Time.UTC(), p.Height, p.Info)
}

// decide is what an agreed proposal does to the settings.
func decide(m map[string]string, p *voting.Proposal) {
	put := func(name string, x interface{}) {
		bz, err := json.Marshal(x)
		if err != nil {
			eng.Bug("cannot print %s: %v", name, err)
		}
		m[name] = string(bz)
	}
	list := func(name string, add bool) {
		var l []string
		if err := json.Unmarshal([]byte(m[name]), &l); err != nil {
			eng.Bug("cannot read the list %s: %v", name, err)
		}
		if a := canon(p.GetAddress().Address); add {
			l = with(l, a)
		} else {
			l = without(l, a)
		}
		put(name, sorted(l))
	}
	switch p.Type {
	case voting.PROPOSAL_TYPE_ENTER_PRICE:
		put("price", p.GetPrice().Price)
	case voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE:
		put("vpn price", p.GetPrice().Price)
	case voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
		put("storage price", p.GetPrice().Price)
	case voting.PROPOSAL_TYPE_TRANSITION_PRICE:
		put("transition price", p.GetPrice().Price)
	case voting.PROPOSAL_TYPE_GOVERNMENT_ADD:
		list("government", true)
	case voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
		list("government", false)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_ADD:
		list("creators", true)
	case voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
		list("creators", false)
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD:
		list("staff", true)
	case voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE:
		list("staff", false)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD:
		list("earning signers", true)
	case voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
		list("earning signers", false)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD:
		list("rate signers", true)
	case voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
		list("rate signers", false)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_ADD:
		list("vpn signers", true)
	case voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
		list("vpn signers", false)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_ADD:
		list("storage signers", true)
	case voting.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
		list("storage signers", false)
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD:
		list("blocked", true)
	case voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE:
		list("blocked", false)
	case voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE:
		u := p.GetSoftwareUpgrade()
		m["upgrade"] = fmt.Sprintf("%s %s %d %s", u.Name, u.Time.UTC(), 0, u.Info)
	case voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE:
		m["upgrade"] = "none"
	case voting.PROPOSAL_TYPE_MIN_SEND:
		put("min send", p.GetMinAmount().MinAmount)
	case voting.PROPOSAL_TYPE_MIN_DELEGATE:
		put("min delegate", p.GetMinAmount().MinAmount)
	case voting.PROPOSAL_TYPE_DUST_DELEGATION:
		put("dust", p.GetMinAmount().MinAmount)
	case voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
		put("max fee", p.GetMinAmount().MinAmount)
	case voting.PROPOSAL_TYPE_MAX_VALIDATORS:
		put("max validators", p.GetCount().Count)
	case voting.PROPOSAL_TYPE_LUCKY_VALIDATORS:
		put("lottery", p.GetCount().Count)
	case voting.PROPOSAL_TYPE_JAIL_AFTER:
		put("jail after", p.GetCount().Count)
	case voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA:
		put("criteria", *p.GetMinCriteria().MinCriteria)
	case voting.PROPOSAL_TYPE_VOTING_POWER:
		put("power", *p.GetVotingPower())
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE:
		put("fee", world.Rat(p.GetPortion().Fraction))
	case voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS:
		fs := p.GetPortions().Fractions
		put("fee split", []*big.Rat{world.Rat(fs[0]), world.Rat(fs[1])})
	case voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE:
		put("table", p.GetAccruePercentageTable().AccruePercentageTable)
	case voting.PROPOSAL_TYPE_REVOKE:
		r := p.GetRevoke().Revoke
		put("revoke", []interface{}{r.Period, world.Rat(r.Burn)})
	case voting.PROPOSAL_TYPE_EXPRESS_REVOKE:
		r := p.GetRevoke().Revoke
		put("express", []interface{}{r.Period, world.Rat(r.Burn)})
	}
}

// attachSettings: V02.
func attachSettings(w *world.World, st *eng.Stats) {
	var before *world.Snap
	compare := func(want, have map[string]string, what string) {
		for _, k := range sortedKeys(have) {
			if want[k] != have[k] {
				eng.Fail("settings/"+strings.ReplaceAll(k, " ", "-"), "%s: the setting %s is %s, not %s", what, k, have[k], want[k])
			}
		}
	}
	kinds := map[voting.ProposalType]bool{}
	w.BeforeTx = append(w.BeforeTx, func(*world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		b := newBallot(before)
		want := settings(before)
		what := msgNames(tx)
		if res.Code == 0 {
			for _, m := range tx.Msgs {
				n := len(b.agreed)
				b.apply(before, m)
				for _, p := range b.agreed[n:] {
					decide(want, p)
					kinds[p.Type] = true
					st.Count("agreed " + p.Type.String()[len("PROPOSAL_TYPE_"):])
					what += " agreeing on " + propStr(p)
					if p.Type == voting.PROPOSAL_TYPE_GENERAL_AMNESTY && len(tx.Msgs) == 1 {
						amnesty(before, after, what)
					}
				}
				if m, ok := m.(*profile.MsgSetRate); ok {
					bz, _ := json.Marshal(world.Rat(m.Value))
					want["rate"] = string(bz)
				}
			}
		} else if m, ok := tx.Msgs[0].(*voting.MsgVote); ok && plain(before, tx) && b.open != nil && contains(b.gov, m.Voter) && !contains(b.yes, m.Voter) && !contains(b.no, m.Voter) {
			eng.Fail("settings/refused", "the vote of %s on %s was refused: %s", m.Voter, propStr(b.open), res.Log)
		}
		compare(want, settings(after), what)
		if len(kinds) >= 2 {
			st.NonTrivial = true
		}
	})
	w.BeforeBegin = append(w.BeforeBegin, func(abci.RequestBeginBlock) {
		if w.Height > 1 {
			before = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) {
		if before != nil {
			compare(settings(before), settings(w.Snap()), "the beginning of a block")
		}
	})
	w.BeforeEnd = append(w.BeforeEnd, func() { before = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() { compare(settings(before), settings(w.Snap()), "the end of a block") })
}

// amnesty forgets all offences and changes nothing else about validators.
func amnesty(before, after *world.Snap, what string) {
	for _, a := range sortedKeys(before.Val) {
		x, y := *before.Val[a], after.Val[a]
		if y == nil {
			eng.Fail("settings/amnesty", "%s: the validator %s has vanished", what, a)
		}
		x.Score += x.Strokes
		x.Strokes, x.JailCount = 0, 0
		if fmt.Sprint(x) != fmt.Sprint(*y) {
			eng.Fail("settings/amnesty", "%s: the validator %s is %v, not %v", what, a, *y, x)
		}
	}
}

// ------------------------------------------------------------------------------------------------------------- V03

// qualified: whether an account meets the criteria of a validator. known is false if it is unknown to the referral part.
func qualified(s *world.Snap, acc string) (ok, known bool) {
	i := s.Ref[acc]
	if i == nil {
		return false, false
	}
	if v := s.Val[acc]; v != nil && v.Staff {
		return true, true
	}
	mc := s.P.Noding.MinCriteria
	return i.Status >= mc.Status && uint64(s.Bal[acc].D) >= mc.SelfStake && uint64(totalStake(s, acc)) >= mc.TotalStake, true
}

// lines is how many levels below contribute.
var linesOpened = []int{0, 4, 6, 8, 10, 10, 10, 10, 10, 10, 10}

func totalStake(s *world.Snap, acc string) (sum int64) {
	i := s.Ref[acc]
	for l := 0; l <= linesOpened[i.Status]; l++ {
		sum += lvl(i.Delegated, l)
	}
	return
}

type pollM struct {
	open    *voting.Poll
	answers map[string]bool
	closed  []voting.PollHistoryItem
}

func newPollM(s *world.Snap) *pollM {
	m := &pollM{open: s.V.Poll, answers: map[string]bool{}}
	for k, v := range s.V.Answers {
		m.answers[k] = v
	}
	return m
}

func (m *pollM) counts() (yes, no uint64) {
	for _, v := range m.answers {
		if v {
			yes++
		} else {
			no++
		}
	}
	return
}

func (m *pollM) close() {
	yes, no := m.counts()
	d := voting.DECISION_UNSPECIFIED
	if q := m.open.Quorum; q != nil {
		d = voting.DECISION_NEGATIVE
		all := new(big.Rat).SetInt64(int64(yes + no))
		if yes > 0 && new(big.Rat).SetInt64(int64(yes)).Cmp(all.Mul(all, world.Rat(*q))) >= 0 {
			d = voting.DECISION_POSITIVE
		}
	}
	m.closed = append(m.closed, voting.PollHistoryItem{Poll: *m.open, Yes: yes, No: no, Decision: d})
	m.open, m.answers = nil, map[string]bool{}
}

// eligible says why the answer is not allowed.
func (m *pollM) eligible(s *world.Snap, acc string) string {
	if m.open == nil {
		return "no poll is open"
	}
	switch r := m.open.Requirements.(type) {
	case *voting.Poll_CanValidate:
		if ok, _ := qualified(s, acc); !ok {
			return "not qualified for a validator"
		}
	case *voting.Poll_MinStatus:
		if i := s.Ref[acc]; i == nil || i.Status < r.MinStatus {
			return "the status is too low"
		}
	}
	if _, has := m.answers[acc]; has {
		return "answered already"
	}
	return ""
}

func pollStr(p *voting.Poll) string {
	if p == nil {
		return "none"
	}
	req := "anybody"
	switch r := p.Requirements.(type) {
	case *voting.Poll_CanValidate:
		req = "validators"
	case *voting.Poll_MinStatus:
		req = "from " + r.MinStatus.String()
	}
	q := "no quorum"
	if p.Quorum != nil {
		q = world.Rat(*p.Quorum).String()
	}
	return strings.ToLower(fmt.Sprintf("%q %q by %s %s %s from %s to %s", p.Name, p.Question, p.Author, req, q, p.StartTime, p.EndTime))
}

func itemStr(i voting.PollHistoryItem) string {
	return fmt.Sprintf("%s: yes %d no %d %s", pollStr(&i.Poll), i.Yes, i.No, i.Decision)
}

func (m *pollM) compare(before, after *world.Snap, what string) {
	v := after.V
	if pollStr(v.Poll) != pollStr(m.open) {
		eng.Fail("poll/open", "%s: the open poll is %s, not %s", what, pollStr(v.Poll), pollStr(m.open))
	}
	for _, a := range sortedKeys(union(count(v.Answers), count(m.answers))) {
		x, ok1 := v.Answers[a]
		y, ok2 := m.answers[a]
		if ok1 != ok2 || x != y {
			eng.Fail("poll/answers", "%s: the answer of %s is %v (%v), not %v (%v)", what, a, x, ok1, y, ok2)
		}
	}
	yes, no := m.counts()
	if v.Yes != yes || v.No != no {
		eng.Fail("poll/count", "%s: %d yes and %d no are counted, not %d and %d", what, v.Yes, v.No, yes, no)
	}
	want := map[string]int{}
	for _, x := range before.V.PollHistory {
		want[itemStr(x)]++
	}
	for _, x := range m.closed {
		want[itemStr(x)]++
	}
	have := map[string]int{}
	for _, x := range v.PollHistory {
		have[itemStr(x)]++
	}
	for _, k := range sortedKeys(union(want, have)) {
		if want[k] != have[k] {
			eng.Fail("poll/history", "%s: the archive has %d times %s instead of %d", what, have[k], k, want[k])
		}
	}
	n := 0
	for _, t := range after.Tasks {
		if t.HandlerName == voting.PollHookName {
			n++
			if m.open == nil || !t.Time.Equal(*m.open.EndTime) {
				eng.Fail("poll/task", "%s: the end of a poll is scheduled for %s, %s is open", what, t.Time, pollStr(m.open))
			}
		}
	}
	if m.open != nil && n != 1 {
		eng.Fail("poll/task", "%s: the end of the poll is scheduled %d times", what, n)
	}
}

func count(m map[string]bool) map[string]int {
	r := map[string]int{}
	for k := range m {
		r[k]++
	}
	return r
}

func attachPoll(w *world.World, st *eng.Stats) {
	var before *world.Snap
	finished, answered := 0, 0
	w.BeforeTx = append(w.BeforeTx, func(*world.Tx) { before = w.Snap() })
	w.AfterTx = append(w.AfterTx, func(tx *world.Tx, res abci.ResponseDeliverTx) {
		after := w.Snap()
		m := newPollM(before)
		if res.Code == 0 {
			mixed := len(tx.Msgs) > 1
			for _, x := range tx.Msgs {
				switch x := x.(type) {
				case *voting.MsgStartPoll:
					if m.open != nil {
						eng.Fail("poll/second", "a poll was started although %s is open", pollStr(m.open))
					}
					if !contains(before.V.Gov, x.Poll.Author) && !mixed {
						eng.Fail("poll/author", "%s, who is not in the government, started a poll", x.Poll.Author)
					}
					p := x.Poll
					start := after.Time
					end := start.Add(time.Duration(before.P.Voting.PollPeriod) * time.Hour)
					p.StartTime, p.EndTime = &start, &end
					m.open = &p
				case *voting.MsgAnswerPoll:
					why := m.eligible(before, x.Respondent)
					if why != "" && (!mixed || m.open == nil || why == "answered already") {
						eng.Fail("poll/answer", "the answer of %s was accepted: %s", x.Respondent, why)
					}
					m.answers[x.Respondent] = x.Yes
					answered++
				}
			}
		} else if plain(before, tx) {
			switch x := tx.Msgs[0].(type) {
			case *voting.MsgStartPoll:
				if m.open == nil && contains(before.V.Gov, x.Poll.Author) {
					if p := x.Poll; p.Quorum == nil || world.Rat(*p.Quorum).Cmp(big.NewRat(1, 1)) <= 0 && world.Rat(*p.Quorum).Sign() >= 0 {
						eng.Fail("poll/refused-start", "the poll %s was refused: %s", pollStr(&p), res.Log)
					}
				}
			case *voting.MsgAnswerPoll:
				if m.eligible(before, x.Respondent) == "" {
					eng.Fail("poll/refused", "the answer of %s was refused: %s", x.Respondent, res.Log)
				}
				st.Count("answer refused: " + m.eligible(before, x.Respondent))
			}
		}
		m.compare(before, after, msgNames(tx))
	})
	w.BeforeBegin = append(w.BeforeBegin, func(abci.RequestBeginBlock) {
		if w.Height > 1 {
			before = w.Snap()
		}
	})
	w.AfterBegin = append(w.AfterBegin, func(abci.RequestBeginBlock, abci.ResponseBeginBlock) {
		if before == nil {
			return
		}
		after := w.Snap()
		m := newPollM(before)
		if m.open != nil && !after.Time.Before(*m.open.EndTime) {
			m.close()
			st.Count("finished " + m.closed[0].Decision.String())
			if answered > 0 {
				finished++
			}
			answered = 0
			if finished > 1 {
				st.NonTrivial = true
			}
		}
		m.compare(before, after, "the beginning of a block")
	})
	w.BeforeEnd = append(w.BeforeEnd, func() { before = w.Snap() })
	w.AfterCommit = append(w.AfterCommit, func() {
		newPollM(before).compare(before, w.Snap(), "the end of a block")
	})
}

func voteGen(min, max int64, ws []eng.W) func(r *eng.R) *eng.Case {
	return chainGen(min, max, ws, func(r *eng.R, p map[string]int64) {
		smallTweak(r, p)
		p["gov"] = r.Range(1, 6)
	})
}

func init() {
	eng.Register(&eng.Property{
		ID:   "V01",
		Rule: "histories with many proposals and votes by governors and others; the open proposal, the votes counted, the government and the history are predicted after every transaction and at both ends of every block; non-trivial if two proposals were closed and something was refused, or one was closed and another one expired",
		Suites: []*eng.Suite{{Name: "ballots", Run: chainRun(attachVote), Quick: 500, Thorough: 30000,
			Gen: voteGen(60, 160, reweigh(eng.W{"propose", 40}, eng.W{"vote", 90}, eng.W{"bundle", 4}, eng.W{"forge", 3}))}},
	})
	eng.Register(&eng.Property{
		ID:          "V02",
		Rule:        "histories with many agreed proposals of all kinds among all other operations; all settings are compared with the predicted ones after every transaction and at both ends of every block; non-trivial if proposals of two kinds were agreed",
		Assumptions: []string{"upgrades are proposed for the distant future only", "the staff validator of user 0 is not removed, so that the validator set never becomes empty"},
		Suites: []*eng.Suite{{Name: "settings", Run: chainRun(attachSettings), Quick: 400, Thorough: 24000,
			Gen: func(r *eng.R) *eng.Case {
				c := voteGen(60, 160, reweigh(eng.W{"propose", 50}, eng.W{"vote", 80}, eng.W{"rate", 5}, eng.W{"bundle", 3}))(r)
				c.P["gov"] = r.Range(1, 3)
				for i := range c.Ops { // mostly in favour
					if o := &c.Ops[i]; o.K == "vote" && r.Chance(60) {
						o.B = 1
					}
				}
				return c
			}}},
	})
	eng.Register(&eng.Property{
		ID:   "V03",
		Rule: "histories with many polls and answers by all kinds of accounts; the open poll, its answers, the counters and the archive are predicted after every transaction and at both ends of every block; non-trivial if two polls with answers finished",
		Suites: []*eng.Suite{{Name: "polls", Run: chainRun(attachPoll), Quick: 400, Thorough: 24000,
			Gen: voteGen(60, 160, reweigh(eng.W{"poll", 25}, eng.W{"answer", 110}, eng.W{"bundle", 4}, eng.W{"forge", 3}))}},
	})
}
