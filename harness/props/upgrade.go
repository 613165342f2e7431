package props

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
	upgradetypes "github.com/cosmos/cosmos-sdk/x/upgrade/types"

	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// ------------------------------------------------------------------------------------------------------------- G06

// migrations are what the upgrades are to do to a healthy state. Those that were made for the damage of a certain day
// and make no sense with any other state are not here.
var migrations = map[string]func(w *world.World, ctx sdk.Context){
	"2.0.1": nothing,                   // recounts active referrals
	"2.2.0": pollPeriod,                // and switches off whoever is not qualified
	"2.3.0": nothing, "2.3.1": nothing, // looks at everybody's status again
	"2.4.0": nothing, "2.4.1": nothing,
	"2.4.2": bankSetting(func(p *bank.Params) { p.TransactionFee = util.Permille(3) }),
	"2.4.4": bankSetting(func(p *bank.Params) { p.MaxTransactionFee = 10_000000 }),
	"2.4.5": banishments, // and looks at everybody's status again
	"2.4.6": bankSetting(func(p *bank.Params) {
		p.TransactionFeeSplitRatios = bank.TransactionFeeSplitRatios{ForProposer: util.FractionInt(1), ForCompany: util.FractionZero()}
		p.CompanyAccount = "artr1d3paqmusp39t2yhx4ju4vm50pfjmddfkwnn22p"
	}),
	"2.4.7": nothing,
	"2.4.8": bankSetting(func(p *bank.Params) { p.SetBlockedSenders(nil) }),
	"2.5.0": noEarners,
	"2.5.1": nothing,
	"2.5.2": emptyCollectors,
	"2.5.3": nothing, "2.5.4": nothing, "2.5.5": nothing, "2.5.6": nothing, "2.5.7": nothing,
	"2.5.8": topLevel,
}

func nothing(*world.World, sdk.Context) {}

func bankSetting(f func(p *bank.Params)) func(*world.World, sdk.Context) {
	return func(w *world.World, ctx sdk.Context) {
		k := w.App.GetBankKeeper()
		p := k.GetParams(ctx)
		f(&p)
		k.SetParams(ctx, p)
	}
}

// pollPeriod: polls last as long as votes do.
func pollPeriod(w *world.World, ctx sdk.Context) {
	k := w.App.GetVotingKeeper()
	p := k.GetParams(ctx)
	p.PollPeriod = p.VotingPeriod
	k.SetParams(ctx, p)
}

// banishments: whoever is unpaid for, has got no stake and is not going to be compressed is going to be banished.
func banishments(w *world.World, ctx sdk.Context) {
	s := w.SnapCtx(ctx)
	day := oneDay(s)
	at := ctx.BlockTime().Add(day / 24)
	for _, a := range sortedKeys(s.Ref) {
		r := *s.Ref[a]
		if r.Active || r.Banished || r.BanishmentAt != nil || r.CompressionAt != nil && !ctx.BlockTime().After(*r.CompressionAt) ||
			s.Bal[a].D > s.P.Bank.DustDelegation {
			continue
		}
		at = at.Add(day * 15 / 86400)
		t := at
		r.BanishmentAt = &t
		bz, err := r.Marshal()
		must(err)
		ctx.KVStore(w.App.GetKeys()[referral.StoreKey]).Set([]byte(a), bz)
		w.App.GetScheduleKeeper().ScheduleTask(ctx, t, "referral/banish", []byte(a))
	}
}

// noEarners: nobody is marked as an earner.
func noEarners(w *world.World, ctx sdk.Context) {
	s := ctx.KVStore(w.App.GetKeys()[earning.StoreKey])
	var keys [][]byte
	it := s.Iterator(nil, nil)
	for ; it.Valid(); it.Next() {
		keys = append(keys, it.Key())
	}
	it.Close()
	for _, k := range keys {
		s.Delete(k)
	}
}

// emptyCollectors: what has been put aside for earners goes to the company.
func emptyCollectors(w *world.World, ctx sdk.Context) {
	k := w.App.GetBankKeeper()
	to := w.App.GetReferralKeeper().GetParams(ctx).CompanyAccounts.GetForSubscription()
	for _, m := range []string{earning.ModuleName, earning.VpnCollectorName, earning.StorageCollectorName} {
		from := w.App.GetAccountKeeper().GetModuleAddress(m)
		coins := k.GetBalance(ctx, from)
		must(k.SetBalance(ctx, to, k.GetBalance(ctx, to).Add(coins...)))
		must(k.SetBalance(ctx, from, sdk.Coins{}))
	}
}

// topLevel: accounts at the top need no subscription, whoever has paid far ahead gets the monthly renewals.
func topLevel(w *world.World, ctx sdk.Context) {
	s := w.SnapCtx(ctx)
	ref, prof := ctx.KVStore(w.App.GetKeys()[referral.StoreKey]), ctx.KVStore(w.App.GetKeys()[profile.StoreKey])
	for _, a := range sortedKeys(s.Ref) {
		if r := *s.Ref[a]; r.Referrer == "" {
			r.Active = false
			bz, err := r.Marshal()
			must(err)
			ref.Set([]byte(a), bz)
			var p profile.Profile
			if q := s.Prof[a]; q != nil {
				p = *q
			}
			p.ActiveUntil = nil
			bz, err = p.Marshal()
			must(err)
			addr, _ := sdk.AccAddressFromBech32(a)
			prof.Set(addr, bz)
		}
	}
	s = w.SnapCtx(ctx)
	addrs := sortedKeys(s.Prof)
	sort.Slice(addrs, func(i, j int) bool {
		a, _ := sdk.AccAddressFromBech32(addrs[i])
		b, _ := sdk.AccAddressFromBech32(addrs[j])
		return string(a) < string(b)
	})
	month := oneMonth(s)
	for _, a := range addrs {
		if u := s.Prof[a].ActiveUntil; u != nil {
			addr, _ := sdk.AccAddressFromBech32(a)
			for t := *u; t.After(ctx.BlockTime().Add(month)); t = t.Add(-month) {
				w.App.GetScheduleKeeper().ScheduleTask(ctx, t, profile.RefreshHookName, addr)
			}
		}
	}
}

// elsewhere makes the process work in a directory of its own: a stopping node writes a note about the upgrade it needs.
var elsewhere = sync.OnceFunc(func() {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = os.TempDir()
	}
	dir := filepath.Join(root, "out", "node")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		eng.Bug("%v", err)
	}
	if err := os.Chdir(dir); err != nil {
		eng.Bug("%v", err)
	}
})

// stops executes the BeginBlock and tells what it panicked with.
func stops(w *world.World, req abci.RequestBeginBlock) (why string) {
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprint(p)
		}
	}()
	w.App.BeginBlock(req)
	return ""
}

func attachG06(w *world.World, st *eng.Stats) {
	elsewhere()
	known := world.Upgrades(w.App)
	world.Outdate(w.App)
	names := sortedKeys(migrations)
	has := map[string]bool{}
	for _, n := range known {
		has[n] = true
	}
	for _, n := range names {
		if !has[n] {
			eng.Fail("upgrade/unknown", "the binary does not know of the upgrade %s", n)
		}
	}
	done := map[string]int64{}
	doneOf := func() map[string]int64 {
		r := map[string]int64{}
		for k, v := range w.Raw()[upgradetypes.StoreKey] {
			if k[0] == upgradetypes.DoneByte {
				r[k[1:]] = int64(binary.BigEndian.Uint64(v))
			}
		}
		return r
	}
	w.Extra = map[string]func(w *world.World, op eng.Op){}
	// upgrade: the government decides on an upgrade
	w.Extra["upgrade"] = func(w *world.World, op eng.Op) {
		s := w.Snap()
		if s.V.Proposal != nil || len(s.V.Gov) == 0 {
			return
		}
		name := names[eng.Mod(op.A, len(names))]
		if eng.Mod(op.B, 12) == 0 {
			name = fmt.Sprintf("3.%d", eng.Mod(op.A, 4))
		}
		at := w.Time.Add(time.Duration([]int64{1, 30, 600, 5 * 3600, 3 * 86400}[eng.Mod(op.C, 5)]) * time.Second)
		p := voting.Proposal{Name: "upgrade", Author: s.V.Gov[eng.Mod(op.D, len(s.V.Gov))], Type: voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE,
			Args: &voting.Proposal_SoftwareUpgrade{SoftwareUpgrade: &voting.SoftwareUpgradeArgs{Name: name, Time: &at, Info: "i"}}}
		ms := []sdk.Msg{&voting.MsgPropose{Proposal: p}}
		for _, g := range s.V.Gov {
			if canon(g) != canon(p.Author) {
				ms = append(ms, &voting.MsgVote{Voter: g, Agree: true})
			}
		}
		w.SendAs(op, ms...)
	}
	var want, got world.Raw
	var name string
	w.BeforeBegin = append(w.BeforeBegin, func(req abci.RequestBeginBlock) {
		want, got, name = nil, nil, ""
		ctx := w.Scratch()
		plan, ok := w.App.GetUpgradeKeeper().GetUpgradePlan(ctx)
		if !ok {
			return
		}
		if req.Header.Time.Before(plan.Time) {
			if has[plan.Name] && eng.Mod(req.Header.Height, 3) == 0 {
				// Somebody hurries with the new binary.
				a := w.App
				w.Restart(world.NewApp(w.DB, w.EC))
				world.Outdate(w.App, plan.Name)
				if why := stops(w, req); !strings.Contains(why, "BEFORE TRIGGER") {
					eng.Fail("upgrade/early", "the upgrade %s is planned for %s, a node of the new version works at %s (%s)", plan.Name, plan.Time, req.Header.Time, why)
				}
				w.Restart(a)
				st.Count("a new binary stops before its time")
			}
			st.Count("an upgrade lies ahead")
			return
		}
		// The old binary stops, and does so again.
		for i := 0; i < 2; i++ {
			why := stops(w, req)
			if !strings.Contains(why, "UPGRADE") || !strings.Contains(why, plan.Name) {
				eng.Fail("upgrade/late", "the upgrade %s is planned for %s, a node of the old version works at %s (%s)", plan.Name, plan.Time, req.Header.Time, why)
			}
			w.Restart(world.NewApp(w.DB, w.EC))
			world.Outdate(w.App)
		}
		st.Count("an old binary stops")
		f := migrations[plan.Name]
		w.Restart(world.NewApp(w.DB, w.EC))
		world.Outdate(w.App, plan.Name)
		if f == nil {
			f = nothing
			w.App.GetUpgradeKeeper().SetUpgradeHandler(plan.Name, func(sdk.Context, upgradetypes.Plan) {})
		}
		ctx = w.Scratch()
		w.App.GetUpgradeKeeper().ClearUpgradePlan(ctx)
		f(w, ctx)
		name = plan.Name
		w.App.BeginBlocker(ctx.WithEventManager(sdk.NewEventManager()), req)
		want = world.RawOf(w.App, ctx, upgradetypes.StoreKey)
		done[name] = req.Header.Height
	})
	w.AfterBegin = append([]func(abci.RequestBeginBlock, abci.ResponseBeginBlock){func(req abci.RequestBeginBlock, _ abci.ResponseBeginBlock) {
		if want == nil {
			return
		}
		got = world.RawOf(w.App, w.Ctx(), upgradetypes.StoreKey)
		if ds := want.Diff(got); len(ds) != 0 {
			eng.Fail("upgrade/effect", "the upgrade %s at height %d: %v", name, req.Header.Height, ds)
		}
		if plan, ok := w.App.GetUpgradeKeeper().GetUpgradePlan(w.Ctx()); ok {
			eng.Fail("upgrade/again", "the upgrade %s is carried out at height %d, but %s is still planned", name, req.Header.Height, plan.Name)
		}
		world.Outdate(w.App)
		st.Count("upgraded")
		st.Count("upgraded to " + name)
		if len(done) > 1 {
			st.Count("upgraded more than once")
		}
		st.NonTrivial = true
	}}, w.AfterBegin...)
	w.AfterCommit = append(w.AfterCommit, func() {
		if e, g := fmt.Sprint(done), fmt.Sprint(doneOf()); e != g {
			eng.Fail("upgrade/done", "the upgrades that are over are %s, those that should be are %s", g, e)
		}
	})
}

func init() {
	ops := reweigh(eng.W{K: "upgrade", N: 14}, eng.W{K: "propose", N: 2}, eng.W{K: "vote", N: 8}, eng.W{K: "next", N: 45})
	eng.Register(&eng.Property{
		ID: "G06",
		Rule: "histories in which the government decides on software upgrades; at the time of the upgrade the old binary has to stop, the new one has to do what the upgrade is for and nothing else, " +
			"and the chain goes on; non-trivial: an upgrade is carried out",
		Assumptions: []string{
			"an old binary is the current one without the upgrade's handler, a future upgrade's handler does nothing",
			"upgrades 2.1.0, 2.2.1, 2.3.2 and 2.4.3 repaired the damage of their day and are not carried out",
		},
		Suites: []*eng.Suite{{
			Name: "upgrades",
			Gen: chainGen(40, 110, ops, func(r *eng.R, p map[string]int64) {
				smallTweak(r, p)
				p["gov"] = r.Range(1, 3)
				p["leftover"] = r.Of(0, 7, r.Range(0, 7))
			}),
			Run: chainRun(func(w *world.World, st *eng.Stats) {
				attachG06(w, st)
				w.AfterCommit = append(w.AfterCommit, func() {
					checkSupply(w.Snap(), "after the block")
					checkForest(w.Snap(), "after the block")
				})
			}),
			Quick: 160, Thorough: 6000,
		}},
	})
}
