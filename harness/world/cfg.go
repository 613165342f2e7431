// Package world drives the real application through ABCI the way a consensus engine does: a generated genesis, blocks
// with signed transactions, absent signers, evidence and time jumps, and a real Tendermint validator set that takes the
// validator updates with the protocol's delay.
package world

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
)

// User is somebody with a key. The first Cfg.N of them exist at genesis, the others are strangers.
type User struct {
	Idx  int
	Priv cryptotypes.PrivKey
	Addr sdk.AccAddress
	B    string // bech32
}

const (
	NUsers    = 200 // keys available
	NConsKeys = 160
)

var (
	users    []User
	consKeys []cryptotypes.PrivKey
	StartT   = time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC)
	ChainID  = "verif-1"
)

func init() {
	for i := 0; i < NUsers; i++ {
		p := secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprintf("verif user %d", i)))
		a := sdk.AccAddress(p.PubKey().Address())
		users = append(users, User{i, p, a, a.String()})
	}
	for i := 0; i < NConsKeys; i++ {
		consKeys = append(consKeys, ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprintf("verif validator %d", i))))
	}
}

func ConsPub(i int) cryptotypes.PubKey { return consKeys[i%NConsKeys].PubKey() }
func ConsBech(i int) string {
	return sdk.MustBech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, ConsPub(i))
}

// Cfg describes a genesis.
type Cfg struct {
	N       int   // users at genesis
	Shape   int64 // form of the referral tree
	Seed    int64 // source of the users' details
	Day     time.Duration
	Vals    int // staff validators switched on at genesis
	Gov     int
	Company int // index of the company account (a top level account of its own)

	Bank       bank.Params
	Delegating delegating.Params
	Noding     noding.Params
	Profile    profile.Params
	Referral   referral.Params
	Voting     voting.Params
	Earning    earning.Params
}

// GenP draws the parameters of a genesis.
func GenP(r *eng.R) map[string]int64 {
	p := map[string]int64{
		"n": r.Range(8, 28), "shape": r.Range(0, 6), "seed": r.Int63n(1 << 30),
		"day": r.Of(0, 0, 1, 2, 3), "inactive": r.Of(0, 10, 30, 60), "vals": r.Range(1, 4), "gov": r.Range(1, 6),
		"fee": r.Of(0, 3, 3, 10, 100, 333), "maxfee": r.Of(0, 10_000_000, 10_000_000, 1000, 7), "split": r.Range(0, 7),
		"minsend": r.Of(0, 1, 1000), "dust": r.Of(0, 0, 1, 999, 1_000_000), "mindel": r.Of(1, 1000, 1_000_000),
		"revperiod": r.Of(1, 7, 14), "revburn": r.Of(0, 5, 33, 50), "experiod": r.Of(1, 1, 3, 7), "exburn": r.Of(0, 10, 17, 99),
		"table": r.Range(0, 3), "maxvals": r.Of(1, 2, 3, 5, 100), "lucky": r.Of(0, 1, 2, 3), "jail": r.Range(1, 4),
		"unjail": r.Of(1, 2, 5), "mstatus": r.Of(1, 1, 2, 3), "mself": r.Of(0, 1_000_000, 1_000_000_000),
		"mtotal": r.Of(0, 10_000_000_000), "slices": r.Range(0, 3), "trprice": r.Of(0, 1_000_000, 10_000_000),
		"rate": r.Of(100000, 100000, 1, 1000, 99991), "rated": r.Of(1, 1, 3, 7), "subprice": r.Of(1990, 1, 777), "vpnprice": r.Of(10, 1, 3),
		"stprice": r.Of(10, 1, 13), "basevpn": r.Of(7, 1), "basest": r.Of(5, 1), "rename": r.Of(1_000_000, 0),
		"votp": r.Of(1, 18, 30), "pollp": r.Of(1, 18, 30), "rich": r.Range(0, 3),
		"busy": r.Of(0, 0, 20, 50), "vrec": r.Of(0, 0, r.Range(1, 1<<16), r.Range(1, 1<<16)),
	}
	return p
}

var Splits = [][2]util.Fraction{
	{util.FractionInt(1), util.FractionInt(0)},
	{util.FractionInt(0), util.FractionInt(1)},
	{util.FractionInt(0), util.FractionInt(0)},
	{util.Percent(50), util.Percent(50)},
	{util.NewFraction(1, 3), util.NewFraction(1, 3)},
	{util.NewFraction(2, 7), util.NewFraction(3, 5)},
	{util.Percent(25), util.Percent(20)},
	{util.NewFraction(1, 9), util.NewFraction(3, 11)},
}

func pct(x ...int64) (r []util.Fraction) {
	for _, y := range x {
		r = append(r, util.Percent(y))
	}
	return
}

func Table(i int64) []delegating.PercentageListRange {
	fr := util.NewFraction
	switch i % 5 {
	case 4:
		return []delegating.PercentageListRange{{Start: 0, PercentList: pct(0, 0, 0, 0, 0)}}
	case 0:
		return []delegating.PercentageListRange{
			{Start: 0, PercentList: pct(21, 0, 0, 0, 0)},
			{Start: 1_000_000_000, PercentList: pct(24, 0, 0, 0, 0)},
			{Start: 10_000_000_000, PercentList: pct(27, 1, 1, 1, 1)},
			{Start: 100_000_000_000, PercentList: pct(30, 2, 2, 2, 2)},
		}
	case 1:
		return []delegating.PercentageListRange{
			{Start: 0, PercentList: []util.Fraction{fr(1, 7), fr(1, 11), fr(1, 13), fr(1, 17), fr(1, 19)}},
			{Start: 50_000_000, PercentList: []util.Fraction{fr(2, 7), fr(2, 11), fr(2, 13), fr(2, 17), fr(2, 19)}},
		}
	case 2:
		return []delegating.PercentageListRange{
			{Start: 0, PercentList: pct(0, 0, 0, 0, 0)},
			{Start: 1_000_000_000, PercentList: pct(10, 20, 30, 40, 50)},
		}
	default:
		return []delegating.PercentageListRange{
			{Start: 0, PercentList: pct(0, 5, 7, 11, 13)},
			{Start: 2_000_000_000, PercentList: pct(3, 0, 1, 0, 2)},
		}
	}
}

func Slices(i int64) noding.Distribution {
	mk := func(l int64, xs ...int64) noding.Distribution {
		d := noding.Distribution{LuckiesVotingPower: l}
		for j := 0; j < len(xs); j += 2 {
			d.Slices = append(d.Slices, noding.Distribution_Slice{Part: util.Percent(xs[j]), VotingPower: xs[j+1]})
		}
		return d
	}
	switch i % 4 {
	case 0:
		return mk(10, 15, 15, 85, 10)
	case 1:
		return mk(1, 100, 7)
	case 2:
		return mk(3, 10, 50, 20, 30, 30, 20, 40, 5)
	default:
		return mk(2, 50, 100, 50, 1)
	}
}

var Days = []time.Duration{24 * time.Hour, time.Hour, 10 * time.Minute, time.Minute}

// MakeCfg is the genesis configuration for a set of case parameters.
func MakeCfg(p map[string]int64) *Cfg {
	get := func(k string, lo, hi int64) int64 {
		x := p[k]
		if x < lo {
			x = lo
		}
		if x > hi {
			x = hi
		}
		return x
	}
	c := &Cfg{
		N: int(get("n", 4, 160)), Shape: get("shape", 0, 6), Seed: p["seed"],
		Day: Days[get("day", 0, int64(len(Days)-1))],
	}
	c.Vals = int(get("vals", 1, int64(c.N-2)))
	c.Gov = int(get("gov", 1, int64(c.N-1)))
	c.Company = c.N - 1
	sp := Splits[get("split", 0, int64(len(Splits)-1))]
	c.Bank = bank.Params{
		MinSend: get("minsend", 0, 1<<40), DustDelegation: get("dust", 0, 1<<40),
		TransactionFee: util.Permille(get("fee", 0, 999)), MaxTransactionFee: get("maxfee", 0, 1<<50),
		TransactionFeeSplitRatios: bank.TransactionFeeSplitRatios{ForProposer: sp[0], ForCompany: sp[1]},
		CompanyAccount:            users[c.Company].B,
	}
	if x := get("blocked", 0, int64(c.N)); x > 1 {
		c.Bank.BlockedSenders = []string{users[x-1].B}
	}
	c.Delegating = delegating.Params{
		MinDelegate:           get("mindel", 1, 1<<40),
		Revoke:                delegating.Revoke{Period: uint32(get("revperiod", 1, 60)), Burn: util.Percent(get("revburn", 0, 99))},
		ExpressRevoke:         delegating.Revoke{Period: uint32(get("experiod", 1, 60)), Burn: util.Percent(get("exburn", 0, 99))},
		AccruePercentageTable: Table(get("table", 0, 4)),
	}
	c.Noding = noding.Params{
		MaxValidators: uint32(get("maxvals", 1, 1000)), LotteryValidators: uint32(get("lucky", 0, 100)),
		JailAfter: uint32(get("jail", 1, 100)), UnjailAfter: uint32(get("unjail", 1, 1000)),
		MinCriteria: noding.MinCriteria{
			Status: referral.Status(get("mstatus", 1, 7)), SelfStake: uint64(get("mself", 0, 1<<60)), TotalStake: uint64(get("mtotal", 0, 1<<60)),
		},
		VotingPower: Slices(get("slices", 0, 3)),
	}
	if m := &c.Noding.MinCriteria; m.TotalStake < m.SelfStake {
		m.TotalStake = m.SelfStake
	}
	ops := []string{users[1].B, users[2].B}
	c.Profile = profile.Params{
		Creators: []string{users[0].B, users[1].B}, RenamePrice: get("rename", 0, 1<<40), CardMagic: 112233592347,
		StorageSigners: append([]string(nil), ops...), VpnSigners: []string{users[2].B, users[3].B}, TokenRateSigners: []string{users[3].B, users[0].B},
		TokenRate: util.NewFraction(get("rate", 1, 1<<40), get("rated", 1, 1<<20)), SubscriptionPrice: uint32(get("subprice", 1, 1<<30)),
		VpnGbPrice: uint32(get("vpnprice", 1, 1<<20)), StorageGbPrice: uint32(get("stprice", 1, 1<<20)),
		BaseVpnGb: uint32(get("basevpn", 1, 1<<20)), BaseStorageGb: uint32(get("basest", 1, 1<<20)),
	}
	c.Referral = referral.Params{
		CompanyAccounts: referral.CompanyAccounts{ForSubscription: users[c.Company].B},
		TransitionPrice: uint64(get("trprice", 0, 1<<50)),
	}
	c.Voting = voting.Params{VotingPeriod: int32(get("votp", 1, 1000)), PollPeriod: int32(get("pollp", 1, 1000))}
	c.Earning = earning.Params{Signers: []string{users[0].B, users[2].B}}
	return c
}

// Parents gives the referrer of every genesis user, -1 for a top level account.
func (c *Cfg) Parents() []int {
	r := eng.NewR(c.Seed ^ 0x7ee)
	ps := make([]int, c.N)
	for i := range ps {
		switch {
		case i == 0 || i == c.Company:
			ps[i] = -1
		default:
			switch c.Shape {
			case 0: // chain
				ps[i] = i - 1
			case 1: // star with a short stem
				ps[i] = r.Intn(min(i, 3))
			case 2: // binary
				ps[i] = (i - 1) / 2
			case 3: // random
				ps[i] = r.Intn(i)
			case 4: // mostly long
				ps[i] = i - 1 - r.Intn(min(i, 3))
			case 6: // ternary
				ps[i] = (i - 1) / 3
			default: // ternary with several roots
				if i < 3 {
					ps[i] = -1
				} else {
					ps[i] = i/3 - 1 + r.Intn(2)
					if ps[i] < 0 {
						ps[i] = 0
					}
				}
			}
		}
	}
	return ps
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Genesis builds the application state. Everybody has an account and a profile.
func (c *Cfg) Genesis(ec app.EncodingConfig, p map[string]int64) map[string]json.RawMessage {
	r := eng.NewR(c.Seed)
	var (
		accs     auth.GenesisAccounts
		bals     []bank.Balance
		profs    []profile.GenesisProfile
		tasks    []schedule.Task
		refs     []referral.Refs
		top      []string
		compr    []referral.Compression
		dels     []delegating.Account
		children = map[int][]int{}
	)
	month := 30 * c.Day
	for i, pa := range c.Parents() {
		if pa < 0 {
			top = append(top, users[i].B)
		} else {
			children[pa] = append(children[pa], i)
		}
	}
	var order []int
	for i := 0; i < c.N; i++ {
		if c.Parents()[i] < 0 {
			order = append(order, i)
		}
	}
	for k := 0; k < len(order); k++ {
		i := order[k]
		if len(children[i]) > 0 {
			rf := referral.Refs{Referrer: users[i].B}
			for _, ch := range children[i] {
				rf.Referrals = append(rf.Referrals, users[ch].B)
				order = append(order, ch)
			}
			refs = append(refs, rf)
		}
	}
	for i := 0; i < c.N; i++ {
		u := users[i]
		accs = append(accs, auth.NewBaseAccount(u.Addr, nil, uint64(i), 0))
		var liquid, del int64
		switch p["rich"] {
		case 0:
			liquid, del = r.Magnitude(10), r.Magnitude(10)
		case 1:
			liquid, del = r.Magnitude(12)+2_000_000_000, r.Of(0, 0, r.Magnitude(13))
		case 2:
			liquid, del = 1_000_000_000_000, r.Of(0, 1_000_000_000, 10_000_000_000, 30_000_000_000, 300_000_000_000)
		case 4: // Around the stakes the statuses require
			liquid, del = 1_000_000_000_000, r.Of(500_000_000, 2_000_000_000, 5_000_000_000, 19_000_000_000)
		default:
			liquid, del = 50_000_000_000+r.Magnitude(11), r.Range(0, 60_000_000_000)
		}
		if r.Chance(15) || int64(r.Intn(100)) < p["nodel"] {
			del = 0
		}
		if i == 0 {
			liquid += 100_000_000_000
		}
		var cs []sdk.Coin
		cs = append(cs, sdk.NewInt64Coin(util.ConfigMainDenom, liquid), sdk.NewInt64Coin(util.ConfigDelegatedDenom, del))
		bals = append(bals, bank.Balance{Address: u.B, Coins: sdk.NewCoins(cs...)})
		if del > c.Bank.DustDelegation {
			// In the middle of an accrue period
			t := StartT.Add(time.Duration(1 + r.Int63n(int64(c.Day))))
			dels = append(dels, delegating.Account{Address: u.B, NextAccrue: &t})
			tasks = append(tasks, schedule.Task{Time: t, HandlerName: delegating.AccrueHookName, Data: u.Addr})
		}
		pr := profile.Profile{
			AutoPay: r.Chance(40), Noding: r.Bool(), Storage: r.Bool(), Validator: r.Bool(), Vpn: r.Bool(),
			Nickname: fmt.Sprintf("User%d", i),
		}
		if r.Chance(15) {
			pr.Nickname = ""
		}
		if int64(r.Intn(100)) >= p["inactive"] {
			t := StartT.Add(time.Duration(1 + r.Int63n(int64(month))))
			pr.ActiveUntil = &t
			tasks = append(tasks, schedule.Task{Time: t, HandlerName: profile.RefreshHookName, Data: u.Addr})
			pr.StorageLimit = uint64(int64(c.Profile.BaseStorageGb)+r.Of(0, 0, 5, 100)) * util.GBSize
			pr.VpnLimit = uint64(int64(c.Profile.BaseVpnGb)+r.Of(0, 0, 5, 100)) * util.GBSize
			pr.VpnCurrent = uint64(r.Int63n(int64(pr.VpnLimit) + 1))
			pr.StorageCurrent = uint64(r.Int63n(int64(pr.StorageLimit) + 1))
		} else if pa := c.Parents()[i]; pa >= 0 {
			t := StartT.Add(time.Duration(1 + r.Int63n(int64(2*month))))
			compr = append(compr, referral.Compression{Account: u.B, Time: t})
			tasks = append(tasks, schedule.Task{Time: t, HandlerName: "referral/compression", Data: []byte(u.B)})
		}
		if r.Chance(20) {
			t := StartT.Add(time.Duration(1 + r.Int63n(int64(month))))
			pr.ImLimitExtra = uint64(r.Range(1, 50))
			pr.ExtraImUntil = &t
			pr.AutoPayImExtra = r.Bool()
			tasks = append(tasks, schedule.Task{Time: t, HandlerName: profile.RefreshImHookName, Data: u.Addr})
		}
		profs = append(profs, profile.GenesisProfile{Address: u.B, Profile: pr})
	}
	var vals []noding.Validator
	for i := 0; i < c.Vals; i++ {
		v := noding.Validator{Account: users[i].B, PubKey: ConsBech(i), Staff: true}
		if x := p["vrec"]; x != 0 { // it has been validating for a while
			x = x*7919 + int64(i)*104729
			v.ProposedCount, v.Strokes, v.JailCount = x%50, x/50%4, x/200%3
			v.OkBlocksInRow = 100*(1+x/600%9) - x/5400%12
		}
		vals = append(vals, v)
	}
	var gov []string
	for i := 0; i < c.Gov; i++ {
		gov = append(gov, users[i].B)
	}
	c.Referral.CompanyAccounts.ForSubscription = users[c.Company].B

	for i, n := range []string{earning.ModuleName, earning.VpnCollectorName, earning.StorageCollectorName} {
		if p["leftover"]>>i&1 == 1 { // coins of the times when there was something to be put aside
			bals = append(bals, bank.Balance{Address: ModuleAddr(n), Coins: sdk.NewCoins(sdk.NewInt64Coin(util.ConfigMainDenom, 1_000_003*int64(i+1)))})
		}
	}

	st := map[string]json.RawMessage{}
	m := ec.Marshaler
	st[schedule.ModuleName] = m.MustMarshalJSON(&schedule.GenesisState{Params: schedule.Params{DayNanos: uint64(c.Day)}, Tasks: tasks})
	ap := auth.DefaultParams()
	st[auth.ModuleName] = m.MustMarshalJSON(auth.NewGenesisState(ap, accs))
	st[referral.ModuleName] = m.MustMarshalJSON(&referral.GenesisState{
		Params: c.Referral, TopLevelAccounts: top, OtherAccounts: refs, Compressions: compr,
	})
	st[bank.ModuleName] = m.MustMarshalJSON(&bank.GenesisState{Params: c.Bank, Balances: bals})
	st[profile.ModuleName] = m.MustMarshalJSON(&profile.GenesisState{Params: c.Profile, Profiles: profs})
	st[delegating.ModuleName] = m.MustMarshalJSON(&delegating.GenesisState{Params: c.Delegating, Accounts: dels})
	st[noding.ModuleName] = m.MustMarshalJSON(&noding.GenesisState{Params: c.Noding, Active: vals})
	st[voting.ModuleName] = m.MustMarshalJSON(&voting.GenesisState{Params: c.Voting, Government: gov})
	st[earning.ModuleName] = m.MustMarshalJSON(&earning.GenesisState{Params: c.Earning})
	return st
}
