package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/gogo/protobuf/proto"
	"github.com/spf13/cobra"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"gopkg.in/yaml.v3"

	abci "github.com/tendermint/tendermint/abci/types"
	tmbytes "github.com/tendermint/tendermint/libs/bytes"
	rpcclient "github.com/tendermint/tendermint/rpc/client"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tm "github.com/tendermint/tendermint/types"

	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/client/flags"
	"github.com/cosmos/cosmos-sdk/crypto/hd"
	"github.com/cosmos/cosmos-sdk/crypto/keyring"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
	bankcli "github.com/arterynetwork/artr/x/bank/client/cli"
	bank "github.com/arterynetwork/artr/x/bank/types"
	delegating "github.com/arterynetwork/artr/x/delegating/types"
	earning "github.com/arterynetwork/artr/x/earning/types"
	noding "github.com/arterynetwork/artr/x/noding/types"
	profile "github.com/arterynetwork/artr/x/profile/types"
	referral "github.com/arterynetwork/artr/x/referral/types"
	schedule "github.com/arterynetwork/artr/x/schedule/types"
	voting "github.com/arterynetwork/artr/x/voting/types"

	"verif/harness/eng"
	"verif/harness/world"
)

// ------------------------------------------------------------------------------------------------------ the machinery

// cliNode is the node a command line talks to: the application of the world, without the network between.
type cliNode struct {
	rpcclient.Client
	w    *world.World
	txs  [][]byte
	mode string
}

func (n *cliNode) ABCIQueryWithOptions(_ context.Context, path string, data tmbytes.HexBytes, o rpcclient.ABCIQueryOptions) (*ctypes.ResultABCIQuery, error) {
	return &ctypes.ResultABCIQuery{Response: n.w.App.Query(abci.RequestQuery{Path: path, Data: data, Height: o.Height, Prove: o.Prove})}, nil
}

func (n *cliNode) ABCIQuery(c context.Context, path string, data tmbytes.HexBytes) (*ctypes.ResultABCIQuery, error) {
	return n.ABCIQueryWithOptions(c, path, data, rpcclient.ABCIQueryOptions{})
}

func (n *cliNode) BroadcastTxSync(_ context.Context, tx tm.Tx) (*ctypes.ResultBroadcastTx, error) {
	n.txs, n.mode = append(n.txs, tx), "sync"
	return &ctypes.ResultBroadcastTx{Hash: tx.Hash()}, nil
}

func (n *cliNode) BroadcastTxAsync(_ context.Context, tx tm.Tx) (*ctypes.ResultBroadcastTx, error) {
	n.txs, n.mode = append(n.txs, tx), "async"
	return &ctypes.ResultBroadcastTx{Hash: tx.Hash()}, nil
}

func (n *cliNode) BroadcastTxCommit(_ context.Context, tx tm.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	n.txs, n.mode = append(n.txs, tx), "block"
	return &ctypes.ResultBroadcastTxCommit{Hash: tx.Hash()}, nil
}

// ring has the keys of the users under their names.
type ring struct {
	keyring.Keyring
	n int
}

type ringKey struct{ i int }

func keyName(i int) string { return fmt.Sprintf("key%d", i) }

func (k ringKey) GetType() keyring.KeyType          { return keyring.TypeLocal }
func (k ringKey) GetName() string                   { return keyName(k.i) }
func (k ringKey) GetPubKey() cryptotypes.PubKey     { return world.U(k.i).Priv.PubKey() }
func (k ringKey) GetAddress() sdk.AccAddress        { return world.U(k.i).Addr }
func (k ringKey) GetPath() (*hd.BIP44Params, error) { return nil, fmt.Errorf("no path") }
func (k ringKey) GetAlgo() hd.PubKeyType            { return hd.Secp256k1Type }
func (r ring) SupportedAlgorithms() (a, b keyring.SigningAlgoList) {
	return keyring.SigningAlgoList{hd.Secp256k1}, nil
}

func (r ring) List() (l []keyring.Info, err error) {
	for i := 0; i < r.n; i++ {
		l = append(l, ringKey{i})
	}
	return
}

func (r ring) Key(uid string) (keyring.Info, error) {
	for i := 0; i < r.n; i++ {
		if keyName(i) == uid {
			return ringKey{i}, nil
		}
	}
	return nil, fmt.Errorf("%s: key not found", uid)
}

func (r ring) KeyByAddress(a sdk.Address) (keyring.Info, error) {
	for i := 0; i < r.n; i++ {
		if world.U(i).Addr.Equals(a) {
			return ringKey{i}, nil
		}
	}
	return nil, fmt.Errorf("key not found")
}

func (r ring) Sign(uid string, msg []byte) ([]byte, cryptotypes.PubKey, error) {
	k, err := r.Key(uid)
	if err != nil {
		return nil, nil, err
	}
	p := world.U(k.(ringKey).i).Priv
	s, err := p.Sign(msg)
	return s, p.PubKey(), err
}

func (r ring) SignByAddress(a sdk.Address, msg []byte) ([]byte, cryptotypes.PubKey, error) {
	k, err := r.KeyByAddress(a)
	if err != nil {
		return nil, nil, err
	}
	return r.Sign(k.GetName(), msg)
}

// commandLine runs the command line as the artrd binary puts it together.
func commandLine(w *world.World, node *cliNode, args []string) (out string, err error) {
	var buf bytes.Buffer
	ctx := w.EC.BuildClientContext().WithInput(strings.NewReader("")).WithOutput(&buf).
		WithClient(node).WithKeyring(ring{n: world.NUsers}).WithChainID(world.ChainID).WithHomeDir(os.TempDir())
	root := &cobra.Command{Use: "artrd", SilenceUsage: true, SilenceErrors: true,
		PersistentPreRunE: func(cmd *cobra.Command, _ []string) error {
			viper.Reset()
			if err := viper.BindPFlags(cmd.Flags()); err != nil {
				return err
			}
			return client.SetCmdClientContextHandler(ctx, cmd)
		},
	}
	root.PersistentFlags().String(flags.FlagChainID, "", "")
	tx := &cobra.Command{Use: "tx", RunE: client.ValidateCmd}
	tx.AddCommand(bankcli.CmdSend(), bankcli.CmdBurn())
	app.ModuleBasics.AddTxCommands(tx)
	q := &cobra.Command{Use: "query", RunE: client.ValidateCmd}
	app.ModuleBasics.AddQueryCommands(q)
	root.AddCommand(tx, q)
	root.SetArgs(args)
	root.SetOut(ioutil.Discard)
	root.SetErr(ioutil.Discard)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(*eng.Violation); ok {
				panic(p)
			}
			eng.Fail("cli-panic:"+strings.Join(args[:3], " "), "artrd %q: panic: %v", args, p)
		}
	}()
	c := client.Context{}
	err = root.ExecuteContext(context.WithValue(context.Background(), client.ClientContextKey, &c))
	return buf.String(), err
}

// ---------------------------------------------------------------------------------------------------- C01: tx commands

// line is a command line under construction.
type line struct {
	w     *world.World
	r     *eng.R
	keys  bool // the signer may be given by a key name
	bad   bool // must be refused
	loose bool // may be refused, although it does have a meaning
	from  string
}

func (l *line) signer() string {
	i := l.r.Intn(l.w.Cfg.N + world.Strangers)
	l.from = world.U(i).B
	if l.r.Chance(4) {
		l.bad = true
		return []string{"nokey", "", "artr1", world.U(i).B[:len(world.U(i).B)-1], "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", "key"}[l.r.Intn(6)]
	}
	if l.keys && l.r.Chance(50) {
		return keyName(i)
	}
	return l.from
}

// addr is an address that goes to the message as it is.
func (l *line) addr() string {
	if l.r.Chance(6) {
		l.loose = true
		return []string{"artr1", "x", "key1", world.U(0).B + "q", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a"}[l.r.Intn(5)]
	}
	return world.U(l.r.Intn(world.NUsers)).B
}

var badNumbers = []string{"12abc", "1.5", "1e6", "1,000", "5uartr", "abc", "0xzz", "1 2", "9%", "+-3", "٣", "99999999999999999999999", "0b12", "1__0"}

// uint is a number that has to fit.
func (l *line) uint(bits uint) (string, uint64) {
	max := uint64(1)<<(bits-1)<<1 - 1
	if bits == 64 {
		max = 1<<64 - 1
	}
	if l.r.Chance(8) {
		l.bad = true
		if bits < 64 && l.r.Bool() {
			return fmt.Sprint(max + 1 + uint64(l.r.Intn(1000))), 0
		}
		if l.r.Chance(15) {
			return fmt.Sprintf("-%d", 1+l.r.Intn(50)), 0
		}
		return badNumbers[l.r.Intn(len(badNumbers))], 0
	}
	var n uint64
	switch l.r.Intn(6) {
	case 0:
		n = uint64(l.r.Intn(10))
	case 1:
		n = max - uint64(l.r.Intn(3))
	case 2:
		n = uint64(l.r.Raw()) & max
	case 3:
		n = uint64(1) << uint(l.r.Intn(int(bits)))
	default:
		n = uint64(l.r.Intn(5000000000)) & max
	}
	if l.r.Chance(5) {
		l.loose = true
		return "0x" + strconv.FormatUint(n, 16), n
	}
	return strconv.FormatUint(n, 10), n
}

func (l *line) int() (string, int64) {
	if l.r.Chance(10) {
		n := -int64(l.r.Intn(1000000))
		return strconv.FormatInt(n, 10), n
	}
	s, n := l.uint(63)
	return s, int64(n)
}

func (l *line) fraction() (string, util.Fraction) {
	if l.r.Chance(7) {
		l.bad = true
		return []string{"1/0", "x", "1.5%", "0.3", "15 %", "%", "/3", "1/", "1/-3", "1//2", "15%%", "15%/2", "1/2/3", "5/00"}[l.r.Intn(14)], util.Fraction{}
	}
	n, d := int64(l.r.Intn(120)), int64(1+l.r.Intn(120))
	if l.r.Chance(4) {
		n = -n
	}
	switch l.r.Intn(8) {
	case 0:
		return fmt.Sprint(n), util.NewFraction(n, 1)
	case 1, 2:
		return fmt.Sprintf("%d/%d", n, d), util.NewFraction(n, d)
	case 3:
		return fmt.Sprintf("%03d%%", n), util.Percent(n)
	case 4:
		return fmt.Sprintf("0%d/0%d", d, d), util.NewFraction(d, d)
	}
	return fmt.Sprintf("%d%%", n), util.Percent(n)
}

func (l *line) when() (string, *time.Time) {
	if l.r.Chance(8) {
		l.bad = true
		return []string{"yesterday", "2021-13-01T00:00:00Z", "2021-01-01", "12:00", "1600000000", "2021-02-30T00:00:00Z", "2021-01-01T25:00:00Z"}[l.r.Intn(7)], nil
	}
	t := time.Unix(int64(l.r.Intn(4000000000)), 0).UTC()
	switch l.r.Intn(4) {
	case 0:
		t = t.Add(time.Duration(l.r.Intn(1000000000)))
		return t.Format(time.RFC3339Nano), &t
	case 1:
		return t.In(time.FixedZone("", (l.r.Intn(47)-23)*1800)).Format(time.RFC3339), &t
	}
	return t.Format(time.RFC3339), &t
}

func (l *line) text() string {
	return []string{"a name", "x", "", "Ünïcode", "quote\"s'", "two\nlines", "<b>", strings.Repeat("long ", 30), "100%", "a:b", "-dash", "--flag"}[l.r.Intn(12)]
}

func (l *line) yes(val ...string) (string, bool) {
	switch l.r.Intn(12) {
	case 0:
		l.bad = true
		return []string{"maybe", "true", "1", "", "yess", "nope", "on"}[l.r.Intn(7)], false
	case 1:
		l.loose = true
		return strings.ToUpper(val[0]), true
	}
	if l.r.Bool() {
		return val[0], true
	}
	return val[1], false
}

type txCmd struct {
	mod   string // "" for those right under tx
	names []string
	gen   func(l *line) (args []string, m sdk.Msg)
}

// prop is a proposal whose own arguments come first, then its name and its author.
func prop(t voting.ProposalType, name string, aliases []string, gen func(l *line, p *voting.Proposal) []string) txCmd {
	return txCmd{"voting", append([]string{name, strings.Replace(name, "-", "_", -1)}, aliases...), func(l *line) ([]string, sdk.Msg) {
		p := voting.Proposal{Type: t, Name: l.text()}
		args := append(gen(l, &p), p.Name, l.signer())
		p.Author = l.from
		return args, &voting.MsgPropose{Proposal: p}
	}}
}

func addrArgs(l *line, p *voting.Proposal) []string {
	a := l.addr()
	p.Args = &voting.Proposal_Address{Address: &voting.AddressArgs{Address: a}}
	return []string{a}
}

func priceArgs(l *line, p *voting.Proposal) []string {
	s, n := l.uint(32)
	p.Args = &voting.Proposal_Price{Price: &voting.PriceArgs{Price: uint32(n)}}
	return []string{s}
}

func countArgs(l *line, p *voting.Proposal) []string {
	s, n := l.uint(32)
	p.Args = &voting.Proposal_Count{Count: &voting.CountArgs{Count: uint32(n)}}
	return []string{s}
}

func amountArgs(l *line, p *voting.Proposal) []string {
	s, n := l.int()
	p.Args = &voting.Proposal_MinAmount{MinAmount: &voting.MinAmountArgs{MinAmount: n}}
	return []string{s}
}

func noArgs(*line, *voting.Proposal) []string { return nil }

func revokeArgs(l *line, p *voting.Proposal) []string {
	s, n := l.uint(32)
	f, q := l.fraction()
	p.Args = &voting.Proposal_Revoke{Revoke: &voting.RevokeArgs{Revoke: &delegating.Revoke{Period: uint32(n), Burn: q}}}
	return []string{s, f}
}

// amount32 is a command of the profile module that takes the signer and a number.
func amount32(names []string, m func(a string, n uint32) sdk.Msg) txCmd {
	return txCmd{"profile", names, func(l *line) ([]string, sdk.Msg) {
		s, n := l.uint(32)
		a := l.signer()
		return []string{a, s}, m(l.from, uint32(n))
	}}
}

func amount64(mod string, names []string, m func(a string, n uint64) sdk.Msg) txCmd {
	return txCmd{mod, names, func(l *line) ([]string, sdk.Msg) {
		s, n := l.uint(64)
		a := l.signer()
		return []string{a, s}, m(l.from, n)
	}}
}

func traffic(names []string, m func(a, b string, n uint64) sdk.Msg) txCmd {
	return txCmd{"profile", names, func(l *line) ([]string, sdk.Msg) {
		s, n := l.uint(64)
		a, b := l.signer(), l.addr()
		return []string{a, b, s}, m(l.from, b, n)
	}}
}

// profileArgs are name:value pairs.
func profileArgs(l *line, im bool, set func(name, str string, yes bool)) (args []string) {
	for n := l.r.Intn(5); n > 0; n-- {
		names := []string{"nickname", "autopay", "noding", "storage", "validator", "vpn"}
		if im {
			names = append(names, "im_autopay")
		}
		if l.r.Chance(3) {
			l.bad = true
			args = append(args, []string{"viewer:yes", "vpn", "storage:yes:no", "nick name:x", "vpn=yes", ":", "auto_pay:yes"}[l.r.Intn(7)])
			continue
		}
		k := names[l.r.Intn(len(names))]
		if k == "nickname" {
			v := []string{"joe", "", "two words", "Ünïcode", "yes"}[l.r.Intn(5)]
			if strings.TrimSpace(v) == v {
				args = append(args, k+":"+v)
				set(k, v, false)
			}
			continue
		}
		s, v := l.yes("yes", "no")
		args = append(args, k+":"+s)
		set(k, "", v)
	}
	return
}

var txCmds = []txCmd{
	{"", []string{"send"}, func(l *line) ([]string, sdk.Msg) {
		a := l.signer()
		m := &bank.MsgSend{FromAddress: l.from, ToAddress: l.addr()}
		denoms := []string{"uartr", "udarb", "foo"}
		var xs []string
		cs := sdk.Coins{}
		for i := 1 + l.r.Intn(2); i > 0; i-- {
			n := sdk.NewInt(int64(1 + l.r.Intn(1000000000)))
			c := sdk.NewCoin(denoms[l.r.Intn(3)], n)
			if cs.AmountOf(c.Denom).IsPositive() {
				continue
			}
			xs, cs = append(xs, c.String()), cs.Add(c)
		}
		m.Amount = cs
		s := strings.Join(xs, ",")
		if l.r.Chance(10) {
			l.bad = true
			s = []string{"", "100", "uartr", "-5uartr", "1uartr,2uartr", "1.5.5uartr", "5 u artr", "5uartr;6foo", "0uartr"}[l.r.Intn(9)]
		}
		return []string{a, m.ToAddress, s}, m
	}},
	amount64("", []string{"burn"}, func(a string, n uint64) sdk.Msg { return &bank.MsgBurn{Account: a, Amount: n} }),
	amount64("delegating", []string{"delegate", "d"}, func(a string, n uint64) sdk.Msg {
		return &delegating.MsgDelegate{Address: a, MicroCoins: sdk.NewIntFromUint64(n)}
	}),
	amount64("delegating", []string{"revoke", "r", "u"}, func(a string, n uint64) sdk.Msg {
		return &delegating.MsgRevoke{Address: a, MicroCoins: sdk.NewIntFromUint64(n)}
	}),
	amount64("delegating", []string{"express-revoke", "er", "eu"}, func(a string, n uint64) sdk.Msg {
		return &delegating.MsgExpressRevoke{Address: a, MicroCoins: sdk.NewIntFromUint64(n)}
	}),
	{"earning", []string{"set"}, func(l *line) ([]string, sdk.Msg) {
		m := &earning.MsgSetMultiple{}
		args := []string{l.signer()}
		m.Signer = l.from
		for n := 1 + l.r.Intn(4); n > 0; n-- {
			e := earning.Earner{Account: world.U(l.r.Intn(world.NUsers)).B}
			var v, s string
			if l.r.Chance(70) {
				v, e.Vpn = l.when()
			}
			if l.r.Chance(70) {
				s, e.Storage = l.when()
			}
			x := e.Account + ";" + v + ";" + s
			if l.r.Chance(4) {
				l.bad = true
				x = []string{e.Account, e.Account + ";" + v, x + ";", e.Account + "," + v + "," + s, "artr1;" + v + ";" + s, ";" + v + ";" + s}[l.r.Intn(6)]
			}
			args = append(args, x)
			m.Earners = append(m.Earners, e)
		}
		return args, m
	}},
	{"noding", []string{"on"}, func(l *line) ([]string, sdk.Msg) {
		a := l.signer()
		k := world.ConsBech(l.r.Intn(world.NConsKeys))
		if l.r.Chance(10) {
			k = []string{"", "artrvalconspub1", l.from, "x"}[l.r.Intn(4)]
		}
		return []string{a, k}, &noding.MsgOn{Account: l.from, PubKey: k}
	}},
	{"noding", []string{"off"}, func(l *line) ([]string, sdk.Msg) {
		a := l.signer()
		return []string{a}, &noding.MsgOff{Account: l.from}
	}},
	{"noding", []string{"unjail"}, func(l *line) ([]string, sdk.Msg) {
		a := l.signer()
		return []string{a}, &noding.MsgUnjail{Account: l.from}
	}},
	{"profile", []string{"create_account", "create-account", "ca", "c"}, func(l *line) ([]string, sdk.Msg) {
		args := []string{l.signer(), l.addr(), l.addr()}
		m := &profile.MsgCreateAccount{Creator: l.from, Address: args[1], Referrer: args[2]}
		p := profile.Profile{}
		if as := profileArgs(l, false, func(k, s string, v bool) {
			switch k {
			case "nickname":
				p.Nickname = s
			case "autopay":
				p.AutoPay = v
			case "noding":
				p.Noding = v
			case "storage":
				p.Storage = v
			case "validator":
				p.Validator = v
			case "vpn":
				p.Vpn = v
			}
		}); len(as) > 0 {
			args = append(args, as...)
			m.Profile = &p
		}
		return args, m
	}},
	{"profile", []string{"update", "u"}, func(l *line) ([]string, sdk.Msg) {
		args := []string{l.signer()}
		m := &profile.MsgUpdateProfile{Address: l.from}
		field := map[string]profile.MsgUpdateProfile_Update_Field{
			"autopay": profile.MsgUpdateProfile_Update_FIELD_AUTO_PAY, "noding": profile.MsgUpdateProfile_Update_FIELD_NODING,
			"storage": profile.MsgUpdateProfile_Update_FIELD_STORAGE, "validator": profile.MsgUpdateProfile_Update_FIELD_VALIDATOR,
			"vpn": profile.MsgUpdateProfile_Update_FIELD_VPN, "im_autopay": profile.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY,
		}
		as := profileArgs(l, true, func(k, s string, v bool) {
			u := profile.MsgUpdateProfile_Update{Field: field[k], Value: &profile.MsgUpdateProfile_Update_Bool{Bool: v}}
			if k == "nickname" {
				u = profile.MsgUpdateProfile_Update{Field: profile.MsgUpdateProfile_Update_FIELD_NICKNAME, Value: &profile.MsgUpdateProfile_Update_String_{String_: s}}
			}
			m.Updates = append(m.Updates, u)
		})
		if len(as) == 0 {
			l.bad = true
		}
		return append(args, as...), m
	}},
	traffic([]string{"storage_current", "storage-current", "sc"}, func(a, b string, n uint64) sdk.Msg {
		return &profile.MsgSetStorageCurrent{Sender: a, Address: b, Value: n}
	}),
	traffic([]string{"vpn_current"}, func(a, b string, n uint64) sdk.Msg {
		return &profile.MsgSetVpnCurrent{Sender: a, Address: b, Value: n}
	}),
	amount32([]string{"pay_tariff", "pay", "pt", "p"}, func(a string, n uint32) sdk.Msg { return &profile.MsgPayTariff{Address: a, StorageAmount: n} }),
	amount32([]string{"buy_storage", "buy-storage", "bs"}, func(a string, n uint32) sdk.Msg { return &profile.MsgBuyStorage{Address: a, ExtraStorage: n} }),
	amount32([]string{"give_up_storage", "give-up-storage", "gs"}, func(a string, n uint32) sdk.Msg { return &profile.MsgGiveStorageUp{Address: a, Amount: n} }),
	amount32([]string{"buy_vpn", "buy-vpn", "bv"}, func(a string, n uint32) sdk.Msg { return &profile.MsgBuyVpn{Address: a, ExtraTraffic: n} }),
	amount32([]string{"buy-im-extra", "buy_im_extra", "bix"}, func(a string, n uint32) sdk.Msg { return &profile.MsgBuyImExtraStorage{Address: a, ExtraStorage: n} }),
	amount32([]string{"give-up-im-extra", "give_up_im_extra", "gix"}, func(a string, n uint32) sdk.Msg { return &profile.MsgGiveUpImExtra{Address: a, Amount: n} }),
	{"profile", []string{"prolong-im-extra", "prolong_im_extra", "pix"}, func(l *line) ([]string, sdk.Msg) {
		a := l.signer()
		return []string{a}, &profile.MsgProlongImExtra{Address: l.from}
	}},
	{"profile", []string{"set_rate", "set-rate", "sr"}, func(l *line) ([]string, sdk.Msg) {
		s, q := l.fraction()
		a := l.signer()
		return []string{a, s}, &profile.MsgSetRate{Sender: l.from, Value: q}
	}},
	{"referral", []string{"request-transition", "rt", "transit", "trans"}, func(l *line) ([]string, sdk.Msg) {
		args := []string{l.signer(), l.addr()}
		return args, &referral.MsgRequestTransition{Subject: l.from, Destination: args[1]}
	}},
	{"referral", []string{"resolve-transition", "resolve"}, func(l *line) ([]string, sdk.Msg) {
		args := []string{l.signer(), l.addr()}
		m := &referral.MsgResolveTransition{Signer: l.from, Subject: args[1]}
		if l.r.Chance(60) {
			s, yes := l.yes("yes", "no")
			args = append(args, s)
			m.Decline = !yes
		}
		return args, m
	}},

	prop(voting.PROPOSAL_TYPE_ENTER_PRICE, "set-subscription-price", []string{"ssp"}, priceArgs),
	prop(voting.PROPOSAL_TYPE_GOVERNMENT_ADD, "add-governor", []string{"ag"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_GOVERNMENT_REMOVE, "remove-governor", []string{"rg"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE, "set-vpn-gb-price", []string{"svgp"}, priceArgs),
	prop(voting.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE, "set-storage-gb-price", []string{"ssgp"}, priceArgs),
	prop(voting.PROPOSAL_TYPE_FREE_CREATOR_ADD, "add-free-creator", []string{"afc"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_FREE_CREATOR_REMOVE, "remove-free-creator", []string{"rfc"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_SOFTWARE_UPGRADE, "upgrade-software", []string{"upgrade", "us"}, func(l *line, p *voting.Proposal) []string {
		s, t := l.when()
		a := &voting.SoftwareUpgradeArgs{Name: l.text(), Time: t, Info: l.text()}
		p.Args = &voting.Proposal_SoftwareUpgrade{SoftwareUpgrade: a}
		return []string{a.Name, s, a.Info}
	}),
	prop(voting.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE, "cancel-upgrade-software", []string{"cancel-upgrade", "cus"}, noArgs),
	prop(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, "add-staff-validator", []string{"asv"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, "remove-staff-validator", []string{"rsv"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_EARNING_SIGNER_ADD, "add-earning-signer", []string{"aes"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE, "remove-earning-signer", []string{"res"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, "add-exchange-rate-signer", []string{"axrs"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE, "remove-exchange-rate-signer", []string{"rxrs"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_VPN_SIGNER_ADD, "add-vpn-current-signer", []string{"avcs"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_VPN_SIGNER_REMOVE, "remove-vpn-current-signer", []string{"rvcs"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_TRANSITION_PRICE, "set-account-transition-price", []string{"satp"}, priceArgs),
	prop(voting.PROPOSAL_TYPE_MIN_SEND, "set-min-send", []string{"sms"}, amountArgs),
	prop(voting.PROPOSAL_TYPE_MIN_DELEGATE, "set-min-delegate", []string{"smd"}, amountArgs),
	prop(voting.PROPOSAL_TYPE_MAX_VALIDATORS, "set-max-validators", []string{"smv"}, countArgs),
	prop(voting.PROPOSAL_TYPE_LUCKY_VALIDATORS, "set-lottery-validators", []string{"slv"}, countArgs),
	prop(voting.PROPOSAL_TYPE_GENERAL_AMNESTY, "general-amnesty", nil, noArgs),
	prop(voting.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA, "set-validator-min-criteria", []string{"svmc"}, func(l *line, p *voting.Proposal) []string {
		st := fmt.Sprint(l.r.Intn(10))
		n, _ := strconv.Atoi(st)
		if l.r.Chance(5) {
			l.bad = true
			st = []string{"leader", "-1", "999999999999", "1.0"}[l.r.Intn(4)]
		}
		s, sn := l.uint(64)
		t, tn := l.uint(64)
		p.Args = &voting.Proposal_MinCriteria{MinCriteria: &voting.MinCriteriaArgs{MinCriteria: &noding.MinCriteria{Status: referral.Status(n), SelfStake: sn, TotalStake: tn}}}
		return []string{st, s, t}
	}),
	prop(voting.PROPOSAL_TYPE_JAIL_AFTER, "set-jail-after", []string{"sja"}, countArgs),
	prop(voting.PROPOSAL_TYPE_DUST_DELEGATION, "set-dust-delegation", []string{"sdd"}, amountArgs),
	prop(voting.PROPOSAL_TYPE_VOTING_POWER, "set-voting-power", []string{"svp"}, func(l *line, p *voting.Proposal) (args []string) {
		d := &noding.Distribution{}
		left := int64(100)
		for n := 1 + l.r.Intn(3); n > 0; n-- {
			bad := l.bad
			f, q := l.fraction()
			if l.r.Chance(70) {
				l.bad = bad
				k := left
				if n > 1 {
					k = l.r.Range(0, left)
				}
				left -= k
				f, q = fmt.Sprintf("%d%%", k), util.Percent(k)
			}
			s, v := l.int()
			x := f + ":" + s
			if l.r.Chance(3) {
				l.bad = true
				x = []string{f, s, f + ":" + s + ":" + s, ":"}[l.r.Intn(4)]
			}
			d.Slices = append(d.Slices, noding.Distribution_Slice{Part: q, VotingPower: v})
			args = append(args, x)
		}
		s, v := l.int()
		d.LuckiesVotingPower = v
		p.Args = &voting.Proposal_VotingPower{VotingPower: d}
		return append(args, s)
	}),
	prop(voting.PROPOSAL_TYPE_TRANSACTION_FEE, "set-transaction-fee", []string{"stf"}, func(l *line, p *voting.Proposal) []string {
		s, q := l.fraction()
		p.Args = &voting.Proposal_Portion{Portion: &voting.PortionArgs{Fraction: q}}
		return []string{s}
	}),
	prop(voting.PROPOSAL_TYPE_MAX_TRANSACTION_FEE, "set-max-transaction-fee", []string{"smtf"}, amountArgs),
	prop(voting.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS, "set-transaction-fee-split-ratios", []string{"stfsr"}, func(l *line, p *voting.Proposal) []string {
		s, q := l.fraction()
		t, u := l.fraction()
		p.Args = &voting.Proposal_Portions{Portions: &voting.PortionsArgs{Fractions: []util.Fraction{q, u}}}
		return []string{s, t}
	}),
	prop(voting.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE, "set-accrue-percentage-table", []string{"sapt"}, func(l *line, p *voting.Proposal) (args []string) {
		t := &voting.AccruePercentageTableArgs{}
		var start uint64
		for n := 1 + l.r.Intn(4); n > 0; n-- {
			s, v := fmt.Sprint(start), start
			if l.r.Chance(5) {
				s, v = l.uint(64)
			}
			start += uint64(1 + l.r.Intn(1000000000))
			row := delegating.PercentageListRange{Start: v}
			xs := []string{s}
			for i := 0; i < 5; i++ {
				n := int64(l.r.Intn(30))
				f, q := fmt.Sprintf("%d%%", n), util.Percent(n)
				if l.r.Chance(8) {
					f, q = l.fraction()
				}
				xs = append(xs, f)
				row.PercentList = append(row.PercentList, q)
			}
			if l.r.Chance(3) {
				l.bad = true
				xs = xs[:l.r.Intn(6)]
			} else if l.r.Chance(3) {
				l.bad = true
				xs = append(xs, "1%")
			}
			args = append(args, strings.Join(xs, ":"))
			t.AccruePercentageTable = append(t.AccruePercentageTable, row)
		}
		p.Args = &voting.Proposal_AccruePercentageTable{AccruePercentageTable: t}
		return
	}),
	prop(voting.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, "add-blocked-sender", []string{"abs"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE, "remove-blocked-sender", []string{"rbs"}, addrArgs),
	prop(voting.PROPOSAL_TYPE_REVOKE, "set-revoke", []string{"sr"}, revokeArgs),
	prop(voting.PROPOSAL_TYPE_EXPRESS_REVOKE, "set-express-revoke", []string{"ser"}, revokeArgs),
	{"voting", []string{"vote"}, func(l *line) ([]string, sdk.Msg) {
		s, v := l.yes("agree", "disagree")
		args := []string{s, l.signer()}
		return args, &voting.MsgVote{Voter: l.from, Agree: v}
	}},
	{"voting", []string{"start-poll", "start_poll", "sp"}, func(l *line) ([]string, sdk.Msg) {
		args := []string{l.signer(), "validators", l.text(), l.text()}
		p := voting.Poll{Author: l.from, Name: args[2], Question: args[3], Requirements: &voting.Poll_CanValidate{CanValidate: &voting.Poll_Unit{}}}
		if l.r.Chance(60) {
			st := referral.Status(1 + l.r.Intn(7))
			p.Requirements = &voting.Poll_MinStatus{MinStatus: st}
			n := strings.TrimPrefix(st.String(), "STATUS_")
			args[1] = "status:" + []string{fmt.Sprint(int(st)), n, strings.ToLower(n), st.String()}[l.r.Intn(4)]
			if l.r.Chance(10) {
				l.bad = true
				args[1] = []string{"status:", "status:no_such", "status:-1", "status", fmt.Sprint(int(st)), n, "status:3x", "xstatus:3", "validator", "status:3,status:4", "/status:3", n + "/"}[l.r.Intn(12)]
			}
		}
		if l.r.Bool() {
			s, q := l.fraction()
			args = append(args, s)
			p.Quorum = &q
		}
		return args, &voting.MsgStartPoll{Poll: p}
	}},
	{"voting", []string{"answer", "ans", "a", "answer-poll", "answer_poll"}, func(l *line) ([]string, sdk.Msg) {
		s, v := l.yes("yes", "no")
		args := []string{s, l.signer()}
		return args, &voting.MsgAnswerPoll{Respondent: l.from, Yes: v}
	}},
}

var modAliases = map[string][]string{"delegating": {"d"}, "earning": {"e", "earn"}, "referral": {"ref", "r"}}

var fractionType = reflect.TypeOf(util.Fraction{})

// reduced brings every fraction inside to its lowest terms: how it's written does not matter.
func reduced(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			reduced(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			reduced(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == fractionType {
			if f := v.Interface().(util.Fraction); !f.IsNullValue() && v.CanSet() {
				v.Set(reflect.ValueOf(f.Reduce()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				reduced(v.Field(i))
			}
		}
	}
}

func msgText(m sdk.Msg) string {
	bz, err := json.Marshal(m)
	if err != nil {
		return proto.MessageName(m)
	}
	return proto.MessageName(m) + clip(string(bz))
}

func msgBytes(m sdk.Msg) []byte {
	reduced(reflect.ValueOf(m))
	bz, err := proto.Marshal(m)
	must(err)
	return append([]byte(proto.MessageName(m)+" "), bz...)
}

func runTxLine(w *world.World, st *eng.Stats, r *eng.R) {
	c := txCmds[r.Intn(len(txCmds))]
	l := &line{w: w, r: r, keys: r.Bool()}
	pos, want := c.gen(l)
	args := []string{"tx"}
	if c.mod != "" {
		m := c.mod
		if as := modAliases[m]; len(as) > 0 && r.Chance(20) {
			m = as[r.Intn(len(as))]
		}
		args = append(args, m)
	}
	if r.Chance(5) { // an argument is missing
		if n := r.Intn(len(pos)); !(c.names[0] == "resolve-transition" && len(pos) == 3) && c.mod+c.names[0] != "earningset" && c.mod != "profile" &&
			!strings.HasPrefix(c.names[0], "set-voting-p") && !strings.HasPrefix(c.names[0], "set-accrue") && !(c.names[0] == "start-poll" && len(pos) == 5) {
			pos = append(pos[:n:n], pos[n+1:]...)
			l.bad = true
		}
	}
	args = append(args, c.names[0])
	if r.Chance(30) {
		args[len(args)-1] = c.names[r.Intn(len(c.names))]
	}
	memo, fees, mode := "", sdk.Coins(nil), "sync"
	gas := uint64(200000)
	if r.Chance(30) {
		memo = []string{"a memo", "Ünï", "-x", "\"q\""}[r.Intn(4)]
		args = append(args, "--memo="+memo)
	}
	if r.Chance(60) {
		fees = sdk.NewCoins(sdk.NewInt64Coin(util.ConfigMainDenom, 1+int64(r.Intn(100000))))
		args = append(args, "--fees="+fees.String())
	}
	if r.Chance(30) {
		gas = 1 + uint64(r.Intn(10000000))
		args = append(args, fmt.Sprintf("--gas=%d", gas))
	}
	if r.Chance(30) {
		mode = []string{"async", "block", "sync"}[r.Intn(3)]
		args = append(args, []string{"-b" + mode, "--broadcast-mode=" + mode}[r.Intn(2)])
	}
	generate := !l.keys
	if generate {
		args = append(args, "--generate-only")
	} else {
		args = append(args, "-y")
	}
	dash := r.Chance(10)
	for _, a := range pos {
		dash = dash || strings.HasPrefix(a, "-")
	}
	if dash {
		args = append(args, "--")
	}
	args = append(args, pos...)

	valid := !l.bad && want.ValidateBasic() == nil
	if !generate && w.App.GetAccountKeeper().GetAccount(w.App.NewContext(true, w.Header), world.UserByAddr(l.from).Addr) == nil {
		valid = false
	}
	node := &cliNode{w: w}
	out, err := commandLine(w, node, args)
	st.Count("cli")
	st.Count("cli:" + c.names[0])
	sig := c.names[0]
	if err != nil {
		if len(node.txs) > 0 {
			eng.Fail("cli-refused-sent:"+sig, "artrd %q: refused (%v), but a transaction has been sent", args, err)
		}
		if valid && !l.loose {
			eng.Fail("cli-refuses:"+sig, "artrd %q: %v; it should make %s", args, err, msgText(want))
		}
		st.Count("refused")
		return
	}
	if !valid {
		eng.Fail("cli-accepts:"+sig, "artrd %q: should be refused, and it answers %q and sends %d transactions", args, clip(out), len(node.txs))
	}
	var bz []byte
	var tx sdk.Tx
	if generate {
		if len(node.txs) != 0 {
			eng.Fail("cli-generate-sends:"+sig, "artrd %q sends the transaction", args)
		}
		tx, err = w.EC.TxConfig.TxJSONDecoder()([]byte(out))
	} else {
		if len(node.txs) != 1 || node.mode != mode {
			eng.Fail("cli-sends:"+sig, "artrd %q sends %d transactions (%s), output %q", args, len(node.txs), node.mode, clip(out))
		}
		bz = node.txs[0]
		tx, err = w.EC.TxConfig.TxDecoder()(bz)
	}
	if err != nil {
		eng.Fail("cli-unreadable:"+sig, "artrd %q: what it makes cannot be read: %v: %s", args, err, clip(out))
	}
	if ms := tx.GetMsgs(); len(ms) != 1 {
		eng.Fail("cli-messages:"+sig, "artrd %q makes %d messages", args, len(ms))
	} else if got := ms[0]; !bytes.Equal(msgBytes(got), msgBytes(want)) {
		eng.Fail("cli-message:"+sig, "artrd %q makes\n%v, not\n%v", args, got, want)
	}
	st.Count("made")
	if v, ok := tx.(sdk.TxWithMemo); !ok || v.GetMemo() != memo {
		eng.Fail("cli-memo:"+sig, "artrd %q makes a transaction with another memo", args)
	}
	if v, ok := tx.(sdk.FeeTx); !ok || !v.GetFee().IsEqual(fees) || v.GetGas() != gas {
		eng.Fail("cli-fee:"+sig, "artrd %q makes a transaction with fee %s and gas %d", args, v.GetFee(), v.GetGas())
	}
	if generate {
		return
	}
	// it's signed, so that the chain takes it
	st.Count("signed")
	sg, ok := tx.(authsigning.SigVerifiableTx)
	if !ok {
		eng.Bug("the transaction is not verifiable")
	}
	sigs, err := sg.GetSignaturesV2()
	must(err)
	if len(sigs) != 1 {
		eng.Fail("cli-signatures:"+sig, "artrd %q: %d signatures", args, len(sigs))
	}
	u := world.UserByAddr(l.from)
	if !bytes.Equal(sigs[0].PubKey.Bytes(), u.Priv.PubKey().Bytes()) {
		eng.Fail("cli-signer:"+sig, "artrd %q is signed by somebody else", args)
	}
	acc := w.App.GetAccountKeeper().GetAccount(w.App.NewContext(true, w.Header), u.Addr)
	if acc == nil {
		eng.Fail("cli-nobody:"+sig, "artrd %q: signed without an account", args)
	}
	sd := authsigning.SignerData{ChainID: world.ChainID, AccountNumber: acc.GetAccountNumber(), Sequence: acc.GetSequence()}
	if err := authsigning.VerifySignature(sigs[0].PubKey, sd, sigs[0].Data, w.EC.TxConfig.SignModeHandler(), tx); err != nil {
		eng.Fail("cli-signature:"+sig, "artrd %q: the signature isn't good for account number %d, sequence %d: %v", args, sd.AccountNumber, sd.Sequence, err)
	}
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

// ------------------------------------------------------------------------------------------------- C02: query commands

// direct answers gRPC queries at once.
type direct struct {
	w      *world.World
	height int64
}

func (d direct) Invoke(_ context.Context, method string, req, reply interface{}, _ ...grpc.CallOption) error {
	bz, err := proto.Marshal(req.(proto.Message))
	must(err)
	res := d.w.App.Query(abci.RequestQuery{Path: method, Data: bz, Height: d.height})
	if !res.IsOK() {
		return fmt.Errorf("%s", res.Log)
	}
	return proto.Unmarshal(res.Value, reply.(proto.Message))
}

func (d direct) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	panic("no streams")
}

type qCmd struct {
	mod   string
	names []string
	gen   func(l *line) (args []string, ask func(d direct) (interface{}, error))
}

type answer = func(d direct) (interface{}, error)

var bg = context.Background()

func plainQ(mod string, names []string, ask answer) qCmd {
	return qCmd{mod, names, func(*line) ([]string, answer) { return nil, ask }}
}

func about(mod string, names []string, ask func(d direct, a string) (interface{}, error)) qCmd {
	return qCmd{mod, names, func(l *line) ([]string, answer) {
		a := l.addr()
		return []string{a}, func(d direct) (interface{}, error) { return ask(d, a) }
	}}
}

func (l *line) page() (flags []string, limit, page int32) {
	limit, page = 30, 1
	if l.r.Bool() {
		limit = int32(1 + l.r.Intn(8))
		flags = append(flags, fmt.Sprintf("--limit=%d", limit))
	}
	if l.r.Bool() {
		page = int32(1 + l.r.Intn(5))
		flags = append(flags, fmt.Sprintf("--page=%d", page))
	}
	return
}

func (l *line) status() (string, referral.Status) {
	if l.r.Chance(10) {
		l.bad = true
		return []string{"leader", "-1", "1.0", "99999999999"}[l.r.Intn(4)], 0
	}
	n := l.r.Intn(10)
	return fmt.Sprint(n), referral.Status(n)
}

var qCmds = []qCmd{
	plainQ("artrbank", []string{"params", "p"}, func(d direct) (interface{}, error) {
		x, err := bank.NewQueryClient(d).Params(bg, &bank.ParamsRequest{})
		return fieldOf(x, err, "Params")
	}),
	plainQ("artrbank", []string{"supply", "s"}, func(d direct) (interface{}, error) {
		x, err := bank.NewQueryClient(d).Supply(bg, &bank.SupplyRequest{})
		if err != nil {
			return nil, err
		}
		return x.Supply.Total, nil
	}),
	about("artrbank", []string{"balance", "b"}, func(d direct, a string) (interface{}, error) {
		x, err := bank.NewQueryClient(d).Balance(bg, &bank.BalanceRequest{AccAddress: a})
		return fieldOf(x, err, "Balance")
	}),
	about("delegating", []string{"revoking", "r"}, func(d direct, a string) (interface{}, error) {
		x, err := delegating.NewQueryClient(d).Revoking(bg, &delegating.RevokingRequest{AccAddress: a})
		return fieldOf(x, err, "Revoking")
	}),
	about("delegating", []string{"accum", "a"}, func(d direct, a string) (interface{}, error) {
		return delegating.NewQueryClient(d).Accumulation(bg, &delegating.AccumulationRequest{AccAddress: a})
	}),
	about("delegating", []string{"get"}, func(d direct, a string) (interface{}, error) {
		return delegating.NewQueryClient(d).Get(bg, &delegating.GetRequest{AccAddress: a})
	}),
	plainQ("delegating", []string{"params", "p"}, func(d direct) (interface{}, error) {
		x, err := delegating.NewQueryClient(d).Params(bg, &delegating.ParamsRequest{})
		return fieldOf(x, err, "Params")
	}),
	{"earning", []string{"get"}, func(l *line) ([]string, answer) {
		var as []string
		for n := 1 + l.r.Intn(4); n > 0; n-- {
			as = append(as, l.addr())
		}
		return as, func(d direct) (interface{}, error) {
			x, err := earning.NewQueryClient(d).GetMultiple(bg, &earning.GetMultipleRequest{Addresses: as})
			return fieldOf(x, err, "Earners")
		}
	}},
	{"earning", []string{"list"}, func(l *line) ([]string, answer) {
		fs, limit, page := l.page()
		if l.r.Bool() { // by position
			fs = []string{fmt.Sprint(limit)}
			if page != 1 {
				fs = append(fs, fmt.Sprint(page))
			}
			if l.r.Chance(10) {
				l.bad = true
				fs[l.r.Intn(len(fs))] = []string{"x", "1.5", ""}[l.r.Intn(3)]
			}
		}
		return fs, func(d direct) (interface{}, error) {
			x, err := earning.NewQueryClient(d).List(bg, &earning.ListRequest{Limit: limit, Page: page})
			return fieldOf(x, err, "List")
		}
	}},
	plainQ("earning", []string{"params", "p"}, func(d direct) (interface{}, error) {
		x, err := earning.NewQueryClient(d).Params(bg, &earning.ParamsRequest{})
		return fieldOf(x, err, "Params")
	}),
	about("noding", []string{"info", "i"}, func(d direct, a string) (interface{}, error) {
		x, err := noding.NewQueryClient(d).Get(bg, &noding.GetRequest{Account: a})
		return fieldOf(x, err, "Info")
	}),
	about("noding", []string{"state", "s"}, func(d direct, a string) (interface{}, error) {
		x, err := noding.NewQueryClient(d).State(bg, &noding.StateRequest{Account: a})
		return fieldOf(x, err, "State")
	}),
	{"noding", []string{"proposer", "p"}, func(l *line) (args []string, _ answer) {
		var h int64
		if l.r.Chance(60) {
			h = 1 + int64(l.r.Intn(60))
			args = []string{fmt.Sprint(h)}
			if l.r.Chance(10) {
				l.bad = true
				args = []string{[]string{"x", "1.5", "1x", "99999999999999999999"}[l.r.Intn(4)]}
			}
		}
		return args, func(d direct) (interface{}, error) {
			x, err := noding.NewQueryClient(d).Proposer(bg, &noding.ProposerRequest{Height: h})
			return fieldOf(x, err, "Account")
		}
	}},
	about("noding", []string{"is-allowed", "ia", "a"}, func(d direct, a string) (interface{}, error) {
		return noding.NewQueryClient(d).IsAllowed(bg, &noding.IsAllowedRequest{Account: a})
	}),
	{"noding", []string{"whois", "w"}, func(l *line) (args []string, _ answer) {
		pub := world.ConsPub(l.r.Intn(world.NConsKeys)).Address()
		f := noding.OperatorRequest_FORMAT_BECH32
		a := sdk.ConsAddress(pub).String()
		args = []string{a}
		if l.r.Bool() {
			f = noding.OperatorRequest_FORMAT_HEX
			a = pub.String()
			if l.r.Bool() {
				a = strings.ToLower(a)
			}
			args = []string{[]string{"-x", "--hex"}[l.r.Intn(2)], a}
		}
		return args, func(d direct) (interface{}, error) {
			x, err := noding.NewQueryClient(d).Operator(bg, &noding.OperatorRequest{ConsAddress: a, Format: f})
			return fieldOf(x, err, "Account")
		}
	}},
	plainQ("noding", []string{"params"}, func(d direct) (interface{}, error) {
		x, err := noding.NewQueryClient(d).Params(bg, &noding.ParamsRequest{})
		return fieldOf(x, err, "Params")
	}),
	plainQ("noding", []string{"switched-on", "so", "on"}, func(d direct) (interface{}, error) {
		x, err := noding.NewQueryClient(d).SwitchedOn(bg, &noding.SwitchedOnRequest{})
		return fieldOf(x, err, "Accounts")
	}),
	plainQ("noding", []string{"queue", "q"}, func(d direct) (interface{}, error) {
		x, err := noding.NewQueryClient(d).Queue(bg, &noding.QueueRequest{})
		return fieldOf(x, err, "Queue")
	}),
	about("profile", []string{"info"}, func(d direct, a string) (interface{}, error) {
		x, err := profile.NewQueryClient(d).GetByAddress(bg, &profile.GetByAddressRequest{Address: a})
		return fieldOf(x, err, "Profile")
	}),
	{"profile", []string{"account-by-nickname", "account_by_nickname"}, func(l *line) ([]string, answer) {
		a := []string{"nick" + fmt.Sprint(l.r.Intn(50)), world.Nicks[l.r.Intn(len(world.Nicks))]}[l.r.Intn(2)]
		return []string{a}, func(d direct) (interface{}, error) {
			return profile.NewQueryClient(d).GetByNickname(bg, &profile.GetByNicknameRequest{Nickname: a})
		}
	}},
	{"profile", []string{"account-by-card-number", "account_by_card_number"}, func(l *line) ([]string, answer) {
		s, n := l.uint(64)
		if l.r.Chance(70) && !l.bad {
			n = l.card()
			s = fmt.Sprint(n)
		}
		return []string{s}, func(d direct) (interface{}, error) {
			return profile.NewQueryClient(d).GetByCardNumber(bg, &profile.GetByCardNumberRequest{CardNumber: n})
		}
	}},
	plainQ("profile", []string{"params", "p"}, func(d direct) (interface{}, error) {
		x, err := profile.NewQueryClient(d).Params(bg, &profile.ParamsRequest{})
		return fieldOf(x, err, "Params")
	}),
	{"schedule", []string{"in"}, func(l *line) ([]string, answer) {
		a, b := l.time(), l.time()
		return []string{a, b}, func(d direct) (interface{}, error) {
			x, err := schedule.NewQueryClient(d).Get(bg, &schedule.GetRequest{Since: a, To: b})
			return fieldOf(x, err, "Tasks")
		}
	}},
	plainQ("schedule", []string{"all", "a"}, func(d direct) (interface{}, error) {
		x, err := schedule.NewQueryClient(d).All(bg, &schedule.AllRequest{})
		return fieldOf(x, err, "Tasks")
	}),
	{"referral", []string{"info", "i"}, func(l *line) ([]string, answer) {
		a := l.addr()
		args, light := []string{a}, l.r.Bool()
		if light {
			args = []string{[]string{"-l", "--light"}[l.r.Intn(2)], a}
		}
		return args, func(d direct) (interface{}, error) {
			x, err := referral.NewQueryClient(d).Get(bg, &referral.GetRequest{AccAddress: a, Light: light})
			return fieldOf(x, err, "Info")
		}
	}},
	{"referral", []string{"coins", "c"}, func(l *line) ([]string, answer) {
		a := l.addr()
		args := []string{a}
		var n uint64
		if l.r.Bool() {
			n = uint64(l.r.Intn(13))
			args = append(args, fmt.Sprint(n))
			if l.r.Chance(10) {
				args[1], n = l.uint(32)
			}
		}
		return args, func(d direct) (interface{}, error) {
			return referral.NewQueryClient(d).Coins(bg, &referral.CoinsRequest{AccAddress: a, MaxDepth: uint32(n)})
		}
	}},
	{"referral", []string{"check-status", "check_status", "cs"}, func(l *line) ([]string, answer) {
		a := l.addr()
		s, st := l.status()
		return []string{a, s}, func(d direct) (interface{}, error) {
			x, err := referral.NewQueryClient(d).CheckStatus(bg, &referral.CheckStatusRequest{AccAddress: a, Status: st})
			return fieldOf(x, err, "Result")
		}
	}},
	{"referral", []string{"validate-transition", "validate_transition", "vt"}, func(l *line) ([]string, answer) {
		a, b := l.addr(), l.addr()
		return []string{a, b}, func(d direct) (interface{}, error) {
			return referral.NewQueryClient(d).ValidateTransition(bg, &referral.ValidateTransitionRequest{Subject: a, Target: b})
		}
	}},
	{"referral", []string{"all-with-status", "all_with_status", "aws"}, func(l *line) ([]string, answer) {
		s, st := l.status()
		return []string{s}, func(d direct) (interface{}, error) {
			x, err := referral.NewQueryClient(d).AllWithStatus(bg, &referral.AllWithStatusRequest{Status: st})
			return fieldOf(x, err, "Accounts")
		}
	}},
	plainQ("referral", []string{"params", "p"}, func(d direct) (interface{}, error) {
		x, err := referral.NewQueryClient(d).Params(bg, &referral.ParamsRequest{})
		return fieldOf(x, err, "Params")
	}),
	{"voting", []string{"history"}, func(l *line) ([]string, answer) {
		fs, limit, page := l.page()
		return fs, func(d direct) (interface{}, error) {
			x, err := voting.NewQueryClient(d).History(bg, &voting.HistoryRequest{Limit: limit, Page: page})
			return fieldOf(x, err, "History")
		}
	}},
	plainQ("voting", []string{"government"}, func(d direct) (interface{}, error) {
		x, err := voting.NewQueryClient(d).Government(bg, &voting.GovernmentRequest{})
		return fieldOf(x, err, "Members")
	}),
	plainQ("voting", []string{"current"}, func(d direct) (interface{}, error) {
		return voting.NewQueryClient(d).Current(bg, &voting.CurrentRequest{})
	}),
	plainQ("voting", []string{"params", "p"}, func(d direct) (interface{}, error) {
		x, err := voting.NewQueryClient(d).Params(bg, &voting.ParamsRequest{})
		return fieldOf(x, err, "Params")
	}),
	plainQ("voting", []string{"poll"}, func(d direct) (interface{}, error) {
		return voting.NewQueryClient(d).Poll(bg, &voting.PollRequest{})
	}),
	{"voting", []string{"poll-history"}, func(l *line) (args []string, _ answer) {
		q := &voting.PollHistoryRequest{}
		if l.r.Bool() {
			q.Limit = int32(1 + l.r.Intn(5))
			args = append(args, fmt.Sprint(q.Limit))
			if l.r.Bool() {
				q.Page = int32(1 + l.r.Intn(3))
				args = append(args, fmt.Sprint(q.Page))
			}
			if l.r.Chance(10) {
				l.bad = true
				args[l.r.Intn(len(args))] = []string{"x", "1.5", ""}[l.r.Intn(3)]
			}
		}
		return args, func(d direct) (interface{}, error) { return voting.NewQueryClient(d).PollHistory(bg, q) }
	}},
}

var qAliases = map[string][]string{"artrbank": {"b"}, "delegating": {"d"}, "earning": {"e"}, "noding": {"n"}, "profile": {"p"}, "referral": {"ref", "r"}, "schedule": {"s"}}

// card is the number of a card that's likely to exist.
func (l *line) card() uint64 {
	if p := l.w.App.GetProfileKeeper().GetProfile(l.w.App.NewContext(true, l.w.Header), world.U(l.r.Intn(l.w.Cfg.N)).Addr); p != nil {
		return p.CardNumber
	}
	return 0
}

func (l *line) time() string {
	if l.r.Chance(5) {
		return "when"
	}
	return world.StartT.Add(time.Duration(l.r.Range(-100, 3000)) * time.Hour).UTC().Format(time.RFC3339)
}

func fieldOf(x interface{}, err error, name string) (interface{}, error) {
	if err != nil {
		return nil, err
	}
	return reflect.ValueOf(x).Elem().FieldByName(name).Interface(), nil
}

func runQueryLine(w *world.World, st *eng.Stats, r *eng.R) {
	c := qCmds[r.Intn(len(qCmds))]
	l := &line{w: w, r: r}
	pos, ask := c.gen(l)
	m := c.mod
	if as := qAliases[m]; len(as) > 0 && r.Chance(20) {
		m = as[r.Intn(len(as))]
	}
	args := []string{"query", m, c.names[0]}
	if r.Chance(30) {
		args[2] = c.names[r.Intn(len(c.names))]
	}
	text := true
	switch r.Intn(6) {
	case 0, 1:
		args, text = append(args, "--output=json"), false
	case 2:
		args, text = append(args, "-ojson"), false
	case 3:
		args = append(args, "--output=text")
	}
	d := direct{w: w}
	if r.Chance(30) {
		d.height = 1 + int64(r.Intn(int(w.App.LastBlockHeight())))
		args = append(args, fmt.Sprintf("--height=%d", d.height))
	}
	args = append(args, pos...)
	out, err := commandLine(w, &cliNode{w: w}, args)
	st.Count("cli")
	st.Count("cli:" + c.mod + " " + c.names[0])
	sig := c.mod + "-" + c.names[0]
	want, werr := ask(d)
	if l.bad {
		werr = fmt.Errorf("the arguments are wrong")
	}
	if werr != nil {
		if err == nil {
			eng.Fail("cli-query-answers:"+sig, "artrd %q answers %q, and the node answers %v", args, clip(out), werr)
		}
		st.Count("refused")
		return
	}
	if err != nil {
		if l.loose {
			return
		}
		eng.Fail("cli-query-refuses:"+sig, "artrd %q: %v", args, err)
	}
	var bz []byte
	if text {
		bz, err = yaml.Marshal(want)
	} else {
		bz, err = json.Marshal(want)
	}
	must(err)
	var a, b interface{}
	if text {
		must(yaml.Unmarshal(bz, &a))
		err = yaml.Unmarshal([]byte(out), &b)
	} else {
		must(json.Unmarshal(bz, &a))
		err = json.Unmarshal([]byte(out), &b)
	}
	if err != nil || !reflect.DeepEqual(a, b) {
		eng.Fail("cli-query:"+sig, "artrd %q shows\n%s\nand the node answers\n%s", args, clip(out), clip(string(bz)))
	}
	st.Count("shown")
	if len(bz) > 20 {
		st.Count("big")
	}
}

func cliOp(f func(w *world.World, st *eng.Stats, r *eng.R), st func(w *world.World) *eng.Stats) map[string]func(*world.World, eng.Op) {
	return map[string]func(*world.World, eng.Op){"cli": func(w *world.World, op eng.Op) {
		if w.App.LastBlockHeight() > 0 {
			f(w, st(w), eng.NewR(op.D))
		}
	}}
}

func runCli(f func(w *world.World, st *eng.Stats, r *eng.R)) func(c *eng.Case, st *eng.Stats) *eng.Violation {
	return func(c *eng.Case, st *eng.Stats) *eng.Violation {
		return runWith(func(w *world.World, st *eng.Stats) {
			w.AfterCommit = append(w.AfterCommit, func() {
				if st.Classes["made"] > 10 && st.Classes["refused"] > 3 && st.Classes["signed"] > 3 || st.Classes["big"] > 10 {
					st.NonTrivial = true
				}
			})
		}, cliOp(f, func(*world.World) *eng.Stats { return st }))(c, st)
	}
}

func init() {
	eng.Register(&eng.Property{
		ID: "C01",
		Rule: "command lines of every transaction command, with names and aliases, keys and addresses, good and malformed arguments, run between the blocks of a history; " +
			"non-trivial: more than 10 transactions made, 3 signed, 3 lines refused",
		Assumptions: []string{"the commands are assembled as main() does, and the node is the application without Tendermint and the network"},
		Suites: []*eng.Suite{{
			Name:  "lines",
			Gen:   chainGen(80, 200, reweigh(eng.W{K: "next", N: 10}, eng.W{K: "cli", N: 300}), smallTweak),
			Run:   runCli(runTxLine),
			Quick: 800, Thorough: 60000,
		}},
	})
	eng.Register(&eng.Property{
		ID: "C02",
		Rule: "command lines of every query command, with names and aliases, good and malformed arguments, of the present and of the past, run between the blocks of a history; " +
			"non-trivial: more than 10 of the answers have something in them",
		Assumptions: []string{"the commands are assembled as main() does, and the node is the application without Tendermint and the network"},
		Suites: []*eng.Suite{{
			Name:  "lines",
			Gen:   chainGen(80, 200, reweigh(eng.W{K: "next", N: 30}, eng.W{K: "cli", N: 200}), smallTweak),
			Run:   runCli(runQueryLine),
			Quick: 500, Thorough: 40000,
		}},
	})
}
