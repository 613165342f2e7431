package world

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"github.com/gogo/protobuf/proto"

	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tmtypes "github.com/tendermint/tendermint/types"
	dbm "github.com/tendermint/tm-db"

	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	auth "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/app"
	schedule "github.com/arterynetwork/artr/x/schedule/types"

	"verif/harness/eng"
)

// World is one running node with everything around it.
type World struct {
	Cfg *Cfg
	P   map[string]int64
	St  *eng.Stats
	App *app.ArteryApp
	EC  app.EncodingConfig
	DB  dbm.DB

	// upper: the next transaction writes addresses in upper case
	upper bool
	// Forgery is what's wrong with the next forged transaction, see MakeTx; Other is what it says instead of what is signed
	Forgery int
	Other   sdk.Msg
	// NextGas is the gas limit of the next transaction, 0 for one that's never reached
	NextGas uint64

	Height int64 // of the open block
	Time   time.Time
	Header tmproto.Header
	InBlk  bool

	// Consensus' view. Vals signs block Height, NextVals block Height+1.
	LastVals, Vals, NextVals *tmtypes.ValidatorSet

	// What the next block will be like.
	Absent    map[string]bool // consensus addresses (hex) that do not sign
	Evidence  []abci.Evidence
	Proposer  int
	AppHash   []byte
	Blocks    []BlockRecord // everything executed, if Record
	Record    bool
	InitReq   abci.RequestInitChain
	ExtraOpts []func(*baseapp.BaseApp)

	// Hooks of the oracles.
	BeforeBegin []func(req abci.RequestBeginBlock)
	AfterBegin  []func(req abci.RequestBeginBlock, res abci.ResponseBeginBlock)
	BeforeTx    []func(tx *Tx)
	AfterTx     []func(tx *Tx, res abci.ResponseDeliverTx)
	BeforeEnd   []func()
	AfterEnd    []func(res abci.ResponseEndBlock)
	AfterCommit []func()

	// Seen has the addresses of everybody who has ever been in the set.
	Seen    [][]byte
	seenSet map[string]bool

	// BeforeTask and AfterTask surround every scheduled task. The context is the one the task works on; failed tells
	// that the task panicked. See hookTasks.
	BeforeTask []func(ctx sdk.Context, t schedule.Task)
	AfterTask  []func(ctx sdk.Context, t schedule.Task, failed bool)
	HooksTasks bool
	pending    interface{}

	// Extra are further kinds of operations.
	Extra map[string]func(w *World, op eng.Op)

	snap      *Snap
	snapValid bool
	memo      map[memoKey]interface{}
	par       Params
	parRaw    map[string][]byte
}

type BlockRecord struct {
	Begin  abci.RequestBeginBlock
	Txs    [][]byte
	TxRes  []abci.ResponseDeliverTx
	End    abci.ResponseEndBlock
	BegRes abci.ResponseBeginBlock
	Hash   []byte
}

// Tx is a transaction about to be delivered.
type Tx struct {
	Msgs    []sdk.Msg
	Signers []*User
	Fee     sdk.Coins
	Bytes   []byte
	// Upper: the addresses in the bytes are in upper case
	Upper bool
	// Forged: the signatures do not belong to the signers
	Forged bool
	Gas    uint64
}

var consensusParams = abci.ConsensusParams{
	Block:     &abci.BlockParams{MaxBytes: 22020096, MaxGas: -1},
	Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 100000, MaxAgeDuration: 48 * time.Hour, MaxBytes: 1 << 20},
	Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{tmtypes.ABCIPubKeyTypeEd25519}},
}

func U(i int) *User { return &users[i] }

// UserByAddr finds a user by its bech32 address.
func UserByAddr(b string) *User {
	for i := range users {
		if users[i].B == b {
			return &users[i]
		}
	}
	return nil
}

func NewApp(db dbm.DB, ec app.EncodingConfig, opts ...func(*baseapp.BaseApp)) *app.ArteryApp {
	return app.NewArteryApp(log.NewNopLogger(), db, nil, true, 0, ec, opts...)
}

// New creates the chain and executes InitChain.
func New(p map[string]int64, st *eng.Stats) *World {
	w := &World{Cfg: MakeCfg(p), P: p, St: st}
	ec := app.NewEncodingConfig()
	w.EC = ec
	w.DB = dbm.NewMemDB()
	w.App = NewApp(w.DB, ec)
	w.hookTasks()
	state := w.Cfg.Genesis(ec, p)
	bz, err := json.Marshal(state)
	if err != nil {
		eng.Bug("cannot marshal genesis: %v", err)
	}
	w.Init(bz, StartT, 1)
	return w
}

// Init sends InitChain with the given application state.
func (w *World) Init(state []byte, at time.Time, height int64) {
	w.InitReq = abci.RequestInitChain{
		Time: at, ChainId: ChainID, ConsensusParams: &consensusParams, AppStateBytes: state, InitialHeight: height,
	}
	res := w.App.InitChain(w.InitReq)
	w.Height, w.Time = height-1, at
	vals, err := tmtypes.PB2TM.ValidatorUpdates(res.Validators)
	if err != nil {
		eng.Fail("chain/init-validators", "InitChain returned unacceptable validators: %v", err)
	}
	if len(vals) == 0 {
		eng.Fail("chain/init-validators", "InitChain returned no validators")
	}
	w.checkUpdates(res.Validators)
	w.Vals = tmtypes.NewValidatorSet(vals)
	w.NextVals = w.Vals.Copy()
	w.LastVals = nil
	w.Absent = map[string]bool{}
}

// checkUpdates is what Tendermint's validateValidatorUpdates and UpdateWithChangeSet demand.
func (w *World) checkUpdates(ups []abci.ValidatorUpdate) {
	seen := map[string]bool{}
	for _, u := range ups {
		if u.Power < 0 {
			eng.Fail("valupdates/negative", "negative power in the updates of block %d: %v", w.Height, u)
		}
		k := u.PubKey.String()
		if seen[k] {
			eng.Fail("valupdates/duplicate", "duplicate key in the updates of block %d: %v", w.Height, ups)
		}
		seen[k] = true
		if u.Power == 0 {
			continue
		}
		if len(u.PubKey.GetEd25519()) == 0 {
			eng.Fail("valupdates/keytype", "key of an unsupported type in the updates of block %d: %v", w.Height, u)
		}
	}
}

// Begin opens the next block, dt after the previous one.
func (w *World) Begin(dt time.Duration) {
	if w.InBlk {
		eng.Bug("block is open")
	}
	w.Height++
	w.Time = w.Time.Add(dt)
	prop := w.Vals.Validators[eng.Mod(int64(w.Proposer), w.Vals.Size())]
	w.Header = tmproto.Header{
		ChainID: ChainID, Height: w.Height, Time: w.Time, ProposerAddress: prop.Address,
		AppHash: w.AppHash, ValidatorsHash: w.Vals.Hash(), NextValidatorsHash: w.NextVals.Hash(),
	}
	req := abci.RequestBeginBlock{Header: w.Header, ByzantineValidators: w.Evidence}
	if w.LastVals != nil {
		for _, v := range w.LastVals.Validators {
			req.LastCommitInfo.Votes = append(req.LastCommitInfo.Votes, abci.VoteInfo{
				Validator:       abci.Validator{Address: v.Address, Power: v.VotingPower},
				SignedLastBlock: !w.Absent[fmt.Sprintf("%X", []byte(v.Address))],
			})
		}
	}
	w.Evidence = nil
	w.Absent = map[string]bool{}
	w.BeginReq(req)
}

func (w *World) BeginReq(req abci.RequestBeginBlock) {
	w.Header = req.Header
	for _, f := range w.BeforeBegin {
		f(req)
	}
	w.Dirty()
	w.InBlk = true
	res := guard("begin-block", func() abci.ResponseBeginBlock { return w.App.BeginBlock(req) })
	if p := w.pending; p != nil {
		w.pending = nil
		panic(p)
	}
	if w.Record {
		w.Blocks = append(w.Blocks, BlockRecord{Begin: req, BegRes: res})
	}
	if w.St != nil {
		w.St.Steps++
	}
	for _, f := range w.AfterBegin {
		f(req, res)
	}
}

// guard turns a panic of block processing into the violation that it is.
func guard[T any](where string, f func() T) T {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case *eng.Violation, eng.HarnessError:
				panic(r)
			}
			st := string(debug.Stack())
			eng.Fail("chain-halt/"+where+"/"+Site(st), "%s panics: %v\n%s", where, r, st)
		}
	}()
	return f()
}

// Site finds the topmost function of the application in a stack trace.
func Site(stack string) string {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/arterynetwork/artr/") {
			l = strings.TrimPrefix(l, "github.com/arterynetwork/artr/")
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "?"
}

// End closes the block: EndBlock, validator set update, Commit.
func (w *World) End() {
	for _, f := range w.BeforeEnd {
		f()
	}
	w.Dirty()
	res := guard("end-block", func() abci.ResponseEndBlock { return w.App.EndBlock(abci.RequestEndBlock{Height: w.Height}) })
	for _, f := range w.AfterEnd {
		f(res)
	}
	w.ApplyUpdates(res.ValidatorUpdates)
	c := guard("commit", func() abci.ResponseCommit { return w.App.Commit() })
	w.AppHash = c.Data
	w.InBlk = false
	if w.Record {
		b := &w.Blocks[len(w.Blocks)-1]
		b.End, b.Hash = res, c.Data
	}
	w.Dirty()
	for _, f := range w.AfterCommit {
		f()
	}
}

// ApplyUpdates moves the validator sets on by one block as Tendermint does.
func (w *World) ApplyUpdates(ups []abci.ValidatorUpdate) {
	w.checkUpdates(ups)
	next := w.NextVals.Copy()
	if len(ups) > 0 {
		vals, err := tmtypes.PB2TM.ValidatorUpdates(ups)
		if err != nil {
			eng.Fail("valupdates/keytype", "unacceptable updates of block %d: %v", w.Height, err)
		}
		if err := next.UpdateWithChangeSet(vals); err != nil {
			sig := "valupdates/rejected"
			if strings.Contains(err.Error(), "empty set") {
				sig = "valupdates/empty"
			}
			eng.Fail(sig, "Tendermint rejects the validator updates of block %d: %v; set %v, updates %v", w.Height, err, next, ups)
		}
	}
	next.IncrementProposerPriority(1)
	w.LastVals, w.Vals, w.NextVals = w.Vals, w.NextVals, next
	if w.seenSet == nil {
		w.seenSet = map[string]bool{}
	}
	for _, v := range w.Vals.Validators {
		if !w.seenSet[string(v.Address)] {
			w.seenSet[string(v.Address)] = true
			w.Seen = append(w.Seen, v.Address)
		}
	}
}

// ResetSeen forgets everybody who has been in the set, except for those who are there now.
func (w *World) ResetSeen() {
	w.Seen, w.seenSet = nil, map[string]bool{}
	for _, v := range w.Vals.Validators {
		w.seenSet[string(v.Address)] = true
		w.Seen = append(w.Seen, v.Address)
	}
}

// Next closes the open block, if any, and opens another one.
func (w *World) Next(dt time.Duration) {
	if w.InBlk {
		w.End()
	}
	w.Begin(dt)
}

// Ctx reads the state as of now: of the open block, or the committed one.
func (w *World) Ctx() sdk.Context {
	if w.InBlk {
		return w.App.NewContext(false, w.Header).WithBlockTime(w.Time)
	}
	h := w.Header
	return w.App.NewContext(true, h).WithBlockTime(w.Time)
}

// Scratch is a context whose writes are thrown away.
func (w *World) Scratch() sdk.Context {
	c, _ := w.Ctx().CacheContext()
	return c
}

func (w *World) NewUser(i int) *User { return &users[i] }

// The ways a transaction can be not what its signers signed.
const (
	ForgedSignature = iota // somebody else has signed
	ForgedKey              // and has given his key
	ForgedMessage
	ForgedFee
	ForgedMemo
	ForgedGas
	ForgedTimeout
	ForgedChain
	ForgedNumber
	ForgedSequence // a sequence to come
	ForgedReplay   // one of the past
	ForgedMode     // another kind of signature
	ForgedLength
	Forgeries
)

// MakeTx builds and signs a transaction. Its signers sign with the account numbers and sequences of this moment.
func (w *World) MakeTx(fee sdk.Coins, forge bool, msgs ...sdk.Msg) (*Tx, error) {
	tx := &Tx{Msgs: msgs, Fee: fee, Forged: forge}
	forgery, other := -1, w.Other
	if forge {
		forgery = w.Forgery
	}
	w.Forgery, w.Other = 0, nil
	ctx := w.Ctx()
	seen := map[string]bool{}
	for _, m := range msgs {
		for _, s := range m.GetSigners() {
			if seen[s.String()] {
				continue
			}
			seen[s.String()] = true
			u := UserByAddr(s.String())
			if u == nil {
				return nil, fmt.Errorf("nobody has the key of %s", s)
			}
			tx.Signers = append(tx.Signers, u)
		}
	}
	b := w.EC.TxConfig.NewTxBuilder()
	if w.upper {
		tx.Upper = true
		up := make([]sdk.Msg, len(msgs))
		for i, m := range msgs {
			up[i] = upcase(m)
		}
		msgs = up
	}
	if err := b.SetMsgs(msgs...); err != nil {
		return nil, err
	}
	gas := uint64(1 << 60)
	if w.NextGas != 0 {
		gas, w.NextGas = w.NextGas, 0
	}
	b.SetGasLimit(gas)
	tx.Gas = gas
	b.SetFeeAmount(fee)
	type sd struct {
		num, seq uint64
		priv     cryptotypes.PrivKey
	}
	var sds []sd
	for i, u := range tx.Signers {
		priv := u.Priv
		if i == 0 && (forgery == ForgedSignature || forgery == ForgedKey) {
			priv = secp256k1.GenPrivKeyFromSecret([]byte("forger"))
		}
		var num, seq uint64
		if a := w.App.GetAccountKeeper().GetAccount(ctx, u.Addr); a != nil {
			num, seq = a.GetAccountNumber(), a.GetSequence()
		}
		switch forgery {
		case ForgedNumber:
			num++
		case ForgedSequence:
			seq++
		case ForgedReplay:
			if seq == 0 {
				return nil, fmt.Errorf("%s has signed nothing yet", u.B)
			}
			seq--
		}
		sds = append(sds, sd{num, seq, priv})
	}
	mode := w.EC.TxConfig.SignModeHandler().DefaultMode()
	var sigs []signing.SignatureV2
	for i, d := range sds {
		pub := d.priv.PubKey()
		if i == 0 && forgery == ForgedSignature {
			pub = tx.Signers[0].Priv.PubKey()
		}
		sigs = append(sigs, signing.SignatureV2{PubKey: pub, Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: d.seq})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	chain := ChainID
	if forgery == ForgedChain {
		chain += "-2"
	}
	for i, d := range sds {
		bz, err := w.EC.TxConfig.SignModeHandler().GetSignBytes(mode, authsigning.SignerData{ChainID: chain, AccountNumber: d.num, Sequence: d.seq}, b.GetTx())
		if err != nil {
			return nil, err
		}
		sig, err := d.priv.Sign(bz)
		if err != nil {
			return nil, err
		}
		m := mode
		switch forgery {
		case ForgedMode:
			m = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
		case ForgedLength:
			sig = sig[:len(sig)-1]
		}
		sigs[i].Data = &signing.SingleSignatureData{SignMode: m, Signature: sig}
	}
	switch forgery {
	case ForgedMessage:
		if err := b.SetMsgs(other); err != nil {
			return nil, err
		}
		tx.Msgs = []sdk.Msg{other}
	case ForgedFee:
		b.SetFeeAmount(fee.Add(sdk.NewInt64Coin("uartr", 1)))
	case ForgedMemo:
		b.SetMemo("x")
	case ForgedGas:
		b.SetGasLimit(gas - 1)
	case ForgedTimeout:
		b.SetTimeoutHeight(uint64(w.Height) + 100)
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	bz, err := w.EC.TxConfig.TxEncoder()(b.GetTx())
	if err != nil {
		return nil, err
	}
	tx.Bytes = bz
	return tx, nil
}

// upcase copies a message with every address in it written in upper case, which is the same address.
func upcase(m sdk.Msg) sdk.Msg {
	bz, err := proto.Marshal(m)
	if err != nil {
		eng.Bug("cannot marshal %T: %v", m, err)
	}
	c := reflect.New(reflect.TypeOf(m).Elem()).Interface().(sdk.Msg)
	if err := proto.Unmarshal(bz, c); err != nil {
		eng.Bug("cannot unmarshal %T: %v", m, err)
	}
	upcaseValue(reflect.ValueOf(c).Elem())
	return c
}

func upcaseValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		if v.CanSet() && strings.HasPrefix(v.String(), "artr1") {
			v.SetString(strings.ToUpper(v.String()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			upcaseValue(v.Field(i))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				upcaseValue(v.Index(i))
			}
		}
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			upcaseValue(v.Elem())
		}
	}
}

// Deliver executes a transaction in the open block.
func (w *World) Deliver(tx *Tx) abci.ResponseDeliverTx {
	if !w.InBlk {
		eng.Bug("no open block")
	}
	for _, f := range w.BeforeTx {
		f(tx)
	}
	w.Dirty()
	res := guard("deliver-tx", func() abci.ResponseDeliverTx { return w.App.DeliverTx(abci.RequestDeliverTx{Tx: tx.Bytes}) })
	if w.Record {
		b := &w.Blocks[len(w.Blocks)-1]
		b.Txs = append(b.Txs, tx.Bytes)
		b.TxRes = append(b.TxRes, res)
	}
	if w.St != nil {
		w.St.Steps++
	}
	for _, f := range w.AfterTx {
		f(tx, res)
	}
	return res
}

// Send signs and delivers messages.
func (w *World) Send(msgs ...sdk.Msg) abci.ResponseDeliverTx {
	tx, err := w.MakeTx(nil, false, msgs...)
	if err != nil {
		eng.Bug("cannot make a transaction of %v: %v", msgs, err)
	}
	return w.Deliver(tx)
}

// ---------------------------------------------------------------------------------------------------- raw state

// Raw is a copy of the whole state: store name -> key -> value.
type Raw map[string]map[string][]byte

func (w *World) Raw() Raw { return RawOf(w.App, w.Ctx()) }

func RawOf(a *app.ArteryApp, ctx sdk.Context, without ...string) Raw {
	r := Raw{}
next:
	for name, key := range a.GetKeys() {
		for _, x := range without {
			if x == name {
				continue next
			}
		}
		m := map[string][]byte{}
		it := ctx.KVStore(key).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			m[string(it.Key())] = append([]byte(nil), it.Value()...)
		}
		it.Close()
		r[name] = m
	}
	return r
}

// Diff lists the keys that differ: "store/key".
func (a Raw) Diff(b Raw) (ds []RawDiff) {
	for s, m := range a {
		for k, v := range m {
			if x, ok := b[s][k]; !ok || !bytes.Equal(x, v) {
				ds = append(ds, RawDiff{s, k, v, b[s][k]})
			}
		}
	}
	for s, m := range b {
		for k, v := range m {
			if _, ok := a[s][k]; !ok {
				ds = append(ds, RawDiff{s, k, nil, v})
			}
		}
	}
	return
}

type RawDiff struct {
	Store, Key    string
	Before, After []byte
}

func (d RawDiff) String() string {
	return fmt.Sprintf("%s %q: %q -> %q", d.Store, d.Key, d.Before, d.After)
}

// ModuleAddr is the address of a module account.
func ModuleAddr(name string) string { return auth.NewModuleAddress(name).String() }

// hookTasks wraps the handlers of scheduled tasks, so that every single task can be observed. The handlers are found by
// the type of the map that has them; if there is no such map the tasks stay unobserved and HooksTasks is false.
func (w *World) hookTasks() {
	k := w.App.GetScheduleKeeper()
	v := reflect.ValueOf(&k).Elem()
	type handler = func(ctx sdk.Context, data []byte, t time.Time)
	var m map[string]handler
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(m) {
			m = *(*map[string]handler)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	if m == nil {
		return
	}
	w.HooksTasks = true
	var names []string
	for n := range m {
		names = append(names, n)
	}
	for _, n := range names {
		n, f := n, m[n]
		m[n] = func(ctx sdk.Context, data []byte, at time.Time) {
			task := schedule.Task{Time: at, HandlerName: n, Data: data}
			if w.pending == nil {
				w.oracle(func() {
					for _, g := range w.BeforeTask {
						g(ctx, task)
					}
				})
			}
			failed := true
			defer func() {
				if w.pending == nil {
					w.oracle(func() {
						for _, g := range w.AfterTask {
							g(ctx, task, failed)
						}
					})
				}
			}()
			f(ctx, data, at)
			failed = false
		}
	}
}

// oracle keeps a panic of the harness from being recovered by the code under test.
func (w *World) oracle(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*eng.Violation); !ok {
				if _, ok := r.(eng.HarnessError); !ok {
					r = eng.HarnessError{Msg: fmt.Sprintf("oracle: %v\n%s", r, debug.Stack())}
				}
			}
			w.pending = r
		}
	}()
	f()
}
