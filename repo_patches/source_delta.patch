From f253359de9f513fffc610124a55568718dbbf57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 01/52] fix: read fractions back from YAML

The short tag of a YAML string is !!str, so UnmarshalYAML refused everything MarshalYAML writes.
---
 util/fraction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/fraction.go b/util/fraction.go
index 5b0dce6..195a69b 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -59,7 +59,7 @@ func (x Fraction) MarshalYAML() (interface{}, error) {
 }
 
 func (x *Fraction) UnmarshalYAML(value *yaml.Node) error {
-	if value.Kind == yaml.ScalarNode && value.ShortTag() == "string" {
+	if value.Kind == yaml.ScalarNode && value.ShortTag() == "!!str" {
 		return x.unmarshalText(value.Value)
 	}
 	return errors.Errorf("string expected, %s got", value.ShortTag())
-- 
2.43.0


From 7e26d2ddbf8f69a7405f8f23c5b0fdab00361aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 02/52] fix: refuse a zero denominator when a fraction is read
 from text

---
 util/fraction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/fraction.go b/util/fraction.go
index 195a69b..b5306b9 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -122,6 +122,9 @@ func ParseFraction(s string) (Fraction, error) {
 			if err != nil {
 				return Fraction{}, err
 			}
+			if denom.Sign() == 0 {
+				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: %s", s)
+			}
 		} else {
 			denom = big.NewInt(1)
 		}
-- 
2.43.0


From eaca6e512a5284690d6ce5a11d60d8038b84c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:28 +0000
Subject: [PATCH 03/52] fix: read fractions with leading zeros as decimal, not
 octal

---
 util/fraction.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/util/fraction.go b/util/fraction.go
index b5306b9..55b098b 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -99,7 +99,6 @@ func ParseFraction(s string) (Fraction, error) {
 	var (
 		num   = &big.Int{}
 		denom = &big.Int{}
-		err   error
 	)
 
 	if s == "" || s == "nil" {
@@ -118,9 +117,9 @@ func ParseFraction(s string) (Fraction, error) {
 			return Fraction{}, fmt.Errorf("invalid fraction format, 'x%' or 'x/y' expected: " + s)
 		}
 		if len(match) > 2 && len(match[2]) > 0 {
-			err = denom.UnmarshalText([]byte(match[2]))
-			if err != nil {
-				return Fraction{}, err
+			// UnmarshalText would take a leading zero for an octal prefix
+			if _, ok := denom.SetString(match[2], 10); !ok {
+				return Fraction{}, fmt.Errorf("invalid fraction denominator: %s", s)
 			}
 			if denom.Sign() == 0 {
 				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: %s", s)
@@ -130,9 +129,8 @@ func ParseFraction(s string) (Fraction, error) {
 		}
 	}
 
-	err = num.UnmarshalText([]byte(match[1]))
-	if err != nil {
-		return Fraction{}, err
+	if _, ok := num.SetString(match[1], 10); !ok {
+		return Fraction{}, fmt.Errorf("invalid fraction numerator: %s", s)
 	}
 
 	return Fraction{num, denom}, nil
-- 
2.43.0


From 5a7560a9b6960e9720a4caed255bf0b9c0d4e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/52] fix: let scheduled tasks schedule and cancel others
 within one block

PerformSchedule walked over a snapshot of the due tasks and deleted their keys at the end. A task that a
handler scheduled for one of these moments was deleted without ever being performed, and a task that a
handler cancelled was performed nevertheless.
---
 x/schedule/keeper/keeper.go | 47 +++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index 44d514e..d3d43cb 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -11,7 +11,6 @@ import (
 	"github.com/tendermint/tendermint/libs/log"
 
 	"github.com/cosmos/cosmos-sdk/codec"
-	"github.com/cosmos/cosmos-sdk/store/cachekv"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
 
@@ -123,26 +122,44 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 // PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
 // complete.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	store := cachekv.NewStore(ctx.KVStore(k.storeKey))
 	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
-	it := store.Iterator(nil, terminator)
 
-	for ; it.Valid(); it.Next() {
-		var sch types.Schedule
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
-		for _, task := range sch.Tasks {
-			hook := k.eventHooks[task.HandlerName]
-			if hook != nil {
-				performSchedule(ctx, task, hook, k.Logger(ctx))
-			} else {
-				k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
-			}
+	// Every task is taken off the store before it is performed, so a task is free to schedule and to delete others,
+	// including those that are due in this very block.
+	for task, ok := k.popTask(ctx, terminator); ok; task, ok = k.popTask(ctx, terminator) {
+		hook := k.eventHooks[task.HandlerName]
+		if hook != nil {
+			performSchedule(ctx, task, hook, k.Logger(ctx))
+		} else {
+			k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
 		}
-		store.Delete(it.Key())
 	}
+}
 
+// popTask removes the earliest task with a key before the terminator from the store and returns it.
+func (k Keeper) popTask(ctx sdk.Context, terminator []byte) (task types.Task, ok bool) {
+	var (
+		store = ctx.KVStore(k.storeKey)
+		it    = store.Iterator(nil, terminator)
+		key   []byte
+		sch   types.Schedule
+	)
+	for ; it.Valid() && len(sch.Tasks) == 0; it.Next() {
+		key = it.Key()
+		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
+	}
 	it.Close()
-	store.Write()
+	if len(sch.Tasks) == 0 {
+		return types.Task{}, false
+	}
+
+	task, sch.Tasks = sch.Tasks[0], sch.Tasks[1:]
+	if len(sch.Tasks) == 0 {
+		store.Delete(key)
+	} else {
+		store.Set(key, k.cdc.MustMarshalBinaryBare(&sch))
+	}
+	return task, true
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
-- 
2.43.0


From f6a713f805e649a19f4f62fc36edaed20badbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 05/52] fix: refuse to register an account under an unknown
 referrer or itself

---
 x/referral/keeper/keeper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c61e21a..2fe84c9 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -220,6 +220,10 @@ func (k Keeper) appendChild(ctx sdk.Context, parentAcc string, childAcc string,
 			fmt.Sprintf("account %s already exists", childAcc),
 		)
 	}
+	// Without this, an account could be registered under nobody or even under itself
+	if !k.exists(ctx, parentAcc) {
+		return sdkerrors.Wrapf(types.ErrNotFound, "no data for referrer %s", parentAcc)
+	}
 	var (
 		bu        = newBunchUpdater(k, ctx)
 		anc       = parentAcc
-- 
2.43.0


From 09f25b545bac138ae028799afd7d6069ecd9507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 06/52] fix: carry the tenth level along when an account is
 compressed

---
 x/referral/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 2fe84c9..7a821d9 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -366,7 +366,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			value.Coins[k] = value.Coins[k].Add(coins[1])
 			value.Delegated[k] = value.Delegated[k].Add(delegated[1])
 			value.ActiveRefCounts[k] += refsCount[1]
-			for i := 1; i < 10-k; i++ {
+			for i := 1; i <= 10-k; i++ {
 				value.Coins[k+i] = value.Coins[k+i].Add(coins[i+1]).Sub(coins[i])
 				value.Delegated[k+i] = value.Delegated[k+i].Add(delegated[i+1]).Sub(delegated[i])
 				value.ActiveRefCounts[k+i] += refsCount[i+1] - refsCount[i]
-- 
2.43.0


From 66ea665d8127f67a68fb2e3671318fb82648c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 07/52] fix: refuse proposals whose value could not be applied
 or would stop transfers

---
 x/voting/types/args.go  |  7 ++++++-
 x/voting/types/types.go | 11 +++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/x/voting/types/args.go b/x/voting/types/args.go
index 50cecb1..15f6178 100644
--- a/x/voting/types/args.go
+++ b/x/voting/types/args.go
@@ -25,7 +25,12 @@ func (args *SoftwareUpgradeArgs) Validate() error {
 	}
 	return nil
 }
-func (args *MinAmountArgs) Validate() error   { return nil }
+func (args *MinAmountArgs) Validate() error {
+	if args.MinAmount < 0 {
+		return errors.New("amount must be non-negative")
+	}
+	return nil
+}
 func (args *CountArgs) Validate() error       { return nil }
 func (args *StatusArgs) Validate() error      { return args.Status.Validate() }
 func (args *MinCriteriaArgs) Validate() error { return args.MinCriteria.Validate() }
diff --git a/x/voting/types/types.go b/x/voting/types/types.go
index 2b6db6a..10479e4 100644
--- a/x/voting/types/types.go
+++ b/x/voting/types/types.go
@@ -57,6 +57,9 @@ func (p Proposal) Validate() error {
 			if err := args.Price.Validate(); err != nil {
 				return errors.Wrap(err, "invalid args")
 			}
+			if p.Type != PROPOSAL_TYPE_TRANSITION_PRICE && args.Price.Price == 0 {
+				return errors.New("invalid args: price must be positive")
+			}
 		}
 	case PROPOSAL_TYPE_DELEGATION_AWARD:
 		if p.Args == nil {
@@ -137,6 +140,9 @@ func (p Proposal) Validate() error {
 			if err := args.MinAmount.Validate(); err != nil {
 				return errors.Wrap(err, "invalid args")
 			}
+			if p.Type == PROPOSAL_TYPE_MIN_DELEGATE && args.MinAmount.MinAmount == 0 {
+				return errors.New("invalid args: minimal delegation must be positive")
+			}
 		}
 	case
 		PROPOSAL_TYPE_MAX_VALIDATORS,
@@ -151,6 +157,9 @@ func (p Proposal) Validate() error {
 			if err := args.Count.Validate(); err != nil {
 				return errors.Wrap(err, "invalid args")
 			}
+			if p.Type == PROPOSAL_TYPE_MAX_VALIDATORS && args.Count.Count == 0 {
+				return errors.New("positive number expected")
+			}
 		}
 	case
 		PROPOSAL_TYPE_JAIL_AFTER:
@@ -236,6 +245,8 @@ func (p Proposal) Validate() error {
 		}
 		if args, ok := p.Args.(*Proposal_Portions); !ok {
 			return errors.Errorf("invalid args: %T, *Proposal_Portions expected", p.Args)
+		} else if n := len(args.Portions.Fractions); n != 2 {
+			return errors.Errorf("invalid args: %d portions, exactly 2 expected", n)
 		} else if forProposer := args.Portions.Fractions[0]; forProposer.IsNullValue() || forProposer.IsNegative() || forProposer.GT(util.FractionInt(1)) {
 			return errors.Errorf("invalid args: %s, should be in [0; 1]", forProposer.String())
 		} else if forCompany := args.Portions.Fractions[1]; forCompany.IsNullValue() || forCompany.IsNegative() || forCompany.GT(util.FractionInt(1)) {
-- 
2.43.0


From ac052720d5b62d8abbd52fca5ab8673762bdaa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 08/52] fix: refuse to seat a governor twice or to remove the
 last one

---
 x/voting/keeper/keeper.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 4fcb1da..3802b7c 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -446,6 +446,19 @@ func (k Keeper) Propose(ctx sdk.Context, msg types.MsgPropose) error {
 	if !gov.Contains(proposal.GetAuthor()) {
 		return errors.Wrap(types.ErrSignerNotAllowed, msg.Proposal.Author)
 	}
+	switch proposal.Type {
+	case types.PROPOSAL_TYPE_GOVERNMENT_ADD:
+		if gov.Contains(proposal.GetAddress().GetAddress()) {
+			return types.ErrProposalGovernorExists
+		}
+	case types.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
+		if !gov.Contains(proposal.GetAddress().GetAddress()) {
+			return types.ErrProposalGovernorNotExists
+		}
+		if len(gov.Members) == 1 {
+			return types.ErrProposalGovernorLast
+		}
+	}
 
 	params := k.GetParams(ctx)
 	endTime := ctx.BlockTime().Add(time.Duration(params.VotingPeriod) * time.Hour)
-- 
2.43.0


From e487641ef9b1de9b949a6862a3438ca79153112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 09/52] fix: count poll answers in a buffer of their own

---
 x/voting/keeper/keeper.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 3802b7c..62cb68b 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -620,16 +620,13 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 	}
 	ansStore.Set(key, ans)
 
-	var (
-		bz    []byte
-		value uint64
-	)
-	if bz = store.Get(countKey); bz != nil {
+	var value uint64
+	if bz := store.Get(countKey); bz != nil {
 		value = binary.BigEndian.Uint64(bz)
-	} else {
-		bz = make([]byte, 8)
 	}
 	value += 1
+	// Not the slice the store returned: it's shared with the cache beneath, which must survive a rollback
+	bz := make([]byte, 8)
 	binary.BigEndian.PutUint64(bz, value)
 	store.Set(countKey, bz)
 
-- 
2.43.0


From db43d9b4b3a9f3d52f47cd360f7fd2df25859c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 10/52] fix: keep every earning signer on the list once

---
 x/earning/keeper/params.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index 34629c6..ce9742d 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -20,7 +20,13 @@ func (k Keeper) SetParams(ctx sdk.Context, params types.Params) {
 
 func (k Keeper) AddSigner(ctx sdk.Context, address sdk.AccAddress) {
 	p := k.GetParams(ctx)
-	p.Signers = append(p.Signers, address.String())
+	bech32 := address.String()
+	for _, signer := range p.Signers {
+		if signer == bech32 {
+			return
+		}
+	}
+	p.Signers = append(p.Signers, bech32)
 	k.SetParams(ctx, p)
 }
 
-- 
2.43.0


From 149075ba36d528869ec4e2aeeb2fe0d1721c1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 11/52] fix: refuse proposals that would empty a mandatory list

---
 x/voting/keeper/keeper.go          | 25 +++++++++++++++++++++++++
 x/voting/types/errors.go           |  1 +
 x/voting/types/expected_keepers.go |  6 +++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 62cb68b..82ea0c1 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -458,6 +458,26 @@ func (k Keeper) Propose(ctx sdk.Context, msg types.MsgPropose) error {
 		if len(gov.Members) == 1 {
 			return types.ErrProposalGovernorLast
 		}
+	case types.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
+		if isOnly(k.profileKeeper.GetParams(ctx).Creators, proposal.GetAddress().GetAddress()) {
+			return types.ErrProposalLastEntry
+		}
+	case types.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE:
+		if isOnly(k.profileKeeper.GetParams(ctx).TokenRateSigners, proposal.GetAddress().GetAddress()) {
+			return types.ErrProposalLastEntry
+		}
+	case types.PROPOSAL_TYPE_VPN_SIGNER_REMOVE:
+		if isOnly(k.profileKeeper.GetParams(ctx).VpnSigners, proposal.GetAddress().GetAddress()) {
+			return types.ErrProposalLastEntry
+		}
+	case types.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE:
+		if isOnly(k.profileKeeper.GetParams(ctx).StorageSigners, proposal.GetAddress().GetAddress()) {
+			return types.ErrProposalLastEntry
+		}
+	case types.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE:
+		if isOnly(k.earningKeeper.GetParams(ctx).Signers, proposal.GetAddress().GetAddress()) {
+			return types.ErrProposalLastEntry
+		}
 	}
 
 	params := k.GetParams(ctx)
@@ -488,6 +508,11 @@ func (k Keeper) Propose(ctx sdk.Context, msg types.MsgPropose) error {
 	return nil
 }
 
+// isOnly tells if the list consists of the only item, i.e. removing it would leave the list empty
+func isOnly(list []string, item sdk.AccAddress) bool {
+	return len(list) == 1 && list[0] == item.String()
+}
+
 func (k Keeper) Vote(ctx sdk.Context, voter sdk.AccAddress, agree bool) error {
 	proposal := k.GetCurrentProposal(ctx)
 	if proposal == nil {
diff --git a/x/voting/types/errors.go b/x/voting/types/errors.go
index c2a054d..dd1e9ff 100644
--- a/x/voting/types/errors.go
+++ b/x/voting/types/errors.go
@@ -14,5 +14,6 @@ var (
 	ErrProposalGovernorNotExists = sdkerrors.Register(ModuleName, 6, "candidate not in government list")
 	ErrProposalGovernorLast      = sdkerrors.Register(ModuleName, 7, "cannot remove the last governor")
 	ErrNoActivePoll              = sdkerrors.Register(ModuleName, 8, "no active poll")
+	ErrProposalLastEntry         = sdkerrors.Register(ModuleName, 10, "cannot remove the last entry of the list")
 	ErrRespondentNotAllowed      = sdkerrors.Register(ModuleName, 9, "poll requirements don't match")
 )
diff --git a/x/voting/types/expected_keepers.go b/x/voting/types/expected_keepers.go
index dab88b5..53627d3 100644
--- a/x/voting/types/expected_keepers.go
+++ b/x/voting/types/expected_keepers.go
@@ -9,6 +9,7 @@ import (
 
 	bank "github.com/arterynetwork/artr/x/bank/types"
 	"github.com/arterynetwork/artr/x/delegating"
+	earning "github.com/arterynetwork/artr/x/earning/types"
 	noding "github.com/arterynetwork/artr/x/noding/types"
 	profile "github.com/arterynetwork/artr/x/profile/types"
 	referral "github.com/arterynetwork/artr/x/referral/types"
@@ -74,7 +75,10 @@ type signersKeeper interface {
 	AddSigner(ctx sdk.Context, address sdk.AccAddress)
 	RemoveSigner(ctx sdk.Context, address sdk.AccAddress)
 }
-type EarningKeeper signersKeeper
+type EarningKeeper interface {
+	signersKeeper
+	GetParams(ctx sdk.Context) earning.Params
+}
 
 type BankKeeper interface {
 	GetParams(ctx sdk.Context) bank.Params
-- 
2.43.0


From 5ca1d26bd125f7d549080b79a216ff45b7493d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 12/52] fix: keep the records of proposals finished within one
 block apart

---
 x/voting/keeper/keeper.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 82ea0c1..858129d 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -170,10 +170,23 @@ func (k Keeper) SaveProposalToHistory(ctx sdk.Context, store sdk.KVStore) {
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(ctx.BlockHeight()))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(newHistoryKey(store, ctx.BlockHeight()), historyBz)
+}
+
+// newHistoryKey makes up a key for a proposal finished at a specified height. Several proposals may be finished within
+// one block, those after the first have a sequence number appended in order not to overwrite each other.
+func newHistoryKey(store sdk.KVStore, height int64) []byte {
+	key := make([]byte, len(types.KeyHistoryPrefix)+8)
+	copy(key, types.KeyHistoryPrefix)
+	binary.BigEndian.PutUint64(key[len(types.KeyHistoryPrefix):], uint64(height))
+
+	res := key
+	for n := uint32(1); store.Has(res); n++ {
+		res = make([]byte, len(key)+4)
+		copy(res, key)
+		binary.BigEndian.PutUint32(res[len(key):], n)
+	}
+	return res
 }
 
 func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalHistoryRecord) {
@@ -182,10 +195,7 @@ func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalH
 	if err != nil {
 		panic(err)
 	}
-	height := make([]byte, 8)
-	binary.BigEndian.PutUint64(height, uint64(record.Finished))
-	key := append(types.KeyHistoryPrefix, height...)
-	store.Set(key, historyBz)
+	store.Set(newHistoryKey(store, record.Finished), historyBz)
 }
 
 func (k Keeper) SetStartBlock(ctx sdk.Context) {
-- 
2.43.0


From b627efdcc24309eddbeed346e570da8258f1ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 13/52] fix: import poll answers of those who do not qualify
 any more

---
 x/voting/keeper/keeper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 858129d..7365396 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -638,6 +638,11 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 		}
 	}
 
+	return k.addAnswer(ctx, acc, yes)
+}
+
+// addAnswer counts an answer in, it's up to the caller to check if the respondent is eligible
+func (k Keeper) addAnswer(ctx sdk.Context, acc string, yes bool) error {
 	store := prefix.NewStore(ctx.KVStore(k.storeKey), types.KeyPollPrefix)
 	ansStore := prefix.NewStore(store, types.KeyPollAnswers)
 	key := []byte(acc)
@@ -785,7 +790,7 @@ func (k Keeper) LoadPolls(ctx sdk.Context, state types.GenesisState) {
 	if state.CurrentPoll != nil {
 		store.Set(types.KeyPollCurrent, k.cdc.MustMarshalBinaryBare(state.CurrentPoll))
 		for _, ans := range state.PollAnswers {
-			if err := k.Answer(ctx, ans.Acc, ans.Ans); err != nil {
+			if err := k.addAnswer(ctx, ans.Acc, ans.Ans); err != nil {
 				panic(err)
 			}
 		}
-- 
2.43.0


From e5b502e1429335127499d54d75aa25980c32585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 14/52] fix: let only the appointed signers set earners

---
 x/earning/keeper/msg_server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 0057484..b65bf24 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc/status"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
 	"github.com/arterynetwork/artr/x/earning/types"
 )
@@ -16,7 +17,7 @@ type MsgServer Keeper
 var _ types.MsgServer = MsgServer{}
 
 func (s MsgServer) Set(ctx context.Context, msg *types.MsgSet) (resp *types.MsgSetResponse, err error) {
-	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}})
+	_, err = s.SetMultiple(ctx, types.NewMsgSetMultiple(msg.GetSigner(), []types.Earner{msg.Earner}))
 	if err != nil {
 		return nil, err
 	}
@@ -28,6 +29,18 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	signer := msg.GetSigner().String()
+	allowed := false
+	for _, acc := range k.GetParams(sdkCtx).Signers {
+		if acc == signer {
+			allowed = true
+			break
+		}
+	}
+	if !allowed {
+		return nil, sdkerrors.Wrapf(sdkerrors.ErrUnauthorized, "%s is not allowed to set earners", msg.Signer)
+	}
+
 	for _, earner := range msg.Earners {
 		var acc sdk.AccAddress
 		acc, err = sdk.AccAddressFromBech32(earner.Account)
-- 
2.43.0


From f1b6c69b6a684731feccdba422cdd5a6d63fa0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 15/52] fix: count a governor or a respondent once however the
 address is written

---
 x/voting/keeper/keeper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 7365396..df9bbad 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -498,7 +498,7 @@ func (k Keeper) Propose(ctx sdk.Context, msg types.MsgPropose) error {
 	k.SetCurrentProposal(ctx, proposal)
 
 	// Set empty lists of voters
-	agreed, disagreed := types.Government{Members: []string{proposal.Author}}, types.Government{}
+	agreed, disagreed := types.Government{Members: []string{proposal.GetAuthor().String()}}, types.Government{}
 	k.SetAgreed(ctx, agreed)
 	k.SetDisagreed(ctx, disagreed)
 	k.ScheduleEnding(ctx, endTime)
@@ -618,6 +618,7 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 	if err != nil {
 		panic(errors.Wrap(err, "cannot parse acc address"))
 	}
+	acc = addr.String() // the same address may be written in upper case
 
 	switch r := poll.Requirements.(type) {
 	case *types.Poll_CanValidate:
-- 
2.43.0


From 65d38c4833253e60b7ec83b39fbe3f2954e40e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 16/52] fix: keep a nickname as it is looked up, without
 surrounding blanks

---
 x/profile/keeper/genesis.go | 1 +
 x/profile/keeper/keeper.go  | 7 ++++---
 x/profile/types/msgs.go     | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/x/profile/keeper/genesis.go b/x/profile/keeper/genesis.go
index 7b6bb4a..87124b7 100644
--- a/x/profile/keeper/genesis.go
+++ b/x/profile/keeper/genesis.go
@@ -39,6 +39,7 @@ func (k Keeper) ImportProfileRecords(ctx sdk.Context, data []types.GenesisProfil
 		record.Profile.CardNumber = k.CardNumberByAccountNumber(ctx, acc.GetAccountNumber())
 
 		nickname := strings.TrimSpace(record.Profile.Nickname)
+		record.Profile.Nickname = nickname
 		if nickname != "" {
 			k.setProfileAccountByNickname(ctx, nickname, addr)
 		}
diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index e6101f0..58a1d67 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -125,14 +125,15 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 	if err := k.ValidateProfileNickname(ctx, addr, nickname); err != nil {
 		return errors.Wrap(err, "invalid nickname")
 	}
+	profile.Nickname = nickname
 
 	// If old profile filled
 	if oldProfile != nil {
 		// Check if nickname changed
-		if oldProfile.Nickname != profile.Nickname {
+		if oldNickname := strings.TrimSpace(oldProfile.Nickname); oldNickname != nickname {
 			// Profile.Nickname changed - we need to remove old nickname from store
-			if oldProfile.Nickname != "" {
-				k.removeProfileAccountByNickname(ctx, oldProfile.Nickname)
+			if oldNickname != "" {
+				k.removeProfileAccountByNickname(ctx, oldNickname)
 			}
 
 			// If new nickname not empty - add it to KVStore
diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index 872699a..e29b686 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -140,7 +140,7 @@ func (msg MsgUpdateProfile) ValidateBasic() error {
 				if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
 					return sdkerrors.Wrapf(ErrNicknameInvalidChars, "wrong update #%d value", i)
 				}
-				if len(s) < 3 {
+				if len(strings.TrimSpace(s)) < 3 {
 					return sdkerrors.Wrapf(ErrNicknameTooShort, "wrong update #%d value", i)
 				}
 				if strings.HasPrefix(s, "ARTR-") {
-- 
2.43.0


From 8621c247777058545f98c054e945788b7926ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:23 +0000
Subject: [PATCH 17/52] fix: do not let a new account bring limits, paid
 periods or an invalid nickname along

---
 x/profile/keeper/msg_server.go | 12 +++++++++++-
 x/profile/types/msgs.go        | 35 +++++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index 0964e9f..3f84fb0 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -41,7 +41,17 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	}
 
 	if msg.WithProfile() {
-		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), *msg.Profile); err != nil {
+		// Only what the owner could set later on anyway: limits and paid periods are to be paid for.
+		profile := types.Profile{
+			AutoPay:        msg.Profile.AutoPay,
+			Noding:         msg.Profile.Noding,
+			Storage:        msg.Profile.Storage,
+			Validator:      msg.Profile.Validator,
+			Vpn:            msg.Profile.Vpn,
+			Nickname:       msg.Profile.Nickname,
+			AutoPayImExtra: msg.Profile.AutoPayImExtra,
+		}
+		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), profile); err != nil {
 			return nil, errors.Wrap(err, "cannot create an account with profile")
 		}
 	} else {
diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index e29b686..465580b 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -67,7 +67,29 @@ func (msg MsgCreateAccount) ValidateBasic() error {
 	if _, err := sdk.AccAddressFromBech32(msg.Referrer); err != nil {
 		return errors.Wrap(err, "invalid referrer")
 	}
+	if msg.Profile != nil {
+		if err := validateNickname(msg.Profile.Nickname); err != nil {
+			return errors.Wrap(err, "invalid nickname")
+		}
+	}
+
+	return nil
+}
 
+// validateNickname checks what can be checked about a nickname without knowing other ones
+func validateNickname(s string) error {
+	if len(s) == 0 {
+		return nil
+	}
+	if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
+		return ErrNicknameInvalidChars
+	}
+	if len(strings.TrimSpace(s)) < 3 {
+		return ErrNicknameTooShort
+	}
+	if strings.HasPrefix(s, "ARTR-") {
+		return ErrNicknamePrefix
+	}
 	return nil
 }
 
@@ -135,17 +157,8 @@ func (msg MsgUpdateProfile) ValidateBasic() error {
 			if !ok {
 				return errors.Errorf("wrong update #%d value type: %T (string expected)", i, upd.Value)
 			}
-			s := val.String_
-			if len(s) != 0 {
-				if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
-					return sdkerrors.Wrapf(ErrNicknameInvalidChars, "wrong update #%d value", i)
-				}
-				if len(strings.TrimSpace(s)) < 3 {
-					return sdkerrors.Wrapf(ErrNicknameTooShort, "wrong update #%d value", i)
-				}
-				if strings.HasPrefix(s, "ARTR-") {
-					return sdkerrors.Wrapf(ErrNicknamePrefix, "wrong update #%d value", i)
-				}
+			if err := validateNickname(val.String_); err != nil {
+				return sdkerrors.Wrapf(err, "wrong update #%d value", i)
 			}
 		case
 			MsgUpdateProfile_Update_FIELD_AUTO_PAY,
-- 
2.43.0


From b10d3fe0441ffd47543604fdd6c32fa7de327e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:47 +0000
Subject: [PATCH 18/52] fix: refuse transitions of or to accounts that are not
 in the referral tree

---
 x/referral/keeper/keeper.go     |  6 ++++++
 x/referral/keeper/msg_server.go | 13 +++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 7a821d9..c499062 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1251,6 +1251,12 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if _, err = sdk.AccAddressFromBech32(newParent); err != nil {
 		return errors.New("invalid destination address")
 	}
+	if !k.exists(ctx, subject) {
+		return errors.Wrap(types.ErrNotFound, "subject account data missing")
+	}
+	if !k.exists(ctx, newParent) {
+		return errors.Wrap(types.ErrNotFound, "destination account data missing")
+	}
 	if subject == newParent {
 		return errors.New("subject cannot be their own referral")
 	}
diff --git a/x/referral/keeper/msg_server.go b/x/referral/keeper/msg_server.go
index 0cd93ac..7bd8b3b 100644
--- a/x/referral/keeper/msg_server.go
+++ b/x/referral/keeper/msg_server.go
@@ -26,8 +26,8 @@ func (s MsgServer) RequestTransition(ctx context.Context, msg *types.MsgRequestT
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	if err := s.k.RequestTransition(
 		sdkCtx,
-		msg.Subject,
-		msg.Destination,
+		msg.GetSubject().String(),
+		msg.GetDestination().String(),
 	); err != nil {
 		return nil, err
 	}
@@ -38,17 +38,18 @@ func (s MsgServer) RequestTransition(ctx context.Context, msg *types.MsgRequestT
 func (s MsgServer) ResolveTransition(ctx context.Context, msg *types.MsgResolveTransition) (*types.MsgResolveTransitionResponse, error) {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
-	referrer, err := s.k.GetParent(sdkCtx, msg.Subject)
+	subject := msg.GetSubject().String()
+	referrer, err := s.k.GetParent(sdkCtx, subject)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot get subject's current referrer")
 	}
-	if msg.Signer != referrer {
+	if msg.GetSigner().String() != referrer {
 		return nil, sdkerrors.Wrap(sdkerrors.ErrUnauthorized, "tx must be signed by the subject's current referrer")
 	}
 	if msg.GetApproved() {
-		err = s.k.AffirmTransition(sdkCtx, msg.Subject)
+		err = s.k.AffirmTransition(sdkCtx, subject)
 	} else {
-		err = s.k.CancelTransition(sdkCtx, msg.Subject, false)
+		err = s.k.CancelTransition(sdkCtx, subject, false)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a5acfeb8c59a1c6997091138bbfd092d17b6ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 19/52] fix: give a returning subscriber the storage it has
 paid for

---
 x/profile/keeper/subscription.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 3bfc006..989913f 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -67,9 +67,10 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			if storageFeeFrac.IsNegative() {
 				storageFeeFrac = util.FractionZero()
 			}
-			profile.StorageLimit = storageB
 		}
 	}
+	// An inactive account gets what it has just been charged for, too.
+	profile.StorageLimit = storageB
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
 	// NOTE: `tariffTotal` cannot be just assigned to `total` here, 'cause Int is a struct over a pointer.
-- 
2.43.0


From 16018f00f2b797c5c8d5863e0523ab507fa856e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 20/52] fix: compute prices beyond 64 bits instead of wrapping
 around

---
 x/profile/keeper/subscription.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 989913f..ba918b9 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -52,7 +52,8 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 	}
 
 	storageFeeFrac := p.TokenRate.
-		MulInt64((int64(storageB) - int64(p.BaseStorageGb)*util.GBSize) * int64(p.StorageGbPrice)).
+		MulInt64(int64(storageB) - int64(p.BaseStorageGb)*util.GBSize).
+		MulInt64(int64(p.StorageGbPrice)).
 		DivInt64(util.GBSize).Reduce()
 	if profile.IsActive(ctx) {
 		if storageB != profile.StorageLimit {
@@ -144,9 +145,9 @@ func (k Keeper) BuyStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint32)
 	}
 
 	time := k.monthPart(ctx, *profile.ActiveUntil)
-	storageFee := p.TokenRate.MulInt64(int64(extraGb) * int64(p.StorageGbPrice)).Mul(time).Int64()
+	storageFee := p.TokenRate.MulInt64(int64(extraGb)).MulInt64(int64(p.StorageGbPrice)).Mul(time).BigInt()
 
-	if storageFee <= 0 {
+	if storageFee.Sign() <= 0 {
 		k.Logger(ctx).Error(
 			"free storage",
 			"extraGb", extraGb,
@@ -158,7 +159,7 @@ func (k Keeper) BuyStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint32)
 		)
 		panic("free storage")
 	}
-	total := util.Uartrs(storageFee)
+	total := uartrs(storageFee)
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, total); err != nil {
 		k.Logger(ctx).Error(err.Error())
@@ -198,8 +199,8 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 	}
 
 	p := k.GetParams(ctx)
-	storageFee := p.TokenRate.MulInt64(int64(extraGb) * int64(p.StorageGbPrice)).Mul(tq).Int64()
-	if storageFee <= 0 {
+	storageFee := p.TokenRate.MulInt64(int64(extraGb)).MulInt64(int64(p.StorageGbPrice)).Mul(tq).BigInt()
+	if storageFee.Sign() <= 0 {
 		k.Logger(ctx).Error(
 			"free IM extra",
 			"extraGb", extraGb,
@@ -211,7 +212,7 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 		)
 		panic("free IM extra")
 	}
-	total := util.Uartrs(storageFee)
+	total := uartrs(storageFee)
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, total); err != nil {
 		k.Logger(ctx).Error(err.Error())
@@ -257,12 +258,12 @@ func (k Keeper) BuyVpn(ctx sdk.Context, addr sdk.AccAddress, vpnGb uint32) error
 	}
 
 	p := k.GetParams(ctx)
-	vpnFee := p.TokenRate.MulInt64(int64(vpnGb) * int64(p.VpnGbPrice)).Int64()
+	vpnFee := p.TokenRate.MulInt64(int64(vpnGb)).MulInt64(int64(p.VpnGbPrice)).BigInt()
 
-	if vpnFee < 0 {
+	if vpnFee.Sign() < 0 {
 		panic("free VPN")
 	}
-	coins := util.Uartrs(vpnFee)
+	coins := uartrs(vpnFee)
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, coins); err != nil {
 		k.Logger(ctx).Error(err.Error())
@@ -477,8 +478,8 @@ func (k Keeper) prolongImExtra(ctx sdk.Context, addr sdk.AccAddress, profile *ty
 	}
 
 	p := k.GetParams(ctx)
-	storageFee := p.TokenRate.MulInt64(int64(profile.ImLimitExtra) * int64(p.StorageGbPrice)).Int64()
-	if storageFee <= 0 {
+	storageFee := p.TokenRate.MulInt64(int64(profile.ImLimitExtra)).MulInt64(int64(p.StorageGbPrice)).BigInt()
+	if storageFee.Sign() <= 0 {
 		k.Logger(ctx).Error(
 			"free IM extra",
 			"extraGb", profile.ImLimitExtra,
@@ -487,7 +488,7 @@ func (k Keeper) prolongImExtra(ctx sdk.Context, addr sdk.AccAddress, profile *ty
 		)
 		panic("free IM extra")
 	}
-	total := util.Uartrs(storageFee)
+	total := uartrs(storageFee)
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, total); err != nil {
 		k.Logger(ctx).Error(err.Error())
@@ -521,3 +522,8 @@ func (k Keeper) prolongImExtra(ctx sdk.Context, addr sdk.AccAddress, profile *ty
 func (k Keeper) monthPart(ctx sdk.Context, end time.Time) util.Fraction {
 	return util.NewFraction(end.Sub(ctx.BlockTime()).Nanoseconds(), k.scheduleKeeper.OneMonth(ctx).Nanoseconds()).Reduce()
 }
+
+// uartrs is util.Uartrs for an amount that needn't fit into 64 bits.
+func uartrs(amount *big.Int) sdk.Coins {
+	return sdk.NewCoins(sdk.NewCoin(util.ConfigMainDenom, sdk.NewIntFromBigInt(amount)))
+}
-- 
2.43.0


From 3f65827b7ea3bb31af553794bb3cb6ab06593363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 21/52] fix: refuse limits that do not fit into 64 bits

---
 x/profile/keeper/subscription.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index ba918b9..29c1129 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"math"
 	"math/big"
 	"time"
 
@@ -172,7 +173,10 @@ func (k Keeper) BuyStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint32)
 	if err := k.bankKeeper.SendCoins(ctx, addr, companyCollectorAcc, total); err != nil {
 		return errors.Wrap(err, "cannot pay up fee")
 	}
-	profile.StorageLimit += uint64(extraGb) * util.GBSize
+	var err error
+	if profile.StorageLimit, err = raiseLimit(profile.StorageLimit, extraGb, util.GBSize); err != nil {
+		return err
+	}
 	if err := k.SetProfile(ctx, addr, *profile); err != nil {
 		return errors.Wrap(err, "cannot write profile")
 	}
@@ -227,7 +231,10 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 	}
 
 	if timerSet {
-		profile.ImLimitExtra += uint64(extraGb)
+		var err error
+		if profile.ImLimitExtra, err = raiseLimit(profile.ImLimitExtra, extraGb, 1); err != nil {
+			return err
+		}
 	} else {
 		profile.ImLimitExtra = uint64(extraGb)
 
@@ -276,7 +283,10 @@ func (k Keeper) BuyVpn(ctx sdk.Context, addr sdk.AccAddress, vpnGb uint32) error
 	if err := k.bankKeeper.SendCoins(ctx, addr, companyCollectorAcc, coins); err != nil {
 		return errors.Wrap(err, "cannot pay up fee")
 	}
-	profile.VpnLimit += uint64(vpnGb) * util.GBSize
+	var err error
+	if profile.VpnLimit, err = raiseLimit(profile.VpnLimit, vpnGb, util.GBSize); err != nil {
+		return err
+	}
 	if err := k.SetProfile(ctx, addr, *profile); err != nil {
 		return errors.Wrap(err, "cannot write profile")
 	}
@@ -527,3 +537,14 @@ func (k Keeper) monthPart(ctx sdk.Context, end time.Time) util.Fraction {
 func uartrs(amount *big.Int) sdk.Coins {
 	return sdk.NewCoins(sdk.NewCoin(util.ConfigMainDenom, sdk.NewIntFromBigInt(amount)))
 }
+
+// raiseLimit adds extraGb gigabytes to a limit counted in units, a gigabyte being that many of them. A limit in bytes
+// must fit into a signed 64-bit integer.
+func raiseLimit(limit uint64, extraGb uint32, unitsPerGb uint64) (uint64, error) {
+	max := math.MaxInt64 / util.GBSize * unitsPerGb
+	extra := uint64(extraGb) * unitsPerGb
+	if limit > max || extra > max-limit {
+		return limit, errors.Errorf("limit is too high (%d + %d > %d)", limit, extra, max)
+	}
+	return limit + extra, nil
+}
-- 
2.43.0


From d76c095a247f4c626d2d6bbe26413b1d75b8cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 22/52] fix: do not turn VPN overuse into an enormous limit

---
 x/profile/keeper/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 29c1129..8f2f25d 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -379,7 +379,11 @@ func (k Keeper) scheduleRenewIm(ctx sdk.Context, addr sdk.AccAddress, time time.
 func (k Keeper) resetLimits(ctx sdk.Context, addr sdk.AccAddress, p types.Params, profile *types.Profile) {
 	baseVpn := uint64(p.BaseVpnGb) * util.GBSize
 	if profile.VpnCurrent > baseVpn {
-		profile.VpnLimit -= profile.VpnCurrent - baseVpn
+		if excess := profile.VpnCurrent - baseVpn; excess < profile.VpnLimit {
+			profile.VpnLimit -= excess
+		} else {
+			profile.VpnLimit = 0
+		}
 	}
 	profile.VpnCurrent = 0
 
-- 
2.43.0


From ee644fa355a1c09c6d4b1146248278e6c9ca7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:45 +0000
Subject: [PATCH 23/52] fix: charge nothing when the automatic payment for IM
 storage fails

---
 x/profile/keeper/subscription.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 8f2f25d..7faa2f5 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -458,9 +458,14 @@ func (k Keeper) monthlyImRoutine(ctx sdk.Context, addr sdk.AccAddress) error {
 	var err error
 
 	if profile.AutoPayImExtra {
-		err = k.prolongImExtra(ctx, addr, profile)
+		// Either everything is paid or nothing: there's no transaction to be rolled back here.
+		cacheCtx, write := ctx.CacheContext()
+		err = k.prolongImExtra(cacheCtx, addr, profile)
 		if err != nil {
 			k.Logger(ctx).Error("IM store autopay failed", "addr", addr.String(), "err", err)
+		} else {
+			write()
+			ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
 		}
 	} else {
 		err = errors.Errorf("disabled by user")
-- 
2.43.0


From 350d3b96da34da182294a0a57d7577c7b6fb10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:27 +0000
Subject: [PATCH 24/52] fix: perform many overdue tasks in linear time

Every task iterated over the store from the very beginning, walking through the keys of all the tasks
performed before it in the block.
---
 x/schedule/keeper/keeper.go | 83 +++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 23 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index d3d43cb..5cfe697 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -2,6 +2,7 @@ package keeper
 
 import (
 	"bytes"
+	"container/heap"
 	"encoding/binary"
 	"fmt"
 	"time"
@@ -81,6 +82,10 @@ func (k Keeper) scheduleTask(ctx sdk.Context, task types.Task) {
 	sch.Tasks = append(sch.Tasks, task)
 
 	store.Set(key, k.cdc.MustMarshalBinaryBare(&sch))
+
+	if due, ok := ctx.Value(dueKeysCtxKey{}).(*dueKeys); ok && bytes.Compare(key, due.terminator) < 0 {
+		heap.Push(due, key)
+	}
 }
 
 func (k Keeper) DeleteAll(ctx sdk.Context, time time.Time, event string) {
@@ -122,11 +127,12 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 // PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
 // complete.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
+	due := k.dueKeys(ctx, Key(ctx.BlockTime().Add(time.Nanosecond)))
+	ctx = ctx.WithValue(dueKeysCtxKey{}, due)
 
 	// Every task is taken off the store before it is performed, so a task is free to schedule and to delete others,
 	// including those that are due in this very block.
-	for task, ok := k.popTask(ctx, terminator); ok; task, ok = k.popTask(ctx, terminator) {
+	for task, ok := k.popTask(ctx, due); ok; task, ok = k.popTask(ctx, due) {
 		hook := k.eventHooks[task.HandlerName]
 		if hook != nil {
 			performSchedule(ctx, task, hook, k.Logger(ctx))
@@ -136,30 +142,61 @@ func (k Keeper) PerformSchedule(ctx sdk.Context) {
 	}
 }
 
-// popTask removes the earliest task with a key before the terminator from the store and returns it.
-func (k Keeper) popTask(ctx sdk.Context, terminator []byte) (task types.Task, ok bool) {
-	var (
-		store = ctx.KVStore(k.storeKey)
-		it    = store.Iterator(nil, terminator)
-		key   []byte
-		sch   types.Schedule
-	)
-	for ; it.Valid() && len(sch.Tasks) == 0; it.Next() {
-		key = it.Key()
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
-	}
-	it.Close()
-	if len(sch.Tasks) == 0 {
-		return types.Task{}, false
+// dueKeys is a heap of the keys there may be due tasks at.
+type dueKeys struct {
+	keys       [][]byte
+	terminator []byte
+}
+
+// dueKeysCtxKey is a context key for the *dueKeys being processed.
+type dueKeysCtxKey struct{}
+
+func (x *dueKeys) Len() int           { return len(x.keys) }
+func (x *dueKeys) Less(i, j int) bool { return bytes.Compare(x.keys[i], x.keys[j]) < 0 }
+func (x *dueKeys) Swap(i, j int)      { x.keys[i], x.keys[j] = x.keys[j], x.keys[i] }
+func (x *dueKeys) Push(key interface{}) {
+	x.keys = append(x.keys, key.([]byte))
+}
+func (x *dueKeys) Pop() interface{} {
+	n := len(x.keys) - 1
+	key := x.keys[n]
+	x.keys = x.keys[:n]
+	return key
+}
+
+func (k Keeper) dueKeys(ctx sdk.Context, terminator []byte) *dueKeys {
+	due := &dueKeys{terminator: terminator}
+	it := ctx.KVStore(k.storeKey).Iterator(nil, terminator)
+	defer it.Close()
+
+	for ; it.Valid(); it.Next() {
+		due.keys = append(due.keys, append([]byte(nil), it.Key()...)) // They're sorted already
 	}
+	return due
+}
 
-	task, sch.Tasks = sch.Tasks[0], sch.Tasks[1:]
-	if len(sch.Tasks) == 0 {
-		store.Delete(key)
-	} else {
-		store.Set(key, k.cdc.MustMarshalBinaryBare(&sch))
+// popTask removes the earliest due task from the store and returns it.
+func (k Keeper) popTask(ctx sdk.Context, due *dueKeys) (types.Task, bool) {
+	store := ctx.KVStore(k.storeKey)
+	for due.Len() != 0 {
+		var (
+			key = due.keys[0]
+			sch types.Schedule
+		)
+		if bz := store.Get(key); bz != nil {
+			k.cdc.MustUnmarshalBinaryBare(bz, &sch)
+		}
+		if len(sch.Tasks) <= 1 {
+			heap.Pop(due)
+			store.Delete(key)
+		} else {
+			store.Set(key, k.cdc.MustMarshalBinaryBare(&types.Schedule{Tasks: sch.Tasks[1:]}))
+		}
+		if len(sch.Tasks) != 0 {
+			return sch.Tasks[0], true
+		}
 	}
-	return task, true
+	return types.Task{}, false
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
-- 
2.43.0


From 4186421bf96462d0a44e143a0f25a860bde40d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 25/52] fix: switch a validator off when its stake falls below
 the criteria

OnStakeChanged took it out of the lottery queue but never saved the record.
---
 x/noding/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0b05ec4..e75fd08 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -320,7 +320,6 @@ func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
 				Reason:  reason,
 			},
 		)
-		return nil
 	}
 
 	if changed {
-- 
2.43.0


From f14a52b7168b1731933d4042cf5257f28e50a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 26/52] fix: refuse consensus keys of types the consensus
 engine would halt at

---
 x/noding/keeper/keeper.go | 5 +++++
 x/noding/types/errors.go  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e75fd08..f6f3053 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -10,6 +10,7 @@ import (
 	"github.com/pkg/errors"
 
 	abci "github.com/tendermint/tendermint/abci/types"
+	"github.com/tendermint/tendermint/crypto/ed25519"
 	"github.com/tendermint/tendermint/libs/log"
 	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
 
@@ -192,6 +193,10 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 		}
 	}
 
+	if key.Type() != ed25519.KeyType {
+		return sdkerrors.Wrap(types.ErrPubkeyType, key.Type())
+	}
+
 	consAddr := sdk.GetConsAddress(key)
 	_, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr)
 	if err != nil {
diff --git a/x/noding/types/errors.go b/x/noding/types/errors.go
index 6f642b5..bf038fe 100644
--- a/x/noding/types/errors.go
+++ b/x/noding/types/errors.go
@@ -12,4 +12,5 @@ var (
 	ErrJailPeriodNotOver = sdkerrors.Register(ModuleName, 5, "jail period is not finished yet")
 	ErrBannedForLifetime = sdkerrors.Register(ModuleName, 6, "validator is banned for a lifetime")
 	ErrAlreadyOn         = sdkerrors.Register(ModuleName, 7, "noding is already on")
+	ErrPubkeyType        = sdkerrors.Register(ModuleName, 8, "public key type is not supported by consensus")
 )
-- 
2.43.0


From a4873121bef3b98fdf9101fec807fef5acf1420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:52 +0000
Subject: [PATCH 27/52] fix: do not let a jailed validator's key be taken over

Two validators with the same key after the unjail would halt the chain.
---
 x/noding/keeper/keeper.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index f6f3053..484b393 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -198,12 +198,12 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 	}
 
 	consAddr := sdk.GetConsAddress(key)
-	_, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr)
+	busy, err := k.isPubKeyBusy(ctx, consAddr)
 	if err != nil {
 		k.Logger(ctx).Error("couldn't Get validator by consensus address", "consAddr", consAddr)
 		return err
 	}
-	if found && active {
+	if busy {
 		k.Logger(ctx).Error("validator with same public key already exists", "pubKey", key)
 		return types.ErrPubkeyBusy
 	}
@@ -236,6 +236,20 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 	return nil
 }
 
+// isPubKeyBusy returns true if somebody's node is switched on with that key. A jailed validator keeps its key: it's free
+// to return at any moment.
+func (k Keeper) isPubKeyBusy(ctx sdk.Context, consAddr sdk.ConsAddress) (bool, error) {
+	owner, found := k.getNodeOperatorFromIndex(ctx, consAddr)
+	if !found {
+		return false, nil
+	}
+	data, err := k.Get(ctx, owner)
+	if err != nil {
+		return false, err
+	}
+	return data.Status && !data.BannedForLife && consAddr.Equals(consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(data.PubKey))), nil
+}
+
 func (k Keeper) SwitchOff(ctx sdk.Context, accAddr sdk.AccAddress) error {
 	err := k.update(ctx, accAddr, func(d *types.Info) (save bool) {
 		if !d.Status {
-- 
2.43.0


From 46c5cd04360345bc96b67e080980085976a1c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 28/52] fix: do not announce one consensus key twice in a block

Keys were compared as structs holding pointers so that they never were equal.
---
 x/noding/keeper/keeper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 484b393..5c8beff 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -523,8 +523,11 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 	for _, x := range result {
 		found := false
 		for j, y := range unique {
-			if x.PubKey == y.PubKey {
-				unique[j] = x
+			if x.PubKey.Equal(y.PubKey) {
+				// Whoever has lost the key, somebody else has got it.
+				if x.Power > y.Power {
+					unique[j] = x
+				}
 				found = true
 				break
 			}
-- 
2.43.0


From 67d3999b4fb4a53d70910b31f92ceda0edb85a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:27 +0000
Subject: [PATCH 29/52] fix: tell validators when a transition or a banishment
 changes their stake or status

---
 x/referral/keeper/keeper.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c499062..5e8a6b6 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -825,6 +825,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-1])
 			value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-1]
 		}
+		bu.addCallback(StakeChangedCallback, oldParent)
 
 		oldAncestor = value.Referrer
 		return nil
@@ -843,6 +844,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-1])
 			value.ActiveRefCounts[i] += r.ActiveRefCounts[i-1]
 		}
+		bu.addCallback(StakeChangedCallback, newParent)
 
 		newAncestor = value.Referrer
 		return nil
@@ -861,6 +863,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
 					value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-level]
 				}
+				bu.addCallback(StakeChangedCallback, oldAncestor)
 				oldAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -874,6 +877,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
 					value.ActiveRefCounts[i] += r.ActiveRefCounts[i-level]
 				}
+				bu.addCallback(StakeChangedCallback, newAncestor)
 				newAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -940,6 +944,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 		value.CompressionAt = nil
 		value.StatusDowngradeAt = nil
 		value.BanishmentAt = nil
+		bu.addCallback(StatusUpdatedCallback, acc)
 
 		return nil
 	}); err != nil {
@@ -958,6 +963,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 			util.RemoveStringFast(&value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Sub(c)
 			value.Delegated[1] = value.Delegated[1].Sub(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -978,6 +984,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Sub(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Sub(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
@@ -1042,6 +1049,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 			value.Referrals = append(value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Add(c)
 			value.Delegated[1] = value.Delegated[1].Add(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -1062,6 +1070,7 @@ func (k Keeper) ComeBack(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Add(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Add(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
-- 
2.43.0


From 63c56564283aaa66e239f3119b2cafa1c31a39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:53 +0000
Subject: [PATCH 30/52] fix: do not let the timeout of a resolved transition
 cancel a newer one

---
 x/referral/keeper/hooks.go           | 12 +++++++++++-
 x/referral/types/expected_keepers.go |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/referral/keeper/hooks.go b/x/referral/keeper/hooks.go
index 05213e8..8014deb 100644
--- a/x/referral/keeper/hooks.go
+++ b/x/referral/keeper/hooks.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"bytes"
 	"time"
 
 	"github.com/pkg/errors"
@@ -50,7 +51,16 @@ func (k Keeper) PerformCompression(ctx sdk.Context, data []byte, _ time.Time) {
 	}
 }
 
-func (k Keeper) PerformTransitionTimeout(ctx sdk.Context, data []byte, _ time.Time) {
+func (k Keeper) PerformTransitionTimeout(ctx sdk.Context, data []byte, t time.Time) {
+	// A request that was declined or affirmed leaves its timeout behind. That must not cancel a newer request, which has
+	// a timeout of its own.
+	for _, task := range k.scheduleKeeper.GetTasks(
+		ctx, t.Add(time.Nanosecond), ctx.BlockTime().Add(k.scheduleKeeper.OneDay(ctx)+time.Nanosecond),
+	) {
+		if task.HandlerName == TransitionTimeoutHookName && bytes.Equal(task.Data, data) {
+			return
+		}
+	}
 	if err := k.CancelTransition(ctx, string(data), true); err != nil {
 		panic(err)
 	}
diff --git a/x/referral/types/expected_keepers.go b/x/referral/types/expected_keepers.go
index 6c4ed62..1cabb83 100644
--- a/x/referral/types/expected_keepers.go
+++ b/x/referral/types/expected_keepers.go
@@ -8,6 +8,7 @@ import (
 	params "github.com/cosmos/cosmos-sdk/x/params/types"
 
 	"github.com/arterynetwork/artr/x/bank"
+	schedule "github.com/arterynetwork/artr/x/schedule/types"
 )
 
 // ParamSubspace defines the expected Subspace interface
@@ -25,6 +26,7 @@ type AccountKeeper interface {
 type ScheduleKeeper interface {
 	ScheduleTask(ctx sdk.Context, time time.Time, event string, data []byte)
 	Delete(ctx sdk.Context, time time.Time, event string, payload []byte)
+	GetTasks(ctx sdk.Context, since, to time.Time) []schedule.Task
 
 	OneDay(ctx sdk.Context) time.Duration
 	OneWeek(ctx sdk.Context) time.Duration
-- 
2.43.0


From 367647c98fedd437fce52fb369e7902669834baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 31/52] fix: refuse voting powers beyond what the consensus
 engine survives

---
 x/noding/types/types.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/noding/types/types.go b/x/noding/types/types.go
index 0fd562f..ffc4eac 100644
--- a/x/noding/types/types.go
+++ b/x/noding/types/types.go
@@ -60,8 +60,13 @@ func NewInfoWithAccount(acc sdk.AccAddress, info Info) InfoWithAccount {
 	}
 }
 
+// MaxVotingPower is chosen so that however many validators there are (params keep their numbers in 32 bits), their total
+// voting power is below the limit of the consensus engine, which doesn't survive exceeding it.
+const MaxVotingPower = 100_000_000
+
 var (
 	ErrVotingPowerNonPositive = errors.New("voting power must be positive")
+	ErrVotingPowerTooBig      = fmt.Errorf("voting power must not exceed %d", MaxVotingPower)
 	ErrNoSlices               = errors.New("at least one slice is required")
 	ErrFractionNonPositive    = errors.New("part must be positive")
 	ErrWrongPartsTotal        = errors.New("parts total must be equal 100%")
@@ -81,6 +86,9 @@ func (x Distribution) Validate() error {
 	if x.LuckiesVotingPower <= 0 {
 		return errors.Wrap(ErrVotingPowerNonPositive, "invalid luckies_voting_power")
 	}
+	if x.LuckiesVotingPower > MaxVotingPower {
+		return errors.Wrap(ErrVotingPowerTooBig, "invalid luckies_voting_power")
+	}
 	if len(x.Slices) == 0 {
 		return ErrNoSlices
 	}
@@ -89,6 +97,9 @@ func (x Distribution) Validate() error {
 		if slice.VotingPower <= 0 {
 			return errors.Wrapf(ErrVotingPowerNonPositive, "invalid slice #%d", i)
 		}
+		if slice.VotingPower > MaxVotingPower {
+			return errors.Wrapf(ErrVotingPowerTooBig, "invalid slice #%d", i)
+		}
 		if !slice.Part.IsPositive() {
 			return errors.Wrapf(ErrFractionNonPositive, "invalid slice #%d", i)
 		}
-- 
2.43.0


From cbe304069325c05b3d629a736ff6b5868ee58de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 32/52] fix: check statuses after a transition once all the
 totals are updated

---
 x/referral/keeper/keeper.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 5e8a6b6..75463fa 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -807,9 +807,10 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	var (
 		bu                       = newBunchUpdater(k, ctx)
 		oldAncestor, newAncestor string
+		touched                  []string
 	)
 
-	if err = bu.update(oldParent, true, func(value *types.Info) error {
+	if err = bu.update(oldParent, false, func(value *types.Info) error {
 		idx := 0
 		for ; idx < len(value.Referrals) && value.Referrals[idx] != subject; idx++ {
 		}
@@ -826,6 +827,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-1]
 		}
 		bu.addCallback(StakeChangedCallback, oldParent)
+		touched = append(touched, oldParent)
 
 		oldAncestor = value.Referrer
 		return nil
@@ -833,7 +835,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		panic(errors.Wrap(err, "cannot update old referrer data"))
 	}
 
-	if err = bu.update(newParent, true, func(value *types.Info) error {
+	if err = bu.update(newParent, false, func(value *types.Info) error {
 		value.Referrals = append(value.Referrals, subject)
 		if r.Active {
 			value.ActiveReferrals = append(value.ActiveReferrals, subject)
@@ -845,6 +847,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.ActiveRefCounts[i] += r.ActiveRefCounts[i-1]
 		}
 		bu.addCallback(StakeChangedCallback, newParent)
+		touched = append(touched, newParent)
 
 		newAncestor = value.Referrer
 		return nil
@@ -857,13 +860,14 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			break
 		}
 		if oldAncestor != "" {
-			if err = bu.update(oldAncestor, true, func(value *types.Info) error {
+			if err = bu.update(oldAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Sub(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
 					value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-level]
 				}
 				bu.addCallback(StakeChangedCallback, oldAncestor)
+				touched = append(touched, oldAncestor)
 				oldAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -871,13 +875,14 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			}
 		}
 		if newAncestor != "" {
-			if err = bu.update(newAncestor, true, func(value *types.Info) error {
+			if err = bu.update(newAncestor, false, func(value *types.Info) error {
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Add(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
 					value.ActiveRefCounts[i] += r.ActiveRefCounts[i-level]
 				}
 				bu.addCallback(StakeChangedCallback, newAncestor)
+				touched = append(touched, newAncestor)
 				newAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -886,6 +891,13 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 	}
 
+	// An ancestor might be above both referrers, at different levels. So statuses are not to be checked until all is set.
+	for _, acc := range touched {
+		if err = bu.update(acc, true, func(*types.Info) error { return nil }); err != nil {
+			panic(errors.Wrapf(err, "cannot update ancestor's (%s) status", acc))
+		}
+	}
+
 	if err = bu.commit(); err != nil {
 		panic(errors.Wrap(err, "cannot commit changes"))
 	}
-- 
2.43.0


From f6bb979de72942dbe31fe55a7b2e740ad1091097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 33/52] fix: cancel the scheduled downgrade of a compressed
 account

---
 x/referral/keeper/keeper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 75463fa..2e3c24e 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -329,6 +329,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt(),
 		}
 		value.CompressionAt = nil
+		value.StatusDowngradeAt = nil
 		bu.addCallback(StakeChangedCallback, acc)
 		k.setStatus(ctx, value, types.STATUS_LUCKY, acc)
 		bu.addCallback(StatusUpdatedCallback, acc)
-- 
2.43.0


From 6e5aaf0f16cf927fe06b3196c5574d68556edc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:10 +0000
Subject: [PATCH 34/52] fix: update the status of the account whose referral's
 team has changed at the last level

---
 x/referral/keeper/bunch_updater.go |  8 ++++++++
 x/referral/keeper/keeper.go        | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/x/referral/keeper/bunch_updater.go b/x/referral/keeper/bunch_updater.go
index ee348d5..fa8fa17 100644
--- a/x/referral/keeper/bunch_updater.go
+++ b/x/referral/keeper/bunch_updater.go
@@ -215,6 +215,14 @@ func (bu *bunchUpdater) update(acc string, checkForStatusUpdate bool, callback f
 	return nil
 }
 
+// recheckStatus updates the account's status if its referrals' data have been changed but its own have not.
+func (bu *bunchUpdater) recheckStatus(acc string, check bool) error {
+	if acc == "" || !check {
+		return nil
+	}
+	return bu.update(acc, true, func(*types.Info) error { return nil })
+}
+
 func (bu *bunchUpdater) addCallback(eventName string, acc string) {
 	bu.callbacks = append(bu.callbacks, callback{event: eventName, acc: acc})
 }
diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 2e3c24e..73b164c 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -360,7 +360,8 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 	//   * extend leg (as a distance shrinks, new nodes might appear in 10-lvl-radius)
 	// Parent (k = 1) only:
 	//   * new referrals
-	for k, anc := 1, parent; k <= 10 && anc != ""; k++ {
+	anc := parent
+	for k := 1; k <= 10 && anc != ""; k++ {
 		err = bu.update(anc, true, func(value *types.Info) error {
 			bu.addCallback(StakeChangedCallback, anc)
 			anc = value.Referrer
@@ -382,6 +383,10 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			return err
 		}
 	}
+	// The next one has a team under their referral, which is the last one updated
+	if err = bu.recheckStatus(anc, true); err != nil {
+		return err
+	}
 
 	util.EmitEvent(ctx,
 		&types.EventCompression{
@@ -632,6 +637,10 @@ func (k Keeper) SetActive(ctx sdk.Context, acc string, value, checkAncestorsForS
 			return errors.Wrapf(err, "cannot update ancestor's referral count (#%d)", i)
 		}
 	}
+	// The next one has a team under their referral, which is the last one updated
+	if err = bu.recheckStatus(ancestor, checkAncestorsForStatusUpdate); err != nil {
+		return errors.Wrap(err, "cannot update ancestor's status")
+	}
 
 	if parent != "" && !value && !valueIsAlreadySet {
 		k.ScheduleCompression(ctx, acc, ctx.BlockTime().Add(k.CompressionPeriod(ctx)))
@@ -893,8 +902,9 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 	}
 
 	// An ancestor might be above both referrers, at different levels. So statuses are not to be checked until all is set.
-	for _, acc := range touched {
-		if err = bu.update(acc, true, func(*types.Info) error { return nil }); err != nil {
+	// The ancestors next to the last ones updated have teams under their referrals.
+	for _, acc := range append(touched, oldAncestor, newAncestor) {
+		if err = bu.recheckStatus(acc, true); err != nil {
 			panic(errors.Wrapf(err, "cannot update ancestor's (%s) status", acc))
 		}
 	}
-- 
2.43.0


From 0711fd464c2c6a19e1554fe283b6032ca5d2bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:10 +0000
Subject: [PATCH 35/52] fix: refuse transitions of banished accounts

---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 73b164c..5c0830e 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1295,6 +1295,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if r, err = k.Get(ctx, subject); err != nil {
 		return errors.Wrap(err, "subject account data missing")
 	}
+	if r.Banished {
+		return errors.New("subject is banished, there is nothing to move")
+	}
 	if fresh {
 		if r.Transition != "" {
 			return errors.New("transition is already requested")
-- 
2.43.0


From 25d65ff34d60dec2ceebc6e197b416723eba8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 36/52] fix: do not allocate memory by the limit of a poll
 history query

---
 x/voting/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index df9bbad..4fae751 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -744,7 +744,6 @@ func (k Keeper) GetPollHistory(ctx sdk.Context, limit int32, page int32) []types
 	)
 	if limit > 0 {
 		it = sdk.KVStorePrefixIteratorPaginated(store, types.KeyPollHistory, uint(page), uint(limit))
-		res = make([]types.PollHistoryItem, 0, limit)
 	} else {
 		it = sdk.KVStorePrefixIterator(store, types.KeyPollHistory)
 	}
-- 
2.43.0


From d95578faa9f02ce6d382a8c2dfbe7117b83a82fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 37/52] fix: answer a poll history query that has a limit and
 no page

---
 x/voting/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 4fae751..e846299 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -743,6 +743,9 @@ func (k Keeper) GetPollHistory(ctx sdk.Context, limit int32, page int32) []types
 		res []types.PollHistoryItem
 	)
 	if limit > 0 {
+		if page < 1 {
+			page = 1 // it's optional
+		}
 		it = sdk.KVStorePrefixIteratorPaginated(store, types.KeyPollHistory, uint(page), uint(limit))
 	} else {
 		it = sdk.KVStorePrefixIterator(store, types.KeyPollHistory)
-- 
2.43.0


From f7a742b87d7822623943f5e68e3f86b79bc8ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 38/52] fix: answer history and list queries with a huge limit
 or page with the right page

---
 x/earning/keeper/query_server.go | 6 +++---
 x/voting/keeper/keeper.go        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/earning/keeper/query_server.go b/x/earning/keeper/query_server.go
index d42f5b5..240fd9f 100644
--- a/x/earning/keeper/query_server.go
+++ b/x/earning/keeper/query_server.go
@@ -94,10 +94,10 @@ func (s QueryServer) List(ctx context.Context, req *types.ListRequest) (resp *ty
 	defer iterator.Close()
 
 	earners := make([]types.Earner, 0)
-	start := req.Limit * (req.Page - 1)
-	end := req.Limit * req.Page
+	start := int64(req.Limit) * (int64(req.Page) - 1)
+	end := int64(req.Limit) * int64(req.Page)
 
-	for current := int32(0); iterator.Valid() && (current < end); iterator.Next() {
+	for current := int64(0); iterator.Valid() && (current < end); iterator.Next() {
 		if current < start {
 			current++
 			continue
diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index e846299..1477bfa 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -425,10 +425,10 @@ func (k Keeper) GetHistory(ctx sdk.Context, limit int32, page int32) []types.Pro
 	defer iterator.Close()
 
 	records := make([]types.ProposalHistoryRecord, 0)
-	start := limit * (page - 1)
-	end := limit * page
+	start := int64(limit) * (int64(page) - 1)
+	end := int64(limit) * int64(page)
 
-	for current := int32(0); iterator.Valid() && (current < end); iterator.Next() {
+	for current := int64(0); iterator.Valid() && (current < end); iterator.Next() {
 		if current < start {
 			current++
 			continue
-- 
2.43.0


From 4f8dde9ba223e0e4f7a0a5d6e452caa55d4e58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 39/52] fix: count delegated coins at all the open levels if a
 coins query has no depth limit

---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 5c0830e..e529ee5 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -424,6 +424,9 @@ func (k Keeper) GetCoinsInNetwork(ctx sdk.Context, acc string, maxDepth int) (sd
 // (at levels that are open according the person's current status, but no deeper than `maxDepth` levels down).
 // Own coins inclusive.
 func (k Keeper) GetDelegatedInNetwork(ctx sdk.Context, acc string, maxDepth int) (sdk.Int, error) {
+	if maxDepth <= 0 {
+		maxDepth = 10
+	}
 	data, err := k.Get(ctx, acc)
 	if err != nil {
 		return sdk.Int{}, err
-- 
2.43.0


From 8d626f74e0bd49549952785bebd86841da74730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 40/52] fix: answer a proposer query that has no height with
 the last block's proposer

---
 x/noding/keeper/keeper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 5c8beff..2084f70 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -842,7 +842,11 @@ func (k Keeper) PayProposerReward(ctx sdk.Context, acc sdk.AccAddress) (err erro
 	return nil
 }
 
+// GetBlockProposer tells who has proposed a block. Zero height stands for the last one.
 func (k Keeper) GetBlockProposer(ctx sdk.Context, height int64) (sdk.AccAddress, error) {
+	if height == 0 {
+		height = ctx.BlockHeight() - 1 // the last one indexed, see PayProposerReward
+	}
 	result, found := k.getProposerFromIndex(ctx, height)
 	if !found {
 		return nil, types.ErrNotFound
-- 
2.43.0


From 91d390165e7833854613349e73fbec427fef424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 41/52] fix: summing up coins of a record with fewer levels
 must not panic

---
 x/referral/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/referral/types/types.go b/x/referral/types/types.go
index 7b2b60b..dcb9b16 100644
--- a/x/referral/types/types.go
+++ b/x/referral/types/types.go
@@ -57,7 +57,7 @@ func NewInfo(referrer string, coins sdk.Int, delegated sdk.Int) Info {
 
 func (r Info) CoinsAtLevelsUpTo(n int) sdk.Int {
 	result := sdk.NewInt(0)
-	for i := 0; i <= n; i++ {
+	for i := 0; i <= n && i < len(r.Coins); i++ {
 		result = result.Add(r.Coins[i])
 	}
 	return result
@@ -65,7 +65,7 @@ func (r Info) CoinsAtLevelsUpTo(n int) sdk.Int {
 
 func (r Info) DelegatedAtLevelsUpTo(n int) sdk.Int {
 	result := sdk.NewInt(0)
-	for i := 0; i <= n; i++ {
+	for i := 0; i <= n && i < len(r.Delegated); i++ {
 		result = result.Add(r.Delegated[i])
 	}
 	return result
-- 
2.43.0


From 4d59b2e507f03b3f2ffc89b028cffe2f439b4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 42/52] fix: a jailed validator must still own its consensus
 key after an import

---
 x/noding/keeper/keeper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 2084f70..8abcbb0 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -636,9 +636,14 @@ func (k Keeper) SetNonActiveValidators(ctx sdk.Context, validators []types.Valid
 		if err != nil {
 			return errors.Wrap(err, "cannot obtain stake")
 		}
-		if err := k.set(ctx, acc, v.ToInfo(stake.Int64())); err != nil {
+		info := v.ToInfo(stake.Int64())
+		if err := k.set(ctx, acc, info); err != nil {
 			return err
 		}
+		if info.Status && len(info.PubKey) != 0 {
+			// A jailed validator still owns its key.
+			k.addNodeOperatorToIndex(ctx, consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(info.PubKey)), acc)
+		}
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
-- 
2.43.0


From 1f3a9f7fdb8850b32c6ebd416382c2fea6e65c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 43/52] fix: a validator that does not meet changed criteria
 must not make the exported state unimportable

---
 x/noding/keeper/keeper.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 8abcbb0..85fcedf 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -616,15 +616,27 @@ func (k Keeper) SetActiveValidators(ctx sdk.Context, validators []types.Validato
 		if err != nil {
 			return errors.Wrap(err, "cannot obtain stake")
 		}
-		if err := k.set(ctx, acc, v.ToInfo(stake.Int64())); err != nil {
+		if pubkey.Type() != ed25519.KeyType {
+			return errors.Wrapf(types.ErrPubkeyType, "cannot switch on: %s", pubkey.Type())
+		}
+		consAddr := sdk.GetConsAddress(pubkey)
+		busy, err := k.isPubKeyBusy(ctx, consAddr)
+		if err != nil {
+			return errors.Wrap(err, "cannot check public key")
+		}
+		if busy {
+			return errors.Wrap(types.ErrPubkeyBusy, "cannot switch on")
+		}
+		// Whether it's qualified doesn't matter: criteria may have been changed since it was switched on.
+		info := v.ToInfo(stake.Int64())
+		info.Status = true
+		if err := k.set(ctx, acc, info); err != nil {
 			return errors.Wrap(err, "cannot set data")
 		}
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
-		if err := k.SwitchOn(ctx, acc, pubkey); err != nil {
-			return errors.Wrap(err, "cannot switch on")
-		}
+		k.addNodeOperatorToIndex(ctx, consAddr, acc)
 	}
 	return nil
 }
-- 
2.43.0


From 5a0468421351c7fec5852e15f660564e07191345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 44/52] fix: delegating commands refuse amounts with anything
 but digits

fmt.Sscan took "100abc", "1.5" and "1e6" for 100, 1 and 1.
---
 x/delegating/client/cli/tx.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/x/delegating/client/cli/tx.go b/x/delegating/client/cli/tx.go
index 00bbdf3..5458179 100644
--- a/x/delegating/client/cli/tx.go
+++ b/x/delegating/client/cli/tx.go
@@ -2,7 +2,9 @@ package cli
 
 import (
 	"fmt"
+	"strconv"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 
 	"github.com/cosmos/cosmos-sdk/client"
@@ -50,10 +52,9 @@ func GetCmdDelegate() *cobra.Command {
 				return err
 			}
 
-			var amount uint64
-			_, err = fmt.Sscan(args[1], &amount)
+			amount, err := strconv.ParseUint(args[1], 0, 64)
 			if err != nil {
-				return err
+				return errors.Wrap(err, "cannot parse amount")
 			}
 
 			msg := types.NewMsgDelegate(clientCtx.GetFromAddress(), sdk.NewIntFromUint64(amount))
@@ -87,10 +88,9 @@ func GetCmdRevoke() *cobra.Command {
 				return err
 			}
 
-			var amount uint64
-			_, err = fmt.Sscan(args[1], &amount)
+			amount, err := strconv.ParseUint(args[1], 0, 64)
 			if err != nil {
-				return err
+				return errors.Wrap(err, "cannot parse amount")
 			}
 
 			msg := types.NewMsgRevoke(clientCtx.GetFromAddress(), sdk.NewIntFromUint64(amount))
@@ -124,10 +124,9 @@ func GetCmdExpressRevoke() *cobra.Command {
 				return err
 			}
 
-			var amount uint64
-			_, err = fmt.Sscan(args[1], &amount)
+			amount, err := strconv.ParseUint(args[1], 0, 64)
 			if err != nil {
-				return err
+				return errors.Wrap(err, "cannot parse amount")
 			}
 
 			msg := types.NewMsgExpressRevoke(clientCtx.GetFromAddress(), sdk.NewIntFromUint64(amount))
-- 
2.43.0


From d4640e39ab7fcb077436554d863fae78b0ee2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 45/52] fix: validator commands accept a key name as the
 account

The message got the name itself instead of the address.
---
 x/noding/client/cli/tx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/noding/client/cli/tx.go b/x/noding/client/cli/tx.go
index 9cd8430..0839276 100644
--- a/x/noding/client/cli/tx.go
+++ b/x/noding/client/cli/tx.go
@@ -48,7 +48,7 @@ func cmdOn() *cobra.Command {
 			}
 
 			msg := &types.MsgOn{
-				Account: args[0],
+				Account: clientCtx.GetFromAddress().String(),
 				PubKey:  args[1],
 			}
 			err = msg.ValidateBasic()
@@ -79,7 +79,7 @@ func cmdOff() *cobra.Command {
 			}
 
 			msg := &types.MsgOff{
-				Account: args[0],
+				Account: clientCtx.GetFromAddress().String(),
 			}
 			err = msg.ValidateBasic()
 			if err != nil {
@@ -109,7 +109,7 @@ func cmdUnjail() *cobra.Command {
 			}
 
 			msg := &types.MsgUnjail{
-				Account: args[0],
+				Account: clientCtx.GetFromAddress().String(),
 			}
 			err = msg.ValidateBasic()
 			if err != nil {
-- 
2.43.0


From c410fb16fdc65bd422bd32e5798a0aadf73d21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 46/52] fix: polls for a status and above can be started from
 the command line

The expression matched neither a number nor a name of a status.
---
 x/voting/client/cli/tx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/voting/client/cli/tx.go b/x/voting/client/cli/tx.go
index c6a3a2b..7843b57 100644
--- a/x/voting/client/cli/tx.go
+++ b/x/voting/client/cli/tx.go
@@ -1773,7 +1773,7 @@ func cmdStartPoll() *cobra.Command {
 
 			if req := args[1]; req == "validators" {
 				poll.Requirements = &types.Poll_CanValidate{CanValidate: &types.Poll_Unit{}}
-			} else if m := regexp.MustCompile(`/^status:(\d+)|([A-Za-z_]+)$/`).FindStringSubmatch(req); m != nil {
+			} else if m := regexp.MustCompile(`^status:(?:(\d+)|([A-Za-z_]+))$`).FindStringSubmatch(req); m != nil {
 				var status referral.Status
 				if len(m[1]) > 0 {
 					if s, err := strconv.Atoi(m[1]); err != nil {
-- 
2.43.0


From 6f6135f1c3037ac449678103305e3c5636840f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 47/52] fix: profile commands refuse unknown parameters and
 values

Misspelled parameters were dropped, and values other than yes were taken as no.
---
 x/profile/client/cli/tx.go | 59 ++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/x/profile/client/cli/tx.go b/x/profile/client/cli/tx.go
index 18359d5..b7d2a1a 100644
--- a/x/profile/client/cli/tx.go
+++ b/x/profile/client/cli/tx.go
@@ -77,19 +77,28 @@ func cmdCreateAccount() *cobra.Command {
 						return sdkerrors.Wrap(sdkerrors.ErrUnknownRequest, "invalid parameter string "+val)
 					}
 
-					switch strings.ToLower(com[0]) {
-					case "nickname":
+					name := strings.ToLower(com[0])
+					if name == "nickname" {
 						profile.Nickname = com[1]
+						continue
+					}
+					value, err := parseYesNo(com[1])
+					if err != nil {
+						return errors.Wrap(err, "invalid parameter string "+val)
+					}
+					switch name {
 					case "autopay":
-						profile.AutoPay = com[1] == "yes"
+						profile.AutoPay = value
 					case "noding":
-						profile.Noding = com[1] == "yes"
+						profile.Noding = value
 					case "storage":
-						profile.Storage = com[1] == "yes"
+						profile.Storage = value
 					case "validator":
-						profile.Validator = com[1] == "yes"
+						profile.Validator = value
 					case "vpn":
-						profile.Vpn = com[1] == "yes"
+						profile.Vpn = value
+					default:
+						return sdkerrors.Wrap(sdkerrors.ErrUnknownRequest, "unknown parameter "+val)
 					}
 				}
 				msg.Profile = &profile
@@ -134,56 +143,65 @@ func cmdUpdateProfile() *cobra.Command {
 						return sdkerrors.Wrap(sdkerrors.ErrUnknownRequest, "invalid parameter string "+val)
 					}
 
-					switch strings.ToLower(com[0]) {
-					case "nickname":
+					name := strings.ToLower(com[0])
+					if name == "nickname" {
 						msg.Updates = append(msg.Updates, types.MsgUpdateProfile_Update{
 							Field: types.MsgUpdateProfile_Update_FIELD_NICKNAME,
 							Value: &types.MsgUpdateProfile_Update_String_{
 								String_: com[1],
 							},
 						})
+						continue
+					}
+					value, err := parseYesNo(com[1])
+					if err != nil {
+						return errors.Wrap(err, "invalid parameter string "+val)
+					}
+					switch name {
 					case "autopay":
 						msg.Updates = append(msg.Updates, types.MsgUpdateProfile_Update{
 							Field: types.MsgUpdateProfile_Update_FIELD_AUTO_PAY,
 							Value: &types.MsgUpdateProfile_Update_Bool{
-								Bool: com[1] == "yes",
+								Bool: value,
 							},
 						})
 					case "noding":
 						msg.Updates = append(msg.Updates, types.MsgUpdateProfile_Update{
 							Field: types.MsgUpdateProfile_Update_FIELD_NODING,
 							Value: &types.MsgUpdateProfile_Update_Bool{
-								Bool: com[1] == "yes",
+								Bool: value,
 							},
 						})
 					case "storage":
 						msg.Updates = append(msg.Updates, types.MsgUpdateProfile_Update{
 							Field: types.MsgUpdateProfile_Update_FIELD_STORAGE,
 							Value: &types.MsgUpdateProfile_Update_Bool{
-								Bool: com[1] == "yes",
+								Bool: value,
 							},
 						})
 					case "validator":
 						msg.Updates = append(msg.Updates, types.MsgUpdateProfile_Update{
 							Field: types.MsgUpdateProfile_Update_FIELD_VALIDATOR,
 							Value: &types.MsgUpdateProfile_Update_Bool{
-								Bool: com[1] == "yes",
+								Bool: value,
 							},
 						})
 					case "vpn":
 						msg.Updates = append(msg.Updates, types.MsgUpdateProfile_Update{
 							Field: types.MsgUpdateProfile_Update_FIELD_VPN,
 							Value: &types.MsgUpdateProfile_Update_Bool{
-								Bool: com[1] == "yes",
+								Bool: value,
 							},
 						})
 					case "im_autopay":
 						msg.Updates = append(msg.Updates, types.MsgUpdateProfile_Update{
 							Field: types.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY,
 							Value: &types.MsgUpdateProfile_Update_Bool{
-								Bool: com[1] == "yes",
+								Bool: value,
 							},
 						})
+					default:
+						return sdkerrors.Wrap(sdkerrors.ErrUnknownRequest, "unknown parameter "+val)
 					}
 				}
 			}
@@ -574,3 +592,14 @@ func cmdProlongImExtra() *cobra.Command {
 	util.AddTxFlagsToCmd(cmd)
 	return cmd
 }
+
+func parseYesNo(s string) (bool, error) {
+	switch strings.ToLower(s) {
+	case "yes":
+		return true, nil
+	case "no":
+		return false, nil
+	default:
+		return false, errors.Errorf("yes or no expected, got %q", s)
+	}
+}
-- 
2.43.0


From fe46327ae4ef140850895cc5bba8ee521f6c1983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:30 +0000
Subject: [PATCH 48/52] fix: the query of the list of earners honours its limit
 and page arguments

---
 x/earning/client/cli/query.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/x/earning/client/cli/query.go b/x/earning/client/cli/query.go
index 153beae..bf4f6a9 100644
--- a/x/earning/client/cli/query.go
+++ b/x/earning/client/cli/query.go
@@ -3,7 +3,9 @@ package cli
 import (
 	"context"
 	"fmt"
+	"strconv"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
 
@@ -68,7 +70,7 @@ func getCmdList() *cobra.Command {
 		Use:   "list [limit [page]]",
 		Short: "Get a loaded earner list",
 		Args:  cobra.MaximumNArgs(2),
-		RunE: func(cmd *cobra.Command, _ []string) error {
+		RunE: func(cmd *cobra.Command, args []string) error {
 			clientCtx, err := client.GetClientQueryContext(cmd)
 			if err != nil {
 				return err
@@ -78,6 +80,20 @@ func getCmdList() *cobra.Command {
 				Limit: int32(viper.GetInt(FlagLimit)),
 				Page:  int32(viper.GetInt(FlagPage)),
 			}
+			if len(args) > 0 {
+				n, err := strconv.ParseInt(args[0], 0, 32)
+				if err != nil {
+					return errors.Wrap(err, "cannot parse limit")
+				}
+				req.Limit = int32(n)
+			}
+			if len(args) > 1 {
+				n, err := strconv.ParseInt(args[1], 0, 32)
+				if err != nil {
+					return errors.Wrap(err, "cannot parse page")
+				}
+				req.Page = int32(n)
+			}
 
 			res, err := queryClient.List(context.Background(), req)
 			if err != nil {
-- 
2.43.0


From 4c32c918e6b8cca91089359aca2abb2a5dff0986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:31 +0000
Subject: [PATCH 49/52] fix: an exported state without a current proposal is a
 valid genesis

Empty lists of votes are exported as [], not as null.
---
 x/voting/types/genesis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/voting/types/genesis.go b/x/voting/types/genesis.go
index c6bd2e7..7d0997e 100644
--- a/x/voting/types/genesis.go
+++ b/x/voting/types/genesis.go
@@ -46,10 +46,10 @@ func ValidateGenesis(data GenesisState) error {
 		if data.StartBlock != 0 {
 			return errors.New("invalid start_block: must be zero unless current_proposal is set")
 		}
-		if data.Agreed != nil {
+		if len(data.Agreed) != 0 {
 			return errors.New("invalid agreed: must be empty unless current_proposal is set")
 		}
-		if data.Disagreed != nil {
+		if len(data.Disagreed) != 0 {
 			return errors.New("invalid disagreed: must be empty unless current_proposal is set")
 		}
 	} else {
-- 
2.43.0


From 3cba2c4ba38a6328bc8af60e2454c8135bd6e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:31 +0000
Subject: [PATCH 50/52] fix: a change of status updates the score of a
 validator

The stake it's made of depends on how many lines the status opens.
---
 x/noding/keeper/keeper.go | 32 ++------------------------------
 1 file changed, 2 insertions(+), 30 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 85fcedf..797b95c 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -272,37 +272,9 @@ func (k Keeper) SwitchOff(ctx sdk.Context, accAddr sdk.AccAddress) error {
 	return nil
 }
 
+// OnStatusUpdate does the same as OnStakeChanged, because the stake depends on how many lines the status opens.
 func (k Keeper) OnStatusUpdate(ctx sdk.Context, acc sdk.AccAddress) error {
-	is, err := k.IsValidator(ctx, acc)
-	if err != nil {
-		return err
-	}
-	if !is {
-		return nil
-	}
-
-	var reason types.Reason
-	is, _, reason, err = k.IsQualified(ctx, acc)
-	if err != nil {
-		return err
-	}
-	if is {
-		return nil
-	}
-
-	k.Logger(ctx).Info("not qualified anymore, banishing from validators", "account", acc)
-	err = k.SwitchOff(ctx, acc)
-	if err != nil {
-		return err
-	}
-
-	util.EmitEvent(ctx,
-		&types.EventValidatorBanished{
-			Address: acc.String(),
-			Reason:  reason,
-		},
-	)
-	return nil
+	return k.OnStakeChanged(ctx, acc)
 }
 
 func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
-- 
2.43.0


From 542806c4bf1adf74be3a9e787301b67e2f9bf78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:11 +0000
Subject: [PATCH 51/52] fix: names in events are announced as they are

Only \" and \\ were unescaped: line breaks, tabs, markup and other
characters JSON escapes were announced as escape sequences, and
a backslash before a quote got lost.
---
 util/msg_server.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/util/msg_server.go b/util/msg_server.go
index 4b9bccc..ae81f70 100644
--- a/util/msg_server.go
+++ b/util/msg_server.go
@@ -3,8 +3,6 @@ package util
 import (
 	"bytes"
 	"encoding/json"
-	"regexp"
-	"strings"
 
 	"github.com/gogo/protobuf/proto"
 	"github.com/pkg/errors"
@@ -67,15 +65,11 @@ func patchEvent(tev proto.Message) sdk.Event {
 		if bytes.Equal(v, []byte("null")) {
 			continue
 		}
-		m, err := regexp.Match(`^".*"$`, v)
-		if err != nil {
-			panic(errors.Wrap(err, "regexp failed"))
-		}
-		if m {
-			s := string(v)
-			s = s[1 : len(s)-1]
-			s = strings.ReplaceAll(s, `\"`, `"`)
-			s = strings.ReplaceAll(s, `\\`, `\`)
+		if len(v) > 0 && v[0] == '"' {
+			var s string
+			if err = json.Unmarshal(v, &s); err != nil {
+				panic(errors.Wrap(err, "cannot unquote string"))
+			}
 			v = []byte(s)
 		}
 
-- 
2.43.0


From b07e53cbf6fd74ab4acd2a084d0710653fe7e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:11 +0000
Subject: [PATCH 52/52] fix: unjailing a switched-off validator announces
 nothing

validator_banished was emitted for an account that was off already.
---
 x/noding/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 797b95c..5957150 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -737,7 +737,7 @@ func (k Keeper) Unjail(ctx sdk.Context, acc sdk.AccAddress) error {
 	}
 	if q {
 		data.UpdateScore(delegation.Int64())
-	} else {
+	} else if data.Status {
 		k.Logger(ctx).Info("banishing from validators", "acc", acc, "reason", reason)
 		data.Status = false
 		util.EmitEvent(ctx,
-- 
2.43.0

