#!/usr/bin/env python3
"""Writes ../properties.jsonl. One call of P(...) per property."""
import json, os
out = []
def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    out.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

# ------------------------------------------------------------------ money
P("M01", "Total supply always equals the sum of all balances",
  "After every transaction, block begin and block end, for every denomination the recorded total supply equals the sum of the balances of all accounts (module accounts included) and no balance is negative or stored as zero. Only interest accrual creates coins; only explicit burns, the burnt part of fees and the burnt part of revoked delegations destroy them, and by exactly those amounts.",
  ["histories", "inputs"],
  "All genesis states, parameter sets and histories of signed transactions (accepted or rejected), block times and validator behaviour.",
  "Unit tests check a few hand-made flows; supply is adjusted by hand at every mint/burn site and only their combination over arbitrary histories can show that none drifts.",
  ["x/bank/internal/keeper/keeper.go", "x/delegating/keeper/keeper.go", "x/noding/keeper/keeper.go", "util/fee.go"],
  [("supply inflate/deflate next to each mint and burn", "x/bank/internal/keeper/keeper.go"), ("interest accrual", "x/delegating/keeper/keeper.go")],
  [("total supply", "recorded supply per denomination", "x/bank"), ("balances", "coins per account and denomination", "x/bank")],
  ["bank total supply", "bank balances"])
P("M02", "Transfers move exactly the stated amount plus fee, or nothing at all",
  "An accepted transfer credits the recipient with exactly the sent coins, charges the sender those coins plus the transaction fee, credits the fee collector with exactly that fee, and changes nobody else's balance. A transfer is refused without effect when the sender did not sign it, is on the blocked list or cannot cover amount and fee, when it carries a non-transferable denomination, or when it is below the minimum amount.",
  ["inputs", "configurations", "histories"],
  "All senders, recipients (also the same account), coin sets, balances, fee parameters, minimum amounts and blocked-sender lists.",
  "Tests send a handful of fixed amounts; boundary balances, self-sends, multi-denomination sets and parameter combinations are not sampled.",
  ["x/bank/internal/keeper/send.go", "x/bank/internal/keeper/msg_server.go", "x/bank/types/msgs.go"],
  [("send and fee deduction", "x/bank/internal/keeper/send.go"), ("message handler guards", "x/bank/internal/keeper/msg_server.go")],
  (), ["DeliverTx result", "bank balances"])
P("M03", "Transaction fee and its split follow the configured fractions exactly",
  "For every amount and parameter set within 64-bit range, the transaction fee is the configured fraction of the amount, rounded down to the nearest number that the split ratios divide evenly and never above the configured maximum nor above the amount times the fraction. The split hands out the configured proposer and company shares and the remainder exactly, with no coin lost or created and no negative part.",
  ["inputs", "configurations"],
  "All amounts up to very large integers, all fee fractions, maxima and split ratios.",
  "Example tests check a few amounts for one parameter set; rounding and least-common-multiple effects depend on every combination of amount and denominators.",
  ["util/fee.go", "util/fraction.go", "x/bank/internal/keeper/send.go"],
  [("fee calculation", "util/fee.go"), ("fee split", "util/fee.go")],
  (), ["computed fee", "split parts"])
P("M04", "Collected fees are fully paid out at the next block to the right parties",
  "At the start of every block whose proposer's key is known all fees collected so far leave the fee collectors: the plain ones go to the account that last used the proposer's key, the splittable ones go in the configured shares to that proposer and the company account while the rest is burnt. Nobody else's balance changes by it, and nothing stays behind or is paid twice; while the proposer is unknown the fees stay collected until a later block.",
  ["histories", "configurations"],
  "All histories of fee-paying transactions, all split ratios, all proposers including unknown, switched-off and banned ones.",
  "Tests call the payout once with one ratio; interplay with collected amounts, missing proposers and repeated blocks is not explored.",
  ["x/noding/keeper/keeper.go", "x/noding/abci.go", "util/fee.go"],
  [("proposer reward payout", "x/noding/keeper/keeper.go")],
  [("fee collectors", "module accounts that hold the fees", "x/bank")], ["BeginBlock", "bank balances"])
P("M05", "Nobody loses coins or stake without their own signature or a stated rule",
  "Within one block, the holdings of an account decrease only if it signed a transaction that spends (transfer, burn, purchase, delegation, revocation, fee), if its own automatic renewal was due, or if its own delegation revocation matured with the configured burn. Transactions signed by others never decrease its holdings, its granted limits, its paid period or its place in the referral tree.",
  ["histories", "inputs"],
  "All messages from arbitrary signers naming arbitrary other accounts in any address field, within arbitrary histories.",
  "Each handler's signer check is trusted; tests call keepers directly without signatures, so a message acting on someone else's behalf is never tried.",
  ["x/bank/types/msgs.go", "x/profile/types/msgs.go", "x/delegating/types/msgs.go", "x/referral/types/msgs.go", "x/noding/types/msgs.go", "x/earning/types/msgs.go", "x/voting/types/msgs.go"],
  [("signers of every message", "x/*/types/msgs.go"), ("ante handler", "app/app.go")], (), ["DeliverTx", "bank balances", "profiles"])

# ------------------------------------------------------------- delegating
P("D01", "Delegated and revoking coins follow the ledger of the owner's own requests",
  "Delegating turns exactly the requested liquid coins, less the transaction fee, into delegated coins; revoking moves exactly the requested delegated coins aside and creates one revocation that matures exactly after the configured period of the chosen kind. At maturity the owner gets the coins back as liquid except for exactly the fraction that was configured to be burnt when the revocation was asked for, each revocation matures once, and coins set aside always equal the sum of pending revocations.",
  ["histories", "configurations"],
  "All histories of delegations, ordinary and express revocations, overlapping and simultaneous maturities, period and burn parameters changed between.",
  "Tests run one or two revocations with fixed parameters; coinciding maturities, parameter changes in between and amounts at the limits are not covered.",
  ["x/delegating/keeper/keeper.go", "x/delegating/keeper/msg_server.go", "x/delegating/genesis.go"],
  [("delegate / revoke / perform revoking", "x/delegating/keeper/keeper.go"), ("scheduled maturity", "x/schedule/keeper/keeper.go")],
  [("pending revocations", "list of time and amount per account", "x/delegating")], ["DeliverTx", "delegating record", "bank balances"])
P("D02", "Delegation interest equals the rate for the stake and time, paid once",
  "Interest on a delegation is paid in full daily periods and, when the delegated amount changes in between, pro rata for the elapsed part of the period on the stake held during it; a day is never paid twice and an earned part is never dropped or paid to somebody else. The rate is one thirtieth of the configured monthly percentage for the delegated amount plus exactly the bonuses (validator, paid subscription, VPN, storage) the account qualifies for at that moment; accounts at or below the dust threshold earn nothing, and their daily cycle rests until the delegation changes.",
  ["histories", "configurations"],
  "All delegated amounts, rate tables, bonus qualifications (validator, paid subscription, VPN and storage sharing), delegation changes at arbitrary instants, missed blocks and long block gaps.",
  "Tests sample a few amounts at whole-day offsets; partial periods, table edges and bonus combinations are a product too large for examples.",
  ["x/delegating/keeper/keeper.go", "x/delegating/types/params.go"],
  [("accrual and partial accrual", "x/delegating/keeper/keeper.go"), ("percentage table", "x/delegating/types/params.go")],
  [("next accrual time", "when the next daily interest is due", "x/delegating")], ["accrual events", "bank balances"])

# --------------------------------------------------------------- referral
P("R01", "Referral tree and its aggregates always match the accounts' real balances",
  "After any history the referral structure is a forest (every non-root account has one referrer, which lists it exactly once, and there are no cycles), and for every account the stored per-level coin totals, per-level delegated totals, numbers of active referrals and team counts equal those recomputed from the current balances and activity flags of the tree, ten levels deep.",
  ["histories"],
  "All tree shapes (deeper than ten levels, wide, chains), all histories of transfers, delegations, activity changes, registrations, compressions, banishments, returns and transitions.",
  "Aggregates are maintained incrementally by many different sites; tests check a handful of accounts on a fixed small tree after single operations.",
  ["x/referral/keeper/keeper.go", "x/referral/keeper/bunch_updater.go", "x/referral/types/types.go"],
  [("incremental ancestor updates", "x/referral/keeper/keeper.go"), ("bunch updater", "x/referral/keeper/bunch_updater.go")],
  [("account info", "referrer, referrals, coins and delegated per level, active counts", "x/referral")], ["referral info query", "bank balances"])
P("R02", "Status always equals what the status requirements give, with downgrade grace",
  "An account's status is never below what the status requirements (own subscription, active teams, network size and stake) that its referral data meets entitle it to: it rises, one status after another, as soon as the next one's requirements are met. It is lowered by one status only after the requirements have been unmet for the whole grace period, only one scheduled downgrade exists at a time, and a downgrade that is no longer due is cancelled. Compression leaves the lowest status, banishment none.",
  ["histories"],
  "All referral trees and activity/stake histories driving accounts across status boundaries in both directions.",
  "Tests build one network per status; the boundary combinations of teams, leg sizes and coins and flapping across them in time are not sampled.",
  ["x/referral/keeper/status_requirements.go", "x/referral/keeper/bunch_updater.go", "x/referral/keeper/keeper.go"],
  [("status requirements", "x/referral/keeper/status_requirements.go"), ("downgrade scheduling", "x/referral/keeper/keeper.go")],
  [("status and pending downgrade", "per account", "x/referral")], ["referral info", "BeginBlock"])
P("R03", "Inactive accounts are compressed and banished on time and can come back",
  "An account that stays unpaid for the compression period is compressed then and not earlier: its referrals move to its referrer and nothing else in the tree changes. An unpaid account with no stake above the dust threshold is banished one month after its compression (or after losing that stake later), not earlier, while paying or staking above the threshold in time cancels this. A banished account that pays comes back under its nearest former ancestor that is still open, and compression, banishment and return never lose an account or a coin.",
  ["histories", "schedules"],
  "All histories of subscription payments, lapses and stake changes over months of simulated time on arbitrary trees, including several accounts due in the same block.",
  "Tests run single accounts through the lifecycle; overlapping deadlines of parents and children and cancellations at the last moment are not sampled.",
  ["x/referral/keeper/keeper.go", "x/referral/keeper/bunch_updater.go", "x/profile/keeper/subscription.go"],
  [("scheduled compression and banishment", "x/referral/keeper/keeper.go")],
  [("compression and banishment times", "per account", "x/referral")], ["referral info", "schedule tasks"])
P("R04", "Delegation rewards go to the right validators above in the right shares",
  "For every account, the list of beneficiaries of its delegations contains only ancestors that are active validators, at most twenty levels up and within the number of levels their status opens, each at most once, with exactly the share of their status less the one already handed out below; the shares never add up to more than the highest status's share. Payouts computed from it give each of them exactly that share of the amount and nobody else anything.",
  ["inputs", "histories"],
  "All trees, statuses, activity patterns and amounts.",
  "Tests check one fixed chain; skipping inactive ancestors and differential shares depend on the whole ancestor sequence.",
  ["x/referral/keeper/keeper.go", "x/delegating/keeper/keeper.go"],
  [("fee distribution over ancestors", "x/referral/keeper/keeper.go")], (), ["computed fees", "bank balances"])
P("R05", "Referral transfer requires the right consents and cannot corrupt the tree",
  "An account moves under another referrer only after it requested it, paid the configured price and its current referrer agreed, while the request is pending; it then moves with its whole subtree. A banished or unknown account, or a destination inside the subject's own subtree, itself, its current referrer, unknown, or closed for registration (banished, or unpaid and close to compression) is refused. A pending request ends by agreement, refusal or expiry exactly one day after it was made and not by an earlier request's leftovers.",
  ["histories", "schedules"],
  "All sequences of requests, approvals, refusals and expiries by arbitrary signers for arbitrary pairs of accounts in arbitrary trees.",
  "Tests exercise one happy and a few refused paths on a fixed tree; repeated requests and expiry timing interleavings are not sampled.",
  ["x/referral/keeper/keeper.go", "x/referral/keeper/msg_server.go"],
  [("transition request / affirm / cancel / timeout", "x/referral/keeper/keeper.go")],
  [("pending transition", "destination per account", "x/referral")], ["DeliverTx", "referral info"])

# --------------------------------------------------------------- schedule
P("S01", "Every scheduled task runs exactly once, on time and in order",
  "A scheduled task is executed exactly once, in the first block whose time has reached its due time and never before, tasks of one block run in due-time order (and in scheduling order for equal times), and a task that was cancelled before its turn never runs. Neither a failing task, nor one of an unknown kind, nor tasks that schedule or cancel other tasks prevent the remaining ones from running.",
  ["schedules", "histories"],
  "All sets of due times (equal, adjacent, past), handlers that fail, schedule or cancel, arbitrary block time gaps.",
  "Tests schedule a few tasks at distinct times; coincident times, failures in the middle and re-entrant scheduling are not sampled.",
  ["x/schedule/keeper/keeper.go", "x/schedule/abci.go"],
  [("time-ordered task store", "x/schedule/keeper/keeper.go")],
  [("pending tasks", "tasks by due time", "x/schedule")], ["hook invocations", "schedule queries"])

# ---------------------------------------------------------------- profile
P("P01", "Nicknames and card numbers identify exactly one account each",
  "After any history every profile is found by its own card number and by its own nickname in any letter case, no two accounts share a nickname or card number, and a name or card no longer (or never) in use finds nobody. Reserved or malformed nicknames are refused and a card number never changes.",
  ["histories", "inputs"],
  "All histories of registrations and profile updates with arbitrary Unicode nicknames, re-use of released names, renames to differing case.",
  "Tests use a few ASCII names; the index and the profile are updated separately and only arbitrary rename histories show them diverging.",
  ["x/profile/keeper/keeper.go", "x/profile/keeper/msg_server.go", "x/profile/types/msgs.go"],
  [("alias and card indexes", "x/profile/keeper/keeper.go")],
  [("nickname index", "nickname to account", "x/profile"), ("card index", "card number to account", "x/profile")], ["profile queries by nickname and card"])
P("P02", "A subscription is active exactly for the time that was paid for",
  "Paying the tariff charges exactly the price at the current rate, with the extra storage asked for, and extends the active period by one month from its end (or from now if it had lapsed); automatic renewal does the same at the end of the period if it is switched on and the account can pay, and otherwise the account becomes inactive at that moment. The activity flag seen by the referral system agrees with the paid period at every block, and nobody becomes active without paying.",
  ["histories", "configurations"],
  "All histories of payments, lapses, auto-payment switches, rate changes and block times, including renewals due in the same block and with just insufficient balance.",
  "Tests cover single payments with fixed rates; alternation of manual and automatic payments around expiry is not sampled.",
  ["x/profile/keeper/subscription.go", "x/profile/keeper/msg_server.go"],
  [("tariff payment", "x/profile/keeper/subscription.go"), ("scheduled renewal", "x/profile/keeper/subscription.go")],
  [("active until", "end of paid period", "x/profile")], ["profile", "referral activity", "bank balances"])
P("P03", "Storage, VPN and messenger limits change only as bought, and are priced exactly",
  "Each purchase of extra storage, VPN traffic or messenger space raises the corresponding limit by exactly what was bought and charges exactly the configured price for it at the current rate (pro rata to the remaining period for storage and running messenger space), the fee being a part of it; giving up space lowers the limit to what was asked, never below the base or the current usage, and refunds nothing. At the beginning of a paid month VPN traffic used beyond the base is taken off what was bought, messenger space lasts as long as it was paid or prolonged, and no limit ever wraps around.",
  ["histories", "inputs", "configurations"],
  "All amounts, current usages, prices, rates and moments in the paid period.",
  "Tests buy round numbers at fixed moments; integer rounding, remaining-time fractions and usage above the limit are not sampled.",
  ["x/profile/keeper/subscription.go", "x/profile/keeper/msg_server.go"],
  [("purchases and monthly reset", "x/profile/keeper/subscription.go")],
  [("limits and usage", "storage, VPN and messenger counters", "x/profile")], ["profile", "bank balances"])
P("P04", "Only appointed operators may set rates, usage counters and earner marks",
  "Token rate, storage usage, VPN usage and the VPN/storage earner marks are changed only by transactions of accounts that are on the respective list of appointed signers at that time, and then exactly to the value given; any other signer is refused and nothing changes, nor does any proposal or other message change them.",
  ["histories", "inputs"],
  "All signers (listed for another role, formerly listed, never listed) and all values, with lists changing by vote.",
  "Tests call the setters with one allowed signer; the confusion of roles and removed signers is not sampled.",
  ["x/profile/keeper/msg_server.go", "x/profile/keeper/params.go", "x/earning/keeper/msg_server.go"],
  [("signer lists", "x/profile/keeper/params.go"), ("earning signers", "x/earning/keeper/msg_server.go")], (), ["DeliverTx", "params", "profile"])
P("P05", "Registration creates exactly one complete account under an open referrer",
  "A successful registration creates one new account with a profile, a card number, a place under the given referrer and an inactive, unprivileged starting state, charging the creator the configured price unless exempt; the new account has no paid period or limits nobody paid for. Registering an existing address, under an unknown or closed referrer, or with a taken or invalid nickname is refused without effect.",
  ["inputs", "histories"],
  "All creators, referrers in any lifecycle state, nicknames and submitted profile contents.",
  "Tests register with minimal profiles under an ordinary referrer only.",
  ["x/profile/keeper/msg_server.go", "x/profile/keeper/keeper.go", "x/referral/keeper/keeper.go"],
  [("account creation", "x/profile/keeper/keeper.go"), ("referral registration", "x/referral/keeper/keeper.go")], (), ["DeliverTx", "profile", "referral info"])

# ----------------------------------------------------------------- noding
P("N01", "Validator updates are always acceptable to consensus and mirror its set",
  "The validator changes returned at each block are always accepted by the consensus engine (no duplicate or negative entries, no key of an unsupported kind, no removal of an unknown validator, and not an empty set as long as anybody is eligible), and after every block the validator set the consensus engine holds is exactly the set the application believes it has, with the same powers.",
  ["histories", "fault_sequences"],
  "All histories of switching on and off with arbitrary, re-used and rotated node keys, stake changes, missed blocks, evidence, parameter changes.",
  "Tests inspect one update at a time and never feed them to the consensus engine's own rules across blocks.",
  ["x/noding/keeper/keeper.go", "x/noding/abci.go", "x/noding/keeper/vp_generator.go"],
  [("validator update diff", "x/noding/keeper/keeper.go")],
  [("last announced power and key", "per validator", "x/noding")], ["EndBlock validator updates"])
P("N02", "The best qualified validators are selected with the configured powers",
  "At each block the set consists of the eligible switched-on validators with the highest scores (logarithm of the stake, less missed blocks, plus a point per hundred signed in a row) up to the configured number plus, if more are eligible, up to the configured number from the lottery queue in queue order, newcomers queueing at its end and drawn ones returning to it; everybody else has no power. Powers follow the configured distribution over the ranked list, and lottery seats get the configured lottery power.",
  ["inputs", "histories", "configurations"],
  "All numbers of candidates against all limits, score ties, power tables, jailed and unqualified candidates.",
  "Tests use a fixed small set of validators and the default parameters.",
  ["x/noding/keeper/keeper.go", "x/noding/keeper/lottery.go", "x/noding/keeper/vp_generator.go"],
  [("selection and power distribution", "x/noding/keeper/keeper.go")], (), ["validator updates", "noding info"])
P("N03", "Missing blocks jails, repeated offence bans for life, and nothing else does",
  "A validator is jailed exactly when it has missed the configured number of blocks in a row, has no power while jailed and may return only after the configured number of blocks; a second proven offence bans it for life. Blocks signed, missed and proposed are counted for exactly the validators the consensus engine reports, a banned validator never gets power again, and nothing but a voted amnesty forgets missed blocks and jail terms.",
  ["fault_sequences", "histories"],
  "All sequences of signed and missed blocks, double-sign evidence, switching off and on, unjailing attempts at any height, key changes.",
  "Tests run one fixed miss pattern; resets, evidence against departed validators and re-entry are not sampled.",
  ["x/noding/keeper/keeper.go", "x/noding/abci.go"],
  [("missed block counting", "x/noding/keeper/keeper.go"), ("jail and ban", "x/noding/keeper/keeper.go")],
  [("strokes, jail time, ban flag", "per validator", "x/noding")], ["BeginBlock", "noding info"])
P("N04", "Only accounts that meet the criteria can be validators, one key each",
  "Switching a node on succeeds exactly for accounts that are not banned, not already on, meet the configured minimum status and stakes (or are staff) and whose key can be used and nobody else's node is on with; as soon as a change of its status, stake or staff membership makes an account fail the criteria it is switched off and loses its power. Switching off always takes effect and only the owner can do either.",
  ["histories", "inputs"],
  "All accounts, keys (own old, others' active, others' released), criteria parameters, and stake/status histories crossing the thresholds.",
  "Tests check single thresholds on a static set.",
  ["x/noding/keeper/keeper.go", "x/noding/keeper/msg_server.go", "x/referral/keeper/keeper.go"],
  [("qualification check", "x/noding/keeper/keeper.go"), ("stake and status callbacks", "app/app.go")],
  [("validator record", "switched-on flag, key", "x/noding")], ["DeliverTx", "noding info"])

# ----------------------------------------------------------------- voting
P("V01", "A proposal is decided by the government's own votes, once each, two thirds",
  "Only government members can propose and vote, each has one vote per proposal, at most one proposal is open at a time, and a proposal is closed as soon as all members have voted or its time is up. It is agreed exactly if all members have voted and at least two thirds of them agreed, its outcome is recorded in history with the votes cast, and the next proposal starts with a clean slate.",
  ["histories", "schedules"],
  "All interleavings of proposals, votes by members and outsiders, expiry, and changes of the government itself.",
  "Tests walk a few vote counts with a fixed government; expiry and membership changes interleaved with votes are not sampled.",
  ["x/voting/keeper/keeper.go", "x/voting/keeper/government.go"],
  [("vote bookkeeping", "x/voting/keeper/keeper.go")],
  [("current proposal and votes", "", "x/voting"), ("history", "closed proposals", "x/voting")], ["DeliverTx", "voting queries"])
P("V02", "An agreed proposal changes exactly the setting it names; a refused one nothing",
  "When a proposal is agreed, the one parameter, list or member it names takes exactly the proposed value at that moment and no other setting changes; when it is refused or expires unagreed no setting changes at all. Values that the receiving part of the system could not work with are refused when proposed and never break the chain when the vote ends.",
  ["inputs", "histories"],
  "All proposal kinds with all argument values, valid and invalid, against all current settings.",
  "There are several dozen proposal kinds; tests cover some with one value each, and none compares all other settings before and after.",
  ["x/voting/keeper/keeper.go", "x/voting/types/types.go", "x/voting/types/msgs.go"],
  [("proposal execution", "x/voting/keeper/keeper.go")], (), ["module parameters"])
P("V03", "Polls count every eligible answer once and decide by the stated quorum",
  "Only government members start polls, one at a time; while a poll is open every account meeting its requirements (minimum status, or the criteria of a validator) can answer once and nobody else can. At its end the counted answers are exactly those given, the decision is positive exactly if there was a positive answer and their share reaches the quorum (undecided if there is none), the result is archived, and no answer leaks into the next poll.",
  ["histories", "schedules"],
  "All polls, requirement kinds, respondents, answer sequences, repeated answers, timing against the end.",
  "Tests run one poll with a few answers; leftovers across polls and requirement changes during the poll are not sampled.",
  ["x/voting/keeper/keeper.go", "x/voting/types/types.go"],
  [("poll bookkeeping", "x/voting/keeper/keeper.go")],
  [("current poll, answers, history", "", "x/voting")], ["DeliverTx", "voting queries"])

# ---------------------------------------------------------------- earning
P("E01", "Earner marks hold for their period and affect only the account named",
  "Marking an account as VPN or storage earner sets exactly the given moments for exactly that account, a mark counts as active until exactly two days after its moment, and asking about an account's activity or listing earners reports exactly the marks that were set and not replaced or cleared, except that marks which count no more may be dropped.",
  ["histories", "inputs"],
  "All sequences of single and bulk marks, clears, and queries at arbitrary times.",
  "Tests set one mark; replacement, expiry boundaries and bulk updates are not sampled.",
  ["x/earning/keeper/keeper.go", "x/earning/keeper/msg_server.go", "x/earning/types/types.go"],
  [("earner store", "x/earning/keeper/keeper.go")],
  [("earner timestamps", "VPN and storage moments per account", "x/earning")], ["earning queries", "accrual bonus"])

# ----------------------------------------------------------------- global
P("G01", "The same blocks give the same state on every node, restarts included",
  "Executing the same genesis and the same sequence of blocks gives byte-identical application hashes, transaction results and validator updates, and the same events, on every node, also on one that is stopped and reopened from its database at arbitrary heights, and regardless of queries, mempool checks or simulations executed in between and of the settings of the node (caching, pruning, minimum gas price, tracing, indexing, time zone).",
  ["histories", "crash_points"],
  "All genesis states and block histories, all restart heights, all interleaved read-only requests.",
  "Unit tests run one instance only; map iteration order, process state and read paths that write can only show as a divergence between two runs.",
  ["app/app.go", "x/*/keeper/*.go"],
  [("deterministic iteration, no process-local state", "x/*/keeper")], (), ["application hash", "DeliverTx results", "validator updates"])
P("G02", "Exporting the state and importing it elsewhere preserves it completely",
  "A chain state exported after any history can always be imported by a fresh node, a second export from there equals the first, and both chains then react identically to the same further blocks: same balances, profiles, referral data, pending tasks, validators and votes. An export is accepted by genesis validation, and the state of an earlier height is exported later as it was then. (Planned software upgrades and the order of the validator lottery are not a part of the exported state.)",
  ["histories"],
  "All reachable chain states, including pending revocations, jailed and banned validators, open polls and proposals, banished accounts and pending transitions.",
  "Tests export near-initial states and compare raw stores of single modules.",
  ["app/export.go", "x/*/genesis.go", "x/referral/keeper/genesis.go", "x/profile/keeper/genesis.go", "x/delegating/keeper/keeper.go"],
  [("genesis export and import of every module", "x/*/genesis.go")], (), ["exported state", "queries"])
P("G03", "A failed transaction leaves no trace and a check never changes state",
  "A transaction that is refused for any reason, at any of its messages, changes nothing but the sequence number of its signer and the network fee it offered. Mempool checks, simulations and queries change no committed state.",
  ["histories", "inputs", "fault_sequences"],
  "All transactions including several messages of which a later one fails, running out of gas at any point, bad signatures, replays and malformed bytes.",
  "Tests call handlers directly and never check the complete state after a failure.",
  ["app/app.go", "x/*/handler.go", "x/*/keeper/msg_server.go"],
  [("per-transaction cache", "app/app.go")], (), ["complete state before and after"])
P("G04", "No input or history halts the chain",
  "No transaction, query, validator behaviour or passage of time makes block processing panic or stop: every block begins, ends and commits, malformed input is answered with an error, and ordinary transfers keep working afterwards.",
  ["histories", "inputs", "fault_sequences"],
  "All byte strings as transactions and queries, all messages with extreme field values, all block time gaps and vote/evidence lists consensus can deliver.",
  "Tests feed well-formed messages only and do not run block processing after them.",
  ["app/app.go", "x/*/abci.go", "x/*/keeper/*.go", "x/*/types/msgs.go"],
  [("validation of messages", "x/*/types/msgs.go"), ("panic recovery in scheduled tasks", "x/schedule/keeper/keeper.go")], (), ["BeginBlock", "DeliverTx", "EndBlock", "Query"])
P("G05", "Queries report exactly the state that transactions act on",
  "Every query about balances, supply, referral data, profiles, delegations, validators, votes, polls, earners, scheduled tasks and parameters answers with exactly the committed state at the current height, for every account and through both query interfaces, with pages that neither repeat nor skip entries; a question about an unknown account gets an empty answer or an error.",
  ["histories", "inputs"],
  "All reachable states, all accounts including unknown ones, all page sizes and numbers.",
  "Tests mostly call keepers rather than queries; paging and the second interface are hardly touched.",
  ["x/*/keeper/query_server.go", "x/*/keeper/querier.go"],
  [("query servers", "x/*/keeper/query_server.go")], (), ["gRPC queries", "legacy queries"])
P("G06", "A software upgrade happens at its time, once, and changes only what it is for",
  "When the government has agreed on a software upgrade, every node of the old version stops at the first block at or after the agreed time (and stays stopped when restarted), a node of the new version refuses to work earlier, and at that block the new version carries the upgrade out exactly once: it changes the settings and records the named release is for (a fee setting gets its default, earner marks are dropped, collected funds move to the company, top level accounts need no subscription, missing renewals and banishments get scheduled) and nothing else, so that all other settings, balances, the supply and the referral tree stay, and the chain goes on.",
  ["histories", "faults"],
  "All histories before the upgrade, all agreed times, repeated upgrades, restarts with the old and the new binary.",
  "No test carries an upgrade out on a chain with a history, or restarts a node around it.",
  ["app/upgrade.go", "app/app.go", "x/voting/keeper/keeper.go"],
  [("upgrade handlers", "app/upgrade.go"), ("registration of the handlers and the order of BeginBlockers", "app/app.go")], (), ["BeginBlock", "MsgVote"])

# ----------------------------------------------------------------- events
P("T01", "Events account for every coin that moves",
  "Whoever only listens to the events of the chain can keep the books: for every accepted transaction, every beginning and every end of a block, the change of each account's coins equals exactly what the announced transfers, burnings, delegations, revocations, returns, interest, validator rewards and subscription payments say (the coins burnt at an account's own request being in its message), and coins being revoked likewise; a refused transaction announces nothing.",
  ["histories"],
  "All histories of transactions, blocks and scheduled tasks, including failing automatic payments, fees above zero, split and burnt fees, and payments of zero.",
  "Tests look at balances; the few that look at events check that one of them is there.",
  ["x/bank/internal/keeper/send.go", "x/delegating/keeper/keeper.go", "x/profile/keeper/subscription.go", "x/noding/keeper/keeper.go", "util/msg_server.go"],
  [("transfers", "x/bank/internal/keeper/send.go"), ("delegation", "x/delegating/keeper/keeper.go"), ("subscriptions", "x/profile/keeper/subscription.go")], (), ["events of DeliverTx, BeginBlock and EndBlock", "balances"])
P("T02", "Events announce every change once, and as it is",
  "The events of a transaction or a block tell exactly what has changed: every change of a status, of a downgrade's deadline, of a place in the referral tree, of a pending transfer, of activity, banishment, jail, ban, of paid periods and limits, of the open proposal, its votes, its end and the end of a poll is announced, in its order and with the old and new values, names and addresses as they are in the state (whatever characters they have), nothing is announced that did not happen, and every executed message is tagged once. (Returning from banishment and the loss of status by compression or banishment are announced as such, without an event of the status.)",
  ["histories", "inputs"],
  "All histories, all names and texts users can give.",
  "Tests compare single events at most; which events are missing or made up over a history cannot be seen from one call.",
  ["util/msg_server.go", "x/referral/keeper/bunch_updater.go", "x/referral/keeper/keeper.go", "x/referral/keeper/hooks.go", "x/voting/keeper/keeper.go", "x/noding/keeper/keeper.go", "x/profile/keeper/subscription.go"],
  [("events", "util/msg_server.go"), ("referral events", "x/referral/keeper/bunch_updater.go"), ("voting events", "x/voting/keeper/keeper.go")], (), ["events of DeliverTx, BeginBlock and EndBlock"])

# -------------------------------------------------------------------- cli
P("C01", "A command line makes exactly the transaction it says, or is refused",
  "Every `artrd tx` command of the system (sending, burning, delegating, revoking, referral, profile, earning, validator, proposal and poll commands) builds exactly the message its arguments and flags say, with the amounts, addresses or key names, names, texts, dates and portions given, signed by the account of --from and with the memo, fee and gas asked for; what is generated with --generate-only equals what would be broadcast, the broadcast transaction carries a valid signature, and an argument that cannot be understood makes the command fail instead of being taken as something else.",
  ["inputs"],
  "All commands and aliases, all argument values including malformed ones, all combinations of flags, accounts given by key name and by address.",
  "No test runs a command line at all.",
  ["x/*/client/cli/tx.go", "util/cli.go", "cmd/artrd/main.go"],
  [("transaction commands", "x/voting/client/cli/tx.go"), ("transaction commands", "x/profile/client/cli/tx.go"), ("transaction commands", "x/noding/client/cli/tx.go")], (), ["artrd tx commands"])
P("C02", "A query command line prints what the chain answers",
  "Every `artrd query` command of the system asks the chain exactly what its arguments say (account, height, page, limit, status, data) and prints the complete answer, as JSON or as YAML text, whichever is asked for; it fails if the chain refuses the query or an argument cannot be understood.",
  ["inputs", "histories"],
  "All query commands, all accounts and arguments, past heights, both output formats, over generated histories.",
  "No test runs a command line at all.",
  ["x/*/client/cli/query.go", "util/cli.go"],
  [("query commands", "x/*/client/cli/query.go"), ("printing", "util/cli.go")], (), ["artrd query commands"])

# ------------------------------------------------------------------- util
P("U01", "Fraction arithmetic is exact",
  "Sums, differences, products, quotients, comparisons, reductions, integer parts and products with coin amounts of fractions equal those of exact rational arithmetic, and writing a fraction in any supported form (text, JSON, binary) and reading it back gives the same value, while malformed text is refused.",
  ["inputs"],
  "All numerators and denominators in the supported range, all textual forms.",
  "Tests check a dozen fractions; sign, reduction and percentage parsing depend on every combination.",
  ["util/fraction.go"],
  [("fraction type", "util/fraction.go")], (), ["fraction operations"])
P("U02", "Account list helpers keep lists sorted, unique and complete",
  "After any sequence of additions, removals, merges and membership tests on the sorted account lists the system keeps, each list contains exactly the accounts added and not removed, in order and once each, and every membership answer is right.",
  ["inputs", "histories"],
  "All lists and operation sequences including duplicates, absent items, first and last positions.",
  "Tests try a few lists.",
  ["util/lists.go", "x/voting/types/types.go"],
  [("sorted list helpers", "util")], (), ["list contents"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in out:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(out), "properties")
