import json
P=[]
SRC="programs/presale/src/"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith("merkle") else SRC+f for f in files],
        mechanism=[dict(name=n,where=SRC+w if not w.startswith("merkle") else w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=SRC+w) for n,m,w in state],
        observe_at=list(observe),hook_needed=None)))
INT="The 118 integration tests sample a handful of round amounts with one to three buyers (and need an SBF build); the 19 that run here touch only a few helpers. "
p("C01","Quote vault always covers every outstanding refund, payout and fee",
 "In every reachable state of a presale, the quote vault holds at least everything it still owes: while the sale runs, all recorded deposits plus deposit fees; once failed, every buyer's not-yet-taken full refund; once completed, the creator's not-yet-withdrawn proceeds plus uncollected fee plus every buyer's not-yet-taken oversubscription refund. No instruction moves quote tokens out of the vault except as one of those payouts, and rounding never makes the sum of payouts exceed what was paid in.",
 ["histories","inputs","configurations"],"every sequence of instructions by any number of buyers (one inductive step from an arbitrary consistent state, buyers outside the step summarised by sums), every amount, fee rate, registry, sale mode",
 INT+"Solvency is a statement over all histories and all roundings; no test sums floor-divided refunds over arbitrary buyer splits.",
 ["state/presale.rs","state/presale_registry.rs","state/escrow.rs","instructions/process_deposit.rs","instructions/process_withdraw.rs","instructions/process_withdraw_remaining_quote.rs","instructions/process_creator_withdraw.rs","instructions/process_creator_collect_fee.rs"],
 [("running totals updated with checked arithmetic","state/presale.rs"),("floor division of refunds per registry and per escrow","state/presale_registry.rs"),("once-only flags","instructions/process_creator_withdraw.rs")],
 [("total_deposit / total_deposit_fee","sum of recorded deposits and fees","state/presale.rs")],["quote vault token transfers","presale, registry and escrow account data"])
p("C02","Base vault always covers every buyer's full entitlement",
 "For a completed presale, the base tokens promised to all buyers of a registry never exceed the tokens that registry sold, and tokens sold across registries never exceed the presale supply locked in the vault at creation. Claims plus the unsold-token action together never take more than the presale supply out of the base vault, whatever the order in which they happen.",
 ["histories","inputs","configurations"],"every deposit split among any number of buyers (two or three explicit buyers plus an arbitrary remainder), every supply, price, vesting schedule and time, all sale modes",
 INT+"Over-allocation comes from rounding over arbitrary splits and from the interaction between unsold-token action and claims.",
 ["math/claim_math.rs","presale_mode_handler/fixed_price_presale.rs","presale_mode_handler/mod.rs","instructions/process_claim.rs","instructions/process_perform_unsold_base_token_action.rs"],
 [("floor division of the user's share","math/claim_math.rs"),("sold tokens capped at registry supply","presale_mode_handler/fixed_price_presale.rs")],(),["base vault token transfers and burns"])
p("C03","Deposits are credited and charged exactly",
 "A successful deposit credits the buyer's escrow, the registry and the presale by one and the same amount, never more than the amount the buyer asked for, and records one and the same fee in all three. The vault receives exactly the credited amount plus that fee, taken from the payer; nothing else in any escrow or registry changes, and a deposit that credits zero is rejected.",
 ["inputs","histories","configurations"],"every presale and escrow state, requested amount, fee rate, mode and time at which the deposit succeeds",
 INT+"Equality of four ledgers and the vault must hold for every amount and every state, not the sampled ones.",
 ["instructions/process_deposit.rs","state/presale.rs","state/presale_registry.rs","state/escrow.rs","presale_mode_handler/fixed_price_presale.rs","math/fee_math.rs"],
 [("three-level update in one call chain","state/presale.rs"),("transfer of the fee-included amount","instructions/process_deposit.rs")],
 (),["escrow/registry/presale totals","quote token transfer amount"])
p("C04","Deposit caps are never exceeded",
 "After any successful deposit, a buyer's total deposit lies within the registry's per-buyer minimum and maximum and does not exceed the buyer's personal cap; the presale's total deposit never exceeds the maximum cap in fixed-price and first-come-first-served sales, while pro-rata sales may exceed it. In a fixed-price sale a registry never accepts deposits for more tokens than its supply (beyond rounding of the last token), and a requested amount above the room left to buyer, registry and sale is cut down to exactly that room instead of failing or overshooting; a deposit that fits is accepted.",
 ["inputs","histories","configurations"],"every cap configuration, prior deposits and requested amount",
 INT+"Boundary interplay of four caps over u64 is not reachable by samples.",
 ["instructions/process_deposit.rs","state/escrow.rs","state/presale_registry.rs","presale_mode_handler/fixed_price_presale.rs","presale_mode_handler/fcfs_presale.rs","presale_mode_handler/prorata_presale.rs"],
 [("remaining deposit quota = min of global, personal, registry quota","presale_mode_handler/mod.rs"),("escrow deposit validated after update","state/presale_registry.rs")],(),["escrow and presale totals after deposit"])
p("C05","Fixed-price buyers pay exactly the listed price for whole tokens",
 "In a fixed-price sale a deposit is trimmed to the smallest quote amount that buys the same whole number of base tokens at the listed price, so no buyer pays for a fraction of a token and no token is sold below the listed price. The tokens counted as sold for a registry are the deposits divided by the price, rounded down and capped by the registry supply, and a partial withdrawal is trimmed the same way while a full withdrawal returns the whole deposit.",
 ["inputs","configurations"],"every 64.64 price and every u64 amount",
 "The proptests in the repository sample prices and amounts for one helper; trimming errors show up only at particular residues.",
 ["presale_mode_handler/fixed_price_presale.rs","instructions/process_deposit.rs","instructions/process_withdraw.rs"],
 [("floor to tokens then ceil to quote","presale_mode_handler/fixed_price_presale.rs")],(),["credited deposit and withdrawn amount versus price"])
p("C06","Deposit fee is the advertised share of the gross payment",
 "For every deposit amount and registry fee rate, the gross payment is the smallest amount whose fee share (rate times gross) leaves at least the deposit, i.e. gross = ceil(deposit*10000/(10000-rate)) and fee = gross - deposit. A zero rate charges nothing, the fee never decreases when amount or rate grows, and the calculation never wraps.",
 ["inputs"],"every u64 amount and every fee rate accepted at initialization",
 "Two unit tests check one amount and one rate (500 bps).",
 ["math/fee_math.rs","state/presale_registry.rs"],[("ceil division over u128","math/fee_math.rs")],(),["fee recorded and gross amount transferred"])
p("C07","Withdrawals during the sale return exactly the recorded deposit",
 "Only the escrow's owner can withdraw, only while the sale is ongoing, never in a first-come-first-served sale and never in a fixed-price sale created with withdrawals disabled; the amount is positive, at most what was asked for and at most the buyer's deposit. The vault pays out exactly the amount by which escrow, registry and presale deposits drop, and deposit fees already charged are not returned or altered.",
 ["inputs","histories","configurations"],"every presale and escrow state, signer, amount and time",
 INT+"Authorization and mode gating must hold for every key and configuration.",
 ["instructions/process_withdraw.rs","state/presale.rs","presale_mode_handler/mod.rs"],
 [("phase, amount and can_withdraw guards","instructions/process_withdraw.rs")],(),["quote transfer out of vault, deposits after"])
p("C08","Every instruction is confined to its phase of the sale",
 "The phase is a function of time and totals: before start nothing can be deposited, between start and end the sale is ongoing, and from the end on it is completed exactly when deposits reach the minimum cap and failed otherwise. Escrow creation, deposits and withdrawals succeed only while ongoing; claims, fee collection and the unsold-token action only when completed; creator withdrawal and refunds only after the end.",
 ["inputs","histories","schedules"],"every clock value, every start/end/totals combination, every instruction",
 INT+"Boundary instants (now = start, now = end, deposit = minimum cap) are only partly sampled.",
 ["state/presale.rs","instructions/process_deposit.rs","instructions/process_withdraw.rs","instructions/process_claim.rs","instructions/process_creator_withdraw.rs","instructions/process_creator_collect_fee.rs","instructions/process_withdraw_remaining_quote.rs","instructions/process_perform_unsold_base_token_action.rs","instructions/create_escrow/process_create_escrow.rs"],
 [("get_presale_progress","state/presale.rs"),("per-instruction require!","instructions/process_deposit.rs")],(),["success or failure of each instruction at each time"])
p("C09","Vesting releases the advertised schedule, never early, never backwards",
 "A buyer's cumulative entitlement is the immediate-release share from the immediate release time on, plus the rest linearly over the vesting period from the vesting start, each scaled by the buyer's share of the registry's deposits and rounded down. It is zero before both times, never decreases as time passes, and equals the buyer's full share (up to rounding) from the end of vesting on, never more.",
 ["inputs","schedules","configurations"],"every supply, release share, lock and vesting duration, share and pair of clock values",
 INT+"Monotonicity over all pairs of instants and exactness at the boundaries are universally quantified.",
 ["math/claim_math.rs","presale_mode_handler/fcfs_presale.rs","presale_mode_handler/prorata_presale.rs","presale_mode_handler/fixed_price_presale.rs"],
 [("calculate_cumulative_claimable_amount_for_user","math/claim_math.rs")],(),["claimable and claimed amounts over time"])
p("C10","Claiming pays each buyer exactly the entitlement, once",
 "After a successful claim the buyer has received in total exactly the cumulative entitlement at that time: the base vault pays the difference to what was claimed before, to a token account chosen by the escrow's owner, and the claimed totals of escrow, registry and presale grow by that amount. Refreshing an escrow at any time by anyone, claiming repeatedly or claiming late changes nothing about the total received, and claims of one buyer do not affect another's.",
 ["histories","inputs","schedules"],"every interleaving of refreshes and claims at every pair of times from every consistent escrow state",
 INT+"Path independence over refresh/claim interleavings is a history property.",
 ["instructions/process_claim.rs","instructions/process_refresh_escrow.rs","state/escrow.rs","presale_mode_handler/mod.rs"],
 [("pending accumulates cumulative minus (claimed+pending)","presale_mode_handler/mod.rs"),("claim moves pending into claimed","state/escrow.rs")],(),["base token transfers, escrow claimed/pending"])
p("C11","A failed presale refunds every buyer in full, exactly once",
 "When a presale ended below its minimum cap, each buyer can take back the whole deposit and the whole deposit fee exactly once, whatever the other buyers or the creator did before. A second attempt is rejected, and the refund statistics grow by the refunded amount.",
 ["histories","inputs"],"every failed presale state, mode, registry and escrow",
 INT+"Exactly-once and independence from other parties are history properties.",
 ["instructions/process_withdraw_remaining_quote.rs","state/presale.rs","state/escrow.rs"],
 [("is_remaining_quote_withdrawn flag","state/escrow.rs"),("failed branch of validate_and_get_escrow_remaining_quote","state/presale.rs")],(),["quote transfer to buyer, escrow flag"])
p("C12","Oversubscribed pro-rata sales refund the excess fairly",
 "When a pro-rata sale completes, each buyer gets back, once, the buyer's share of the deposits above the maximum cap, and the same share of the fee, rounded down at registry and buyer level; without oversubscription the refund is zero. Buyers in the same registry with larger deposits never get smaller refunds, the refunds of a registry never exceed its share, and completed fixed-price and first-come-first-served sales refund nothing.",
 ["inputs","configurations","histories"],"every split of deposits among registries and buyers, every cap",
 INT+"Fairness of nested floor divisions is quantified over all splits.",
 ["state/presale.rs","state/presale_registry.rs","instructions/process_withdraw_remaining_quote.rs"],
 [("get_finalized_presale_remaining_quote","state/presale_registry.rs")],(),["refund amount paid"])
p("C13","Creator gets the proceeds or the tokens back, once, and nothing else",
 "Only the presale's creator can withdraw, once: after completion exactly min(total deposits, maximum cap) quote tokens, after failure exactly the whole base-token supply. Before the end nothing can be taken, and a second withdrawal is rejected.",
 ["inputs","histories","configurations"],"every presale state, signer, mode and time",
 INT+"Must hold for every state and signer.",
 ["instructions/process_creator_withdraw.rs","state/presale.rs"],
 [("has_creator_withdrawn flag, owner check","instructions/process_creator_withdraw.rs")],(),["token transfers out of either vault"])
p("C14","Deposit fees are collected once, by the creator, in the amount due",
 "Only the presale's creator can collect the deposit fee, once, and only after completion. The amount is all recorded fees, minus, in pro-rata sales, the part refunded for oversubscription summed per registry.",
 ["inputs","histories","configurations"],"every presale state with one to five registries",
 INT+"Must agree with every possible refund rounding.",
 ["instructions/process_creator_collect_fee.rs","state/presale.rs","state/presale_registry.rs"],
 [("deposit_fee_collected flag","instructions/process_creator_collect_fee.rs"),("get_total_collected_fee","state/presale.rs")],(),["quote transfer to creator"])
p("C15","Unsold tokens are burned or returned to the creator, once, exactly",
 "After completion anyone can trigger the unsold-token action once: exactly supply minus tokens sold leaves the base vault, burned or sent to the creator's own associated token account according to the configured action, never elsewhere. Nothing happens if nothing is unsold, and dynamic-price sales count a registry as fully sold as soon as it has a deposit.",
 ["inputs","configurations","histories"],"every deposit distribution over registries, price, action and caller",
 INT+"Destination substitution and amount exactness must hold for every account and distribution.",
 ["instructions/process_perform_unsold_base_token_action.rs","state/presale.rs","presale_mode_handler/mod.rs","presale_mode_handler/fixed_price_presale.rs"],
 [("is_unsold_token_action_performed flag","state/presale.rs"),("ATA constraint on destination","instructions/process_perform_unsold_base_token_action.rs")],(),["burn/transfer amount and destination"])
p("C16","Closing an escrow never forfeits value and keeps the count right",
 "An escrow can be closed only by its owner and only when nothing is left in it: no deposit or fee while the sale is ongoing, refund taken (or nothing deposited) after failure, all vested tokens claimed (and the oversubscription refund taken) after completion. Closing returns the rent to the chosen receiver, decrements the escrow counts of registry and presale by one, and creating an escrow increments both by one.",
 ["histories","inputs","configurations"],"every escrow and presale state at every time",
 INT+"Losing funds at close depends on residues (e.g. pending but unclaimed tokens).",
 ["instructions/process_close_escrow.rs","state/presale.rs","state/escrow.rs"],
 [("per-phase emptiness conditions","instructions/process_close_escrow.rs")],(),["success of close, counts"])
p("C17","Reaching the cap ends the sale early and shifts the schedule with it",
 "In fixed-price and first-come-first-served sales without the opt-out, the deposit with which total deposits reach the maximum cap ends the sale at that moment, and lock, vesting and immediate-release times move along: vesting starts lock seconds after the new end and keeps its duration, and the immediate release keeps its distance from the end. With the opt-out, in pro-rata sales, or below the cap, all times stay unchanged, and the end time never moves later.",
 ["inputs","histories","configurations"],"every timing configuration, mode, deposit and time",
 INT+"The interaction of early end with immediate release and vesting is quantified over all timings.",
 ["presale_mode_handler/mod.rs","state/presale.rs","instructions/process_deposit.rs"],
 [("end_presale_if_max_cap_reached","presale_mode_handler/mod.rs"),("recalculate_presale_timing","state/presale.rs")],(),["presale times after deposit"])
p("C18","Only admitted buyers get an escrow, with the cap granted to them",
 "In a permissionless sale anyone gets an escrow with the registry's maximum cap; in an authority-whitelisted sale only with the signature of an operator appointed by the presale's creator; in a merkle-whitelisted sale only with a valid proof for that owner, registry and cap under a root registered for that presale. The escrow records exactly that presale, owner, registry and cap, starts empty, and the granted cap always lies within the registry's buyer limits.",
 ["inputs","configurations"],"every owner key, registry index, cap, operator account, root and proof (bounded proof length)",
 INT+"Universally quantified over keys, proofs and account substitutions.",
 ["instructions/create_escrow/process_create_escrow.rs","instructions/create_escrow/process_create_permissionless_escrow.rs","instructions/create_escrow/process_create_permissioned_escrow_with_creator.rs","instructions/create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs"],
 [("whitelist mode checks, operator has_one, merkle verify","instructions/create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs")],(),["created escrow account data"])
p("C19","Merkle whitelist tooling and on-chain verification agree",
 "For every whitelist the off-chain tree builder accepts, each listed owner (the last entry counts if an owner is listed twice) gets a proof with which the on-chain program creates the escrow with exactly the listed registry and cap, under the built root. An entry that is not listed, or a proof for another entry, is not accepted (assuming the hash is collision free). Looking up an owner in the tool yields the listed entry, and the address it computes for a root version is the one where the program stores that root.",
 ["inputs","configurations"],"every list of up to a bounded number of entries and every candidate entry/proof",
 INT+"Quantifies over all trees, indexes and entries.",
 ["merkle-tree/src/merkle_tree.rs","merkle-tree/src/config_merkle_tree.rs","merkle-tree/src/tree_node.rs","instructions/create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs"],
 [("sorted-pair hashing with leaf/intermediate prefixes","merkle-tree/src/merkle_tree.rs")],(),["get_proof / verify results"])
p("C20","Initialization accepts only sane sales and stores and funds them faithfully",
 "A presale can be created exactly when its parameters are consistent, and only once per address: positive caps with minimum not above maximum, a sale window within the allowed length that starts within 30 days and ends in the future, one to five registries (several only with a whitelist) with positive supply and ordered buyer limits within the cap, fee rate at most 50%, lock plus vesting below ten years with a matching immediate release, and, for fixed price, a positive price at which every buyer limit buys a token, the supply suffices for the maximum cap, and the caps differ by at least a token. The stored presale then reproduces every parameter with empty books, and the base vault receives exactly the total registry supply from the payer.",
 ["inputs","configurations"],"every parameter combination (one to three registries symbolic), all modes and whitelist modes, any clock",
 INT+"Each rejected region is sampled by at most one test value.",
 ["instructions/initialize_presale/params.rs","instructions/initialize_presale/process_initialize_presale.rs","state/presale.rs","presale_mode_handler/fixed_price_presale.rs","presale_mode_handler/mod.rs"],
 [("PresaleArgs/LockedVestingArgs/PresaleRegistryArgs validate","instructions/initialize_presale/params.rs"),("Presale::initialize","state/presale.rs")],(),["presale account after initialization","base token transfer"])
p("C21","No one can act on another's escrow, presale or vault",
 "Every instruction succeeds only if the accounts handed in belong together: the escrow belongs to the presale, vaults and mints are the presale's own, owner-restricted instructions are signed by the recorded owner, and token movements out of the vaults are signed only by the program's authority. Substituting any account by another one (another presale's escrow, a foreign vault, a look-alike account not owned by the program) makes the instruction fail.",
 ["inputs","configurations"],"every assignment of keys to account slots",
 INT+"Account substitution is quantified over all keys; tests try very few.",
 ["instructions/process_deposit.rs","instructions/process_withdraw.rs","instructions/process_claim.rs","instructions/process_creator_withdraw.rs","instructions/process_creator_collect_fee.rs","instructions/process_withdraw_remaining_quote.rs","instructions/process_close_escrow.rs","instructions/process_refresh_escrow.rs","instructions/process_perform_unsold_base_token_action.rs"],
 [("has_one / constraint / Signer account checks","instructions/process_deposit.rs")],(),["success or failure per account assignment"])
p("C22","Transfer-fee tokens never leave a vault short",
 "When a mint charges a Token-2022 transfer fee, the amount sent into a vault (a deposit, or the supply at creation) is grossed up so that the vault receives at least the credited deposit plus deposit fee, or the whole supply, and by the least such amount, using the fee in force at the current epoch; a deposit that fits the limits never fails because of the transfer fee. Without a transfer fee the amount sent is exactly that sum. Amounts paid out of a vault are not grossed up: the vault pays exactly what is due and the receiver bears the transfer fee.",
 ["inputs","configurations"],"every amount, fee rate up to 100 percent, maximum fee and epoch (older/newer fee)",
 INT+"The inverse-fee computation has residues and a maximum-fee plateau no sample set covers.",
 ["token2022.rs","instructions/process_deposit.rs","instructions/initialize_presale/process_initialize_presale.rs"],
 [("calculate_transfer_fee_included_amount","token2022.rs")],(),["amount transferred vs received"])
p("C23","Unsupported token extensions and malformed extra accounts are rejected",
 "Presales can be created only with plain SPL mints or Token-2022 mints whose extensions are all on the supported list (transfer fee, transfer hook, metadata pointer, token metadata), never with the Token-2022 native mint. A transfer of a hooked token needs exactly one non-empty slice of extra accounts of the matching kind (base or quote) that contains the hook program; these accounts reach the transfer. Slices of the wrong kind, duplicates, slices longer than the accounts handed in, or extra accounts for a token without hook make the instruction fail.",
 ["inputs","configurations"],"every subset of mint extensions within a bounded set; every declared slice list up to a bounded length",
 INT+"Combinations of extensions and slices are exponential.",
 ["token2022.rs"],[("is_supported_mint / ensure_supported_token2022_extensions","token2022.rs"),("parse_remaining_accounts","token2022.rs")],(),["initialization result; accounts passed to transfer"])
p("C24","Value can always be taken out: exits never get stuck",
 "In every consistent state of a finished presale, the legitimate exits succeed: a buyer's claim after completion, a buyer's refund after failure or pro-rata completion, the creator's withdrawal, fee collection and the unsold-token action when something is unsold; and a fully settled escrow can be closed. No arithmetic overflow, rounding or ordering of other parties' actions can block them, nor a receiving token account that demands a memo with each transfer.",
 ["histories","inputs","configurations"],"every state that satisfies the ledger invariants, full u64 amounts within the configured limits",
 INT+"Liveness at extreme values (u64-scale supply, prices, durations) is never sampled.",
 ["math/claim_math.rs","state/presale.rs","state/presale_registry.rs","presale_mode_handler/fixed_price_presale.rs","presale_mode_handler/mod.rs","instructions/process_claim.rs","instructions/process_withdraw_remaining_quote.rs","instructions/process_creator_withdraw.rs","instructions/process_creator_collect_fee.rs","instructions/process_perform_unsold_base_token_action.rs","instructions/process_close_escrow.rs"],
 [("checked u128 intermediate arithmetic","math/claim_math.rs")],(),["instruction result"])
p("C25","Registries are isolated from each other",
 "Operations of a buyer in one registry change only that registry's ledger besides the presale totals, and the presale totals are always the sums over its registries. A buyer's token entitlement depends only on the supply, price and deposits of the buyer's own registry, not on what happens in other registries.",
 ["histories","inputs","configurations"],"every state with two to five registries, every registry index, every instruction on an escrow",
 INT+"Tests use at most a couple of registries with fixed numbers.",
 ["state/presale.rs","state/presale_registry.rs","presale_mode_handler/mod.rs"],
 [("registry looked up by the escrow's registry index","state/presale.rs")],(),["registry ledgers before and after"])
p("C26","Configuration accounts obey their owner and phase",
 "Operators can be appointed and revoked only by the creator they act for; merkle roots and permissioned server metadata can be registered only by the presale's creator, for a presale in the matching whitelist mode that has not ended, and closed only by the creator (merkle roots not while the sale is ongoing); fixed-price parameters can be created only with a sane price and closed only by their owner. Each stores exactly what was submitted.",
 ["inputs","configurations","schedules"],"every signer, presale state, time and parameter value",
 INT+"Quantifies over signers, modes and times.",
 ["instructions/process_create_merkle_root_config.rs","instructions/process_close_merkle_root_config.rs","instructions/process_create_permissioned_server_metadata.rs","instructions/process_create_operator.rs","instructions/process_revoke_operator.rs","instructions/process_initialize_extra_presale_params.rs","instructions/process_close_extra_presale_params.rs"],
 [("has_one / phase checks","instructions/process_create_merkle_root_config.rs")],(),["stored account data, success or failure"])
p("C27","Emitted events report what actually happened",
 "Every accepted deposit, withdrawal, claim, refresh, refund, creator withdrawal, fee collection, unsold-token action, escrow creation and escrow closing emits exactly one event of its kind that names its presale and escrow or owner. The amounts in it are those that moved (for payouts, what the receiver got after the mint's own transfer fee; for a deposit, the credited amount and the fee) and the totals are those stored after the instruction. Creating a presale, storing or closing fixed-price parameters, appointing an operator, registering or closing a merkle root or server metadata each emit exactly one event too, with the accounts and the parameters that were stored.",
 ["inputs","configurations"],"every state and amount at which the instruction succeeds, mints with and without transfer fee",
 "No test in the repository reads an event; indexers and users rely on them.",
 ["events.rs","instructions/process_deposit.rs","instructions/process_withdraw.rs","instructions/process_claim.rs","instructions/process_withdraw_remaining_quote.rs","instructions/process_creator_withdraw.rs","instructions/process_creator_collect_fee.rs","instructions/process_perform_unsold_base_token_action.rs","instructions/process_refresh_escrow.rs","instructions/process_close_escrow.rs","instructions/initialize_presale/process_initialize_presale.rs"],
 [("emit_cpi! after the state update","instructions/process_deposit.rs")],(),["data of the self-CPI that carries the event"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
import os
for x in P:
    for fn in x["anchors"]["files"]+[m["where"] for m in x["anchors"]["mechanism"]]:
        if not os.path.exists("/repo/"+fn): print("missing",x["id"],fn)
