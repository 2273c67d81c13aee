#!/usr/bin/env python3
"""Source of properties.jsonl (run from anywhere; rewrites the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

C = "contracts/"
# ------------------------------------------------------------------ DAO core
prop("G01", "Only the DAO, its admin or an enabled proposal module can act for the DAO",
 """A DAO runs messages or changes its own configuration, treasury lists, modules, items, sub-DAOs or pause state only
 when asked by itself, by an enabled proposal module (through the proposal hook) or by its admin (admin messages, unpausing,
 nominating a successor); every other request is refused and leaves no trace. While paused, and only until the pause expires,
 it serves nobody but itself and the admin. The admin changes only when the current admin nominates someone and that
 someone accepts; clearing the admin makes the DAO its own admin.""".replace("someone accepts; clearing", "someone accepts, and clearing"),
 ["histories", "inputs"], "every sequence of requests by every kind of sender, over pause, expiry, nomination and module enable/disable states",
 "Tests try a handful of sender/message pairs, mostly on a fresh DAO; the guarantee is over every message kind in every reachable pause/nomination/module state.",
 [C+"dao-dao-core/src/contract.rs", C+"dao-dao-core/src/state.rs"],
 [("pause gate in execute()", C+"dao-dao-core/src/contract.rs execute"),
  ("proposal hook module lookup and status", C+"dao-dao-core/src/contract.rs execute_proposal_hook"),
  ("nominate/accept/withdraw", C+"dao-dao-core/src/contract.rs execute_nominate_admin ff")])
prop("G02", "DAO registries hold exactly what governance put there",
 """After any history of governance actions the DAO's modules, items, token lists, sub-DAOs, configuration and token balances report exactly
 the accepted changes, in any page-wise listing each entry appears once and in order, and an action that fails anywhere
 changes nothing. There is always at least one enabled proposal module, every module keeps its own prefix for ever
 and no two share one, and disabling is final.""",
 ["histories", "inputs"], "every sequence of registry updates (with duplicates, unknown entries, failing instantiations), incoming token deposits and page sizes",
 "Tests add or remove one or two entries; order of add/remove within one call, duplicates, prefix allocation after disabling and page boundaries combine without bound.",
 [C+"dao-dao-core/src/contract.rs", C+"dao-dao-core/src/state.rs", "packages/cw-paginate-storage/src/lib.rs"],
 [("module counts and prefix allocation in reply", C+"dao-dao-core/src/contract.rs reply, derive_proposal_module_prefix"),
  ("list update helpers", C+"dao-dao-core/src/contract.rs do_update_addr_list"),
  ("auto-add on receive", C+"dao-dao-core/src/contract.rs execute_receive_cw20")])
# ------------------------------------------------------------------ proposals
prop("P01", "A single-choice decision is exactly what its threshold says, and is final",
 """The status a single-choice proposal reports is determined by its threshold, quorum, votes, total power and expiry alone:
 it passes exactly when the yes votes meet the rule and it is rejected exactly when they no longer can or did not by expiry, with fractions
 compared exactly to nine decimal places. A proposal is decided before expiry only if no way of casting the remaining votes, and without
 revoting no later event, could change the outcome. With revoting allowed no decision is reported before expiry.""".replace("outcome. With revoting allowed", "outcome, and with revoting allowed"),
 ["inputs"], "all vote tallies, total powers, thresholds (majority, percentage with any decimals, absolute count, quorum) and times",
 "Tests tabulate a few dozen tallies; the space of tallies x thresholds x totals up to 128 bits with floor arithmetic is only sampled at round numbers.",
 [C+"proposal/dao-proposal-single/src/proposal.rs", "packages/dao-voting/src/voting.rs", "packages/dao-voting/src/threshold.rs"],
 [("is_passed / is_rejected", C+"proposal/dao-proposal-single/src/proposal.rs"),
  ("compare_vote_count with PRECISION_FACTOR", "packages/dao-voting/src/voting.rs"),
  ("does_vote_count_fail", "packages/dao-voting/src/voting.rs")])
prop("P02", "Single-choice ballots: one per member, weighed at the proposal's start",
 """Each address has at most one counted ballot per proposal, carrying exactly the voting power it had when the proposal started, and the tallies are
 always the sum of the recorded ballots. Only addresses with power at the start may vote, only before expiry, and only revoting proposals let a
 ballot be replaced (never by the same vote); later changes of power or configuration change nothing for existing proposals. Every listing and
 lookup of proposals and votes agrees with that record.""",
 ["histories", "schedules"], "all interleavings of proposing, voting, revoting, power changes, config changes and block advances",
 "Tests cast votes with fixed powers; double counting shows only under specific orders of revotes, power changes and expiry.",
 [C+"proposal/dao-proposal-single/src/contract.rs", "packages/dao-voting/src/voting.rs"],
 [("ballot storage keyed by (proposal, voter)", C+"proposal/dao-proposal-single/src/contract.rs execute_vote"),
  ("power snapshot at start_height", "packages/dao-voting/src/voting.rs get_voting_power")])
prop("P03", "Single-choice proposals execute at most once, only when passed, atomically",
 """A proposal's messages run at most once, only after it passed, only by someone its rules allow, not before an applicable veto timelock ends (unless the
 vetoer is allowed to act early), and either all take effect or none does; a failed execution is either retryable or marked failed, as the module is configured at that moment.
 It can be closed only when rejected, vetoed only by its vetoer during the window its veto rules give, and once executed, closed, vetoed or failed it keeps
 that status forever. Its threshold, expiry, minimum voting period, revoting and veto rules are those recorded when it was proposed.""",
 ["histories", "schedules", "fault_sequences"], "all histories of propose/vote/execute/close/veto at every time relative to expiry and timelock, with messages that fail",
 "Tests walk single life-cycle paths; races of execute/close/veto around the expiry and timelock boundaries with failing messages are not enumerated.",
 [C+"proposal/dao-proposal-single/src/contract.rs", "packages/dao-voting/src/veto.rs", "packages/dao-voting/src/status.rs"],
 [("execute / close / veto guards", C+"proposal/dao-proposal-single/src/contract.rs proposal_execute, proposal_close, proposal_veto"),
  ("execution failure reply", C+"proposal/dao-proposal-single/src/contract.rs reply"),
  ("timelock in status", C+"proposal/dao-proposal-single/src/proposal.rs current_status")])
prop("P04", "A multiple-choice proposal passes exactly for its unique quorate winner",
 """A multiple-choice proposal passes only for the single option with the most votes, never on a tie and never for 'none of the above', and only
 when quorum is met; otherwise it is rejected. It is decided before expiry only when no way of casting the remaining votes could change the
 outcome, and with revoting allowed never before expiry. Its messages are those of the winning option.""",
 ["inputs"], "all tallies over 2-20 options, total powers, quorums and times",
 "The existing tests fix a few tallies; unbeatable-lead and tie reasoning over arbitrary remaining power is only checked at a few points.",
 [C+"proposal/dao-proposal-multiple/src/proposal.rs", "packages/dao-voting/src/multiple_choice.rs", "packages/dao-voting/src/voting.rs"],
 [("calculate_vote_result, is_choice_unbeatable", C+"proposal/dao-proposal-multiple/src/proposal.rs"),
  ("does_vote_count_pass", "packages/dao-voting/src/voting.rs")])
prop("P05", "Multiple-choice ballots and life cycle",
 """Each address has at most one counted ballot per multiple-choice proposal, for an existing option, with its power at the proposal's start, and the tallies are the sum of the ballots.
 The winning option's messages run at most once, atomically, only after the proposal passed and any veto timelock ended, by someone its rules allow;
 only rejected proposals can be closed and only the vetoer can veto within its window. Closed, executed, vetoed and failed proposals keep that status forever.""",
 ["histories", "schedules", "fault_sequences"], "all histories of propose/vote/execute/close/veto/config updates over block advances, with failing messages",
 "Same as for single choice: tests follow single paths with fixed powers and options.",
 [C+"proposal/dao-proposal-multiple/src/contract.rs", "packages/dao-voting/src/multiple_choice.rs"],
 [("vote, execute, close, veto", C+"proposal/dao-proposal-multiple/src/contract.rs"),
  ("choice validation", "packages/dao-voting/src/multiple_choice.rs into_checked")])
prop("P06", "A Condorcet proposal passes only for the option that beats every other",
 """A condorcet proposal passes for an option exactly when, over the ranked ballots cast, that option is preferred over each other option by
 more voting power than the reverse, and quorum is met, and it is decided early only if no remaining ballots could change the result. Every ballot ranks every option exactly
 once, counts once with the voter's power at the proposal's start, and only before expiry. The winning option's messages run at most once and only after it passed, and a proposal can be closed only when rejected.""",
 ["inputs", "histories"], "all profiles of ranked ballots with arbitrary powers over 2-6 options, quorums and times",
 "The tests fix a few ballot profiles; pairwise sums, cycles and early-decision margins form a combinatorial space.",
 [C+"proposal/dao-proposal-condorcet/src/tally.rs", C+"proposal/dao-proposal-condorcet/src/m.rs", C+"proposal/dao-proposal-condorcet/src/proposal.rs", C+"proposal/dao-proposal-condorcet/src/contract.rs"],
 [("lower-diagonal-free pairwise matrix", C+"proposal/dao-proposal-condorcet/src/m.rs LM"),
  ("winner and margin", C+"proposal/dao-proposal-condorcet/src/tally.rs"),
  ("early decision", C+"proposal/dao-proposal-condorcet/src/proposal.rs update_status")])
prop("P07", "Proposal deposits are never lost, duplicated or misdirected",
 """A deposit is taken in full when a proposal is submitted and paid out exactly once when the proposal ends: back to the proposer or to the DAO, as the
 refund policy in force at submission says for that outcome, provided the module that took it is then still the one the DAO has proposals submitted through (otherwise the DAO can withdraw it). Until then the deposits of all open proposals are held in full, whatever the order of submissions, configuration changes and
 completions, and whatever else the module is asked to do except a withdrawal by the DAO.""",
 ["histories", "configurations"], "all interleavings of proposals, votes, executions, closes, vetoes, deposit-config updates, withdrawals with native or cw20 deposits",
 "Tests complete one or two proposals under one deposit config; conservation is over every interleaving with config changes in between.",
 ["packages/dao-pre-propose-base/src/execute.rs", "packages/dao-voting/src/deposit.rs", C+"pre-propose/dao-pre-propose-single/src/contract.rs", C+"pre-propose/dao-pre-propose-multiple/src/contract.rs"],
 [("deposit snapshot per proposal id", "packages/dao-pre-propose-base/src/execute.rs execute_propose"),
  ("refund decision", "packages/dao-pre-propose-base/src/execute.rs execute_proposal_completed_hook"),
  ("take/return messages", "packages/dao-voting/src/deposit.rs")])
prop("P08", "Only those the submission policy allows can create proposals",
 """When a DAO requires proposals to come through its pre-propose module, no other address can create one, the module forwards only submissions its policy allows
 (everyone, members only, an allow list, minus a deny list), and the proposal is credited to the real submitter. Without such a module anybody can propose, in their own name, unless the
 voting module says the DAO is inactive. Contracts subscribed to submissions are told of each one as it was made. Only the DAO changes the policy and the subscriptions.""",
 ["inputs", "histories"], "all policies, policy updates, submitters and module states",
 "Tests probe individual policy entries; update deltas (add/remove/keep) and policy switches compose.",
 ["packages/dao-voting/src/pre_propose.rs", "packages/dao-pre-propose-base/src/execute.rs", C+"proposal/dao-proposal-single/src/contract.rs", C+"proposal/dao-proposal-multiple/src/contract.rs"],
 [("is_permitted", "packages/dao-voting/src/pre_propose.rs ProposalCreationPolicy"),
  ("check_can_submit", "packages/dao-pre-propose-base/src/execute.rs"),
  ("get_proposer", C+"proposal/dao-proposal-single/src/contract.rs execute_propose")])
prop("P09", "A proposal needing approval reaches the DAO exactly once, if approved",
 """With an approval module in front of a DAO, each submission stays pending until the approver decides it once: approval creates exactly the submitted
 proposal in the DAO, in the submitter's name and with its deposit attached, rejection creates none and settles the deposit by its policy.
 Only the current approver decides, and when the approver is a second DAO, that DAO's vote on the matching proposal decides and nothing else.""",
 ["histories", "configurations"], "all interleavings of submissions, approvals, rejections, approver changes, deposit-config updates and completions",
 "Tests walk one submission at a time; id bookkeeping between pending, approver and created proposals only diverges under interleavings.",
 [C+"pre-propose/dao-pre-propose-approval-single/src/contract.rs", C+"pre-propose/dao-pre-propose-approver/src/contract.rs"],
 [("pending/completed maps", C+"pre-propose/dao-pre-propose-approval-single/src/contract.rs"),
  ("id maps between the two DAOs", C+"pre-propose/dao-pre-propose-approver/src/contract.rs")])
prop("P10", "A broken hook receiver cannot block governance, and only it is dropped",
 """Contracts subscribed to a proposal module's proposal and vote hooks are told of every new proposal, status change and vote exactly as it happened (an execution whose messages fail is announced as an execution). A subscriber that fails is
 unsubscribed, and neither that failure nor any combination of failing subscribers or a failing pre-propose module stops, reverts or changes the vote, proposal or execution
 or unsubscribes anybody else. Only the DAO can change the subscriptions.""",
 ["fault_sequences", "histories"], "all subsets of failing subscribers at every proposal action",
 "Tests make one subscriber fail; index-based removal misbehaves only when several fail in one transaction.",
 ["packages/dao-hooks/src/proposal.rs", "packages/dao-hooks/src/vote.rs", "packages/cw-hooks/src/lib.rs", "packages/dao-voting/src/reply.rs", C+"proposal/dao-proposal-single/src/contract.rs", C+"proposal/dao-proposal-multiple/src/contract.rs"],
 [("hook submessages with reply on error", "packages/dao-hooks/src/proposal.rs, vote.rs"),
  ("removal in reply", C+"proposal/dao-proposal-single/src/contract.rs reply"),
  ("reply id packing", "packages/dao-voting/src/reply.rs")])
# ------------------------------------------------------------------ voting modules
prop("V01", "Native-token staking: custody, unbonding and voting power",
 """In a native-token staked DAO an address's voting power at a height is its stake at the start of that block and never changes afterwards, total power is the sum of all members' power, and the
 staker listing agrees. Unstaked tokens come back to the staker exactly once, immediately without an unbonding period or by claim once the period in force at unstaking has passed, and the module always holds all staked and
 unbonding tokens. Only the DAO changes its settings, and every stake change is reported to each subscribed hook.""",
 ["histories", "schedules"], "all sequences of stake/unstake/claim/config changes by several users over blocks, and all heights queried",
 "Tests check a few heights and one or two users; snapshots and claims must be right for every interleaving within and across blocks.",
 [C+"voting/dao-voting-token-staked/src/contract.rs", "packages/dao-hooks/src/stake.rs"],
 [("snapshot maps", C+"voting/dao-voting-token-staked/src/state.rs"),
  ("claims", C+"voting/dao-voting-token-staked/src/contract.rs execute_unstake, execute_claim")])
prop("V02", "cw20-staked DAO: voting power mirrors the staking contract",
 """In a cw20-staked DAO an address's voting power at a height is its staked balance in the staking contract at the start of that block, total power is the total staked, and later staking never changes past values.
 The module only ever refers to one token and one staking contract for that token, which it checks at creation, and creates them exactly as configured.""",
 ["histories", "configurations"], "all staking histories and all creation configurations",
 "Tests query a few heights after one stake.",
 [C+"voting/dao-voting-cw20-staked/src/contract.rs", C+"staking/cw20-stake/src/contract.rs"],
 [("delegated queries", C+"voting/dao-voting-cw20-staked/src/contract.rs query_voting_power_at_height"),
  ("creation", C+"voting/dao-voting-cw20-staked/src/contract.rs instantiate, reply")])
prop("V03", "NFT-staked DAO (cw721): one NFT, one vote, always returned to its staker",
 """In a cw721-staked DAO an address's voting power at a height is the number of its NFTs staked at the start of that block, total power is the number of all staked NFTs, and past values never
 change. Only NFTs of the DAO's collection can be staked; each can be unstaked only by the address that staked it and comes back to that address exactly once, at once or by claim when the unbonding period in force at unstaking has passed. Every staked or
 unbonding NFT is held by the module and the listings agree.""",
 ["histories", "schedules"], "all sequences of stake/unstake/claim/transfer by several users over blocks",
 "Tests move a few NFTs; ownership confusion needs interleavings between stakers, unbonding and re-staking.",
 [C+"voting/dao-voting-cw721-staked/src/contract.rs", C+"voting/dao-voting-cw721-staked/src/state.rs", "packages/cw721-controllers/src/nft_claim.rs"],
 [("per-owner staked map and balance snapshots", C+"voting/dao-voting-cw721-staked/src/state.rs"),
  ("nft claims", "packages/cw721-controllers/src/nft_claim.rs")])
prop("V04", "ONFT-staked DAO: prepare/confirm staking credits the right owner",
 """In an ONFT-staked DAO an NFT counts as staked only for the address that owned and prepared it and then moved it to the module, voting power at a height is the number of NFTs so staked
 at the start of that block, and past values never change. A staked NFT can be unstaked only by its staker, and returns to that address exactly once after the unbonding period in force at unstaking.
 Cancelling a preparation or recovering a stray NFT is allowed only to its preparer, its owner or the DAO.""",
 ["histories", "schedules"], "all interleavings of prepare, transfer, confirm, cancel, unstake and claim by several users",
 "The two-step protocol's interleavings (re-preparing after a sale, confirming twice, cancelling after transfer) are only spot-checked.",
 [C+"voting/dao-voting-onft-staked/src/contract.rs", C+"voting/dao-voting-onft-staked/src/state.rs"],
 [("prepared map, confirm and cancel", C+"voting/dao-voting-onft-staked/src/contract.rs"),
  ("register_staked_nft", C+"voting/dao-voting-onft-staked/src/state.rs")])
prop("V05", "Membership DAOs: voting power is the member's weight at that block",
 """In a group-based (cw4) or role-NFT-based DAO an address's voting power at a height is the membership weight it had at the start of that block, total power is the sum
 of the members' weights, and later changes never alter past values. A DAO created with its own group gets exactly the listed members and governs the group, and lists that are empty, name a member twice or carry no weight are refused.
A DAO created with its own role collection gets exactly the listed role NFTs, at least one, and can take the collection over as its minter.""",
 ["histories", "configurations"], "all member-update histories, queried heights and initial member lists",
 "Tests use one update and a few heights.",
 [C+"voting/dao-voting-cw4/src/contract.rs", C+"voting/dao-voting-cw721-roles/src/contract.rs", C+"external/cw721-roles/src/contract.rs"],
 [("delegated member queries", C+"voting/dao-voting-cw4/src/contract.rs query_voting_power_at_height"),
  ("roles member queries", C+"voting/dao-voting-cw721-roles/src/contract.rs")])
prop("V06", "A DAO below its activity threshold accepts no proposals; above it does",
 """A DAO with an activity threshold is active exactly when the stake reaches the configured count, or the configured share of the token supply (taken to nine decimals) rounded up to a whole token, and without a threshold it is always active.
 While it is inactive no proposal can be created. Invalid thresholds (zero, above 100%, a count above what exists) are refused, and only the DAO changes the threshold.""",
 ["inputs", "histories"], "all supplies, stakes, thresholds of every staked voting module, at and around the boundary",
 "Tests use round numbers away from the rounding boundary.",
 ["packages/dao-voting/src/threshold.rs", C+"voting/dao-voting-token-staked/src/contract.rs", C+"voting/dao-voting-cw20-staked/src/contract.rs", C+"voting/dao-voting-cw721-staked/src/contract.rs", C+"voting/dao-voting-onft-staked/src/contract.rs"],
 [("query_is_active", C+"voting/dao-voting-token-staked/src/contract.rs"),
  ("activity gate", C+"proposal/dao-proposal-single/src/contract.rs execute_propose")])
prop("S01", "cw20 staking: fair shares, solvency and unbonding",
 """In the cw20 staking contract stakers share the pool in proportion to their stake: rewards raise every stake's value proportionally, nobody's stake, unstake or claim can take value from others, and the
 contract always holds enough tokens for all stakes and pending claims. Unstaked value comes back to the staker exactly once, at once or by claim after the unbonding period in force at unstaking, and stake at a height is the one at
 the start of that block and never changes afterwards. Every stake change is reported to each subscribed hook, and only the owner changes settings.""",
 ["histories", "inputs"], "all sequences of stake/unstake/fund/claim with any 128-bit amounts over blocks",
 "Tests use small round amounts; share rounding, dust and overflow arise for specific ratios and orders.",
 [C+"staking/cw20-stake/src/contract.rs", C+"staking/cw20-stake/src/math.rs", C+"staking/cw20-stake/src/state.rs"],
 [("compute stake and claim amounts", C+"staking/cw20-stake/src/math.rs"),
  ("balance and total bookkeeping", C+"staking/cw20-stake/src/contract.rs")])
# ------------------------------------------------------------------ distribution
prop("R01", "Streamed DAO rewards: proportional accrual, never more than funded",
 """The rewards distributor never pays out, claws back or promises more than was funded to a distribution, for any history of funding, emission changes, voting-power changes, claims and withdrawals.
 At every completed emission period each member accrues the emission in proportion to its share of voting power at that time; a claim pays the accrued amount exactly once and to the member.
 Only the owner creates, changes or withdraws from distributions, and only registered voting-power hooks count.""",
 ["histories", "schedules"], "all histories of create/fund/update/hook/claim/withdraw over time with several members and distributions",
 "Tests follow long scripted schedules; solvency must hold for every interleaving of epoch changes and power changes.",
 [C+"distribution/dao-rewards-distributor/src/contract.rs", C+"distribution/dao-rewards-distributor/src/rewards.rs", C+"distribution/dao-rewards-distributor/src/state.rs", C+"distribution/dao-rewards-distributor/src/hooks.rs"],
 [("per-unit accumulator", C+"distribution/dao-rewards-distributor/src/rewards.rs"),
  ("epoch transition", C+"distribution/dao-rewards-distributor/src/state.rs transition_epoch")])
prop("R02", "cw20 staking rewards: accrue with stake and time, never exceed funding",
 """In the external rewards contract a staker earns, at every block of a funded period, the period's rate times its share of the stake at the start of that block; what it can claim is exactly what it has earned and not yet claimed, and is paid once.
 Total payouts never exceed the funding, and only the staking contract can report stake changes and only the owner can fund or change the period, which is impossible while a period runs.""",
 ["histories", "schedules"], "all interleavings of stake/unstake/fund/claim over blocks with any amounts",
 "Tests fix a few stakers and round rates.",
 [C+"staking/cw20-stake-external-rewards/src/contract.rs"],
 [("reward per token accumulator", C+"staking/cw20-stake-external-rewards/src/contract.rs update_rewards, get_reward_per_token"),
  ("funding", C+"staking/cw20-stake-external-rewards/src/contract.rs execute_fund")])
prop("R03", "The staking reward distributor pays exactly its rate per block",
 """The reward distributor sends to the staking contract exactly its configured rate for every block since the last payment or change of settings, or its whole balance if smaller, and nothing when nothing is due. Anyone may trigger it, only the owner
 can change its settings or withdraw, and a withdrawal takes the whole balance.""",
 ["histories"], "all sequences of distributions, deposits, config changes and withdrawals over blocks",
 "Tests use one rate and a few blocks.",
 [C+"staking/cw20-stake-reward-distributor/src/contract.rs"],
 [("get_distribution_msg", C+"staking/cw20-stake-reward-distributor/src/contract.rs")])
prop("R04", "The fund distributor splits funds by voting power and never overpays",
 """After the funding period each member can claim, of every funded token, exactly its share by voting power at the distribution height, and nothing twice. The sum of all claims never exceeds what was funded,
 funding after and claiming before the deadline are refused.""",
 ["histories", "inputs"], "all fundings, member powers, claim orders and repetitions, with power changing around the distribution height",
 "Tests use a few members with round powers, all set before creation.",
 [C+"distribution/cw-fund-distributor/src/contract.rs"],
 [("entitlement", C+"distribution/cw-fund-distributor/src/contract.rs get_entitlement")])
# ------------------------------------------------------------------ external
prop("E01", "A vesting payment never pays ahead of schedule and never loses funds",
 """At any time a vesting contract has paid its recipient at most the amount vested so far by its schedule, which starts at zero, never decreases and ends at the total, and anyone can trigger payment of what is due, only to the recipient.
 Cancelling, which only the owner can do, pays out what has vested and returns exactly the rest to the owner. Everything that was funded is either paid to the recipient, returned to the owner or still held.""",
 ["inputs", "histories"], "all schedules (linear, piecewise), amounts, native or cw20 tokens, times, and sequences of fund/distribute/cancel/withdraw",
 "Tests check selected times of a few schedules.",
 [C+"external/cw-vesting/src/vesting.rs", C+"external/cw-vesting/src/contract.rs"],
 [("schedule curve", C+"external/cw-vesting/src/vesting.rs vested"),
  ("liquid / distribute / cancel", C+"external/cw-vesting/src/vesting.rs")])
prop("E02", "Staking vested funds never lets anyone take more than their part",
 """While vesting funds are staked, undelegated, redelegated, slashed (once the slash is registered) and rewarded, distributions never touch staked or unbonding funds, and the recipient
 never receives more than what has vested, less slashes. After cancellation the owner gets back exactly the unvested part, as it becomes liquid, and the recipient the vested remainder less slashes;
 only the recipient manages the stake until cancellation, after which anyone may undelegate.""",
 ["histories", "fault_sequences"], "all sequences of delegate/undelegate/redelegate/slash/register/distribute/cancel/withdraw over time",
 "Tests script a few staking stories; the accounting of staked, unbonding, slashed and owed amounts depends on their order.",
 [C+"external/cw-vesting/src/vesting.rs", C+"external/cw-vesting/src/contract.rs", "packages/cw-stake-tracker/src/lib.rs"],
 [("liquid and owed computations", C+"external/cw-vesting/src/vesting.rs"),
  ("stake tracker", "packages/cw-stake-tracker/src/lib.rs")])
prop("E03", "The payroll factory creates and lists vesting contracts faithfully",
 """The factory creates a vesting contract exactly as asked and fully funded with the token it vests, by whoever asks for it (tokens being honest cw20s), only for its owner when it has one, and lists it under its real instantiator and recipient.
 Every listing (all, by instantiator, by recipient, forward or reversed, in any page size) returns each contract exactly once and in order.""",
 ["histories", "inputs"], "all creation sequences (native and cw20), owners and page requests",
 "Tests create a handful of contracts and read the first page.",
 [C+"external/cw-payroll-factory/src/contract.rs", C+"external/cw-payroll-factory/src/state.rs"],
 [("reply registration and indexes", C+"external/cw-payroll-factory/src/contract.rs")])
prop("E04", "A token swap is all or nothing",
 """In a token swap both counterparties' promised tokens change hands in the transaction in which the second one pays, and never otherwise. Before that each side can get back exactly what it paid and nobody else can touch it;
 only the promised token in the exact amount is accepted, from each counterparty once.""",
 ["histories"], "all sequences of funding, wrong funding, withdrawal and re-funding by both parties and outsiders, native or cw20 on each side",
 "Tests walk the main paths.",
 [C+"external/cw-token-swap/src/contract.rs", C+"external/cw-token-swap/src/state.rs"],
 [("do_fund", C+"external/cw-token-swap/src/contract.rs"), ("withdraw", C+"external/cw-token-swap/src/contract.rs")])
prop("E05", "The token issuer enforces allowances, freezing, deny lists and ownership",
 """Tokens are minted or burned only against a minting or burning allowance, which is reduced by exactly the amount, and only the owner grants allowances, force-transfers, or changes the token's admin, metadata, freeze state,
 allow list or deny list. When the chain asks before a transfer of its token, the issuer refuses it exactly when the token is frozen and neither side is allow-listed, or either side is deny-listed.
 Listings report exactly these settings.""",
 ["histories", "inputs"], "all sequences of grants, mints, burns, freezes, deny/allow changes, ownership transfers and transfer checks",
 "The issuer's tests need a chain binary (test-tube) and do not run offline; its state combinations are untested here.",
 [C+"external/cw-tokenfactory-issuer/src/execute.rs", C+"external/cw-tokenfactory-issuer/src/hooks.rs", C+"external/cw-tokenfactory-issuer/src/helpers.rs", C+"external/cw-tokenfactory-issuer/src/queries.rs"],
 [("allowances", C+"external/cw-tokenfactory-issuer/src/execute.rs mint, burn"), ("before-send checks", C+"external/cw-tokenfactory-issuer/src/hooks.rs")])
prop("E06", "Role NFTs and membership weights stay in step",
 """In a role-NFT collection only its minter mints, burns, transfers or changes roles and weights, and a member's weight is always the sum of the weights of the role NFTs it holds, also after they are passed on or re-weighed, with the total their sum.
 Weights at past heights never change, and each weight change is reported to every subscribed hook with the member's old and new weight.""",
 ["histories"], "all sequences of mint, burn, re-weight and hook changes over several members and tokens",
 "Tests mint one or two tokens per member.",
 [C+"external/cw721-roles/src/contract.rs", C+"external/cw721-roles/src/state.rs"],
 [("weight bookkeeping", C+"external/cw721-roles/src/contract.rs execute_mint, execute_burn, execute_update_token_weight")])
prop("E07", "The admin factory hands a new contract to itself",
 """A contract created through the admin factory ends up as its own admin, whoever asked, and when a predicted address is required and does not match nothing is created, also where contracts being made ask the factory for more. A factory with an admin serves only that admin, and the admin never changes.""",
 ["inputs", "histories"], "all callers, factory admins, salts, expected addresses and nested requests",
 "Tests use a single caller.",
 [C+"external/cw-admin-factory/src/contract.rs"],
 [("reply sets admin", C+"external/cw-admin-factory/src/contract.rs reply")])
prop("V07", "A DAO set up with a token of its own gets exactly the token it declared",
 """A DAO whose voting module creates a token or NFT collection (through the token issuer, as a cw20, as a cw721, or through a factory such as the fan token factory), or adopts an existing one, is created only if the declaration can be carried out in full:
 somebody gets some of the supply, and an absolute activity threshold is positive and no more than the supply that counts (what is not the DAO's for native tokens, all for cw20s and collections).
 Then every declared holder has exactly what was declared, the DAO its declared share and nobody else anything; the token's description is as declared; the DAO, and nobody else, owns, administers and can mint the token, with no allowance left over; a staking contract made with it is the DAO's, for that token, with the declared unstaking time;
 the module names that token, that contract and that threshold; coins sent along reach the maker as declared; what a factory asks of the DAO is done by the DAO; and what holders stake counts one to one. Otherwise nothing at all is created and no coin is spent.""",
 ["inputs"], "all holders, amounts, DAO shares, descriptions, thresholds, unstaking times, first messages, factory answers and coins",
 "Tests set up a few well-formed DAOs per module.",
 [C+"voting/dao-voting-token-staked/src/contract.rs", C+"voting/dao-voting-cw20-staked/src/contract.rs", C+"voting/dao-voting-cw721-staked/src/contract.rs", C+"external/btsg-ft-factory/src/contract.rs"],
 [("instantiate, reply", C+"voting/dao-voting-token-staked/src/contract.rs instantiate, reply"),
  ("instantiate, reply", C+"voting/dao-voting-cw20-staked/src/contract.rs instantiate, reply"),
  ("instantiate, reply", C+"voting/dao-voting-cw721-staked/src/contract.rs instantiate, reply"),
  ("execute_issue, reply", C+"external/btsg-ft-factory/src/contract.rs"),
  ("module callbacks", C+"dao-dao-core/src/contract.rs reply")])
# ------------------------------------------------------------------ upgrades
prop("M01", "Upgrading a deployed contract in place loses and grants nothing",
 """When a deployed contract of an earlier version (a DAO of version 1; single-choice proposals, cw20 staking, its external rewards or reward distributor of version 1; proposals or pre-propose modules of version 2.4.1) is upgraded,
 everything it held is there afterwards: modules, items, token lists, admin and nomination, pause; configuration, proposals, ballots and results, hooks; stakes, pool, claims and voting power at past heights; rewards earned and funds to be paid out; open deposits, who made them, and submissions waiting for approval.
 From then on it behaves as the new version does for such a state; what is new takes the values the upgrade names, or if it names none those that change nothing. A manager of version 1 loses the office; the owner keeps it.
 Only the contract's admin upgrades it, an upgrade that names invalid values is refused, and repeating it is refused or changes nothing.""",
 ["histories", "inputs"], "all histories before the upgrade, all its arguments, and all histories after it",
 "Tests upgrade one freshly made DAO, or compare a few queries; state only a history makes (pending claims, half-decided proposals, pauses, deposits) is not carried through.",
 [C+"dao-dao-core/src/contract.rs", C+"proposal/dao-proposal-single/src/contract.rs", C+"staking/cw20-stake/src/contract.rs", C+"staking/cw20-stake-external-rewards/src/contract.rs",
  C+"staking/cw20-stake-reward-distributor/src/contract.rs", "packages/dao-pre-propose-base/src/execute.rs", C+"pre-propose/dao-pre-propose-approval-single/src/contract.rs"],
 [("migrate FromV1", C+"dao-dao-core/src/contract.rs migrate"),
  ("migrate FromV1", C+"proposal/dao-proposal-single/src/contract.rs migrate, v1_state.rs"),
  ("migrate FromV1", C+"staking/cw20-stake/src/contract.rs migrate"),
  ("migrate FromUnderV250", "packages/dao-pre-propose-base/src/execute.rs migrate")])
prop("M02", "A DAO upgraded through the migrator is upgraded whole or not at all",
 """A DAO of version 1 that upgrades itself through the migrator, its core having been upgraded just before or asking for it in its own upgrade, ends in one transaction either wholly upgraded or exactly as it was.
 Upgraded: the core, the voting module, the staking contract of a cw20 voting module and every proposal module run the new code the request names; each proposal module takes the values named for it (closing on failed execution, who may propose, veto) and otherwise keeps its configuration, all its proposals with their results, and all ballots;
 every member's voting power and the total, now and at past heights, claims, the DAO's configuration, items and admin are as they were; the requested sub-DAOs are listed; and the migrator may not act for the DAO any more, nor be asked again by anybody. The DAO then works: each module takes, decides and executes proposals.
 It is refused if the request does not name each proposal module exactly once and nothing else, if the voting, staking or a proposal module does not run the old code named for it, if a cw20 voting module's staking contract is not said to be upgraded too, if a proposal module has no proposals,
 if what is asked for a module or a sub-DAO is invalid, or if a proposal module afterwards reports another number of proposals or its latest proposal otherwise, or the voting module another total or another power of the proposer of the first module's latest proposal at that proposal's start.""",
 ["histories", "inputs"], "all DAOs of version 1 and their histories, all requests, and new code that loses something",
 "Tests upgrade freshly made DAOs with one or two proposals; they do not even build without network.",
 [C+"external/dao-migrator/src/contract.rs", C+"external/dao-migrator/src/utils/state_queries.rs", C+"external/dao-migrator/src/types.rs"],
 [("execute_migration_v1_v2, reply, test_state", C+"external/dao-migrator/src/contract.rs"),
  ("query_*_v1, query_*_v2", C+"external/dao-migrator/src/utils/state_queries.rs")])
# ------------------------------------------------------------------ libraries
prop("L01", "Out-of-order history writes leave every past and future value right",
 """In the snapshot map for out-of-order writes a value read at a time is the result of applying, in order of application, every update made at or before that time, and the last snapshot set where one was forced at a single time.
 Updates never disturb other keys or earlier times.""",
 ["histories"], "all sequences of updates, forced sets and reads at arbitrary times on several keys",
 "Tests apply a few hand-picked updates.",
 ["packages/cw-wormhole/src/lib.rs"],
 [("load / update / dangerously_update", "packages/cw-wormhole/src/lib.rs")])
prop("L02", "The stake tracker reports what is staked, with whom, at any time",
 """After any sequence of delegations, redelegations, undelegations and promptly registered slashes the tracker reports at every time exactly the total bonded or unbonding amount, the amount per validator and the number
 of validators with any such amount; undelegated tokens count until their unbonding ends.""",
 ["histories"], "all sequences of staking events in time order, and all query times before, at and after them",
 "Tests script a few events; validator counts go wrong only for specific overlaps of unbonding with new stake.",
 ["packages/cw-stake-tracker/src/lib.rs"],
 [("on_delegate/on_undelegate/on_redelegate/on_*_slash", "packages/cw-stake-tracker/src/lib.rs")])
prop("L03", "Paged listings neither skip nor repeat entries",
 """Reading any stored map page by page, in either order, with any start point and page sizes, yields the same entries as reading it at once: those strictly after the start point in key order,
 at most the page limit, for plain maps, key listings, value listings and snapshot maps (their current contents).""",
 ["inputs"], "all map contents, start points (present or absent), limits and orders",
 "Tests page through one fixed map.",
 ["packages/cw-paginate-storage/src/lib.rs"],
 [("paginate_map, paginate_map_keys, paginate_map_values, paginate_snapshot_map, paginate_snapshot_map_keys", "packages/cw-paginate-storage/src/lib.rs")])
prop("L04", "A checked denomination moves the right token to the right account",
 """A denomination accepted for deposits or payments is either a well-formed native denomination or an existing cw20 token, and everything else is refused; paying with it transfers exactly the stated amount of that token and balance queries report that token.""",
 ["inputs"], "all denomination strings and token addresses, amounts and holders",
 "Tests list a few denominations.",
 ["packages/cw-denom/src/lib.rs", "packages/dao-voting/src/deposit.rs"],
 [("into_checked, get_transfer_to_message, query_balance", "packages/cw-denom/src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
