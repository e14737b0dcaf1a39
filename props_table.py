PS = "contracts/proposal/dao-proposal-single/src"
PM = "contracts/proposal/dao-proposal-multiple/src"
PC = "contracts/proposal/dao-proposal-condorcet/src"

prop("C01", "A yes/no proposal passes exactly when its votes reach the threshold",
     """When voting on a yes/no proposal ends, it is passed if the votes cast meet its configured threshold and quorum and rejected if
     they do not, percentages being exact to nine decimals of one vote. A proposal decided before its end keeps that outcome whatever the
     remaining voters do, no early decision is made while votes can still be changed, and none passes before the minimum voting period is over.""",
     ["inputs", "configurations", "histories"],
     """every threshold kind (absolute count, absolute percentage, percentage with quorum, majority), every percentage from 10^-9, every
     distribution of voting power up to 2^120 over yes, no, abstain and silence, every instant at which part of the votes is in""",
     """the tests sample a few dozen vote distributions and thresholds; rounding at the boundary and early decisions are wrong only for
     particular combinations of powers, percentages and outstanding votes""",
     [PS + "/proposal.rs", "packages/dao-voting/src/voting.rs", "packages/dao-voting/src/threshold.rs"],
     [("status computation", PS + "/proposal.rs: current_status, is_passed, is_rejected"),
      ("vote comparison", "packages/dao-voting/src/voting.rs: compare_vote_count, does_vote_count_pass")],
     """For up to seven voters of any power below 2^120 and any times to 10^9 s, the outcome at the end and every early decision are compared
     with the threshold's definition in exact integer arithmetic.""",
     ["the proposal module's proposal query before and at the end of voting"])

prop("C02", "A multiple-choice proposal passes for the one leading option only",
     """When voting on a multiple-choice proposal ends, it is passed exactly when the quorum is met and one option other than "none of the
     above" has strictly more votes than every other, and otherwise it is rejected. An early decision is never contradicted by later votes,
     is not made while votes can be changed, and never passes a proposal before its minimum voting period is over. Executing it runs the
     winning option's messages and no others.""",
     ["inputs", "configurations", "histories"],
     """every distribution of voting power up to 2^120 over two (thorough: three) options, none of the above, a later vote for any of them,
     and silence; majority and percentage quorums; every instant""",
     """tests use a handful of tallies; ties, unbeatable leads and quorums differ only for exact relations between several powers""",
     [PM + "/proposal.rs", PM + "/contract.rs", "packages/dao-voting/src/multiple_choice.rs"],
     [("status computation", PM + "/proposal.rs: is_passed, is_rejected, calculate_vote_result, is_choice_unbeatable"),
      ("execution of the winner", PM + "/contract.rs: execute_execute")],
     """Outcome, early outcome and the messages run are compared with the definition for every tally within the bounds.""",
     ["proposal query before and at the end of voting; messages received by a recording contract"])

prop("C03", "A ranked-choice proposal passes for the choice that beats all others",
     """A ranked-choice proposal that ends with its quorum met passes for the choice, possibly "none of the above", that is ranked above every
     other choice by more voting power than below it, and is rejected when no such choice exists or the quorum is missed; an earlier decision is
     never contradicted by later ballots nor made before the minimum voting period is over. Only members' complete, duplicate-free
     rankings count, once each and before the end, and only members may propose and execute. A passed proposal runs the winner's messages at
     most once, a rejected one can only be closed.""",
     ["inputs", "histories", "configurations"],
     """every ranking of two early voters (thorough: three) and a late one over two to four candidates, powers to 2^120, every instant, and
     every sequence of three (thorough: four) actions including malformed ballots""",
     """tests fuzz small elections without an exact oracle for early decisions; the pairwise bookkeeping is wrong only for particular rankings
     and margins""",
     [PC + "/tally.rs", PC + "/m.rs", PC + "/cell.rs", PC + "/proposal.rs", PC + "/contract.rs", PC + "/vote.rs"],
     [("pairwise matrix", PC + "/m.rs: stats, increment, decrement"), ("winner and early decision", PC + "/tally.rs: winner; " + PC + "/proposal.rs: status"),
      ("ballot validation", PC + "/vote.rs: Vote::new")],
     """Statuses, accepted ballots and executed messages are compared with pairwise counting done in the harness.""",
     ["proposal query; results of every message; messages received by a recording contract"])

VOTES = [PS + "/contract.rs", PM + "/contract.rs", PS + "/proposal.rs", PM + "/proposal.rs", "packages/dao-voting/src/voting.rs"]
prop("C04", "Each member's vote counts once, with the power held when voting began",
     """The tally of a proposal is always the sum, over the voters whose ballots are recorded, of the voting power each held when the proposal was
     created, counted for the choice of their latest ballot. A ballot is accepted exactly from those who had power then, before the proposal
     expires, and, if they voted already, only when the proposal allows revoting and the choice differs; a vote cast while proposing follows
     the same rules.""",
     ["histories", "inputs", "configurations"],
     """two proposals with powers changing between them, two (thorough: three) ballots by members and an outsider in any order, powers to
     2^120, times to 10^9 s, revoting on or off, yes/no and multiple-choice proposals""",
     """tests follow fixed scripts; miscounting needs a particular order of power changes, votes, revotes and expiry""",
     VOTES, [("vote handling", PS + "/contract.rs: execute_vote; " + PM + "/contract.rs: execute_vote"), ("vote with proposal", PS + "/contract.rs: execute_propose")],
     "Every ballot's acceptance and every tally is compared with a model of the rules.",
     ["vote and proposal queries after every action"])

prop("C05", "A passed proposal's messages run exactly as written, at most once",
     """A proposal's messages run only when it is passed and is executed, by a member where only members may execute, then all of them in order,
     sent by the DAO, and never a second time, not even from within its own execution. If they fail, none of them takes effect and the proposal is
     marked as failed, or stays executable where failed proposals are not to be closed; only rejected proposals can be closed, and a closed,
     failed or executed proposal never changes again. Changing the module's configuration, which only the DAO can do, does not change the terms
     of proposals made before.""",
     ["histories", "inputs", "configurations", "fault_sequences"],
     """every sequence of three (thorough: four) actions out of voting, executing by members or outsiders, closing and waiting; powers,
     thresholds and treasury to 2^120 so that execution may fail; yes/no and multiple-choice proposals""",
     """tests run single scripts; double execution or lost failure handling depends on the order of actions, the treasury and the flags""",
     VOTES, [("execution", PS + "/contract.rs: execute_execute, reply; " + PM + "/contract.rs: execute_execute, reply"), ("closing", "execute_close in both"),
             ("configuration", "execute_update_config in both")],
     "Each action's acceptance, each status and every effect on balances and a recording contract is compared with a model.",
     ["proposal status, balances and received messages after every action"])

prop("C06", "Vetoes and timelocks hold back execution exactly as configured",
     """A passed proposal with a veto configuration cannot be executed before its timelock, counted from the end of voting, is over, except by
     the vetoer where early execution is allowed. Only the vetoer can veto, during the timelock, or before the proposal passes where that is
     allowed, and a vetoed proposal is final and never executes.""",
     ["histories", "inputs", "configurations"],
     """every sequence of three (thorough: four) actions out of executing and vetoing by vetoer and member, closing and waiting; every
     combination of veto flags; timelock and voting periods to 10^9 s; powers to 2^120; yes/no and multiple-choice proposals""",
     """tests visit a few points of the timeline; off-by-one instants and flag combinations are missed""",
     VOTES + ["packages/dao-voting/src/veto.rs"],
     [("veto", PS + "/contract.rs: execute_veto; " + PM + "/contract.rs: execute_veto"), ("timelock", PS + "/proposal.rs: current_status; " + PM + "/proposal.rs: current_status"),
      ("permission checks", "packages/dao-voting/src/veto.rs")],
     "Each action's acceptance and each status is compared with a model over symbolic times.",
     ["proposal status, balances and received messages after every action"])

CORE = "contracts/dao-dao-core/src/contract.rs"
prop("C07", "A DAO acts only for its enabled proposal modules, its admin, or itself",
     """A DAO sends messages only when an enabled proposal module or its admin asks it to, and its configuration, items, modules, sub-DAO list and
     pause are changed only by itself; while it is paused no one but itself and its admin can act. The admin changes only when the admin
     nominates a successor who then accepts, or gives the role to the DAO itself, and a pending nomination can be withdrawn only by the admin.
     There is always an enabled proposal module, the module counts agree with the modules, and power queries are answered by the current voting module.""",
     ["histories", "inputs", "configurations"],
     """each of 15 actions by each of 6 parties from every combination of external admin, pending nomination, disabled module and pause; all
     sequences of 2 (thorough 3) such actions; payments to 2^120, times to 10^9 s""",
     """tests check chosen pairs of sender and message; authority leaks through combinations of admin changes, pauses and disabled modules""",
     [CORE, "contracts/dao-dao-core/src/state.rs"],
     [("sender checks", CORE + ": execute and each execute_*"), ("module counts", CORE + ": execute_update_proposal_modules, reply"),
      ("pause", CORE + ": execute"), ("admin succession", CORE + ": execute_nominate_admin, execute_accept_admin_nomination, execute_withdraw_admin_nomination")],
     "Acceptance of every action and the whole queried state are compared with a model of the DAO.",
     ["state queries, balances and messages sent after every action"])

PP = "packages/dao-pre-propose-base/src"
PA = "contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs"
PR = "contracts/pre-propose/dao-pre-propose-approver/src/contract.rs"
prop("C08", "Proposal deposits are taken in full and given back as agreed",
     """A submission is accepted only with exactly the deposit required at that time, and refused otherwise with nothing taken. When its proposal ends,
     that deposit goes in full and once to the proposer or to the DAO as the refund policy in force at submission says (always; only if passed;
     never), whatever terms hold by then; until the end it stays where it is. Only the DAO changes the terms and only the proposal module settles deposits.""",
     ["histories", "inputs", "configurations"],
     """two proposals under different terms (native or token deposits, every policy, any amount to 2^120), ending in either order by execution,
     failed execution, closing, veto, or not at all; any payment offered""",
     """tests follow single proposals; a deposit settled by current instead of agreed terms, twice, or to the wrong party takes changed terms or unusual ends""",
     [PP + "/execute.rs", "packages/dao-voting/src/deposit.rs", "packages/cw-denom/src/lib.rs", "contracts/pre-propose/dao-pre-propose-single/src/contract.rs",
      "contracts/pre-propose/dao-pre-propose-multiple/src/contract.rs"],
     [("taking and settling", PP + "/execute.rs: execute_propose, execute_proposal_completed_hook"), ("payment", "packages/dao-voting/src/deposit.rs: check_native_deposit_paid, get_take_deposit_messages")],
     """The balances of both proposers, the DAO and the deposit contract are compared with the agreed terms after each event.""",
     ["bank and token balances; results of submissions; proposal query"])

prop("C09", "Only those the submission policy allows can submit proposals",
     """When a submission contract guards a proposal module, an address can create a proposal exactly when it is not on the denylist and the policy admits
     anyone, lists it, or admits members and it has voting power now; no proposal can be made around the contract. Only the DAO changes the
     policy, each edit adds and removes exactly the named addresses, and a policy that lists an address as both allowed and denied or admits nobody is refused.""",
     ["inputs", "configurations", "histories"],
     """every policy over two addresses, every edit of it, and any voting power to 2^120, over the three submission contracts; lists of three addresses in any order and edits of them""",
     """tests cover some edits and submitters; precedence between the lists, membership and edits goes wrong for particular combinations""",
     [PP + "/execute.rs", PP + "/helpers.rs", "packages/dao-voting/src/pre_propose.rs"],
     [("submission check", PP + "/execute.rs: check_can_submit"), ("edits", PP + "/execute.rs: execute_update_submission_policy; " + PP + "/helpers.rs")],
     """Edits, answers and submissions are compared with the policy computed in the harness.""",
     ["results of messages; the contract's own answer whether an address may submit; proposal count"])

prop("C10", "A submission becomes a proposal only once, by its approver's decision",
     """Where submissions need approval, each waits until the current approver approves or rejects it, which happens once and by nobody else. Approving one
     that the proposal module admits creates exactly the proposal submitted, in its proposer's name and with its deposit; rejecting returns the deposit only under the always-refund
     policy and otherwise gives it to the DAO. Where another DAO approves, executing its proposal approves, closing or vetoing it rejects, and anything else leaves the submission waiting.""",
     ["histories", "inputs"],
     """three (thorough: four) actions of approver, successor and outsider, and attempts by the DAO and its modules, over two submissions with any deposits; every end of the approving DAO's proposal""",
     """tests follow the intended order; double decisions, replaced approvers and vetoes arise only in particular orders""",
     [PA, PR],
     [("approval and rejection", PA + ": execute_approve, execute_reject, execute_update_approver"), ("the approving DAO's side", PR + ": execute_propose, execute_proposal_completed, execute_reset_approver")],
     """Submissions' states, proposals made, and all balances are compared with a model after every sequence of actions.""",
     ["submission and proposal queries, balances, results of messages"])

ST = "contracts/staking/cw20-stake/src/contract.rs"
prop("C11", "Staked tokens are worth their share, and return only to their staker",
     """A stake of tokens gives its staker, and no one else, voting power worth its share of the pool at the moment of staking, and funds added to the pool raise
     what a unit of power is worth without changing anyone's power. Unstaking pays the share of the pool the power is worth, at once or as a claim payable once, to its owner, from the time the waiting
     period then in force has passed; the contract always holds all it owes. Past powers never change, power queries agree with stakes, and only the DAO changes waiting period and listeners, who hear of every stake and unstake.""",
     ["histories", "inputs", "configurations"],
     """three or four actions of two stakers with any amounts to 2^118 (staking, unstaking, claiming, funding, changing the waiting period, new blocks), any waiting period""",
     """tests use round amounts and fixed orders; rounding, gains between stakes and claims at the edge of their time depend on exact values""",
     [ST, "contracts/staking/cw20-stake/src/math.rs", "contracts/voting/dao-voting-cw20-staked/src/contract.rs"],
     [("staking, unstaking, funding", ST + ": execute_stake, execute_unstake, execute_fund"), ("shares", "contracts/staking/cw20-stake/src/math.rs"),
      ("claims", ST + ": execute_claim"), ("power", "contracts/voting/dao-voting-cw20-staked/src/contract.rs: query_voting_power_at_height")],
     """Powers now and at every past block, token balances, claims, the worth of each stake and messages to the listener are compared with exact integer shares after each action.""",
     ["power, stake, claim and total queries; token balances; messages received by a listener"])

TS = "contracts/voting/dao-voting-token-staked/src/contract.rs"
prop("C12", "Staked native tokens return in full, and only to their staker",
     """A stake of the DAO's native token gives its staker power equal to the amount from the next block; other payments are refused. Unstaking takes the power
     at once and returns exactly the amount to its owner, immediately or as a claim payable once after the waiting period in force when it was made; the contract always holds all stakes and claims.
     Past powers never change, and only the DAO changes the waiting period and the listeners, who hear of every stake and unstake.""",
     ["histories", "inputs", "configurations"],
     """four (thorough five) actions of two stakers with any amounts to 2^118, any waiting period, new blocks of any length in between""",
     """tests use fixed orders and amounts; claims at the edge of their time and powers at past heights depend on exact values and orders""",
     [TS],
     [("staking, unstaking, claims", TS + ": execute_stake, execute_unstake, execute_claim"), ("powers", TS + ": query_voting_power_at_height, query_total_power_at_height")],
     """Powers now and at every past block, balances, claims and messages to the listener are compared with a model after each action.""",
     ["power, claim and staker queries; bank balances; messages received by a listener"])

NS = "contracts/voting/dao-voting-cw721-staked/src/contract.rs"
prop("C13", "Staked NFTs are held for their staker alone, and give one power each",
     """An NFT of the DAO's collection that its holder, or someone its holder allowed to move it, stakes gives that sender one unit of power from the next block, and
     comes back to that sender only (an NFT of the chain's own kind is first announced by its holder, sent, then confirmed, and until then returned on request): unstaking takes the power, and returns the NFT at once or as a claim payable once after the waiting period in force when it was made. NFTs of other collections and
     forged notices are never counted; the lists of staked NFTs and claims, the powers at every past block and the announcements to listeners are exactly what the stakes and unstakes make them,
     and only the DAO changes the waiting period and the listeners.""",
     ["histories", "inputs", "configurations"],
     """three NFTs of two holders, three (thorough four) actions of staking, unstaking any list of them, claiming, waiting, changing the waiting period, with any waiting period and times to 10^9 s; two chain-native NFTs in eight situations, two (thorough three) further actions""",
     """tests use fixed orders; a token lost, doubled or released early depends on an order of stakes, claims and waiting periods""",
     [NS, "contracts/voting/dao-voting-cw721-staked/src/state.rs", "contracts/voting/dao-voting-onft-staked/src/contract.rs", "contracts/voting/dao-voting-onft-staked/src/state.rs"],
     [("staking and unstaking", NS + ": execute_stake, execute_unstake"), ("claims", NS + ": execute_claim_nfts"), ("booking", "contracts/voting/dao-voting-cw721-staked/src/state.rs"), ("announced staking", "contracts/voting/dao-voting-onft-staked/src/contract.rs: execute_prepare_stake, execute_confirm_stake, execute_cancel_stake")],
     """The holder of every NFT, lists, claims, powers at every past block and announcements are compared with a model after the actions.""",
     ["owner queries of the collection; staked, claim and power queries; messages received by a listener"])

prop("C14", "A DAO takes proposals only while enough of its tokens are staked",
     """Where a DAO sets a number or a percentage of its tokens that must be staked, it counts as active exactly when at least that much is staked (a percentage of the whole supply being exact
     to a billionth of a token), and without such a threshold always. Proposals are made only while it is active, those made before remain votable.
     Only the DAO changes the threshold, and a threshold of zero, of more than the supply, or of more than all is refused.""",
     ["inputs", "configurations", "histories"],
     """token, native and NFT staking; every supply and stake to 2^120 (NFTs to 4), every number and every percentage to 200 %, at creation or set later, and an unstake afterwards""",
     """tests use round percentages and supplies; rounding at the boundary shows only for particular amounts""",
     [TS, NS, "contracts/voting/dao-voting-cw20-staked/src/contract.rs", "packages/dao-voting/src/threshold.rs", PS + "/contract.rs", PM + "/contract.rs"],
     [("activity", "query_is_active in dao-voting-cw20-staked, dao-voting-token-staked, dao-voting-cw721-staked"),
      ("admissible thresholds", "packages/dao-voting/src/threshold.rs: assert_valid_absolute_count_threshold, assert_valid_percentage_threshold")],
     """The answer whether the DAO is active, acceptance of thresholds and of proposals are compared with exact integer arithmetic.""",
     ["the voting module's own answer; results of proposals, votes and threshold changes"])

R7 = "contracts/external/cw721-roles/src/contract.rs"
prop("C15", "Power by membership or role is the weight the DAO assigned",
     """In a DAO of members or of role holders, an address has at every past block exactly the weight of its membership, or the sum of the weights of the role tokens it held, at the beginning of that block; the total is the sum of
     all, and no one else has any. Only the DAO adds, removes or changes members, and only it mints, burns, moves or changes role tokens, which it always can; listeners are told each
     change of weight with the right old and new values. A group without power or with doubled members is refused.""",
     ["histories", "inputs"],
     """weights to 2^61; two (thorough three) changes by DAO, voting module or member at the same or different heights""",
     """tests make single changes; sums and snapshots go wrong for several changes, transfers or zero weights""",
     ["contracts/voting/dao-voting-cw4/src/contract.rs", "contracts/voting/dao-voting-cw721-roles/src/contract.rs", R7],
     [("powers", "contracts/voting/dao-voting-cw4/src/contract.rs: query_voting_power_at_height, query_total_power_at_height"),
      ("role tokens", R7 + ": execute_mint, execute_burn, execute_transfer, execute_update_token_weight"), ("power by role", "contracts/voting/dao-voting-cw721-roles/src/contract.rs: query_voting_power_at_height")],
     """Powers at every past block, holders and listeners' knowledge are compared with a model after the changes.""",
     ["power queries at every height; holders; messages received by a listener"])

RD = "contracts/distribution/dao-rewards-distributor/src"
prop("C16", "Rewards to a DAO's voters are shared by power and time, and covered",
     """A funded distribution pays out at its rate for the time since it began or was last funded, until the funds are used up, or at once where so agreed, shared among the members in proportion to the
     voting power each held during that time, exact to the rounding stated; what a member has earned is neither lost nor changed by later stakes, claims, fundings or
     rate changes, is payable once and to that member, and all that is owed is covered by what was funded. Only the owner changes or withdraws a distribution, withdrawal returns only
     what has not been earned, and only the registered voting contract announces changes of power.""",
     ["histories", "inputs", "configurations"],
     """two members staking up to 2^90, fundings up to 2^90 of a native or another token, paused, immediate, stepwise or continuous rates, one or two steps of staking, claiming, funding, changing the rate or withdrawing, waits up to 10^9 s; three distributions at once over powers from staked tokens or NFTs, a group or role tokens, with a change of powers, a distribution that listens elsewhere, and a claim""",
     """tests use round rates and a few scripts; lost remainders and double counting show for particular orders and amounts""",
     [RD + "/contract.rs", RD + "/rewards.rs", RD + "/state.rs", RD + "/helpers.rs", RD + "/hooks.rs"],
     [("accrual", RD + "/rewards.rs: update_rewards, get_active_total_earned_puvp; " + RD + "/state.rs: get_total_rewards, bump_last_update"),
      ("funding, claims, withdrawal", RD + "/contract.rs: execute_fund, execute_claim, execute_withdraw, execute_update")],
     """Pending rewards, payments and the distribution's remaining funds are compared with shares computed in exact integers, within the rounding of the contract's fixed-point factor.""",
     ["pending-reward and distribution queries, balances, results of messages"])

ER = "contracts/staking/cw20-stake-external-rewards/src/contract.rs"
RR = "contracts/staking/cw20-stake-reward-distributor/src/contract.rs"
prop("C17", "Staking rewards accrue by stake and block, and never exceed the funds",
     """Rewards funded for token stakers accrue evenly over the agreed number of blocks, are shared in proportion to what each has staked in each block, stay earned whatever is staked or unstaked later, are paid
     once to the staker who earned them, and never exceed what was funded. Only the owner funds and changes the period, not during one, and only the staking contract announces stakes.
     A steady top-up of a staking pool pays its rate for each block passed, as far as its funds go, and only its owner changes the rate or withdraws what is left.""",
     ["histories", "inputs", "configurations"],
     """native or other-token rewards over ten blocks; two stakers of up to 2^90, fundings up to 2^90, two (thorough three) steps of staking, unstaking, claiming or funding 1 or 10 blocks apart; top-ups at any rate""",
     """tests follow scripts with round numbers; rounding and order of stakes and claims decide whether funds suffice""",
     [ER, RR],
     [("accrual", ER + ": update_rewards, get_rewards_earned"), ("funding", ER + ": execute_fund"), ("top-up", RR + ": execute_distribute, get_distribution_msg")],
     """Pending rewards, balances and the running period are compared with shares computed in exact integers, within stated rounding.""",
     ["reward queries, balances, results of messages"])

FD = "contracts/distribution/cw-fund-distributor/src/contract.rs"
prop("C18", "A one-time distribution pays each member their share once",
     """Funds put into a one-time distribution during its funding period are shared in proportion to the voting power members held at the distribution's height, whatever it is later;
     each member can claim each fund's share, rounded down, in full, once and for no one else, and nothing is claimed during the funding period or put in after it. All members together never
     take more than was put in, and only the DAO can share out again what is left, by the powers at the new height.""",
     ["histories", "inputs"],
     """two members and others of powers up to 2^90 at two heights, native and other-token funds to 2^90, claims 0, 9, 10 or 11 blocks later, a redistribution in between""",
     """tests keep powers fixed; shares taken by the wrong height or total show only when powers change""",
     [FD], [("shares", FD + ": get_entitlement, execute_claim_cw20s, execute_claim_natives"), ("redistribution", FD + ": execute_redistribute_unclaimed_funds")],
     """Entitlements and balances are compared with exact shares after each step.""",
     ["entitlement queries, balances, results of messages"])

TW = "contracts/external/cw-token-swap/src/contract.rs"
prop("C19", "A token swap completes for both parties or returns what was paid",
     """Each party of a swap pays exactly the promised sum of the promised token, once; any other payment, by anyone, is refused with nothing taken. When both have paid, each receives exactly what the other promised, in the
     same transaction; until then a party can withdraw its payment, in full and only to itself, and pay again, and after completion nothing more happens.""",
     ["histories", "inputs", "configurations"],
     """up to 2^100 of two native tokens or two other tokens, the same or different ones; three (thorough four) payments or withdrawals by either party or an outsider, of any sum in any token; forged notices""",
     """tests follow the intended order; wrong tokens, repeated payments and equal tokens on both sides arise in particular orders only""",
     [TW, "contracts/external/cw-token-swap/src/state.rs"],
     [("payments", TW + ": execute_fund, execute_receive, do_fund"), ("withdrawal", TW + ": execute_withdraw")],
     """Acceptance of each action, all balances and the swap's status are compared with a model.""",
     ["status query, balances, results of messages"])

VE = "contracts/external/cw-vesting/src"
prop("C20", "A vesting payment pays its recipient by its schedule, no sooner or later",
     """At any time the recipient of a funded vesting payment has been able to take exactly what its schedule, straight or stepwise, has vested of the total by then, rounded down, less what was taken before, and in the end all of it.
     Only the owner cancels it, which returns the unvested part to the owner at once and leaves the vested part, unchanged, to the recipient; only the exact payment starts it, and only an owner who
     exists cancels. The payment's state, total and vested amounts queried are those.""",
     ["histories", "inputs", "configurations"],
     """payments up to 2^90 of a native or other token, even over any period up to 10^9 s asked at any time, or in up to three steps; three actions of paying out any sum, cancelling and returning, up to 1700 s apart""",
     """tests sample a few times; rounding and cancellation at particular instants are missed""",
     [VE + "/contract.rs", VE + "/vesting.rs"],
     [("schedule", VE + "/vesting.rs: Vest::vested, Payment::distributable"), ("payout and cancellation", VE + "/vesting.rs: Payment::distribute, Payment::cancel")],
     """Vested and payable amounts, balances and states are compared with the schedule in exact integers after each action.""",
     ["vesting queries, balances, results of messages"])

SK = "packages/cw-stake-tracker/src/lib.rs"
prop("C21", "A vesting payment may be staked; losses by slashing fall where they belong",
     """While staked, being unbonded or after slashing, a vesting payment pays out exactly what it holds free and has vested; once cancelled, the recipient's vested part is paid first as tokens return, and the owner gets the rest, reduced by registered slashes, so that neither is paid more
     than the payment has. Staking is the recipient's until cancellation and the owner's after; only the owner registers slashes. The record of staked and unbonding tokens answers for every time
     what was bonded or unbonding then, with slashes applied to the time they happened.""",
     ["histories", "inputs", "fault_sequences"],
     """up to 2^90 tokens with two validators, two (thorough three) actions of staking, unstaking, paying, slashing, returning around a cancellation; four (thorough five) changes of the record, asked at every time""",
     """tests script a few slashes; the record is wrong only for particular interleavings of unbonding, slashes and times""",
     [VE + "/contract.rs", VE + "/vesting.rs", SK],
     [("free tokens", VE + "/vesting.rs: Payment::liquid, Payment::distribute, Payment::cancel, Payment::register_slash"), ("record of stakes", SK + ": on_delegate, on_undelegate, on_bonded_slash, on_unbonding_slash, total_staked")],
     """Payments, owner's and recipient's balances and the record at every time are compared with a model of what the chain holds.""",
     ["vesting and stake queries, balances, results of messages"])

PF = "contracts/external/cw-payroll-factory/src/contract.rs"
AF = "contracts/external/cw-admin-factory/src/contract.rs"
prop("C22", "Factories set up and list exactly what was ordered, for those allowed",
     """A payroll factory creates a vesting contract only when it is given exactly the sum and the token ordered, passes all of it on to that contract, and takes orders from its owner only where it has one; every
     payment it made is listed once, under its payer and under its recipient, from any place, in either direction and with any limit. Only its owner changes its owner and the code it uses.
     The admin factory creates contracts that are their own admin, with the message and funds given, and for nobody but those it is meant for.""",
     ["inputs", "histories", "configurations"],
     """any sums up to 2^100 ordered and paid, in the token ordered or another, native or not; four payments of two payers to two recipients listed from any place""",
     """tests order matching sums and list few payments; a mismatch or a skipped entry takes particular values""",
     [PF, AF, "packages/cw-paginate-storage/src/lib.rs"],
     [("orders", PF + ": execute_instantiate_native_payroll_contract, execute_receive, instantiate_contract"), ("lists", PF + ": query"), ("self-administered contracts", AF + ": instantiate_contract, reply")],
     """Acceptance, balances, the new contracts' terms and admins, and every list are compared with the orders.""",
     ["list queries, balances, contract information, results of messages"])

HK = "packages/dao-hooks/src"
prop("C23", "A failing watcher is dropped and never blocks proposals or other watchers",
     """Contracts watching a proposal module are told of every new proposal, every vote and every change of status, in order, with the right old and new status, and their failure never keeps
     anyone from proposing, voting, executing, closing or vetoing; one that fails is dropped and no other is. If the contract allowed to propose fails to be told, it is dropped as well and the way of
     proposing that was agreed as a fallback applies. Only the DAO adds and removes watchers.""",
     ["fault_sequences", "histories", "configurations"],
     """up to three watchers failing from any point on, proposals that are executed, closed or vetoed or decided at once by the ballot that comes with them, any power of the voter; yes/no and multiple-choice proposals""",
     """tests fail a single watcher; dropping the wrong one takes several failures in one transaction""",
     [PS + "/contract.rs", PM + "/contract.rs", HK + "/proposal.rs", HK + "/vote.rs", "packages/cw-hooks/src/lib.rs", "packages/dao-voting/src/reply.rs"],
     [("dispatch", HK + "/proposal.rs, " + HK + "/vote.rs; cw-hooks prepare_hooks"), ("removal", "reply in " + PS + "/contract.rs and " + PM + "/contract.rs")],
     """Who is told what, who remains registered, and the acceptance of each action are compared with a model.""",
     ["hook queries, messages received by the watchers, results of messages"])

TI = "contracts/external/cw-tokenfactory-issuer/src"
prop("C24", "Tokens are issued, destroyed, frozen and moved only as their owner allows",
     """A token's issuer makes and destroys tokens for exactly those given an allowance and up to it, each use lowering it; only its owner gives allowances, moves holders' tokens by force, gives the token away on the chain,
     freezes transfers, and lists who is exempt or barred. While frozen, a transfer goes through only to or from someone exempt, and never to or from someone barred; only owner and heir together change the owner.
     Balances, supply, allowances, lists and ownership reported are those that follow from what was done.""",
     ["histories", "inputs"],
     """allowances and amounts up to 2^118, two (thorough three) actions of making, destroying, allowing, forced moves, ownership and payments, by owner, minter and others; two (thorough three) changes of freezing, lists and who is asked before transfers, then a transfer of it or of another token; an existing token given to the issuer or not""",
     """tests try one rule at a time; a wrong exemption or allowance takes a combination of them""",
     [TI + "/execute.rs", TI + "/hooks.rs", TI + "/helpers.rs", TI + "/queries.rs", TI + "/contract.rs"],
     [("issuing", TI + "/execute.rs: mint, burn, set_minter, set_burner, force_transfer"), ("rules of transfer", TI + "/hooks.rs: beforesend_hook; " + TI + "/helpers.rs: check_is_not_frozen")],
     """The chain's token module is a stand-in that keeps balances, administrators and asks the issuer before each transfer; acceptance of each action, balances, supply and every list are compared with a model.""",
     ["issuer queries, balances, supply, results of messages"])

VT = "contracts/voting/dao-voting-token-staked/src/contract.rs"
VC = "contracts/voting/dao-voting-cw20-staked/src/contract.rs"
VN = "contracts/voting/dao-voting-cw721-staked/src/contract.rs"
prop("C25", "A DAO made with a new token gives out what was agreed and then controls it",
     """A DAO founded with a new native token, a new CW20 token or a new NFT collection gives each first holder and its own treasury exactly what was agreed and nothing else exists; afterwards the DAO alone owns the token, its
     staking contract and their code, and nobody else can make more. It is refused where nobody could vote: no first holders, or a threshold for activity of zero or above what is there. A token made by a named factory is accepted only if
     the factory names one that exists and can be voted with, and the DAO then does what the factory asked for.""",
     ["inputs", "configurations"],
     """up to two holders, treasury and count threshold up to 2^118; up to two NFTs; tokens, stakes or groups there before, new groups of up to three; factories that answer, answer wrongly or not at all""",
     """tests found DAOs with a few fixed numbers; wrong splits, ownership left with a helper, and impossible thresholds depend on the combination""",
     [VT, VC, VN, "contracts/dao-dao-core/src/contract.rs", TI + "/contract.rs"],
     [("native", VT + ": instantiate, reply"), ("CW20", VC + ": instantiate, reply"), ("NFT", VN + ": instantiate, reply"), ("callbacks", "contracts/dao-dao-core/src/contract.rs: reply")],
     """Founding succeeds exactly when the model says, and balances, supply, owners, minters, code administrators and callbacks are compared with the order.""",
     ["balances, supply, ownership and contract information, results of messages"])

S20 = "contracts/staking"
prop("C26", "Upgrading keeps a DAO's stakes, claims, votes, proposals and rules",
     """Bringing a DAO, its proposals, its token staking, its staking rewards or its rules for submitting from the older releases to the current code changes no proposal, ballot, tally, threshold, stake, claim, reward due,
     setting, owner, administrator, item or watcher, and what was promised before is honoured after: voting goes on, proposals end as their threshold says, deposits return by their rules, stakes, claims and rewards are paid.
     It is refused where the new code could not honour the old, such as with deposits outstanding, and a second time.""",
     ["histories", "inputs", "configurations"],
     """a proposal caught in any state with any threshold, votes and times; cores of up to three modules; any stakes, claims, fundings, rewards and deposits within 2^60 to 2^120""",
     """tests migrate one prepared state each; what is lost shows only for particular states and later actions""",
     ["contracts/dao-dao-core/src/contract.rs", PS + "/contract.rs", PS + "/v1_state.rs", S20 + "/cw20-stake/src/contract.rs", S20 + "/cw20-stake-external-rewards/src/contract.rs",
      S20 + "/cw20-stake-reward-distributor/src/contract.rs", "packages/dao-pre-propose-base/src/execute.rs"],
     [("upgrade", "migrate in each of the files; v1_*_to_v2 in " + PS + "/v1_state.rs")],
     """The older releases' own code (from the cargo registry) is run symbolically to make the state, then upgraded in place; everything is read before and after and compared, and then used.""",
     ["every query before and after, balances, results of messages"])

prop("C27", "Every list shows each entry once, in order, from any place and up to any limit",
     """Every list a DAO's contracts keep (proposals, ballots, modules, items, tokens, sub-DAOs, submissions, stakers, staked NFTs, role holders, distributions, entitlements, allowances, exemptions) shows exactly the entries that
     exist, each once, with its current values and in the order of its keys. Asked from after any place, with any limit and in either direction, it shows the entries that follow there, up to the limit; some lists give no
     more than 30 or 50 at once, or 10 or 30 where no limit is given.""",
     ["inputs", "histories"],
     """up to three entries each made, changed and removed or not, with any powers, amounts and times; any place before, at, between or after them; limits 0 to 3, 5, 30 and 2^32 - 1""",
     """tests page through one list of a few fixed entries, mostly forwards; an entry skipped, stale or doubled takes a removal, a direction, a place that does not exist or a limit at the border""",
     ["packages/cw-paginate-storage/src/lib.rs", "contracts/dao-dao-core/src/contract.rs", PS + "/contract.rs", PM + "/contract.rs", "contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs",
      S20 + "/cw20-stake/src/contract.rs", VT, VN, "contracts/voting/dao-voting-onft-staked/src/contract.rs", "contracts/external/cw721-roles/src/contract.rs",
      "contracts/distribution/dao-rewards-distributor/src/contract.rs", "contracts/distribution/cw-fund-distributor/src/contract.rs", TI + "/queries.rs"],
     [("paging", "packages/cw-paginate-storage/src/lib.rs"), ("lists", "query in each of the files")],
     """Each page is compared with the entries the history must have left, from the place asked and cut at the limit.""",
     ["list queries"])
