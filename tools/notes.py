# id: (technique, level_note)
SB = "stateful model-based property testing (proptest) of the real contracts on a simulated chain against an independent reference model"
TR = " Exploration of generated cases, not a proof; trusts cw-multi-test and the reference model."
NOTES.update({
 "P01": (SB, "Every status after every operation equals an independent oracle that searches the completions of the vote; thresholds are drawn on and around the boundaries." + TR),
 "P02": (SB, "Ballots, tallies, listings and each vote's acceptance equal the model's after every operation." + TR),
 "P03": (SB, "Acceptance and effects of every execute/close/veto equal the model's, with failing and re-entrant messages." + TR),
})
NOTES.update({
 "P04": (SB, "Every status and the executed option equal an oracle that enumerates the completions of the vote; ties, quorum and early decisions are drawn on the boundary." + TR),
 "P05": (SB, "Ballots, tallies, listings, acceptance and effects of every operation equal the model's." + TR),
 "P06": (SB, "The pairwise winner is recomputed from the recorded rankings and early decisions are checked against completions of the vote." + TR),
})

NOTES.update({
 "P07": (SB, "Every balance of the module, proposers and DAO equals the model's after every operation, under changing deposit configs and replaced modules; two known findings." + TR),
 "P08": (SB, "Acceptance of every direct and forwarded submission (also to approval modules), its proposer, the policy and what subscribers are told equal the model's; two known findings." + TR),
 "P10": (SB, "Fault injection: any subset of subscribers and the pre-propose module fails; every log, list, vote and status equals the model's; four known findings." + TR),
})
NOTES.update({
 "P09": (SB, "Both DAOs, the approval queue, every balance and every id map equal the model's after every operation of an interleaved history." + TR),
})
NOTES.update({
 "V01": (SB, "Balances, claims, voting power at every past height, hooks and settings equal the model's after every operation." + TR),
 "V02": (SB, "New and existing tokens and staking contracts; power at every past height and every setting equal the model's." + TR),
 "S01": (SB, "Shares, pool value, claims and balances equal the model's, rounding favours the pool and no operation lowers another's stake value." + TR),
 "V06": (SB, "Activity and acceptance of proposals equal the model's, with thresholds drawn on and around the boundary, for every staking voting module." + TR),
})
NOTES.update({
 "V03": (SB, "Holder of every NFT, claims, listings, voting power at every past height, hooks and settings equal the model's after every operation." + TR),
 "V04": (SB, "Preparing, moving, confirming, cancelling and recovering are interleaved among users; holders, stakes and power equal the model's." + TR),
})
NOTES.update({
 "R01": (SB, "Earnings of every member, undistributed and held funds equal an oracle that accrues each completed period by the power in force then; one known finding. Changing a distribution's source of power is outside the exact oracle (the documentation warns that it voids the accounting)." + TR),
})
NOTES.update({
 "R02": (SB, "Earnings of every staker equal an oracle that shares out each block's rewards by the stakes at its start; funding, periods and balances equal the model's." + TR),
 "R03": (SB, "Every payment, balance and setting equals the model's over histories of deposits, distributions, withdrawals and new settings (which restart the count of blocks)." + TR),
})
NOTES.update({
 "R04": (SB, "What every member can claim equals their share, by power and total power at the distribution height, of what was funded; claims, redistributions, balances and settings equal the model's." + TR),
 "E01": (SB, "Entry points run against a model of the chain: what has vested, what is due, every payment and the settlement of a cancellation equal the model's; every vest is wound up." + TR),
 "E02": (SB, "As E01 with delegations, redelegations, unbondings and slashes of the vesting funds told early and late; stake tracked per validator equals the chain's; one known finding." + TR),
})
NOTES.update({
 "G01": (SB, "Every message to the DAO from every kind of sender is accepted or refused, and leaves the admin, the nomination, the pause and every effect, as the model says, including messages run re-entrantly by proposals and sub-DAOs." + TR),
 "G02": (SB, "Modules, items, sub-DAOs, token lists, configuration and the voting module equal the model's after every operation, through every paging of every listing." + TR),
})
NOTES.update({
 "L01": (SB, "Every value at every time equals that of a plain list of the updates applied in order; several keys, forced sets and random reads." + TR),
 "L02": (SB, "Every query at and around every moment of a history equals a direct account of what is bonded and unbonding; one known finding." + TR),
 "L03": (SB, "Every page of every listing function equals the slice of the map's contents read at once, for numeric, string and composite keys." + TR),
 "L04": (SB, "Acceptance of generated names equals the chain's grammar; deposits, transfers and balances in every accepted denomination equal a ledger's." + TR),
})
NOTES.update({
 "E03": (SB, "Acceptance of every creation, its terms and funding, and every page of every listing equal the model's; forged and mismatched receipts and stray tokens are drawn." + TR),
 "E04": (SB, "Acceptance of every payment and withdrawal, both status flags and every balance equal the model's for native and cw20 sides." + TR),
 "E07": (SB, "Acceptance, admin, creator and funds of every contract made, also re-entrantly and at predicted addresses, equal the model's." + TR),
})
NOTES.update({
 "V05": (SB, "Power of every member and in total at every interesting height, through group updates (accepted as the group decides) and role NFT changes, equals the model's; setups include invalid lists, wrong contracts and takeover by the DAO." + TR),
 "E05": (SB, "Every call's acceptance, allowance, list, page and balance, and every answer to the chain's question, equal the model's; the chain's token module is a stand-in." + TR),
 "E06": (SB, "Acceptance of every mint, burn, transfer, re-weight and hook change, every token, weight at every interesting height and every message to subscribers equal the model's." + TR),
})
NOTES.update({
 "V07": (SB, "Whether a DAO is created, and every holding, owner, administrator, minter, allowance, description, threshold and coin thereafter, equals what the declaration says; stand-ins for the chain's token factory and fan token modules and for factories." + TR),
})
NOTES.update({
 "M01": (SB, "The real earlier versions are run through a history, upgraded, and run on: proposals, DAOs, pre-propose and approval modules against the reference models of P01-P10 and G01-G02 taking over what the old version reported; staking and rewards against a twin that is never upgraded." + TR),
})
NOTES.update({
 "M02": (SB, "Real version 1 cores, proposal modules and cw20 staking are run through a history and upgraded through the migrator with right and flawed requests and with new code that loses something; acceptance, every code, proposal, ballot, power and registry afterwards (or that nothing at all changed), and that the DAO works on, equal what the old version reported. The version 1 voting modules are stood in for by the current ones under other code ids." + TR),
})
