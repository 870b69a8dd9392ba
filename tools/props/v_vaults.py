SIM = 'sim-vault'
LEVEL_NOTE = ('Seeded sampling over simulated runs of twelve real pallets wired together, judged call by call by the protocol\'s rules '
              'and by invariants over the whole state. Trusts sp-arithmetic, the FRAME and ORML stand-ins, and the relay (decided in R01 to R08).')
DESIGN_TITLE = 'The bridge: vaults, issue, redeem, replace, nomination, oracle, fees (sim-vault)'
DESIGN = '''One runtime holds the real pallets vault-registry, issue, redeem, replace, nomination, oracle, fee,
currency, security, reward (three instances), staking and btc-relay. Vaults, users, nominators, oracles, relayers and
governance send calls; Bitcoin is a simulated network of blocks that includes the payments made. `World::read`
takes a snapshot of what is recorded; `World::spec` is the executable rule of each call: given the snapshot it says
either why the call is refused or what the state is afterwards, down to every balance, vault, request and stake.
After each call the real outcome and the complete state are compared with that, and these invariants are checked:
supply is what vaults owe, reservations are what open requests ask for, locked funds are what is recorded, no
currency is made or lost, prices are medians, the capacity pool follows collateral and prices. At the end faults
stop and every open request must be completable or cancellable within its period.

Faults: calls are lost, repeated and reordered; blocks crash at arbitrary storage writes and are executed again;
clocks jump (to the edge of expiries and oracle delays); oracles stall or are far off; prices collapse; payments
are too small, too large, late, or with other or missing op-returns; proofs are forged or of reorganised blocks; governance changes
thresholds and fees under way. About 500 runs of up to 120 steps per second on 8 threads.'''
VR = 'crates/vault-registry/src/lib.rs'
VT = 'crates/vault-registry/src/types.rs'
IS = 'crates/issue/src/lib.rs'
RD = 'crates/redeem/src/lib.rs'
RP = 'crates/replace/src/lib.rs'
NO = 'crates/nomination/src/lib.rs'
OR = 'crates/oracle/src/lib.rs'
FE = 'crates/fee/src/lib.rs'
AM = 'crates/currency/src/amount.rs'
PM = 'crates/vault-registry/src/pool_manager.rs'
Q = ['inputs', 'histories', 'fault_sequences']
PROPS = [
 dict(id='V01', d="after each call: wrapped supply equals the tokens issued by all vaults and the liquidation vault; what each vault has to be issued, redeemed and replaced equals the sum over its open requests; no vault has more to be redeemed than issued.",
  title='Every wrapped token is owed by a vault, reservations match requests',
  statement='The supply of a wrapped token always equals what the vaults and the liquidation vault have recorded as issued. What a vault has reserved to be issued, redeemed and replaced always equals the sum over its open requests. No vault has more to be redeemed than it has issued.',
  quant=(Q, 'for every history of issue, redeem, replace, liquidation and recovery by any number of vaults, with crashes, lost and repeated calls'),
  why='The tests exercise one request at a time with mocked registries; supply and obligations drift apart only across interleaved requests, liquidations and cancellations.',
  files=[VR, VT, IS, RD, RP],
  state=[('Vaults', 'what vaults owe and have reserved', VR), ('LiquidationVault', 'what liquidated vaults left', VR), ('IssueRequests, RedeemRequests, ReplaceRequests', 'requests', IS)],
  mech=[('issue_tokens, redeem_tokens, replace_tokens, decrease_tokens', VR), ('redeem_tokens_liquidation, liquidate_vault, cancel_replace_tokens', VR)],
  observe=['total issuance of the wrapped token', 'vault and liquidation vault fields', 'open requests'], tech='interleaved requests, liquidations and cancellations with crashes and repeated calls, against sums over open requests'),
 dict(id='V02', d="after each call: the sum of each currency over all accounts is unchanged (but for minting and burning of the wrapped token); each account's reserved funds equal the collateral and griefing collateral recorded; total collateral equals the sum over vaults.",
  title='Collateral is conserved and always backed by locked funds',
  statement='No call creates or destroys collateral. The funds locked in each account are always exactly what is recorded for it as collateral, griefing collateral, and tokens locked in open requests. The recorded total collateral is the sum over vaults, and it only changes by calls which say so.',
  quant=(Q, 'for every history of deposits, withdrawals, requests, slashes, liquidations and refunds, with crashes, lost and repeated calls'),
  why='Collateral is tracked in three places by different pallets; only long mixed histories show a path that updates one and not the others.',
  files=[VR, VT, AM, NO, RP],
  state=[('TotalUserVaultCollateral', 'total collateral', VR), ('Vaults', 'liquidated and griefing collateral', VR), ('TotalCurrentStake', 'collateral of a vault with its nominators', 'crates/staking/src/lib.rs')],
  mech=[('try_deposit_collateral, force_withdraw_collateral, transfer_funds', VR), ('slash_collateral, liquidate', VT), ('lock_on, unlock_on, transfer', AM)],
  observe=['free and reserved balances', 'collateral of vaults, nominators and requests', 'recorded totals'], tech='mixed histories with crashes, slashes and refunds against conservation sums over all accounts'),
 dict(id='V03', d="the rules of request, execute and cancel of issue, with fees, griefing collateral, over- and underpayment, expiry by both clocks, and the effect on every balance, are compared with each call's outcome.",
  title='Issue mints exactly what was paid, and settles the deposit once',
  statement='A payment of the requested amount to the address of an open issue request lets exactly that amount be minted, less the fee, once; with less only the requester settles for what was paid and part of the deposit is forfeited; with more what the vault can back is minted. Expired unpaid requests can be cancelled, which slashes the deposit. Refused calls change nothing.',
  quant=(Q, 'for every history of issue requests, payments of any amounts at any time, competing calls, reorganisations and crashes'),
  why='The outcome depends on the amount paid, expiry by two clocks, the vault\'s state and other open requests; the tests sample a few with mocks.',
  files=[IS, 'crates/issue/src/types.rs', VR, FE],
  state=[('IssueRequests', 'issue requests', IS), ('IssuePeriod', 'when requests expire', IS)],
  mech=[('request_issue, execute_issue, cancel_issue', IS), ('try_increase_to_be_issued_tokens, issue_tokens', VR), ('get_issue_fee, get_issue_griefing_collateral', FE)],
  observe=['minted tokens and fees', 'deposits', 'status of requests', 'refusals'], tech='payments of any amount over a reorganising Bitcoin, competing calls and clock jumps, against executable issue rules'),
 dict(id='V04', d="the rules of request, execute, cancel (reimburse or retry), mint of reimbursed, self-redeem and liquidation redeem, with premiums, punishment and fees, are compared with each call's outcome.",
  title='Redeem burns for a payment or compensates, exactly once',
  statement='A redeem request locks the tokens; a payment of exactly the amount with the request\'s id burns them. After expiry the redeemer can retry or be reimbursed at the current rate, and gets the punishment from the vault. A premium is paid only by vaults below the premium threshold; liquidation redeem pays the proportional share of collateral. Each is settled once.',
  quant=(Q, 'for every history of redeem requests, payments, expiries, price changes, liquidations and crashes'),
  why='Who is owed what depends on collateralization at request and at settlement, liquidations between, and other requests; the tests use mocks and single requests.',
  files=[RD, 'crates/redeem/src/types.rs', VR, VT],
  state=[('RedeemRequests', 'redeem requests', RD), ('RedeemPeriod', 'when requests expire', RD), ('LiquidationVault', 'collateral and debt left by liquidated vaults', VR)],
  mech=[('request_redeem, execute_redeem, cancel_redeem', RD), ('liquidation_redeem, self_redeem, mint_tokens_for_reimbursed_redeem', RD), ('redeem_tokens, redeem_tokens_liquidation', VR)],
  observe=['burnt, returned and locked tokens', 'premium and punishment', 'status of requests', 'refusals'], tech='late, missing and wrong payments, price falls and liquidations in between, against executable redeem rules'),
 dict(id='V05', d="the rules of request, withdraw, accept, execute and cancel of replace are compared with each call's outcome, including griefing collateral and liquidation of either vault in between.",
  title='Replace moves obligations between vaults exactly once',
  statement='Accepting a replacement never takes over more than was offered, and backs it with collateral. A payment of exactly the amount moves the obligation from the old to the new vault and returns the deposit; after expiry the obligation stays with the old vault and the new one gets the deposit. This holds when either vault is liquidated in between.',
  quant=(Q, 'for every history of offers, withdrawals, acceptances, payments, expiries, liquidations and crashes'),
  why='Two vaults, each possibly liquidated between acceptance and settlement, make for many combinations; the tests mock the vault registry.',
  files=[RP, 'crates/replace/src/types.rs', VR, VT],
  state=[('ReplaceRequests', 'replace requests', RP), ('ReplacePeriod', 'when requests expire', RP)],
  mech=[('request_replace, withdraw_replace, accept_replace', RP), ('execute_replace, cancel_replace', RP), ('replace_tokens, cancel_replace_tokens, withdraw_replace_request', VR)],
  observe=['obligations of both vaults', 'collateral and deposits', 'status of requests', 'refusals'], tech='offers, late and wrong payments, liquidations between acceptance and settlement, against executable replace rules'),
 dict(id='V06', d="the rules of registration, collateral, thresholds, ceilings, status, bans, liquidation reports and recovery are compared with each call's outcome.",
  title='Thresholds are enforced: vaults stay backed or are liquidated',
  statement='No accepted call lets a vault take on obligations or withdraw collateral such that it falls below its secure threshold at the current price, nor bring in collateral beyond the ceiling. Exactly a vault below the liquidation threshold can be reported, and then its backing and debt go to the liquidation vault. Banned, closed and liquidated vaults accept nothing new.',
  quant=(Q, 'for every history of deposits, requests, price and threshold changes, reports, recoveries and crashes'),
  why='Each limit is computed from prices, thresholds, reservations and nominators\' shares at once; tests pin single cases with mocked prices.',
  files=[VR, VT, 'crates/vault-registry/src/ext.rs'],
  state=[('Vaults', 'status, bans and custom thresholds', VR), ('SystemCollateralCeiling, MinimumCollateralVault', 'limits on collateral', VR), ('SecureCollateralThreshold, PremiumRedeemThreshold, LiquidationCollateralThreshold', 'thresholds', VR)],
  mech=[('report_undercollateralized_vault, liquidate_vault', VR), ('is_allowed_to_withdraw_collateral, get_vault_secure_threshold', VR), ('get_free_collateral, issuable_tokens, liquidate', VT), ('recover_vault_id, accept_new_issues, set_custom_secure_threshold', VR)],
  observe=['which calls are refused', 'vault status', 'collateral and debt of the liquidation vault'], tech='price collapses, threshold changes and liquidation reports with crashes, against executable threshold rules'),
 dict(id='V07', d="the rules of opting in and out, nominating and withdrawing from current and former pools are compared with each call's outcome, with slashes and liquidation in between.",
  title='Nominators keep their share and can always leave safely',
  statement='A nominator holds exactly what it put in less its share of slashes, and can take it out unless the vault would fall below its threshold. When a vault opts out, or is left below its limits, nominators keep their stake and take it from the former pool, at any time. Nomination never exceeds the limit, and only goes to vaults that opted in.',
  quant=(Q, 'for every history of nominations, withdrawals, opt-outs, slashes, liquidations and crashes'),
  why='Refunds, slashes and pools interleave across three pallets; the tests mock two of them.',
  files=[NO, 'crates/nomination/src/ext.rs', VR, PM],
  state=[('Vaults', 'vaults that opted in', NO), ('NominationLimit, NominationEnabled', 'limits', NO)],
  mech=[('opt_in_to_nomination, opt_out_of_nomination', NO), ('deposit_collateral, withdraw_collateral', NO), ('kick_nominators, deposit_collateral, withdraw_collateral', PM)],
  observe=['stakes by pool', 'balances', 'refusals'], tech='nominations, opt-outs, slashes and liquidations interleaved with crashes, against executable nomination rules'),
 dict(id='V08', d="after each block: each price equals the median of the values fed in time by the oracles there were; calls that need a price are refused exactly when it expired.",
  title='Prices are the median of fresh values and expire when oracles stall',
  statement='Only authorized oracles can feed values. The price used is the median of the values that are not older than the allowed delay when it was computed, and there is none once all expired: calls that need a price are refused then, and work again once oracles feed anew.',
  quant=(['inputs', 'histories', 'fault_sequences', 'schedules'], 'for every sequence of feeds by any number of oracles, stalls, outliers, clock jumps and crashes'),
  why='Expiry depends on clocks and on which oracle was last heard; the tests fix the clock and feed all at once.',
  files=[OR, 'crates/oracle/src/types.rs'],
  state=[('RawValues, RawValuesUpdated', 'what oracles fed', OR), ('Aggregate, ValidUntil', 'price and until when', OR), ('AuthorizedOracles, MaxDelay', 'who may feed', OR)],
  mech=[('feed_values, begin_block, update_aggregate', OR), ('get_price, wrapped_to_collateral, collateral_to_wrapped', OR)],
  observe=['price', 'refusals for lack of a price'], tech='stalling and lying oracles, clock jumps and crashes, against a median over fresh values'),
 dict(id='V09', d="each distribution of fees is followed through the capacity, vault and nominator pools by exact fractions; pay-outs, commission and the pools' stakes are compared with each vault's collateral, threshold and price.",
  title='Fees go to vaults and nominators by capacity, and none is lost',
  statement='Every fee taken goes to the vaults in proportion to the debt their collateral can back at the current price and their threshold, then to the vault and its nominators by stake after the vault\'s commission. A claim pays exactly what was earned, once. Without any vault fees go to the treasury.',
  quant=(Q, 'for every history of fees, deposits, withdrawals, slashes, liquidations, price changes, claims and crashes'),
  why='Three pools of pools are updated by many calls; a stale stake shows only in later pay-outs, which the tests with mocked pools never see.',
  files=[FE, PM, 'crates/reward/src/lib.rs', 'crates/staking/src/lib.rs'],
  state=[('Commission', 'commissions of vaults', FE), ('Stake, TotalStake', 'capacity and vault pools', 'crates/reward/src/lib.rs')],
  mech=[('distribute_rewards, withdraw_rewards, distribute_all_vault_rewards', FE), ('on_exchange_rate_change, on_vault_settings_change, liquidate', PM)],
  observe=['rewards paid', 'fees left over', 'stakes of the capacity pool'], tech='fees and claims through pools of pools with price changes, liquidations and crashes, against exact fractions'),
]
