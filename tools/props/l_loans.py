SIM = 'sim-loans'
LEVEL_NOTE = ('Seeded sampling over simulated runs of the real lending pallet over real tokens hooks, oracle and currency pallets, judged call by '
              'call by executable rules. Trusts sp-arithmetic and the FRAME and ORML stand-ins.')
DESIGN_TITLE = 'Lending markets (sim-loans)'
DESIGN = '''One runtime holds the real pallets loans, oracle, currency and security; lend tokens run through the real
deposit and transfer hooks. Six people, a price oracle and governance act on three markets whose parameters are drawn
anew for each run, with amounts from single units to 10^17, most of them aimed at limits (what a holder can redeem,
what a debtor can still borrow, the close factor, caps, cash beyond reserves). `World::spec` is the executable rule
of each call including interest: utilization, rates, compound index, totals, reserves, exchange rate, all to the last
unit. After each call the complete state is compared with it. What accounts earn in rewards is followed in real
numbers from the state at the end of each block, and each claim's pay-out is compared with it. Invariants: lend tokens
never lose worth, their backing never falls below the minimum exchange rate, debts add up to total borrows within
roundings, collateral is exactly what is locked and an account's lend tokens are either all collateral or all free,
no currency is made or lost. At the end faults stop, and everybody must be able to repay, unlock and redeem in full.

Faults: calls are lost, repeated and reordered; blocks crash and are executed again; the clock jumps by up to a year;
the oracle stalls until prices expire; prices jump and crash; funds are donated to the pool; governance changes
factors, caps, rate models and reward speeds under way.

Not claimed: `force_update_market` (governance can break anything with it); debts and collateral in markets that
are not active count for nothing; a change of the rate model applies to the time since interest was last booked;
the supply cap counts cash only; interest of other markets is as last booked when a debtor's liquidity is judged.'''
LO = 'crates/loans/src/lib.rs'
IN = 'crates/loans/src/interest.rs'
FA = 'crates/loans/src/farming.rs'
RM = 'crates/loans/src/rate_model.rs'
Q = ['inputs', 'histories', 'fault_sequences']
PROPS = [
 dict(id='L01', d="the rules of mint and redeem with the supply cap, cash and exchange rate are compared with each call's outcome; after each call the exact worth of a market's lend tokens has not fallen; all tokens are somewhere; in the end everybody can redeem. Known finding: a market whose exchange rate reaches its maximum (a donation to a nearly empty market is enough) refuses every call.",
  title='Lend tokens never lose worth and can be redeemed in the end',
  statement='Supplying to a lending market mints lend tokens at the current exchange rate, and redeeming burns them at it, rounded so that no call lowers what the remaining lend tokens are worth. Once debts are repaid, every supplier can redeem all lend tokens, and the reserves are still there.',
  quant=(Q, 'for every history of supplying, redeeming, borrowing, repaying, liquidating, donating and governance, with clock jumps and crashes'),
  why='Roundings by a single unit and interest over long times accumulate only over long mixed histories of amounts of all sizes.',
  files=[LO, IN],
  state=[('lend token issuance', 'what suppliers hold', LO), ('TotalBorrows, TotalReserves', 'what backs it besides cash', LO), ('ExchangeRate', 'as last published', LO)],
  mech=[('do_mint, do_redeem, redeem_allowed, ensure_under_supply_cap, ensure_enough_cash', LO), ('calculate_exchange_rate, ensure_valid_exchange_rate', IN)],
  observe=['minted and burned lend tokens', 'pay-outs', 'refusals', 'worth of all lend tokens'], tech='mixed histories with donations and clock jumps against executable rules, and everybody redeeming in the end'),
 dict(id='L02', d="utilization, rates, index, total borrows, reserves and the published rates are computed independently for each moment of accrual and compared to the last unit; debts are compared with total borrows; the rules of repaying, adding and reducing reserves are compared with each call's outcome.",
  title='Interest follows the rate model; debts add up to total borrows',
  statement='Whenever a market is touched, interest for the time passed is added to its total borrows at the compound rate of its rate model and utilization, and the reserve factor\'s part to its reserves. Each debt grows alike, repaying reduces it by what was paid and never by more than is owed, and all debts add up to the total borrows but for roundings.',
  quant=(Q, 'for every history of borrowing and repaying over any lapses of time and rate models, with repeated calls and crashes'),
  why='Debts are stored against an index at different times; they and the total only drift apart over many accruals of different lengths.',
  files=[IN, RM, LO],
  state=[('AccountBorrows, BorrowIndex', 'debts', LO), ('TotalBorrows, TotalReserves', 'totals', LO), ('LastAccruedInterestTime', 'when interest was booked', LO)],
  mech=[('accrue_interest, get_market_status, accrue_index', IN), ('get_borrow_rate', RM), ('do_repay_borrow_with_amount, borrow_balance_from_old_and_new_index, reduce_reserves', LO)],
  observe=['index, totals, published rates', 'debts', 'pay-ins'], tech='clock jumps of seconds to a year over random rate models against independently computed interest'),
 dict(id='L03', d="the rules of borrowing, locking, unlocking and of transfers of lend tokens are compared with each call's outcome; collateral equals what is locked; lend tokens are all collateral or all free.",
  title='Nobody borrows or withdraws beyond their collateral',
  statement='Borrowing, and taking lend tokens out of collateral, succeed only while the collateral, weighed by each market\'s collateral factor and price, still covers all debts, and within the borrow cap and the cash beyond reserves. What counts as collateral is exactly what is locked, and lend tokens that reach an account with collateral in that market become collateral.',
  quant=(Q, 'for every history of borrowing, locking, transfers and price moves, with stalled oracles and crashes'),
  why='The limits depend on prices, interest and several markets at once; amounts at the very limit and dust decide.',
  files=[LO],
  state=[('AccountDeposits', 'collateral', LO), ('AccountBorrows', 'debts', LO)],
  mech=[('borrow_allowed, ensure_liquidity, get_account_liquidity, do_withdraw_collateral, do_deposit_collateral, lock_if_account_deposited', LO)],
  observe=['accepted and refused calls', 'free and locked lend tokens'], tech='calls aimed at the exact limits under moving prices and reordered calls, against executable rules'),
 dict(id='L04', d="the rules of liquidation and of reducing the incentive reserves are compared with each call's outcome, down to every balance.",
  title='Liquidation takes only what the close factor and incentive allow',
  statement='Only a debtor whose collateral, weighed by the liquidation thresholds, no longer covers the debts can be liquidated, by someone else, and at most for the close factor\'s part of a debt. The debt falls by what the liquidator pays, and the liquidator and the incentive reserve together get collateral of that worth plus the incentive, never more than is there.',
  quant=(Q, 'for every history in which prices fall and interest grows, with competing liquidators and crashes'),
  why='Liquidations involve two markets, three accounts and two prices at a moment of crisis; the tests liquidate once at round numbers.',
  files=[LO],
  state=[('AccountBorrows, AccountDeposits, TotalBorrows', 'debts and collateral', LO)],
  mech=[('do_liquidate_borrow, liquidate_borrow_allowed, liquidated_transfer, reduce_incentive_reserves', LO)],
  observe=['balances of debtor, liquidator, pool and incentive reserve', 'refusals'], tech='crashing prices and competing liquidators against executable rules'),
 dict(id='L05', d="what each account earns is followed in real numbers; each claim's pay-out lies within the bounds roundings leave.",
  title='Rewards accrue block by block in proportion and are paid once',
  statement='In each block a market\'s supply reward is earned by the holders of its lend tokens and its borrow reward by its debtors, in proportion to what they hold and owe at that time. Transfers, liquidations, redemptions and changes of speed do not change what has been earned, and a claim pays all of it, once.',
  quant=(Q, 'for every history of changing holdings, debts and speeds, with claims at any time and crashes'),
  why='Rewards are settled lazily against indices; a path that changes a holding without settling first shows only in later claims.',
  files=[FA, LO],
  state=[('RewardSupplyState, RewardBorrowState', 'reward indices', LO), ('RewardAccrued', 'settled rewards', LO)],
  mech=[('update_reward_supply_index, update_reward_borrow_index, distribute_supplier_reward, distribute_borrower_reward, collect_market_reward, pay_reward', FA), ('PreDeposit, PreTransfer, liquidated_transfer', LO)],
  observe=['pay-outs of claims'], tech='transfers, liquidations and speed changes between claims, against an independent share model'),
 dict(id='L06', d="the rules of adding, activating and updating markets and rate models are compared with each call's outcome.",
  title='Governance can only set market parameters that markets can work with',
  statement='Only governance adds, activates and updates markets. Parameters are taken only within their limits (factors below one, thresholds in order, rate models that give a rate at every utilization, lend tokens of their own), exactly as given, and a refused change leaves everything as it was.',
  quant=(['inputs', 'histories'], 'for every sequence of governance calls with any parameters, between all other calls'),
  why='Which parameter is checked against which, old or new, matters only for particular sequences of updates.',
  files=[LO, RM],
  state=[('Markets', 'parameters', LO), ('UnderlyingAssetId', 'which market a lend token is of', LO)],
  mech=[('add_market, activate_market, update_rate_model, update_market, ensure_lend_token', LO), ('check_model', RM)],
  observe=['accepted and refused calls', 'stored markets'], tech='parameters at and beyond their limits, repeated and reordered calls, against executable rules'),
]
