SIM = 'sim-dex'
LEVEL_NOTE = ('Seeded sampling over simulated runs of the real exchange pallets over real tokens, judged call by call by executable '
              'rules (exact for pairs, within bounds of a few units for the stable curve). Trusts the FRAME and ORML stand-ins.')
DESIGN_TITLE = 'Exchange: pairs, bootstraps, stable pools and routes (sim-dex)'
DESIGN = '''One runtime holds the real pallets dex-general, dex-stable and dex-swap-router over the real ORML tokens
stand-in: six possible pairs (one of them with a stable pool's share), up to four stable pools (base and meta, any
fees, A and decimals). Five people and governance act. For pairs and bootstraps `World::spec` is the exact rule of
each call, and the complete state (balances, issuance, pairs, contributions, rewards, last product) is compared after
each. For stable pools the curve is computed with 64 more binary places than the chain's (`num.rs`), each call's
outcome is bounded from it, and a refusal is only accepted where the bounds leave it open. Composite calls and
routes are compared with a fork of the same state on which the primitive calls are made one by one. Invariants: all
tokens are somewhere; the product of a pair's reserves never falls by a swap or a contribution; a pool's shares never
lose worth while A stays; pools hold at least their recorded balances; the bootstraps' account covers contributions and
rewards. At the end faults stop, and everybody must be able to remove all liquidity, get refunds and claim.

Faults: calls are lost, repeated and reordered (deadlines and least amounts are then decided against changed reserves);
blocks crash and are executed again; the clock jumps by seconds to days (ramps of A, the cached price of the base pool);
tokens are donated to pairs, pools and the bootstraps' account; governance changes fees, A and receivers under way.

Domain: where a pool is so uneven that the chain's Newton steps for D round by more than they gain (the product of the
balances' shortfalls from their mean exceeds 10), a refusal with `Arithmetic` is accepted: about one in ten such states
has no fixed point within a unit, as in the contracts the pallet follows; balanced removal always works. Below 10^6
normalized units, and where the numbers of the curve would exceed 256 bits, outcomes are not bounded.
Not claimed: a bootstrap whose capacity is lowered below what was contributed refuses both assets; BootstrapCreated
swaps the capacities; swap_underlying between two of the base pool's currencies reports nothing out; the quote RPCs;
donations to an empty pair inflating its first share; a meta pool made with other than 18 decimals for the base's share.'''
G = 'crates/dex-general/src/swap/mod.rs'
GL = 'crates/dex-general/src/lib.rs'
S = 'crates/dex-stable/src/lib.rs'
SB = 'crates/dex-stable/src/base_pool.rs'
SM = 'crates/dex-stable/src/meta_pool.rs'
SU = 'crates/dex-stable/src/utils.rs'
R = 'crates/dex-swap-router/src/lib.rs'
Q = ['inputs', 'histories', 'fault_sequences']
PROPS = [
 dict(id='X01', d="amounts along a path are computed hop by hop from the reserves and compared, with refusals, limits, deadlines and recipients, to every balance; after each call the product of each pair's reserves has not fallen.",
  title='Swaps follow the constant-product rule and never lower it',
  statement='A swap along a path of pairs gives exactly what the constant-product rule with each pair\'s fee gives from the reserves, within the limits and the deadline the caller set, or changes nothing. Whatever the path and the amounts, no swap lowers the product of a pair\'s reserves at the expense of its liquidity providers.',
  quant=(Q, 'for every sequence of swaps along paths of up to five currencies, also repeated ones, between additions, removals, donations and fee changes'),
  why='Paths that come back to a pair, amounts of one unit and reserves changed by earlier calls are combinations no sample of tests covers.',
  files=[G, GL],
  state=[('pair accounts', 'reserves', G), ('PairStatuses', 'fee rates', GL)],
  mech=[('get_amount_out_by_path, get_amount_in_by_path, swap, ensure_invariant, pair_swap', G), ('swap_exact_assets_for_assets, swap_assets_for_exact_assets', GL)],
  observe=['balances of caller, recipient and pairs', 'refusals'], tech='reordered swaps along random paths against an exact rule'),
 dict(id='X02', d="shares minted and burned, amounts taken and given and the protocol's fee are computed exactly and compared; a pair's total is what is issued; in the end everybody removes everything.",
  title='Pair shares are minted, charged and redeemed exactly in proportion',
  statement='Adding liquidity to a pair takes both assets in the pair\'s proportion and mints shares in proportion, removing gives the proportion back, and the protocol\'s fee is minted from the growth since the last time before anything else, so that all holders bear it alike. A pair\'s recorded total always equals the shares issued, and liquidity can always be removed.',
  quant=(Q, 'for every history of additions, removals, swaps, donations and changes of fee receiver, fee point and fee rate'),
  why='The protocol\'s fee depends on the product at the last addition or removal; switching it on and off between them is a history, not an input.',
  files=[G, GL],
  state=[('PairStatuses', 'total shares', GL), ('KLast', 'product at the last change', GL), ('FeeMeta', 'receiver and part of the protocol', GL)],
  mech=[('inner_add_liquidity, inner_remove_liquidity, calculate_liquidity, calculate_added_amount, mint_protocol_fee', G), ('create_pair, set_fee_receiver, set_fee_point, set_exchange_fee', GL)],
  observe=['balances and issuance', 'recorded totals', 'refusals'], tech='histories with the fee switched on and off and donations, against an exact rule'),
 dict(id='X03', d="the rules of each bootstrap call are compared with its outcome; contributions add up to what is accumulated, the account covers contributions and rewards not yet paid, shares to be claimed are held; in the end everybody claims or is refunded. Known finding: withdrawing rewards after claims takes more than is left.",
  title='Bootstrap contributions are refunded or turned into shares in full',
  statement='Contributions to a pair\'s bootstrap are taken up to its capacity, and until its end block. If its targets are met, contributors claim shares of the new pair and of the charged rewards in proportion; if not, each gets back exactly what was contributed. The bootstraps\' account always covers what it owes, over all pairs at once, and nobody claims or is refunded twice.',
  quant=(Q, 'for every history of bootstraps of several pairs at once with changed targets, limits, rewards and end blocks, with late, repeated and lost calls'),
  why='All bootstraps share one account, so one pair\'s mistake is paid by another; what may be claimed depends on block numbers and targets changed under way.',
  files=[G, GL],
  state=[('BootstrapPersonalSupply', 'contributions', GL), ('PairStatuses, BootstrapEndStatus', 'what was accumulated', GL), ('BootstrapRewards, BootstrapLimits', 'rewards and limits', GL)],
  mech=[('do_bootstrap_contribute, do_end_bootstrap, do_bootstrap_claim, do_bootstrap_refund, bootstrap_disable, bootstrap_distribute_reward', G), ('bootstrap_create, bootstrap_update, bootstrap_charge_reward, bootstrap_withdraw_reward', GL)],
  observe=['balances', 'contributions', 'refusals'], tech='several bootstraps at once with reordered calls around their end blocks, against an exact rule'),
 dict(id='X04', d="what a swap gives and its fees are bounded from an independent, more precise computation of the curve; limits, deadlines and refusals are compared.",
  title='Stable swaps give what the curve gives, less the fee',
  statement='A swap in a stable pool gives what the pool\'s curve with its present A gives for the normalized balances (a base pool\'s share counted at its virtual price), less the swap fee, rounded in the pool\'s favour, within the limit and deadline set; or it changes nothing.',
  quant=(Q, 'for every sequence of swaps in base and meta pools of any decimals, fees and A, also during ramps'),
  why='Newton iterations and roundings differ for each of the balances, decimals and amplifications; the tests use a handful.',
  files=[SB, SM, SU, S],
  state=[('Pools', 'balances, A, fees', S)],
  mech=[('get_d, get_y, get_a_precise', SU), ('base_pool_swap', SB), ('meta_pool_swap, calculate_meta_swap_amount', SM)],
  observe=['balances', 'refusals'], tech='random pools and histories against the curve computed with 64 more binary places'),
 dict(id='X05', d="minted and burned shares and amounts given are bounded from the precise curve; after each call a share's worth has not fallen; in the end everybody removes everything.",
  title='Stable pool shares never lose worth by adding or removing liquidity',
  statement='Adding liquidity to a stable pool mints, and removing it in one currency or out of proportion burns, the shares the curve gives less the fee on what is out of proportion; removing in proportion gives the exact proportion. No call lowers what a share is worth by the curve, and liquidity can always be removed in proportion.',
  quant=(Q, 'for every history of balanced and unbalanced additions and removals of all kinds in base and meta pools, with swaps between'),
  why='Each way of adding and removing rounds at other places; a loss of a unit shows over histories and only for some proportions.',
  files=[SB, SM, S, SU],
  state=[('Pools', 'balances', S), ('issuance of the pool\'s share', 'shares', S)],
  mech=[('base_pool_add_liquidity, base_pool_remove_liquidity_one_currency, base_pool_remove_liquidity_imbalance, calculate_base_mint_amount', SB), ('meta_pool_add_liquidity, calculate_meta_remove_liquidity_one_currency, calculate_meta_remove_liquidity_imbalance', SM), ('inner_remove_liquidity', S), ('get_yd', SU)],
  observe=['shares and balances', 'refusals', 'worth of a share'], tech='mixed histories against the precise curve, with the worth of a share as invariant'),
 dict(id='X06', d="recorded balances never exceed what a pool holds, the admin's fee is the difference and is bounded for each call; A, fees, receivers and the cached price of the base pool are compared after each call.",
  title='Stable pools hold what they record; A, fees and prices follow their rules',
  statement='A stable pool always holds at least its recorded balances; the excess is the admin\'s part of the fees, which goes only to the set receiver. Only governance creates pools and changes fees, receiver and A, within their limits; A moves linearly over at least a day and at most tenfold. A meta pool uses a price of its base pool\'s share at most ten minutes old.',
  quant=(Q, 'for every sequence of governance calls at any times between swaps and changes of liquidity, with clock jumps and crashes'),
  why='Ramps, their interruption and the cached price depend on when calls come; the accounting must hold over all of them.',
  files=[S, SB, SM, SU, 'crates/dex-stable/src/primitives.rs'],
  state=[('Pools', 'balances, A and its ramp, fees, cached price', S)],
  mech=[('create_base_pool, create_meta_pool, ramp_a, stop_ramp_a, set_swap_fee, set_admin_fee, withdraw_admin_fee', S), ('get_a_precise', SU), ('meta_pool_update_virtual_price', SM)],
  observe=['stored pools', 'balances of pools and receiver', 'refusals'], tech='clock jumps and reordered governance between other calls, against executable rules'),
 dict(id='X07', d="each composite call or route is compared with the primitive calls made one by one on a fork of the same state: outcome, every balance and the whole state.",
  title='Composite calls and routes equal their steps and fail as a whole',
  statement='Adding, removing and swapping through a pool and its base pool at once, swapping underlying currencies, and routes over pairs and pools do exactly what their steps do one after another, deliver to the recipient at least what the caller asked for, and leave no trace when any step or limit fails.',
  quant=(Q, 'for every composite call and route from every state reached, with any currencies, indices, limits and recipients'),
  why='Compositions pass amounts, recipients and limits from step to step; errors show only for particular combinations of indices.',
  files=[S, SM, R],
  state=[('Pools, PairStatuses', 'what the steps change', S)],
  mech=[('inner_add_pool_and_base_pool_liquidity, inner_remove_pool_and_base_pool_liquidity, inner_swap_pool_from_base, inner_swap_pool_to_base', S), ('meta_pool_swap_underlying', SM), ('swap_exact_tokens_for_tokens, stable_swap, validate_routes', R)],
  observe=['all balances', 'refusals'], tech='forks of reached states on which the steps are made one by one'),
]
