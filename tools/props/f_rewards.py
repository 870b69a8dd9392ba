SIM = 'sim-reward'
LEVEL_NOTE = ('Seeded sampling over simulated runs of the real pools, judged by references with 60 decimal places whose '
              'deviations are bounded by the rounding of the chain\'s fixed point type. Trusts sp-arithmetic and the FRAME stand-ins.')
DESIGN_TITLE = 'Reward and staking pools (sim-reward)'
DESIGN = '''Two scenarios. `pools`: stakers deposit, withdraw, set and leave, rewards in up to four currencies
are distributed and claimed in the pools of `crates/reward`. `vaults`: owners and nominators stake with two
vaults, which are slashed and refund their nominators (starting a new pool), and everyone claims and leaves,
from current and former pools of `crates/staking`. Amounts range from single units to the end of the chain's
number type, per run. Extrinsics are duplicated, reordered or fail half-way; blocks crash and are executed
again. The references are written from the rules (a share of each distribution in proportion to the stake at
that time) with 60 decimal places, and carry a bound of how far 18 decimal places may be off. About 1,500 runs
per second; every operation is followed by a comparison of everything every staker is owed.

Once stakes that were settled at different times are slashed together, the staking pallet departs from the
rule (see the known finding); such a pool is compared with the rule and with what the pallet is known to do,
and no longer judged afterwards in that run.'''
PROPS = [
 dict(id='F01', d="a model holds every stake and, exactly, each staker's share of each distribution; after every operation all stakes and rewards are compared, paid plus owed must not exceed what was distributed, nobody else's reward may change, and a refused or failing extrinsic must leave the storage as it was.",
  title='Reward pools pay each staker its proportional share, never more',
  statement='Of every reward distributed to a pool each staker is owed the share of its stake at that moment, up to rounding below one unit per claim, and can claim it once. Others\' deposits, withdrawals and claims never change it. All claims together never exceed what was distributed, and refused operations change nothing.',
  quant=(['inputs', 'histories', 'fault_sequences'], 'for every sequence of stakes, distributions in several currencies and claims, of any amounts, with failing extrinsics and crashes'),
  why='The tests sample a few sequences with small round amounts; tallies go wrong only for particular orders of deposits, distributions and claims, or for extreme amounts.',
  files=['crates/reward/src/lib.rs'],
  state=[('Stake, TotalStake', 'stakes', 'crates/reward/src/lib.rs'), ('RewardPerToken, RewardTally, RewardCurrencies', 'what is owed', 'crates/reward/src/lib.rs')],
  mech=[('deposit_stake, withdraw_stake, set_stake', 'crates/reward/src/lib.rs'), ('distribute_reward, compute_reward, withdraw_reward', 'crates/reward/src/lib.rs')],
  observe=['stakes and totals', 'computed and paid rewards', 'unclaimed total'], tech='staking histories with failing, duplicated and re-executed extrinsics against an exact proportional reference'),
 dict(id='F02', d="a model holds each stake and each share of the rewards exactly, through slashes and refunds; stakes, totals, rewards, refunds and refusals are compared after each operation, in current and former pools.",
  title='Slashes and rewards of a vault are shared in proportion to stakes',
  statement='A slash takes from every stake in a vault, and a reward goes to every stake, in proportion to its current size. A slash leaves rewards earned before as they are unless nothing remains staked. After nominators are refunded each can withdraw exactly its stake and rewards from the former pool, and operations on one pool or stake never change another.',
  quant=(['inputs', 'histories', 'fault_sequences'], 'for every sequence of stakes, slashes, refunds, distributions and claims, of any amounts, with failing extrinsics and crashes'),
  why='The tests sample short sequences; errors show only when slashes, claims, refunds and deposits of several nominators interleave.',
  files=['crates/staking/src/lib.rs'],
  state=[('Stake, TotalStake, TotalCurrentStake', 'stakes by pool', 'crates/staking/src/lib.rs'), ('SlashPerToken, SlashTally, RewardPerToken, RewardTally', 'what was lost and earned', 'crates/staking/src/lib.rs'), ('Nonce', 'the current pool of a vault', 'crates/staking/src/lib.rs')],
  mech=[('slash_stake, apply_slash, compute_precise_stake_at_index', 'crates/staking/src/lib.rs'), ('force_refund', 'crates/staking/src/lib.rs'), ('increase_rewards, withdraw_reward_at_index', 'crates/staking/src/lib.rs')],
  observe=['stakes, total stake', 'computed and paid rewards', 'refunded amounts'], tech='staking, slashing and refund histories with failing and re-executed extrinsics against an exact proportional reference'),
]
