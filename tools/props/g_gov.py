SIM = 'sim-gov'
LEVEL_NOTE = ('Seeded sampling over simulated runs of the real governance and emission pallets over real tokens, the whole state '
              'compared with executable rules after every call and every block. Trusts the FRAME and ORML stand-ins.')
DESIGN_TITLE = 'Governance, emissions, farms and collators (sim-gov)'
DESIGN = '''One runtime holds the real pallets escrow, democracy, annuity (two instances), supply, farming,
collator-selection, tx-pause, clients-info and reward (three pools). Six people, governance, a preimage store and a
scheduler act; blocks have an author or none. `world.rs` is an independent model: voting power is computed from the
locks (not from checkpoints), tallies from the votes, emissions, schedules, sessions and pauses from their rules. After
every call and after each block's own work the model and the chain's complete state are compared, and then invariants:
all tokens are somewhere; reserved power is what deposits and bonds are; a preimage is held once for every proposal,
running referendum and scheduled decision; a tally is what was voted; a farm holds what it owes. Approved proposals
are really executed (calls of any of the pallets, also ones that end other proposals or pause calls), by the scheduler
stub, exactly in the block they were scheduled for. In the end faults stop: within a bounded number of blocks all
referenda are decided, all proposals tabled, all locks over, and everybody gets out what is theirs.

Faults: calls are lost, repeated and reordered; blocks have no author or come late (the clock jumps by up to several
launch periods); the node crashes inside a block and executes it again; preimages are taken back by whoever noted them;
funds are donated to annuities, farms, the treasury and the collators' pot; the treasury runs dry.

Stubs: the scheduler does not itself request and unrequest preimages (the pallet's holds are compared, not the
preimage pallet's); the runtime's distribution of block rewards (`DealWithRewards`) and inflation is restated in `rt.rs`.
Domain: a reward pool refuses a distribution whose reward per token leaves its fixed point (about 1.7e20); runs stop
judging pools near that limit. Not claimed: locks made before the repair d9eb8d2 keep the slopes recorded for them
until they are renewed; the total is too low by what was recorded wrongly before.'''
E = 'crates/escrow/src/lib.rs'
D = 'crates/democracy/src/lib.rs'
VT = 'crates/democracy/src/vote_threshold.rs'
DT = 'crates/democracy/src/types.rs'
A = 'crates/annuity/src/lib.rs'
S = 'crates/supply/src/lib.rs'
F = 'crates/farming/src/lib.rs'
C = 'crates/collator-selection/src/lib.rs'
T = 'crates/tx-pause/src/lib.rs'
I = 'crates/clients-info/src/lib.rs'
Q = ['inputs', 'histories', 'fault_sequences']
PROPS = [
 dict(id='G01', d='everybody\'s power and the total, now and at heights to come, are compared with what the locks give, after every change. The total was wrong once a lock had expired; repaired (d9eb8d2).',
  title='Voting power follows the locks, and the total is what all have',
  statement='An account\'s voting power is its locked amount times the remaining time over the longest time (rounded down per block), at every height now or to come, and falls to nothing when the lock ends. The total voting power at every such height is the sum of what all accounts have then, whatever locks were made, increased, extended, renewed, left to expire or withdrawn before, and however many blocks passed between.',
  quant=(Q, 'for every history of locks of several accounts with any amounts, ends and gaps between blocks, and every height asked for'),
  why='The total is kept by checkpoints and scheduled changes of slope; an error shows only after other accounts\' locks expire or change in a certain order.',
  files=[E],
  state=[('Locked', 'amount and end of a lock', E), ('PointHistory, Epoch', 'checkpoints of the total', E), ('SlopeChanges', 'what the slope loses at which height', E), ('UserPointHistory', 'an account\'s power', E)],
  mech=[('checkpoint, supply_at, balance_at, total_supply', E)],
  observe=['balance_at', 'total_supply', 'total_issuance'], tech='histories of locks with expiries, gaps and crashes against power computed from the locks'),
 dict(id='G02', d='each escrow call\'s outcome, tokens frozen, limits, blocks and stakes are compared with the rules; never more is locked than owned; when all locks are over everything can be withdrawn.',
  title='Locked tokens stay until the lock ends, within limits, and count as stake',
  statement='Tokens can be locked only if owned, not blocked, within the account\'s limit, for a time that is rounded down to whole spans, in the future and at most the longest; a running lock can only grow or be extended. Locked tokens cannot be spent until the lock has ended and its owner withdraws them, and then all can. The stake in the escrow\'s reward pool is the voting power at the last change or refresh.',
  quant=(Q, 'for every history of locks, extensions, withdrawals, limits, blocks, refreshes and transfers at any heights, with late and repeated calls'),
  why='What may be locked depends on limits that vest over time, on other locks and on heights between spans.',
  files=[E],
  state=[('Locked, Limits, Blocks', 'locks and restrictions', E), ('stake', 'share of the escrow\'s rewards', 'crates/reward/src/lib.rs')],
  mech=[('create_lock, increase_amount, increase_unlock_height, withdraw, set_account_limit, set_account_block, update_user_stake', E), ('deposit_for, remove_lock, get_free_balance, free_stakable', E)],
  observe=['balances and locks on them', 'stakes', 'refusals'], tech='reordered calls around ends, spans and vesting limits against executable rules'),
 dict(id='G03', d='proposals, depositors, reserved power and preimage holds are compared after each call; reserved power equals deposits and bonds. Clearing all proposals left them reserved and held; repaired (158b0f1).',
  title='Proposal deposits are reserved once and always returned',
  statement='A proposal needs a known preimage and a deposit of free voting power, which is reserved from the proposer and, for the same amount, from each who seconds it, as often as they do. When the proposal is tabled, fast-tracked, cancelled (by its proposer or governance only) or cleared, each deposit is returned exactly once. The preimage is held exactly while a proposal, a running referendum or a scheduled decision needs it.',
  quant=(Q, 'for every history of proposals, seconds, cancellations, clearings and tablings, with the same preimage used more than once and preimages taken back'),
  why='Deposits, seconds and holds are counted in different places and must match over all orders of calls, including from within approved proposals.',
  files=[D, E],
  state=[('PublicProps, DepositOf', 'proposals and their depositors', D), ('Reserved', 'reserved voting power', E)],
  mech=[('propose, second, cancel_proposal, clear_public_proposals, fast_track, table_proposal', D), ('reserve, unreserve, free_balance', E)],
  observe=['reserved power', 'proposals', 'holds', 'refusals'], tech='reordered and repeated calls against executable rules, with deposits and holds as invariants'),
 dict(id='G04', d='tallies, tabling, ends, decisions and schedules are compared after each block; the scheduler executes what was approved, once and at its height; once faults stop all comes to an end within a bounded number of blocks.',
  title='Referenda count each vote once, decide by their rule, and are enacted once',
  statement='A vote counts up to the voter\'s free voting power, once per referendum, as last cast, until removed. At each launch time the two proposals with the most backing become referenda, others only by governance; each ends at its block, exactly once, and is approved just if the rule of adaptive majority says so for the tally and the total voting power. What is approved is scheduled once, after its delay; what is rejected or cancelled never happens. Every proposal is tabled and every referendum decided in the end.',
  quant=(Q, 'for every history of proposals, votes, changed and removed votes, fast-tracking and cancellation, with any times between blocks'),
  why='A double counted vote or a missed or doubled decision depends on the order of votes, ends, launches and cancellations.',
  files=[D, VT, DT],
  state=[('ReferendumInfoOf', 'tally, end, delay or outcome', D), ('VotingOf', 'votes of an account', D), ('NextLaunchTimestamp, LowestUnbaked', 'when proposals are tabled, from where referenda are decided', D)],
  mech=[('try_vote, try_remove_vote, launch_public, should_launch, bake_referendum, begin_block, fast_track_referendum, cancel_referendum', D), ('approved, compare_rationals', VT), ('Tally::add, Tally::remove', DT)],
  observe=['tallies', 'outcomes', 'scheduled calls and their effects'], tech='reordered votes and jumping clocks against tallies from the votes and an exact rule of decision, with liveness at the end'),
 dict(id='G05', d='inflation, the division among accounts, the amounts per block and claims are compared block by block; all tokens are somewhere. Known finding: the annuity promises unclaimed rewards again.',
  title='Emissions are exactly the inflation set, and claims pay what was earned',
  statement='New tokens come only from the inflation set by governance, once per period at its height, for the set rate of the issuance. They go in full to the accounts named for them. A block gives the annuity\'s amount per block, at most the set amount per wrapped token, to stakers in proportion; update sets it to the account\'s balance over the emission period. A claim pays what the claimant earned and no more, once.',
  quant=(Q, 'for every history of inflation settings, blocks, locks, claims, donations and issuance changes'),
  why='What is promised and what is there meet only over whole emission periods with claims between.',
  files=[A, S, 'crates/reward/src/lib.rs'],
  state=[('StartHeight, Inflation, LastEmission', 'when and how much is minted', S), ('RewardPerBlock, RewardPerWrapped', 'what a block gives', A)],
  mech=[('begin_block, set_start_height_and_inflation', S), ('begin_block, min_reward_per_block, update_reward_per_block, withdraw_rewards', A)],
  observe=['issuance and balances', 'claims', 'refusals'], tech='whole emission periods with claims, donations and crashes against executable rules and conservation'),
 dict(id='G06', d='schedules, distributions, stakes and claims are compared; a farm always holds what it owes and what is scheduled; all can leave. Changing a schedule took distributed rewards; repaired (22284d2).',
  title='Farms pay each staker their share of what the schedule gives, from funds',
  statement='A farming schedule is funded from the treasury when set; extending it spreads what is left and what is new over the joined periods; removing it returns exactly what was not distributed. At each reward period each funded schedule gives its amount, once, to the stakers in proportion, and waits while there are none. Staked pool tokens are held back and can be taken out at any time. A farm\'s account always covers what stakers earned and what is scheduled.',
  quant=(Q, 'for every history of schedules set, extended and removed, deposits, withdrawals and claims, with the pool\'s currencies given in either order'),
  why='Schedules, rewards distributed and not yet claimed, and the account that holds both meet only over histories of changes between claims.',
  files=[F, 'crates/reward/src/lib.rs'],
  state=[('RewardSchedules', 'periods left and amount for each', F)],
  mech=[('on_initialize, update_reward_schedule, remove_reward_schedule, deposit, withdraw, claim', F)],
  observe=['balances of farms, treasury and stakers', 'schedules', 'refusals'], tech='histories of schedule changes between claims, against executable rules with solvency as invariant'),
 dict(id='G07', d='each call, each session\'s collators, candidates, bonds and the author\'s reward are compared with the rules. An invulnerable candidate was in the session twice; repaired (75a6583).',
  title='Sessions hold each active collator once, and bonds are always returned',
  statement='Each session is made of the invulnerables and the candidates that authored recently and have enough voting power, each once, and at least the least number of candidates. A candidate registers only with session keys, with a free place and the bond, which is reserved and returned exactly, for the amount reserved, when they leave or are kicked. The author of each block gets half of the pot above the existential deposit.',
  quant=(Q, 'for every history of registrations, departures, sessions, authors, bonds, decaying voting power and changed parameters'),
  why='Who is kicked depends on authorship, decay and the changing number of candidates within the same session change.',
  files=[C],
  state=[('Candidates, Invulnerables', 'who may collate', C), ('LastAuthoredBlock', 'last block of each', C), ('CandidacyBond, DesiredCandidates', 'parameters', C)],
  mech=[('register_as_candidate, leave_intent, kick_stale_candidates, assemble_collators, new_session, note_author', C)],
  observe=['sessions', 'reserved power', 'balances', 'refusals'], tech='missing authors, decaying power and reordered calls against executable rules'),
 dict(id='G08', d='after each call, each call of the runtime is paused just if the model says so, and releases are compared; what is paused is refused; in the end everything can be unpaused.',
  title='Just what governance paused is refused, and releases change only by it',
  statement='A call is refused just while governance has paused it or its whole pallet; calls on the safe list and those of the pause pallet itself never are, and names too long are treated as configured. Only governance pauses and unpauses, and whatever is paused by its name can be unpaused. A client\'s current release is what governance last set or, after an upgrade, what was pending for it; pending releases are applied once.',
  quant=(Q, 'for every history of pauses and unpauses of pallets, calls and unknown names, and of current and pending releases and upgrades, with repeated and reordered calls'),
  why='Pallet-wide and single pauses overlap, and their order decides what is refused later.',
  files=[T, I],
  state=[('PausedCalls', 'what is paused', T), ('CurrentClientReleases, PendingClientReleases', 'releases', I)],
  mech=[('pause, unpause, is_paused, is_paused_unbound, ensure_can_pause, ensure_can_unpause', T), ('set_current_client_release, set_pending_client_release, try_upgrade_current_client_releases', I)],
  observe=['refused calls', 'is_paused_unbound', 'releases'], tech='reordered overlapping pauses against a set of names'),
]
