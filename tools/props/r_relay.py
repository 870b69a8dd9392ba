SIM = 'sim-relay'
LEVEL_NOTE = ('Seeded sampling over simulated runs of miners, relayers, provers and payers against the real btc-relay, security '
              'and bitcoin crates on simulated runtime storage, judged by an independent chain model. Trusts the FRAME stand-ins '
              'and a proof-of-work table in place of real mining (SHA-256 itself is real except for the headers the miners made).')
DESIGN_TITLE = 'Bitcoin relay (sim-relay)'
DESIGN = '''One scenario, `relay`: miners grow competing Bitcoin chains (partitioned and healed, with skewed
clocks), several relayers submit the headers over a lossy, duplicating, reordering and stale transport,
adversaries submit altered headers (10 kinds) and forged proofs (12 kinds), and the node crashes at
storage writes in the middle of a block and re-executes it. Runs start either from a fresh relay (difficulty
check on or off) or from one of three prepared histories that end just before a difficulty boundary,
so that forks across it happen. The real `crates/btc-relay`, `crates/security` and `crates/bitcoin`
run; proof of work is supplied by a seam below SHA-256: the miners register "this 80-byte header has that hash",
every other input is hashed for real. About 2,200 runs per second.'''
IN = ['inputs', 'histories', 'fault_sequences']
PROPS = [
 dict(id='R01', d="every submission (genuine, stale, duplicated or altered: parent, target, time, version, work above target, wrong retarget, fork depth) is judged by the chain model; a refused one must leave the storage as it was. Both first initialisation and its repetition are driven.",
  title='The relay accepts exactly the headers Bitcoin would accept',
  statement='A submitted header is stored exactly when its parent is stored, it is not stored yet, its hash meets the target it states, and that target is the one Bitcoin requires at its place in its own chain (also on a fork that crosses a difficulty boundary), as far as that check is switched on. A refused header or initialisation leaves no trace.',
  quant=(IN, 'for every tree of headers, every order, repetition and loss of submissions, every altered header, and crashes in the middle of a block'),
  why='Tests submit a few recorded headers on one chain, and mock most parts; forks at difficulty boundaries need long histories. The crate is not among the buildable tests.',
  files=['crates/btc-relay/src/lib.rs', 'crates/bitcoin/src/pow.rs', 'crates/btc-relay/src/types.rs'],
  state=[('BlockHeaders', 'accepted headers with height and chain', 'crates/btc-relay/src/lib.rs')],
  mech=[('verify_block_header, get_last_retarget_time', 'crates/btc-relay/src/lib.rs'), ('_store_block_header, _initialize', 'crates/btc-relay/src/lib.rs')],
  observe=['dispatch result', 'stored headers', 'storage root'], tech='miners, relayers and header forgers with loss, reordering and crashes, against a chain model'),
 dict(id='R02', d="after every step the main chain, its tip and height, the order of the forks and the announcements (new header, fork seen, fork ahead, reorganisation) are compared with the model's rule on the full header tree.",
  title='The relay follows the best chain by its stated rule',
  statement='The chain the relay takes as main is the first to have grown the configured number of blocks beyond the previous main chain, however many forks race and overtake one another. Best block, heights, the header at each height and announcements agree with it after every submission and every reorganisation.',
  quant=(['inputs', 'histories', 'schedules', 'fault_sequences'], 'for every number of racing forks, every interleaving of their growth and delivery, and crashes in the middle of a reorganisation'),
  why='Tests construct one fork by hand in storage; overtaking forks and forks of forks need interleavings.',
  files=['crates/btc-relay/src/lib.rs'],
  state=[('Chains, ChainsIndex, ChainsHashes', 'order of chains, their ends and their headers', 'crates/btc-relay/src/lib.rs'), ('BestBlock, BestBlockHeight', 'tip of the main chain', 'crates/btc-relay/src/lib.rs')],
  mech=[('reorganize_chains, check_and_do_reorg, swap_main_blockchain, extend_blockchain', 'crates/btc-relay/src/lib.rs')],
  observe=['best block', 'chain index', 'events'], tech='partitioned and healed miners, racing forks, crash injection, against a chain model'),
 dict(id='R03', d="provers present genuine and forged proofs of transactions on the main chain, on forks, before and after reorganisations, at every depth around both confirmation rules and both clocks; the model decides.",
  title='A transaction is taken as included only if it is, and confirmed',
  statement='Inclusion is affirmed exactly when the transaction is in a block of the current main chain, the proof and the coinbase proof are for that block and for the same tree, and the block has both the Bitcoin and the parachain confirmations demanded. A block abandoned in a reorganisation proves nothing until it is back.',
  quant=(IN, 'for every chain history with reorganisations, every proof genuine or forged, every confirmation setting'),
  why='Tests mock the proof verification or use one recorded proof.',
  files=['crates/btc-relay/src/lib.rs', 'crates/bitcoin/src/merkle.rs', 'crates/bitcoin/src/types.rs'],
  mech=[('_verify_transaction_inclusion, check_bitcoin_confirmations, check_parachain_confirmations', 'crates/btc-relay/src/lib.rs'), ('verify_coinbase, FullTransactionProof', 'crates/btc-relay/src/lib.rs')],
  observe=['verdict', 'error'], tech='honest and forging provers over reorganising chains with crashes, against a chain model'),
 dict(id='R04', d="payers build transactions with any number and order of outputs, duplicated destinations, values at the limits, data outputs right, wrong, repeated or missing; the model applies the payment rules to the structured transaction.",
  title='A payment counts only if it pays what was asked, to whom, with its tag',
  statement='A payment is recognised exactly when it pays the asked address at least (or exactly) the asked amount and carries the request\'s tag where one is required, in one of the accepted output layouts. The amount read for a deposit is what the outputs to the deposit address say, and no other transaction passes.',
  quant=(IN, 'for every transaction with any outputs, order, values and data, honest or made to deceive'),
  why='Tests try a few layouts of two or three outputs.',
  files=['crates/btc-relay/src/lib.rs', 'crates/btc-relay/src/types.rs', 'crates/bitcoin/src/types.rs'],
  mech=[('validate_op_return_transaction, get_issue_payment', 'crates/btc-relay/src/lib.rs'), ('OpReturnPaymentData', 'crates/btc-relay/src/types.rs')],
  observe=['verdict', 'amount'], tech='honest and cheating payers, against a reference payment rule'),
 dict(id='R05', d="after an arbitrary faulty prefix (losses, partitions, crashes, stale relayers, adversaries) faults stop, the miners heal and extend the best chain, and one honest relayer keeps submitting what is missing; within a bounded number of steps the relay must follow the miners' chain and accept an honest proof on it.",
  title='After faults the relay converges on the miners\' chain',
  statement='Once losses, partitions and crashes stop and one honest relayer submits the headers that are missing, the relay follows the miners\' best chain within a bounded number of blocks, and honest proofs on it are accepted. No earlier submission, by anyone, can block that.',
  quant=(['schedules', 'histories', 'fault_sequences'], 'for every faulty history before the faults stop'),
  why='It is a liveness property over histories; unit tests have neither.',
  files=['crates/btc-relay/src/lib.rs'],
  mech=[('store_block_header, reorganize_chains', 'crates/btc-relay/src/lib.rs')],
  observe=['best block', 'verdict on an honest proof'], tech='liveness within a bounded number of steps after faults stop'),
 dict(id='R06', d="requests are opened, both clocks (parachain active blocks, Bitcoin height) are advanced unevenly, with stalled blocks, error status and skipped counters, and expiry is asked at every boundary; the model keeps both deadlines.",
  title='Requests expire only when both clocks have passed their period',
  statement='A request has expired exactly when both the parachain has produced more active blocks and Bitcoin has grown by more blocks than the period allows; blocks while the chain is halted do not count. A stalled Bitcoin chain or a stalled relay alone never expires anything.',
  quant=(['histories', 'schedules', 'inputs', 'fault_sequences'], 'for every opening time, period and interleaving of parachain blocks, Bitcoin blocks and outages'),
  why='Tests check single points of one clock with the other mocked.',
  files=['crates/btc-relay/src/lib.rs', 'crates/security/src/lib.rs'],
  state=[('ActiveBlockCount', 'blocks produced while active', 'crates/security/src/lib.rs')],
  mech=[('has_request_expired', 'crates/btc-relay/src/lib.rs'), ('increment_active_block, parachain_block_expired', 'crates/security/src/lib.rs')],
  observe=['verdict', 'active block count'], tech='uneven and stalled clocks, against a two-clock model'),
 dict(id='R07', d="all ids drawn in a run, across users, nonces, blocks, crashes with re-execution, and across a purge that restarts the chain with new parent hashes, are recorded and compared.",
  title='Request ids never repeat',
  statement='Every request id drawn is different from every other one in the history of the chain, whoever asks, also when a block is executed again after a crash or the chain is restarted, and drawing one changes nothing but the nonce.',
  quant=(['histories', 'fault_sequences', 'inputs'], 'for every sequence of requests by any accounts, across crashes and restarts'),
  why='A collision needs histories; tests draw one or two ids.',
  files=['crates/security/src/lib.rs'],
  state=[('Nonce', 'counter behind the ids', 'crates/security/src/lib.rs')],
  mech=[('get_secure_id, get_nonce', 'crates/security/src/lib.rs')],
  observe=['ids'], tech='crash and restart faults, uniqueness over recorded histories'),
]
