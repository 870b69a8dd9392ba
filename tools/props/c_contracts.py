SIM = 'sim-swap'
LEVEL_NOTE = ('Seeded sampling over simulated runs of the real contracts over the real chain extension and the real btc-relay, '
              'judged by a small model of the orders and of a relay. Trusts ink\'s off-chain environment and codec and the '
              'FRAME stand-ins.')
DESIGN_TITLE = 'Smart contracts (sim-swap)'
DESIGN = '''One scenario, `swap`: makers deposit and open or replace orders, takers pay on a simulated Bitcoin
network (exact, short, over, split, to another address, in another transaction), miners fork it, a relayer
brings the headers (late, twice, in wrong order), and forgers damage proofs and payloads. Calls enter the
contracts by selector and encoded arguments, as a chain delivers them, through ink's generated dispatcher
in ink's off-chain environment; enquiries go through the real chain extension of the runtime to the real
btc-relay. Calls are lost, duplicated, run out of funds, and blocks crash and are executed again. About
5,000 runs per second. Out of domain: that anyone may claim an order with someone else's payment and that
one payment settles several orders of the same address, which the contract documents as a proof of concept.'''
FILES = ['contracts/btc_swap/lib.rs']
PROPS = [
 dict(id='C01', d="a model holds every open order; after each call the contract's balance, the receivers' balances and the stored orders must agree, and a payout needs a payment that is on the model's Bitcoin main chain, deep enough, to the order's address and of at least its price.",
  title='A swap order pays out its deposit once, for a real payment',
  statement='An order of the swap contract pays out exactly the amount locked in it, once, and only for a confirmed Bitcoin transaction that pays at least its price to its address. A replaced order\'s deposit goes back to its maker. A refused call changes nothing, and the contract always holds exactly the sum of the open orders.',
  quant=(['inputs', 'histories', 'fault_sequences'], 'for every order of calls, forks, late and damaged proofs, repeated calls and crashes'),
  why='The only tests of the contract run without a chain; payouts depend on the history of orders, on forks of Bitcoin and on what the relay knows when.',
  files=FILES + ['parachain/runtime/kintsugi/src/contracts.rs'],
  state=[('trades', 'open orders of each maker', 'contracts/btc_swap/lib.rs')],
  mech=[('create_trade, execute_trade', 'contracts/btc_swap/lib.rs'), ('BtcRelayChainExtension', 'parachain/runtime/kintsugi/src/contracts.rs')],
  observe=['balances of the contract and of the receivers', 'result of each call', 'stored orders'], tech='swap histories over a forking Bitcoin with damaged proofs, lost and repeated calls and crashes, against a model of orders'),
 dict(id='C02', d="every answer to a contract is compared with what the model of the relay (its main chain, depths, and the outputs of the transaction) says, for good, stale, forked, damaged and meaningless enquiries; a panic anywhere is a violation.",
  title='Contracts are told the truth about Bitcoin payments',
  statement='A contract that enquires about a payment is told the amount a transaction pays to an address if and only if the relay holds it, confirmed, on its main chain. Otherwise it is told there is none. Malformed enquiries are refused with an error, and no enquiry crashes the node or changes the chain\'s state.',
  quant=(['inputs', 'histories', 'fault_sequences'], 'for every enquiry, well-formed or not, at every state of the relay'),
  why='No test calls the extension; contracts send arbitrary bytes to it, and a crash there stops block production.',
  files=['parachain/runtime/kintsugi/src/contracts.rs', 'crates/btc-relay/src/lib.rs'],
  mech=[('chain extension: enquiries, charge of weight, errors', 'parachain/runtime/kintsugi/src/contracts.rs'), ('get_and_verify_issue_payment', 'crates/btc-relay/src/lib.rs')],
  observe=['answers and errors given to contracts', 'storage root'], tech='contract enquiries with forged and damaged proofs over a forking relay, against a model of the relay'),
 dict(id='C03', d="a model of the value follows every executed flip, through both constructors, repeated and lost calls, crashes and re-execution.",
  title='The flipper contract holds its value',
  statement='The flipper\'s value is its initial value (true or false as constructed, false by default) flipped once for each executed flip. Reading it tells that value and changes nothing.',
  quant=(['histories', 'fault_sequences'], 'for every sequence of constructions, flips and reads, with lost and repeated calls and crashes'),
  why='Its tests sample two sequences of one and two calls.',
  files=['contracts/hello_world/lib.rs'],
  mech=[('new, new_default, flip, get', 'contracts/hello_world/lib.rs')],
  observe=['value read', 'stored value'], tech='call histories with loss, repetition, crashes and re-execution, against a one-bit model'),
]
