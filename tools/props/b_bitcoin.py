SIM = 'sim-bitcoin'
LEVEL_NOTE = ('Seeded sampling over simulated runs of wallets, miners, relayers and a faulty transport delivering to the real '
              'Bitcoin library, judged message by message by an independent reference (rust-bitcoin 0.30.1 and a hand-written '
              'model). Trusts the reference, and rust-secp256k1 0.27 in place of the pinned revision.')
DESIGN_TITLE = 'Bitcoin library (sim-bitcoin)'
DESIGN = '''One scenario, `wire`: wallets, miners, provers, vaults and a faulty transport deliver messages to a node
that reads them with the real `crates/bitcoin`. Every delivered message is judged against an independent
reference. Simulated time is the miners' clock. About 4,000 runs per second (B01: 400).'''
IN = ['inputs', 'fault_sequences']
PROPS = [
 dict(id='B01', d="wallets build transactions byte by byte from Bitcoin's format (script, witness and list lengths at every boundary of the length encoding, coinbases with heights at every sign and size boundary, lock times around the threshold), the transport damages some of them; rust-bitcoin decides what the delivered bytes mean, and fields, both ids, re-encoding, SCALE round trip, rust-bitcoin conversion and the exact length bound are compared. Bounds: scripts to 70 kB, output scripts to 10,000 bytes, 256 inputs or outputs.",
  title='Transactions mean what Bitcoin says they mean',
  statement='Every transaction Bitcoin accepts is read with the same version, inputs, outputs, witnesses and lock time, gets the same transaction and witness ids, and re-encodes to the same bytes. The same holds after the conversion to and from the parachain\'s own encoding and rust-bitcoin\'s types, and the length bound given with a transaction is enforced exactly.',
  quant=(IN, 'for every transaction (script, witness and list lengths at every encoding boundary, any lock time, coinbase and segwit forms) and every transport history that delivers it, intact or altered into another valid transaction'),
  why='Unit tests decode about a dozen fixed transactions; none has lengths at the boundaries of the length encoding, and none compares with an independent implementation.',
  files=['crates/bitcoin/src/parser.rs', 'crates/bitcoin/src/formatter.rs', 'crates/bitcoin/src/types.rs', 'crates/bitcoin/src/compat.rs'],
  state=[('transaction id', 'identity of a payment in proofs and in duplicate detection', 'crates/bitcoin/src/types.rs')],
  mech=[('parse_transaction', 'crates/bitcoin/src/parser.rs'), ('TryFormat', 'crates/bitcoin/src/formatter.rs'), ('tx_id, tx_id_bounded', 'crates/bitcoin/src/types.rs'), ('ConvertFromInterlayBitcoin', 'crates/bitcoin/src/compat.rs')],
  observe=['parsed fields', 'transaction id', 're-encoded bytes'], tech='wallets over a faulty transport, refinement against rust-bitcoin'),
 dict(id='B02', d='every kind of message is corrupted in transit (bit flips, truncation, splices, inflated length prefixes, boundary values in length fields, aimed damage of coinbase scripts) and read with every entry point; the oracle is a panic monitor, with overflow checks on.',
  title='Hostile or damaged bytes never crash the reader',
  statement='Whatever bytes arrive as a transaction, header, proof, script, length prefix, public key or extrinsic payload, reading them and using the result ends with a value or an error, never with a crash.',
  quant=(['inputs', 'fault_sequences'], 'for every byte string, in particular every corruption, truncation, splice and inflated length field of a genuine message'),
  why='Tests feed a handful of malformed inputs; a crash inside the runtime needs a specific malformed length.',
  files=['crates/bitcoin/src/parser.rs', 'crates/bitcoin/src/merkle.rs', 'crates/bitcoin/src/script.rs', 'crates/bitcoin/src/address.rs', 'crates/bitcoin/src/types.rs'],
  mech=[('BytesParser::read, Parsable', 'crates/bitcoin/src/parser.rs'), ('verify_proof bounds', 'crates/bitcoin/src/merkle.rs'), ('extract_op_return_data', 'crates/bitcoin/src/script.rs')],
  observe=['return value or panic'], tech='message corruption faults with a panic monitor'),
 dict(id='B03', d="miners on skewed clocks produce headers, some with arbitrary versions, times and compact targets at the limits of the format; field by field against the hand-written layout, hash against an independent SHA-256d, byte orders against rust-bitcoin's display.",
  title='Block headers are read and hashed as Bitcoin does',
  statement='An 80-byte header is read into exactly the version, parent, Merkle root, time, target and nonce it encodes, with the hash Bitcoin gives it, and re-encodes to itself; other sizes and negative or overflowing targets are refused. The hash is shown and converted between byte orders consistently.',
  quant=(IN, 'for every header and every transport history, including headers altered on the way'),
  why='Tests parse a few real headers with ordinary compact targets.',
  files=['crates/bitcoin/src/parser.rs', 'crates/bitcoin/src/types.rs', 'crates/bitcoin/src/formatter.rs', 'crates/bitcoin/src/math.rs'],
  mech=[('parse_block_header', 'crates/bitcoin/src/parser.rs'), ('BlockHeader::hash, H256Le', 'crates/bitcoin/src/types.rs')],
  observe=['header fields', 'hash', 're-encoding'], tech='skewed-clock miners over a faulty transport, reference model'),
 dict(id='B04', d="blocks of up to 70 transactions with honest, damaged and forged proofs (13 kinds of forgery, among them duplicated tails, extra levels, lies about the transaction or count), and synthetic trees of up to 20,000 leaves; the block's leaf list decides membership and position, and a reference partial tree decides what an honest proof is, and rust-bitcoin's partial tree must accept, with the same root and marked leaf, whatever the code accepts (also with surplus hashes or flags). The library's own proof and block builders are compared with Bitcoin's.",
  title='Inclusion proofs are sound, complete and report the true position',
  statement='A proof is accepted with a block\'s Merkle root only if the transaction really is in that block, and then the position reported is the one it has there and the stated length bound holds. The root of an accepted proof is the one Bitcoin computes from the same counts, hashes and flags, and a proof with hashes or flag bytes left over is refused as in Bitcoin. Every honest proof, as made by a Bitcoin node or by this library, is accepted and leads to the block\'s root.',
  quant=(['inputs', 'histories', 'fault_sequences'], 'for every block, transaction and proof, honest, damaged on the way or forged by a prover who chooses counts, flags and hashes'),
  why='Tests verify a few recorded proofs; forging needs an adversary that recombines genuine hashes.',
  files=['crates/bitcoin/src/merkle.rs', 'crates/bitcoin/src/types.rs', 'crates/bitcoin/src/utils.rs'],
  mech=[('verify_proof, traverse_and_extract', 'crates/bitcoin/src/merkle.rs'), ('traverse_and_build, Block::merkle_proof', 'crates/bitcoin/src/types.rs')],
  observe=['verdict', 'extracted root', 'reported position'], tech='honest and forging provers against a reference Merkle tree'),
 dict(id='B05', d="difficulty periods whose first and last blocks carry skewed or reversed times, with boundary spans and targets; a reference written from Bitcoin's rule on 512-bit arithmetic.",
  title='Difficulty follows Bitcoin\'s adjustment and encoding',
  statement='The target required after a difficulty period equals the one Bitcoin\'s rule gives for the period\'s old target and first and last block times, with the same limits and rounding. Compact targets expand and compress exactly as in Bitcoin.',
  quant=(['inputs', 'histories', 'fault_sequences'], 'for every previous target and every pair of miner timestamps, including skewed, equal and backward clocks, and every compact word'),
  why='Tests check three recorded periods; clamping, rounding and backward clocks are not among them.',
  files=['crates/bitcoin/src/pow.rs', 'crates/bitcoin/src/math.rs'],
  mech=[('calculate_next_work_required', 'crates/bitcoin/src/pow.rs'), ('SetCompact, GetCompact', 'crates/bitcoin/src/math.rs')],
  observe=['required target'], tech='clock skew faults on miners, reference model'),
 dict(id='B06', d="scripts of all standard forms, near misses (each structural byte replaced by neighbouring opcodes, lost or extra bytes), OP_RETURN payloads of every size; rust-bitcoin's template tests and address payloads are the reference.",
  title='Scripts pay the addresses Bitcoin says they pay',
  statement='An output script is recognised as paying an address exactly when it is one of the four supported standard forms, and the address turns back into the same script. Data carried in an OP_RETURN output is read back unchanged, and nothing else is taken for it.',
  quant=(IN, 'for every script, including near misses of the standard forms and scripts altered on the way'),
  why='Tests use one script per form and few malformed ones.',
  files=['crates/bitcoin/src/address.rs', 'crates/bitcoin/src/script.rs', 'crates/bitcoin/src/types.rs', 'crates/bitcoin/src/compat.rs'],
  mech=[('Address::from_script_pub_key, to_script_pub_key', 'crates/bitcoin/src/address.rs'), ('extract_op_return_data, op_return', 'crates/bitcoin/src/script.rs')],
  observe=['address', 'payload'], tech='script exchange over a faulty transport, refinement against rust-bitcoin'),
 dict(id='B07', d="vaults and users request deposits over a lossy, duplicating transport; the key is compared with the scheme computed with independent curve arithmetic, the vault's private key c*v must own it, and all keys of a run are pairwise distinct unless the request is the same. Runs rust-secp256k1 0.27 in place of the pinned revision.",
  title='Deposit addresses are unique and the vault can spend them',
  statement='The deposit key derived from a vault\'s public key and a request id is the one whose private key the vault computes from its own secret and that id, the same at every derivation. Different requests or vaults never share a deposit address, and a key that is not on the curve is refused.',
  quant=(['inputs', 'histories', 'fault_sequences'], 'for every vault key and request id, every order and repetition of requests, and keys altered on the way'),
  why='Tests derive one fixed key.',
  files=['crates/bitcoin/src/address.rs'],
  mech=[('PublicKey::new_deposit_public_key', 'crates/bitcoin/src/address.rs')],
  observe=['derived key'], tech='deposit requests over a faulty transport, private-key reference derivation'),
]
