SIM = 'sim-records'
LEVEL_NOTE = ('Seeded sampling over simulated runs of a node that stores records on a failing disk and serves them over a failing '
              'link, and of clients naming currencies and pools. Judged by byte and JSON layouts written down by hand. Trusts '
              'parity-scale-codec, serde_json and the FRAME stand-ins.')
DESIGN_TITLE = 'Records and identities (sim-records)'
DESIGN = '''One scenario, `records`: a node writes issue, redeem and replace requests, vault and currency
identities, oracle keys and asset metadata to a disk that tears and corrupts writes, restarts and reads
them back, and serves them as JSON over a link that loses, duplicates, reorders and truncates. Clients name
currencies, tokens, pools and vaults in every way the library offers. The real `primitives` crate runs.
About 75,000 runs per second.'''
PROPS = [
 dict(id='P01', d="every record is drawn with arbitrary fields, written, torn at any byte, corrupted, read after a restart and served; bytes and JSON are compared with hand-written layouts, bytes written by the present version of the network must read as the same record, a damaged record must be refused or be exactly what its bytes now say, and its declared maximal size must be kept.",
  title='Stored and served records come back unchanged',
  statement='A request, vault or currency identity, oracle key or asset metadata written to the chain\'s storage is read back as exactly the same record, in the layout the live network already stores, within its declared size. A torn one is refused. What clients are sent as JSON names every field and amount exactly and reads back as the same record.',
  quant=(['inputs', 'fault_sequences'], 'for every record with any field values, and torn or corrupted writes, restarts and lost, repeated or cut responses'),
  why='No test stores or serves a record with other than default fields; stored layouts must stay readable across versions, for all variants and extreme values.',
  files=['primitives/src/lib.rs', 'crates/bitcoin/src/address.rs'],
  state=[('IssueRequest, RedeemRequest, ReplaceRequest', 'open and finished requests', 'primitives/src/lib.rs'), ('CurrencyId, VaultId', 'keys of most maps', 'primitives/src/lib.rs')],
  mech=[('Encode, Decode, MaxEncodedLen of the records', 'primitives/src/lib.rs'), ('BalanceWrapper, serde attributes', 'primitives/src/lib.rs')],
  observe=['stored bytes', 'decoded record', 'JSON'], tech='torn writes, corruption and restart of a store, lossy link, against byte layouts'),
 dict(id='P02', d="pairs of members, sometimes of a pool already named, are joined and sorted in both orders and compared with all pools of the run; tokens are named by number and by (damaged) symbol; vault identities are built in each way; all against tables written by hand.",
  title='Currencies, pools, tokens and vaults have one identity',
  statement='The two orders of a pool\'s members give one canonical name; two pools share it only if they have the same members, and pools of anything that cannot be pooled do not exist. A token\'s number, symbol, name and decimals agree in every direction, unknown ones are refused, and a vault\'s identity is the same however it is built.',
  quant=(['inputs'], 'for every pair of members, every number and every string'),
  why='The tests do not compare pairs of different kinds or extreme ids; an asymmetric comparison shows only for particular pairs.',
  files=['primitives/src/lib.rs'],
  mech=[('CurrencyId::sort, join_lp_token, is_lp_token; LpToken conversions', 'primitives/src/lib.rs'), ('create_currency_id!', 'primitives/src/lib.rs'), ('VaultId', 'primitives/src/lib.rs')],
  observe=['names', 'numbers', 'refusals'], tech='clients naming pools and tokens in random orders and damaged forms, against a reference table'),
]
