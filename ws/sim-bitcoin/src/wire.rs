//! Wallets, miners and relayers exchange Bitcoin data with a parachain node over a transport
//! that delays, reorders, duplicates, drops and damages what it carries. The node reads what
//! arrives with the code under test; rust-bitcoin and `refm` say what Bitcoin makes of it.
use crate::refm;
use btc::{
    formatter::TryFormat,
    merkle::{MerkleProof, PartialTransactionProof},
    parser::{parse_block_header, parse_compact_uint, parse_transaction, FromLeBytes},
    types::*,
    Address, GetCompact, PublicKey, Script, SetCompact,
};
use primitive_types::{H256, U256};
use rb::{
    consensus::encode::{deserialize_partial, serialize},
    hashes::Hash,
};
use sim_core::{catching, Ctx, Res, Scenario, Src};

#[derive(Clone, Debug)]
enum Kind {
    Tx,
    Header,
    Proof { tx: usize, blk: usize },
    Script { payload: Option<Vec<u8>> },
    Deposit,
    Scale,
    CompactUint,
}

#[derive(Clone, Debug)]
struct Msg {
    kind: Kind,
    bytes: Vec<u8>,
    truth: Vec<u8>,
    damaged: bool,
}

struct RefBlock {
    header: Vec<u8>,
    txs: Vec<Vec<u8>>,
    ids: Vec<[u8; 32]>,
    root: [u8; 32],
}

struct Vault {
    sk: secp::SecretKey,
    pk: [u8; 33],
}

pub struct Wire {
    net: Vec<Msg>,
    blocks: Vec<RefBlock>,
    vaults: Vec<Vault>,
    deposits: Vec<(usize, [u8; 32], [u8; 33])>,
    secp: secp::Secp256k1<secp::All>,
    w: [u32; 8],
    damage_rate: u64,
    // the simulated header chain
    tip: [u8; 32],
    target: U256,
    bits: u32,
    height: u64,
    epoch_start: u64,
    last_time: u64,
    clock: u64,
    steps: usize,
    seed_ids: u64,
}

const EDGE: [u64; 14] = [0, 1, 0x4b, 0x4c, 0x50, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0x10001];

fn rand_script(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[8, 8, 8, 8, 6, 4, 3, 2]) {
        0 => [&[0x00, 0x14][..], &src.bytes(20)].concat(),
        1 => [&[0x76, 0xa9, 0x14][..], &src.bytes(20), &[0x88, 0xac]].concat(),
        2 => [&[0xa9, 0x14][..], &src.bytes(20), &[0x87]].concat(),
        3 => [&[0x00, 0x20][..], &src.bytes(32)].concat(),
        4 => {
            let n = src.range(0, 75) as usize;
            [&[0x6a, n as u8][..], &src.bytes(n)].concat()
        }
        5 => [&[0x51, 0x20][..], &src.bytes(32)].concat(),
        6 => {
            let n = src.range(0, 300) as usize;
            src.bytes(n)
        }
        _ => {
            near_miss(src)
        }
    }
}

/// Near misses of the standard templates.
fn near_miss(src: &mut Src) -> Vec<u8> {
            let mut s = rand_std(src);
            match src.below(6) {
                0 => {
                    let i = src.usize(s.len());
                    s[i] ^= 1 << src.below(8);
                }
                4 | 5 => {
                    // another opcode in one of the places that make the template
                    let n = s.len();
                    let i = *src.pick(&[0, 1, 2, n - 1, n - 2]);
                    s[i] = *src.pick(&OPCODES);
                }
                1 => {
                    s.pop();
                }
                2 => s.push(src.u8()),
                _ => {
                    s.insert(0, 0);
                }
            }
            s
}

const OPCODES: [u8; 20] = [0, 1, 0x13, 0x14, 0x15, 0x1f, 0x20, 0x21, 0x4c, 0x51, 0x60, 0x69, 0x6a, 0x76, 0x87, 0x88, 0xa8, 0xa9, 0xac, 0xad];

/// Compact targets around every limit of the format.
fn odd_bits(src: &mut Src) -> u32 {
    match src.below(4) {
        0 => src.u32(),
        1 => (src.range(0, 40) as u32) << 24 | src.u32() & 0xff_ffff,
        _ => {
            (*src.pick(&[0u32, 1, 2, 3, 4, 5, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0xff])) << 24
                | *src.pick(&[0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7f_ffff, 0x80_0000, 0x80_0001, 0x80_ffff, 0xff_ffff])
        }
    }
}

fn rand_std(src: &mut Src) -> Vec<u8> {
    match src.below(4) {
        0 => [&[0x00, 0x14][..], &src.bytes(20)].concat(),
        1 => [&[0x76, 0xa9, 0x14][..], &src.bytes(20), &[0x88, 0xac]].concat(),
        2 => [&[0xa9, 0x14][..], &src.bytes(20), &[0x87]].concat(),
        _ => [&[0x00, 0x20][..], &src.bytes(32)].concat(),
    }
}

fn len_choice(src: &mut Src, big: u64) -> usize {
    match src.weighted(&[60, 8, 1]) {
        0 => src.range(0, 120) as usize,
        1 => {
            let e = *src.pick(&EDGE);
            (e.min(big)) as usize
        }
        _ => src.range(0, big) as usize,
    }
}

/// The bytes of a transaction, laid out by hand from Bitcoin's format.
fn make_tx(src: &mut Src, coinbase: bool, small: bool) -> Vec<u8> {
    let version: i32 = if src.chance(1, 3) { 1 } else { 2 };
    let nin = if coinbase {
        1
    } else if !small && src.chance(1, 60) {
        *src.pick(&[0xfcu64, 0xfd, 0xfe, 0x100])
    } else {
        src.range(1, 4)
    } as usize;
    let segwit = src.chance(1, 2);
    let mut o = version.to_le_bytes().to_vec();
    if segwit {
        o.extend([0, 1]);
    }
    o.extend(refm::varint(nin as u64));
    for _ in 0..nin {
        if coinbase {
            o.extend([0; 32]);
            o.extend(u32::MAX.to_le_bytes());
            let mut s = vec![];
            // BIP34 height, minimally encoded
            let h = *src.pick(&[17u32, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 800_000, 8_388_607, 8_388_608]);
            let h = if src.bool() { h } else { src.range(17, 4_000_000) as u32 };
            let mut hb = h.to_le_bytes().to_vec();
            while hb.last() == Some(&0) {
                hb.pop();
            }
            if hb.last().unwrap() & 0x80 != 0 {
                hb.push(0);
            }
            s.push(hb.len() as u8);
            s.extend(hb);
            // the whole script is at most 100 bytes
            let room = 100 - s.len() as u64;
            let extra = if src.chance(1, 4) { room - src.below(3) } else { src.range(0, room) } as usize;
            s.extend(src.bytes(extra));
            o.extend(refm::varint(s.len() as u64));
            o.extend(s);
        } else {
            let mut h = src.bytes(32);
            h[0] |= 1;
            o.extend(h);
            let vout = if src.chance(1, 8) { *src.pick(&EDGE) as u32 } else { src.range(0, 5) as u32 };
            o.extend(vout.to_le_bytes());
            let n = if small { src.range(0, 20) as usize } else { len_choice(src, 70_000) };
            o.extend(refm::varint(n as u64));
            o.extend(src.bytes(n));
        }
        let seq = *src.pick(&[u32::MAX, 0, 1, u32::MAX - 1, 0x8000_0000]);
        o.extend(seq.to_le_bytes());
    }
    let nout = if !small && src.chance(1, 60) { *src.pick(&[0xfcu64, 0xfd, 0xfe, 0x100]) } else { src.range(1, 4) } as usize;
    o.extend(refm::varint(nout as u64));
    for _ in 0..nout {
        let value = match src.below(4) {
            0 => 0,
            1 => 21_000_000_0000_0000,
            _ => src.magnitude(21_000_000_0000_0000) as u64,
        };
        o.extend(value.to_le_bytes());
        let s = if !small && src.chance(1, 16) {
            let n = len_choice(src, 10_000).min(10_000);
            src.bytes(n)
        } else {
            rand_script(src)
        };
        o.extend(refm::varint(s.len() as u64));
        o.extend(s);
    }
    if segwit {
        let force = src.usize(nin);
        for i in 0..nin {
            let items = if i == force { src.range(1, 3) } else { src.range(0, 3) } as usize;
            o.extend(refm::varint(items as u64));
            for _ in 0..items {
                let n = if small { src.range(0, 40) as usize } else { len_choice(src, 66_000) };
                o.extend(refm::varint(n as u64));
                o.extend(src.bytes(n));
            }
        }
    }
    let lock = *src.pick(&[0u32, 499_999_999, 500_000_000, 500_000_001, u32::MAX, 1]);
    let lock = if src.bool() { lock } else { src.u32() };
    o.extend(lock.to_le_bytes());
    o
}

fn damage(src: &mut Src, ctx: &mut Ctx, b: &mut Vec<u8>, other: Option<&[u8]>) {
    let rounds = if src.chance(1, 4) { src.range(2, 4) } else { 1 };
    for _ in 0..rounds {
        if b.is_empty() {
            return;
        }
        match src.weighted(&[6, 4, 3, 4, 4, 2, 2]) {
            0 => {
                let i = src.usize(b.len());
                b[i] ^= 1 << src.below(8);
                ctx.fault("bit flip");
            }
            1 => {
                let n = src.usize(b.len());
                b.truncate(n);
                ctx.fault("truncated message");
            }
            2 => {
                let n = src.range(1, 40) as usize;
                b.extend(src.bytes(n));
                ctx.fault("trailing garbage");
            }
            3 => {
                // overwrite a few bytes with a boundary value
                let i = src.usize(b.len());
                let v = *src.pick(&[0u64, 0xff, 0xfd, 0xfe, u64::MAX, 0x7fff_ffff, 0x8000_0000, 0xffff, 0x51, 0x60, 5, 4]);
                let w = *src.pick(&[1usize, 2, 4, 8]);
                for (k, x) in v.to_le_bytes().iter().take(w).enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
                ctx.fault("field overwritten");
            }
            4 => {
                // length field inflated: 0xff/0xfe/0xfd prefix inserted
                let i = src.usize(b.len().min(80));
                let p = *src.pick(&[0xffu8, 0xfe, 0xfd]);
                b.insert(i, p);
                let k = src.range(0, 8) as usize;
                let fill = *src.pick(&[0xffu8, 0x00, 0x01, 0x7f, 0x80]);
                for _ in 0..k {
                    b.insert(i + 1, fill);
                }
                ctx.fault("length field inflated");
            }
            5 => {
                let i = src.usize(b.len());
                let n = (src.range(1, 8) as usize).min(b.len() - i);
                b.drain(i..i + n);
                ctx.fault("bytes lost");
            }
            _ => {
                if let Some(o) = other {
                    if !o.is_empty() {
                        let i = src.usize(b.len());
                        let j = src.usize(o.len());
                        b.truncate(i);
                        b.extend_from_slice(&o[j..]);
                        ctx.fault("spliced with another message");
                    }
                }
            }
        }
    }
}

/// Damage aimed at the part of a coinbase where its height and script lengths are.
fn damage_coinbase(src: &mut Src, ctx: &mut Ctx, b: &mut Vec<u8>) {
    let at = b.windows(36).position(|w| w[..32] == [0; 32] && w[32..] == [0xff; 4]);
    if let Some(p) = at {
        let i = p + 36 + src.usize(2);
        if i < b.len() {
            b[i] = *src.pick(&[0u8, 1, 4, 5, 8, 0x51, 0x60, 0xfd, 0xfe, 0xff, 100, 101]);
            if src.bool() {
                for k in 1..=8 {
                    if i + k < b.len() {
                        b[i + k] = 0xff;
                    }
                }
            }
            ctx.fault("coinbase length fields overwritten");
        }
    }
}

fn txid_of(t: &rb::Transaction) -> [u8; 32] {
    t.txid().to_byte_array()
}

/// Coinbase-style inputs whose script does not begin with a minimally encoded BIP34 height
/// cannot occur in a valid block; the code under test keeps only the height's value.
fn odd_coinbase(t: &rb::Transaction) -> bool {
    t.version == 2
        && t.input.iter().any(|i| {
            if i.previous_output.txid.to_byte_array() != [0; 32] {
                return false;
            }
            let s = i.script_sig.as_bytes();
            if s.is_empty() {
                return true;
            }
            let n = s[0] as usize;
            if n == 0 || n > 4 || s.len() < 1 + n {
                return true;
            }
            let h = &s[1..1 + n];
            let last = h[n - 1];
            // not minimal
            if n > 1 && last == 0 && h[n - 2] & 0x80 == 0 {
                return true;
            }
            if last & 0x80 != 0 {
                return true;
            }
            n == 1 && last == 0
        })
}

/// What Bitcoin (rust-bitcoin's partial tree) makes of the same counts, hashes and flags: the root
/// and the marked leaves. It refuses a tree with unused hashes or unused flag bytes.
fn bitcoin_verdict(p: &MerkleProof) -> Result<([u8; 32], Vec<([u8; 32], u32)>), String> {
    let mut raw = p.transactions_count.to_le_bytes().to_vec();
    raw.extend(serialize(&rb::VarInt(p.hashes.len() as u64)));
    p.hashes.iter().for_each(|h| raw.extend(h.to_bytes_le()));
    raw.extend(serialize(&rb::VarInt(((p.flag_bits.len() + 7) / 8) as u64)));
    raw.extend(p.flag_bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << i)));
    let t: rb::merkle_tree::PartialMerkleTree = rb::consensus::deserialize(&raw).map_err(|e| format!("{e:?}"))?;
    let (mut ids, mut at) = (vec![], vec![]);
    let root = t.extract_matches(&mut ids, &mut at).map_err(|e| format!("{e:?}"))?;
    Ok((root.to_byte_array(), ids.iter().map(|i| i.to_byte_array()).zip(at).collect()))
}

impl Wire {
    fn send(&mut self, src: &mut Src, ctx: &mut Ctx, kind: Kind, truth: Vec<u8>) {
        if src.chance(1, 40) {
            ctx.fault("message lost");
            return;
        }
        let mut bytes = truth.clone();
        let mut damaged = false;
        if src.chance(self.damage_rate, 100) {
            let coin = matches!(kind, Kind::Tx) && src.chance(1, 3);
            if coin {
                damage_coinbase(src, ctx, &mut bytes);
            }
            if !coin || src.chance(1, 4) {
                let other = if self.net.is_empty() { None } else { Some(src.usize(self.net.len())) };
                let other = other.map(|i| self.net[i].truth.clone());
                damage(src, ctx, &mut bytes, other.as_deref());
            }
            damaged = bytes != truth;
        }
        let m = Msg { kind, bytes, truth, damaged };
        if src.chance(1, 25) {
            ctx.fault("message duplicated");
            self.net.push(m.clone());
        }
        self.net.push(m);
        if self.net.len() > 60 {
            self.net.remove(0);
            ctx.fault("message lost");
        }
    }

    fn mine(&mut self, src: &mut Src, ctx: &mut Ctx) -> (Vec<u8>, usize) {
        let n = match src.weighted(&[6, 3, 2, 1]) {
            0 => src.range(1, 4),
            1 => src.range(1, 9),
            2 => src.range(2, 20),
            _ => src.range(20, 70),
        } as usize;
        let mut txs = vec![make_tx(src, true, true)];
        let base = src.u64();
        for i in 1..n {
            if i < 5 {
                txs.push(make_tx(src, false, true));
            } else {
                // cheap filler
                let mut o = vec![2, 0, 0, 0, 1];
                o.extend(refm::dsha(&(base ^ i as u64).to_le_bytes()));
                o.extend([0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 1]);
                o.extend((i as u64 * 1000).to_le_bytes());
                o.extend([22, 0, 20]);
                o.extend(&refm::dsha(&(base ^ i as u64).to_le_bytes())[..20]);
                o.extend([0, 0, 0, 0]);
                txs.push(o);
            }
        }
        let ids: Vec<[u8; 32]> = txs
            .iter()
            .map(|t| txid_of(&rb::consensus::deserialize::<rb::Transaction>(t).expect("reference transaction")))
            .collect();
        let root = refm::merkle_root(&ids);
        // miners' clocks are skewed
        self.clock += match src.weighted(&[8, 2, 1]) {
            0 => src.range(1, 1200),
            1 => src.range(0, 100_000),
            _ => src.range(0, 6_000_000),
        };
        let mut t = self.clock;
        if src.chance(1, 6) {
            ctx.fault("miner clock skew");
            t = if src.bool() { t.saturating_sub(src.range(0, 3_000_000)) } else { t + src.range(0, 7200) };
        }
        let t = t.min(u32::MAX as u64);
        self.height += 1;
        if self.height % 6 == 0 {
            // difficulty adjustment (the epoch is shortened, the arithmetic is not)
            self.bits = refm::next_bits(self.target, self.epoch_start, self.last_time);
            self.target = refm::expand(self.bits).unwrap();
            if src.chance(1, 8) || self.target < U256::from(1u64 << 40) {
                // keep the difficulty in an interesting range
                self.target = U256::from(src.range(1, u64::MAX)) << (src.below(160) as usize);
                self.bits = refm::compress(self.target);
                self.target = refm::expand(self.bits).unwrap();
            }
            self.epoch_start = t;
        }
        self.last_time = t;
        let version = *src.pick(&[4i32, 0x2000_0000, 0x2000_0002, 3, 0x7fff_ffff, 1, -1]);
        let mut h = version.to_le_bytes().to_vec();
        h.extend(self.tip);
        h.extend(root);
        h.extend((t as u32).to_le_bytes());
        h.extend(self.bits.to_le_bytes());
        h.extend(src.u32().to_le_bytes());
        self.tip = refm::dsha(&h);
        self.blocks.push(RefBlock { header: h.clone(), txs, ids, root });
        if self.blocks.len() > 12 {
            // old blocks are only referenced by index from messages; keep them
        }
        (h, self.blocks.len() - 1)
    }

    fn on_tx(&mut self, ctx: &mut Ctx, m: &Msg) -> Res {
        let got = parse_transaction(&m.bytes);
        let reference = deserialize_partial::<rb::Transaction>(&m.bytes);
        match (&got, &reference) {
            (Ok(t), Ok((r, used))) => {
                if odd_coinbase(r) {
                    ctx.probe("coinbase no valid block can contain");
                    return Ok(());
                }
                ctx.probe(if m.damaged { "damaged transaction still readable" } else { "intact transaction read" });
                compare_tx(ctx, t, r, &m.bytes[..*used])?;
            }
            (Ok(t), Err(_)) => {
                ctx.probe("accepted what Bitcoin rejects (non-canonical)");
                // what was read must at least be a stable reading
                let mut out = vec![];
                let _ = t.try_format(&mut out);
                let again = parse_transaction(&out);
                if let Ok(a) = again {
                    ctx.check("B01", "re-read of a re-encoded transaction differs", a.tx_id() == t.tx_id(), || hex::encode(&m.bytes))?;
                }
            }
            (Err(e), Ok(_)) if !m.damaged => {
                ctx.check("B01", "intact transaction rejected", false, || format!("{e:?} for {}", hex::encode(&m.bytes)))?;
            }
            _ => ctx.probe("damaged transaction rejected"),
        }
        Ok(())
    }

    fn on_header(&mut self, ctx: &mut Ctx, m: &Msg) -> Res {
        let b = &m.bytes;
        let by_bytes = BlockHeader::from_bytes(b);
        ctx.check("B03", "header of a wrong size accepted", b.len() == 80 || by_bytes.is_err(), || {
            format!("{} bytes accepted as a header", b.len())
        })?;
        if b.len() > 80 {
            return Ok(());
        }
        let a = parse_block_header(b);
        let c = <BlockHeader as FromLeBytes>::from_le_bytes(b);
        ctx.check("B03", "the two header readers disagree", a == c, || hex::encode(b))?;
        if b.len() < 80 {
            return ctx.check("B03", "short header accepted", a.is_err(), || hex::encode(b));
        }
        let le32 = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        let bits = le32(72);
        let target = refm::expand(bits);
        match (a, target) {
            (Ok(h), Some(t)) => {
                let hash = refm::dsha(b);
                let ok = h.version == le32(0) as i32
                    && h.hash_prev_block.to_bytes_le() == b[4..36]
                    && h.merkle_root.to_bytes_le() == b[36..68]
                    && h.timestamp == le32(68)
                    && h.nonce == le32(76);
                ctx.check("B03", "header field misread", ok, || format!("{h:?} from {}", hex::encode(b)))?;
                ctx.check("B03", "target misread", h.target == t, || format!("bits {bits:#x}: read {} expected {t}", h.target))?;
                ctx.check("B03", "header hash wrong", h.hash.to_bytes_le() == hash, || hex::encode(b))?;
                let shown = format!("{}", rb::BlockHash::from_byte_array(hash));
                let mut rev = hash;
                rev.reverse();
                let ok = h.hash.to_hex_be() == shown
                    && h.hash.to_bytes_be() == rev
                    && h.hash.as_u256() == U256::from_little_endian(&hash)
                    && H256Le::from_bytes_be(&rev) == h.hash
                    && H256Le::from_hex_be(&shown) == h.hash
                    && H256Le::from_hex_le(&hex::encode(hash)) == h.hash
                    && h.hash == H256::from_slice(&rev);
                ctx.check("B03", "hash shown or converted wrongly", ok, || shown.clone())?;
                ctx.check("B03", "version rule", h.ensure_version().is_ok() == (h.version >= 4), || format!("version {}", h.version))?;
                if refm::compress(t) == bits {
                    let mut out = vec![];
                    let r = h.try_format(&mut out);
                    ctx.check("B03", "header does not re-encode to itself", r.is_ok() && out == *b, || hex::encode(b))?;
                    let mut h2 = h;
                    h2.hash = H256Le::zero();
                    let ok = h.hash() == Ok(h.hash) && h2.update_hash() == Ok(h.hash) && h2.hash == h.hash;
                    ctx.check("B03", "recomputed header hash differs", ok, || hex::encode(b))?;
                }
            }
            (Err(e), Some(_)) => ctx.check("B03", "well-formed header rejected", false, || format!("{e:?}: {}", hex::encode(b)))?,
            (Ok(h), None) => ctx.check("B03", "negative or overflowing target accepted", false, || format!("{h:?}"))?,
            (Err(_), None) => ctx.probe("invalid target rejected"),
        }
        Ok(())
    }

    fn on_proof(&mut self, src: &mut Src, ctx: &mut Ctx, m: &Msg, txi: usize, bi: usize) -> Res {
        let proof = match MerkleProof::parse(&m.bytes) {
            Ok(p) => p,
            Err(e) => {
                ctx.check("B04", "intact proof does not parse", m.damaged, || format!("{e:?} for {}", hex::encode(&m.bytes)))?;
                return Ok(());
            }
        };
        let blk = &self.blocks[bi];
        let n = blk.ids.len();
        // which transaction the prover claims; a liar may claim another one
        let lie = src.chance(1, 5);
        let claim = if lie { src.usize(n) } else { txi };
        let mut tx = match parse_transaction(&blk.txs[claim]) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        };
        let mut p = proof;
        let mut tampered = m.damaged || lie;
        if src.chance(1, 2) {
            tampered = true;
            ctx.fault("forged proof");
            let mut k = src.range(1, 3);
            while k > 0 {
                k -= 1;
                match src.below(13) {
                    0 if !p.flag_bits.is_empty() => {
                        let i = src.usize(p.flag_bits.len());
                        p.flag_bits[i] = !p.flag_bits[i];
                    }
                    1 if !p.hashes.is_empty() => {
                        let i = src.usize(p.hashes.len());
                        p.hashes.remove(i);
                    }
                    2 => {
                        let i = src.usize(p.hashes.len() + 1);
                        let h = if p.hashes.is_empty() || src.bool() {
                            H256Le::from_bytes_le(&src.bytes(32))
                        } else {
                            p.hashes[src.usize(p.hashes.len())]
                        };
                        p.hashes.insert(i, h);
                    }
                    3 if p.hashes.len() > 1 => {
                        let i = src.usize(p.hashes.len());
                        let j = src.usize(p.hashes.len());
                        p.hashes.swap(i, j);
                    }
                    4 => p.transactions_count = (p.transactions_count as i64 + src.irange(-3, 3)).max(0) as u32,
                    5 => p.transactions_count = *src.pick(&[0u32, 1, 2, 16_666, 16_667, 1 << 31, u32::MAX]),
                    6 => {
                        for _ in 0..src.range(1, 9) {
                            let b = src.bool();
                            p.flag_bits.push(b)
                        }
                    }
                    7 if !p.flag_bits.is_empty() => {
                        p.flag_bits.pop();
                    }
                    8 => {
                        // pay somebody else
                        if let Some(o) = tx.outputs.first_mut() {
                            o.value = o.value.wrapping_add(src.irange(1, 1000));
                        }
                    }
                    9 => {
                        // answer for another leaf: rebuild the tree shape around another position
                        let want: Vec<bool> = (0..n).map(|i| i == claim).collect();
                        let (bits, hashes) = refm::partial_tree(&blk.ids, &want);
                        p.flag_bits = bits;
                        p.hashes = hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect();
                        p.transactions_count = n as u32;
                    }
                    11 => {
                        // replace the proven leaf's hash by that of another (unincluded) transaction
                        tx.version = if tx.version == 1 { 2 } else { 1 };
                        let id = tx.tx_id();
                        let h = H256Le::from_bytes_le(&blk.ids[claim]);
                        for x in p.hashes.iter_mut() {
                            if *x == h {
                                *x = id;
                            }
                        }
                    }
                    12 => {
                        // a proof for a made-up tree: an extra level under the claimed leaf
                        p.flag_bits.insert(0, true);
                        p.transactions_count = p.transactions_count.saturating_mul(2);
                    }
                    _ => {
                        // repeat the last leaf: the duplicated-transaction trick
                        let mut leaves = blk.ids.clone();
                        let mut w = 1;
                        while leaves.len() / w % 2 == 0 && w < leaves.len() {
                            w *= 2;
                        }
                        let tail: Vec<[u8; 32]> = leaves[leaves.len() - w..].to_vec();
                        leaves.extend(tail);
                        if refm::merkle_root(&leaves) == blk.root && blk.ids.len() > 1 {
                            ctx.probe("duplicated tail keeps the root");
                        }
                        let pos = leaves.len() - 1 - src.usize(w);
                        let want: Vec<bool> = (0..leaves.len()).map(|i| i == pos).collect();
                        let (bits, hashes) = refm::partial_tree(&leaves, &want);
                        p.flag_bits = bits;
                        p.hashes = hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect();
                        p.transactions_count = leaves.len() as u32;
                        if let Ok(t) = parse_transaction(&blk.txs[pos - w]) {
                            tx = t;
                        }
                    }
                }
            }
        }
        let size = tx.size_no_witness() as u32;
        let mut bound = size;
        if src.chance(1, 12) {
            bound = size.saturating_sub(src.range(1, 3) as u32);
            tampered = true;
        } else if src.chance(1, 12) {
            bound = size + src.range(0, 100) as u32;
        }
        let header_ok = p.block_header.hash.to_bytes_le() == refm::dsha(&blk.header);
        let txid = tx.tx_id();
        let res = PartialTransactionProof { transaction: tx.clone(), tx_encoded_len: bound, merkle_proof: p.clone() }.verify_proof();
        match res {
            Ok(r) => {
                ctx.check("B04", "verdict about another transaction or block", {
                    r.transaction == tx && r.transaction_hash == txid && r.block_hash == p.block_header.hash && r.tx_count == p.transactions_count
                }, || format!("{r:?}"))?;
                ctx.check("B04", "longer than the stated length", size <= bound, || format!("{size} > {bound}"))?;
                let b = bitcoin_verdict(&p);
                ctx.check("B04", "proof accepted that Bitcoin refuses", b.is_ok(), || format!("{b:?} for {p:?}"))?;
                let (root, matches) = b.unwrap_or_default();
                ctx.check("B04", "another root than Bitcoin computes", root == r.extracted_root.to_bytes_le(), || format!("{p:?}"))?;
                let at = (txid.to_bytes_le(), r.transaction_position);
                ctx.check("B04", "transaction is not the one the proof marks", matches.contains(&at), || format!("{at:?} {p:?}"))?;
                if header_ok && r.extracted_root.to_bytes_le() == blk.root {
                    ctx.probe(if tampered { "forged or damaged proof still honest" } else { "honest proof accepted" });
                    let at = blk.ids.iter().position(|i| *i == txid.to_bytes_le());
                    ctx.check("B04", "proof accepted for a transaction that is not in the block", at.is_some(), || {
                        format!("tx {txid} proof {p:?}")
                    })?;
                    ctx.check("B04", "wrong position reported", at == Some(r.transaction_position as usize), || {
                        format!("position {} reported for the transaction at {:?}; {p:?}", r.transaction_position, at)
                    })?;
                } else {
                    ctx.probe("proof of another root");
                    ctx.check("B04", "honest proof leads to another root", tampered, || format!("{p:?}"))?;
                }
            }
            Err(e) => {
                ctx.check("B04", "honest proof rejected", tampered, || format!("{e:?} for {p:?} {}", txid))?;
                ctx.probe("proof rejected");
            }
        }
        Ok(())
    }

    fn on_script(&mut self, ctx: &mut Ctx, m: &Msg, payload: &Option<Vec<u8>>) -> Res {
        let b = &m.bytes;
        let script = Script::from(b.clone());
        let reference = rb::ScriptBuf::from_bytes(b.clone());
        let want = if reference.is_p2pkh() {
            Some(Address::P2PKH(H160::from_slice(&b[3..23])))
        } else if reference.is_p2sh() {
            Some(Address::P2SH(H160::from_slice(&b[2..22])))
        } else if reference.is_v0_p2wpkh() {
            Some(Address::P2WPKHv0(H160::from_slice(&b[2..22])))
        } else if reference.is_v0_p2wsh() {
            Some(Address::P2WSHv0(H256::from_slice(&b[2..34])))
        } else {
            None
        };
        let got = Address::from_script_pub_key(&script).ok();
        ctx.check("B06", "script pays another address than in Bitcoin", got == want, || format!("{} read as {got:?}", hex::encode(b)))?;
        ctx.check("B06", "output's address differs from its script's", {
            TransactionOutput { value: 1, script: script.clone() }.extract_address().ok() == want
        }, || hex::encode(b))?;
        let flags = (script.is_p2pkh(), script.is_p2sh(), script.is_p2wpkh_v0(), script.is_p2wsh_v0());
        let rflags = (reference.is_p2pkh(), reference.is_p2sh(), reference.is_v0_p2wpkh(), reference.is_v0_p2wsh());
        ctx.check("B06", "script kind", flags == rflags, || format!("{flags:?} {rflags:?} {}", hex::encode(b)))?;
        if let Some(a) = want {
            ctx.probe("payment script");
            ctx.check("B06", "address does not turn back into its script", a.to_script_pub_key().as_bytes() == &b[..], || hex::encode(b))?;
            ctx.check("B06", "payment output", TransactionOutput::payment(7, &a) == TransactionOutput { value: 7, script: script.clone() }, || hex::encode(b))?;
            let zero = b.iter().filter(|x| **x != 0).count() <= 5 && match a {
                Address::P2PKH(h) | Address::P2SH(h) | Address::P2WPKHv0(h) => h == H160::zero(),
                Address::P2WSHv0(h) => h == H256::zero(),
            };
            ctx.check("B06", "zero test", a.is_zero() == zero, || format!("{a:?}"))?;
            let pl: Result<rb::address::Payload, _> = a.try_into();
            let ok = match pl {
                Ok(p) => p.script_pubkey().as_bytes() == &b[..] && Address::try_from(p).ok() == Some(a),
                Err(_) => false,
            };
            ctx.check("B06", "conversion to rust-bitcoin", ok, || format!("{a:?}"))?;
        }
        // OP_RETURN with a direct push
        let data = if b.len() >= 2 && b[0] == 0x6a && (b[1] as usize) <= 75 && b.len() == 2 + b[1] as usize { Some(b[2..].to_vec()) } else { None };
        let got = script.extract_op_return_data().ok();
        if b.len() < 2 || b[1] <= 75 {
            ctx.check("B06", "OP_RETURN payload misread", got == data, || format!("{} read as {got:?}", hex::encode(b)))?;
        }
        if let (Some(p), false) = (payload, m.damaged) {
            ctx.probe("OP_RETURN payload delivered");
            ctx.check("B06", "OP_RETURN payload lost", got.as_ref() == Some(p), || hex::encode(b))?;
            ctx.check("B06", "OP_RETURN script built wrongly", Script::op_return(p).as_bytes() == &b[..], || hex::encode(b))?;
            ctx.check("B06", "OP_RETURN output built wrongly", TransactionOutput::op_return(0, p).script.as_bytes() == &b[..], || hex::encode(b))?;
        }
        Ok(())
    }

    fn on_deposit(&mut self, src: &mut Src, ctx: &mut Ctx, m: &Msg) -> Res {
        // message: vault index (1) | public key (33) | secure id (32)
        if m.bytes.len() != 66 {
            return Ok(());
        }
        let b = &m.bytes;
        let mut pk = [0u8; 33];
        pk.copy_from_slice(&b[1..34]);
        let mut id = [0u8; 32];
        id.copy_from_slice(&b[34..66]);
        let key = PublicKey::from(pk);
        let c = refm::sha(&[&pk[..], &id[..]].concat());
        let scalar = || secp::Scalar::from_be_bytes(c);
        let want = match (secp::PublicKey::from_slice(&pk), scalar()) {
            (Ok(p), Ok(s)) => p.mul_tweak(&self.secp, &s).ok().map(|p| p.serialize()),
            _ => None,
        };
        let got = key.new_deposit_public_key(H256::from(id)).ok();
        ctx.check("B07", "deposit key differs from the derivation scheme", got.as_ref().map(|k| k.0) == want, || {
            format!("{} + {} -> {got:?}", hex::encode(pk), hex::encode(id))
        })?;
        let got = match got {
            Some(g) => g,
            None => {
                ctx.probe("key off the curve rejected");
                return Ok(());
            }
        };
        ctx.check("B07", "hash of a key", got.to_hash() == H160(refm::hash160(&got.0)), || hex::encode(got.0))?;
        if m.damaged {
            return Ok(());
        }
        let vi = b[0] as usize % self.vaults.len();
        // the vault must be able to spend: v·c
        let sk = self.vaults[vi].sk.mul_tweak(&scalar().unwrap());
        let ok = match sk {
            Ok(sk) => secp::PublicKey::from_secret_key(&self.secp, &sk).serialize() == got.0,
            Err(_) => false,
        };
        ctx.check("B07", "vault cannot spend its deposit", ok, || hex::encode(got.0))?;
        for (v, i, k) in &self.deposits {
            if (*v, *i) != (vi, id) {
                ctx.check("B07", "deposit address reused", *k != got.0, || format!("{} and {}", hex::encode(i), hex::encode(id)))?;
            } else {
                ctx.check("B07", "derivation not repeatable", *k == got.0, || hex::encode(id))?;
            }
        }
        ctx.probe("deposit key derived");
        if self.deposits.len() < 64 || src.chance(1, 4) {
            self.deposits.push((vi, id, got.0));
        }
        Ok(())
    }

    /// The same objects in the parachain's own (SCALE) encoding, as extrinsics carry them.
    fn on_scale(&mut self, ctx: &mut Ctx, m: &Msg) -> Res {
        use codec::{Decode, Encode};
        if let Ok(t) = Transaction::decode(&mut &m.bytes[..]) {
            // whatever arrives as an extrinsic must be usable without a crash
            let id = t.tx_id();
            let n = t.size_no_witness() as u32;
            ctx.check("B01", "bounded id differs", t.tx_id_bounded(n) == Ok(id), || format!("{t:?}"))?;
            ctx.check("B01", "length bound not enforced", n == 0 || t.tx_id_bounded(n - 1).is_err(), || format!("{t:?}"))?;
            let _ = t.is_coinbase();
            let _ = t.hash();
            let back = Transaction::decode(&mut &t.encode()[..]);
            ctx.check("B01", "extrinsic encoding does not round-trip", back.as_ref() == Ok(&t), || format!("{t:?}"))?;
            for o in &t.outputs {
                let _ = o.extract_address();
                let _ = o.script.extract_op_return_data();
            }
            if !m.damaged {
                let r = rb::consensus::deserialize::<rb::Transaction>(&m.truth_tx()).ok();
                if let Some(r) = r {
                    ctx.check("B01", "id changes in the extrinsic encoding", id.to_bytes_le() == txid_of(&r), || format!("{t:?}"))?;
                }
            }
        }
        if let Ok(p) = PartialTransactionProof::decode(&mut &m.bytes[..]) {
            let _ = p.verify_proof();
        }
        if let Ok(h) = BlockHeader::decode(&mut &m.bytes[..]) {
            let _ = h.hash();
            let _ = h.ensure_version();
        }
        Ok(())
    }
}

impl Msg {
    fn truth_tx(&self) -> Vec<u8> {
        use codec::Decode;
        Transaction::decode(&mut &self.truth[..])
            .ok()
            .map(|t| {
                let mut o = vec![];
                let _ = t.try_format(&mut o);
                o
            })
            .unwrap_or_default()
    }
}

fn compare_tx(ctx: &mut Ctx, t: &Transaction, r: &rb::Transaction, bytes: &[u8]) -> Res {
    let show = || hex::encode(&bytes[..bytes.len().min(4000)]);
    let id = txid_of(r);
    ctx.check("B01", "txid differs from Bitcoin's", t.tx_id().to_bytes_le() == id, show)?;
    ctx.check("B01", "wtxid differs from Bitcoin's", t.hash().to_bytes_le() == r.wtxid().to_byte_array(), show)?;
    let mut out = vec![];
    let f = t.try_format(&mut out);
    ctx.check("B01", "does not re-encode to itself", f.is_ok() && out == serialize(r), show)?;
    let stripped = r.strippedsize();
    ctx.check("B01", "stripped size", t.size_no_witness() == stripped, show)?;
    let b = stripped as u32;
    ctx.check("B01", "bounded id differs", t.tx_id_bounded(b).map(|x| x.to_bytes_le()) == Ok(id), show)?;
    ctx.check("B01", "length bound not enforced", t.tx_id_bounded(b - 1).is_err(), show)?;
    let mut ok = t.version == r.version && t.inputs.len() == r.input.len() && t.outputs.len() == r.output.len();
    ok &= match t.lock_at {
        LockTime::BlockHeight(h) => h < 500_000_000 && h == r.lock_time.to_consensus_u32(),
        LockTime::Time(h) => h >= 500_000_000 && h == r.lock_time.to_consensus_u32(),
    };
    ctx.check("B01", "version, counts or lock time misread", ok, show)?;
    for (i, (a, b)) in t.inputs.iter().zip(&r.input).enumerate() {
        let null = b.previous_output.txid.to_byte_array() == [0; 32];
        let mut ok = a.sequence == b.sequence.0;
        ok &= a.witness.len() == b.witness.len() && a.witness.iter().zip(b.witness.iter()).all(|(x, y)| &x[..] == y);
        match &a.source {
            TransactionInputSource::FromOutput(h, n) => {
                ok &= !null && h.to_bytes_le() == b.previous_output.txid.to_byte_array() && *n == b.previous_output.vout;
                ok &= &a.script[..] == b.script_sig.as_bytes();
            }
            TransactionInputSource::Coinbase(h) => {
                ok &= null && h.is_some() == (t.version == 2);
                let s = b.script_sig.as_bytes();
                if let Some(h) = h {
                    let n = s[0] as usize;
                    let mut v = 0u64;
                    for k in (0..n).rev() {
                        v = v << 8 | s[1 + k] as u64;
                    }
                    ok &= *h as u64 == v && a.script[..] == s[1 + n..];
                } else {
                    ok &= a.script[..] == *s;
                }
            }
        }
        ctx.check("B01", "input misread", ok, || format!("input {i} {a:?} {b:?}"))?;
    }
    for (a, b) in t.outputs.iter().zip(&r.output) {
        ctx.check("B01", "output misread", a.value as u64 == b.value && a.script.as_bytes() == b.script_pubkey.as_bytes(), || {
            format!("{a:?} {b:?}")
        })?;
    }
    let coinbase = r.input.len() == 1 && r.input[0].previous_output.txid.to_byte_array() == [0; 32];
    ctx.check("B01", "coinbase test", t.is_coinbase() == coinbase, show)?;
    // conversions
    let back: Result<rb::Transaction, _> = t.clone().try_into();
    ctx.check("B01", "conversion to rust-bitcoin", back.ok().as_ref() == Some(r), show)?;
    let fwd: Result<Transaction, _> = r.clone().try_into();
    ctx.check("B01", "conversion from rust-bitcoin", fwd.ok().as_ref() == Some(t), show)?;
    Ok(())
}

impl Scenario for Wire {
    const NAME: &'static str = "wire";
    fn real() -> &'static [&'static str] {
        &["crates/bitcoin: parser, formatter, types, merkle, script, address, math, pow, utils, compat"]
    }
    fn stubs() -> &'static [&'static str] {
        &[
            "transport: in-process queue with injected loss, duplication, reordering and damage",
            "Bitcoin network, wallets and miners: reference model over rust-bitcoin 0.30.1",
            "secp256k1: rust-secp256k1 0.27 behind the API of the pinned revision",
        ]
    }

    fn new(src: &mut Src, ctx: &mut Ctx) -> Self {
        let secp = secp::Secp256k1::new();
        let mut vaults = vec![];
        for i in 0..3u8 {
            let mut b = src.array::<32>();
            b[31] |= 1;
            b[0] &= 0x7f;
            let sk = secp::SecretKey::from_slice(&b).unwrap_or_else(|_| secp::SecretKey::from_slice(&[i + 1; 32]).unwrap());
            let pk = secp::PublicKey::from_secret_key(&secp, &sk).serialize();
            vaults.push(Vault { sk, pk });
        }
        // kinds: tx, header, proof, script, deposit, scale, pow, small
        let w = match ctx.property.as_str() {
            "B01" => [12, 0, 0, 0, 0, 4, 0, 1],
            "B02" => [8, 3, 5, 3, 2, 6, 1, 2],
            "B03" => [0, 10, 0, 0, 0, 1, 0, 2],
            "B04" => [0, 0, 10, 0, 0, 0, 0, 1],
            "B05" => [0, 3, 0, 0, 0, 0, 10, 0],
            "B06" => [0, 0, 0, 10, 0, 0, 0, 0],
            "B07" => [0, 0, 0, 0, 10, 0, 0, 0],
            _ => [3, 2, 3, 2, 1, 1, 1, 1],
        };
        let target = (U256::one() << 200) - 1;
        let bits = refm::compress(target);
        let damage_rate = *src.pick(&[0u64, 10, 30, 60, 90]);
        let damage_rate = if ctx.is("B02") { damage_rate.max(60) } else { damage_rate };
        let start = src.range(1_400_000_000, 1_800_000_000);
        Wire {
            net: vec![],
            blocks: vec![],
            vaults,
            deposits: vec![],
            secp,
            w,
            damage_rate,
            tip: [0; 32],
            target: refm::expand(bits).unwrap(),
            bits,
            height: 0,
            epoch_start: start,
            last_time: start,
            clock: start,
            steps: src.range(20, 60) as usize,
            seed_ids: src.u64(),
        }
    }

    fn steps(&self) -> usize {
        self.steps
    }

    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        ctx.sim_time += 60;
        let deliver = !self.net.is_empty() && src.chance(3, 5);
        if !deliver {
            match src.weighted(&self.w) {
                0 => {
                    let cb = src.chance(1, 4);
                    let t = make_tx(src, cb, src_small(ctx));
                    self.send(src, ctx, Kind::Tx, t);
                }
                1 => {
                    let (mut h, _) = self.mine(src, ctx);
                    if src.chance(1, 3) {
                        // a miner that states whatever it likes
                        ctx.fault("header with arbitrary fields");
                        h[72..76].copy_from_slice(&odd_bits(src).to_le_bytes());
                        if src.bool() {
                            h[..4].copy_from_slice(&(*src.pick(&[0u32, 3, 4, 5, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])).to_le_bytes());
                            h[68..72].copy_from_slice(&(*src.pick(&[0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])).to_le_bytes());
                            h[76..80].copy_from_slice(&src.u32().to_le_bytes());
                        }
                    }
                    self.send(src, ctx, Kind::Header, h);
                }
                2 if src.chance(1, 6) => self.deep_proof(src, ctx)?,
                2 => {
                    if self.blocks.is_empty() || src.chance(1, 3) {
                        self.mine(src, ctx);
                    }
                    let bi = src.usize(self.blocks.len());
                    let n = self.blocks[bi].ids.len();
                    let ti = if src.chance(1, 3) { n - 1 } else { src.usize(n) };
                    let want: Vec<bool> = (0..n).map(|i| i == ti).collect();
                    let blk = &self.blocks[bi];
                    let (bits, hashes) = refm::partial_tree(&blk.ids, &want);
                    let p = refm::proof_bytes(&blk.header, n as u32, &bits, &hashes);
                    self.check_builders(src, ctx, bi, ti, &p)?;
                    self.send(src, ctx, Kind::Proof { tx: ti, blk: bi }, p);
                }
                3 if src.chance(1, 8) => {
                    // every payload size up to the limit, and beyond
                    let n = match src.below(3) {
                        0 => *src.pick(&[75u64, 76, 79, 80, 81, 82, 83, 84, 255]),
                        _ => src.range(0, 90),
                    } as usize;
                    let d = src.bytes(n);
                    let got = Script::op_return(&d).extract_op_return_data().ok();
                    let want = if n <= 81 { Some(d) } else { None };
                    ctx.nontrivial = true;
                    ctx.check("B06", "OP_RETURN payload of this size misread", got == want, || format!("{n} bytes: {got:?}"))?;
                }
                3 => {
                    let (s, payload) = if src.chance(1, 3) {
                        let n = if src.bool() { *src.pick(&[32usize, 0, 1, 20, 40, 75, 74]) } else { src.range(0, 75) as usize };
                        let d = src.bytes(n);
                        ([&[0x6a, n as u8][..], &d].concat(), Some(d))
                    } else {
                        let s = match src.below(3) {
                            0 => rand_std(src),
                            1 => rand_script(src),
                            _ => near_miss(src),
                        };
                        (s, None)
                    };
                    self.send(src, ctx, Kind::Script { payload }, s);
                }
                4 => {
                    let v = src.usize(self.vaults.len());
                    let id = if src.chance(1, 6) && !self.deposits.is_empty() {
                        let k = src.usize(self.deposits.len());
                        self.deposits[k].1
                    } else {
                        self.seed_ids = self.seed_ids.wrapping_add(1);
                        match src.below(3) {
                            0 => refm::sha(&self.seed_ids.to_le_bytes()),
                            1 => {
                                // close ids
                                let mut x = [0u8; 32];
                                x[..8].copy_from_slice(&self.seed_ids.to_le_bytes());
                                if src.bool() {
                                    x.reverse();
                                }
                                x
                            }
                            _ => src.array::<32>(),
                        }
                    };
                    let mut b = vec![v as u8];
                    b.extend(self.vaults[v].pk);
                    b.extend(id);
                    self.send(src, ctx, Kind::Deposit, b);
                }
                5 => {
                    use codec::Encode;
                    let cb = src.chance(1, 5);
                    let raw = make_tx(src, cb, true);
                    if let Ok(t) = parse_transaction(&raw) {
                        let b = if src.chance(3, 4) {
                            t.encode()
                        } else {
                            let h = self.mine(src, ctx).0;
                            match BlockHeader::from_bytes(&h) {
                                Ok(hd) => {
                                    if src.bool() {
                                        hd.encode()
                                    } else {
                                        let k = self.blocks.len() - 1;
                                        let n = self.blocks[k].ids.len();
                                        let want: Vec<bool> = (0..n).map(|i| i == n - 1).collect();
                                        let (bits, hashes) = refm::partial_tree(&self.blocks[k].ids, &want);
                                        PartialTransactionProof {
                                            tx_encoded_len: t.size_no_witness() as u32,
                                            transaction: t,
                                            merkle_proof: MerkleProof {
                                                block_header: hd,
                                                flag_bits: bits,
                                                transactions_count: n as u32,
                                                hashes: hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect(),
                                            },
                                        }
                                        .encode()
                                    }
                                }
                                Err(_) => t.encode(),
                            }
                        };
                        self.send(src, ctx, Kind::Scale, b);
                    }
                }
                6 => self.retarget(src, ctx)?,
                _ => self.small(src, ctx)?,
            }
            return Ok(());
        }
        let i = if src.chance(1, 3) {
            if self.net.len() > 1 {
                ctx.fault("reordered delivery");
            }
            src.usize(self.net.len())
        } else {
            0
        };
        let m = self.net.remove(i);
        ctx.nontrivial = true;
        ctx.note(|| {
            format!(
                "deliver {:?}{} {} bytes {}",
                m.kind,
                if m.damaged { " (damaged)" } else { "" },
                m.bytes.len(),
                hex::encode(&m.bytes[..m.bytes.len().min(48)])
            )
        });
        ctx.state(sim_core::hash_str(&format!("{:?}{}", m.kind, m.damaged)) ^ refm_u64(&m.bytes));
        let r = catching(|| match m.kind.clone() {
            Kind::Tx => self.on_tx(ctx, &m),
            Kind::Header => self.on_header(ctx, &m),
            Kind::Proof { tx, blk } => self.on_proof(src, ctx, &m, tx, blk),
            Kind::Script { payload } => self.on_script(ctx, &m, &payload),
            Kind::Deposit => self.on_deposit(src, ctx, &m),
            Kind::Scale => self.on_scale(ctx, &m),
            Kind::CompactUint => {
                let _ = parse_compact_uint(&m.bytes);
                Ok(())
            }
        });
        match r {
            Ok(r) => r?,
            Err((loc, msg)) => {
                let short = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                let p = if ctx.is("B02") || !m.damaged { ctx.property.clone() } else { "B02".into() };
                ctx.fail(&p, &format!("panic in {short}: {msg}"), || {
                    format!("reading {:?} ({} bytes {}) panicked at {loc}: {msg}", m.kind, m.bytes.len(), hex::encode(&m.bytes[..m.bytes.len().min(400)]))
                })?;
            }
        }
        ctx.check("B02", "", true, String::new)?;
        Ok(())
    }

    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        // faults stop: what is still in flight is delivered
        while !self.net.is_empty() {
            let m = self.net.remove(0);
            let r = catching(|| match m.kind.clone() {
                Kind::Tx => self.on_tx(ctx, &m),
                Kind::Header => self.on_header(ctx, &m),
                Kind::Script { payload } => self.on_script(ctx, &m, &payload),
                Kind::Deposit => self.on_deposit(src, ctx, &m),
                Kind::Scale => self.on_scale(ctx, &m),
                _ => Ok(()),
            });
            match r {
                Ok(r) => r?,
                Err((loc, msg)) => {
                    let short = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                    let p = if ctx.is("B02") || !m.damaged { ctx.property.clone() } else { "B02".into() };
                    ctx.fail(&p, &format!("panic in {short}: {msg}"), || format!("{:?} {}: {loc} {msg}", m.kind, hex::encode(&m.bytes)))?;
                }
            }
        }
        Ok(())
    }
}

fn src_small(ctx: &Ctx) -> bool {
    !(ctx.is("B01") || ctx.is("B02"))
}

fn refm_u64(b: &[u8]) -> u64 {
    let h = refm::sha(b);
    u64::from_le_bytes([h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]])
}

impl Wire {
    /// The proof and block builders of the code under test against the reference.
    fn check_builders(&mut self, src: &mut Src, ctx: &mut Ctx, bi: usize, ti: usize, truth: &[u8]) -> Res {
        let blk = &self.blocks[bi];
        let header = match BlockHeader::from_bytes(&blk.header) {
            Ok(h) => h,
            Err(_) => return Ok(()),
        };
        let mut txs = vec![];
        for t in &blk.txs {
            match parse_transaction(t) {
                Ok(t) => txs.push(t),
                Err(_) => return Ok(()),
            }
        }
        if src.chance(1, 2) {
            let block = Block { header, transactions: txs.clone() };
            let id = H256Le::from_bytes_le(&blk.ids[ti]);
            let p = block.merkle_proof(&[id]);
            let mut out = vec![];
            let ok = match &p {
                Ok(p) => p.try_format(&mut out).is_ok() && out == truth,
                Err(_) => false,
            };
            ctx.check("B04", "proof built differs from Bitcoin's", ok, || format!("{p:?} {}", hex::encode(truth)))?;
            if let Ok(p) = p {
                let r = PartialTransactionProof { transaction: txs[ti].clone(), tx_encoded_len: u32::MAX, merkle_proof: p }.verify_proof();
                let ok = matches!(&r, Ok(r) if r.extracted_root.to_bytes_le() == blk.root && r.transaction_position as usize == ti);
                ctx.check("B04", "own proof does not verify", ok, || format!("{r:?}"))?;
            }
        }
        if src.chance(1, 4) {
            let mut b = BlockBuilder::new();
            b.with_previous_hash(header.hash_prev_block).with_timestamp(header.timestamp);
            for t in &txs {
                b.add_transaction(t.clone());
            }
            let r = b.mine(U256::MAX);
            let ok = matches!(&r, Ok(k) if k.header.merkle_root.to_bytes_le() == blk.root && Ok(k.header.hash) == k.header.hash());
            ctx.check("B04", "merkle root of a block", ok, || format!("{} transactions", txs.len()))?;
        }
        Ok(())
    }

    /// A transaction somewhere in a block of any size up to the fullest Bitcoin allows; the rest
    /// of the tree is only known by its hashes.
    fn deep_proof(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        ctx.nontrivial = true;
        let n = match src.below(4) {
            0 => *src.pick(&[1u32, 2, 3, 255, 256, 257, 4095, 4096, 4097, 8192, 8193, 16_383, 16_384, 16_385, 16_665, 16_666, 16_667, 20_000]),
            1 => 1 << src.below(15),
            _ => src.range(1, 16_666) as u32,
        };
        let raw = make_tx(src, false, true);
        let tx = match parse_transaction(&raw) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        };
        let id = txid_of(&rb::consensus::deserialize::<rb::Transaction>(&raw).expect("reference transaction"));
        let pos = match src.below(3) {
            0 => n - 1,
            1 => 0,
            _ => src.range(0, n as u64 - 1) as u32,
        };
        let mut height = 0u32;
        while (n as u64 + (1 << height) - 1) >> height > 1 {
            height += 1;
        }
        // depth first: the path down to the leaf, and what hangs off it
        let salt = src.u64();
        let mut lefts = vec![];
        let mut rights = vec![];
        let mut up = id;
        let mut bits = vec![];
        for lvl in (0..height).rev() {
            bits.push(true);
            if (pos >> lvl) & 1 == 1 {
                bits.push(false);
            }
        }
        bits.push(true);
        let mut tail = 0;
        for lvl in 0..height {
            let at = pos >> lvl;
            let width = (n + (1 << lvl) - 1) >> lvl;
            let sib = refm::dsha(&[&salt.to_le_bytes()[..], &[lvl as u8]].concat());
            if at & 1 == 1 {
                lefts.push(sib);
                up = refm::dsha(&[sib, up].concat());
            } else if at + 1 < width {
                rights.push(sib);
                tail += 1;
                up = refm::dsha(&[up, sib].concat());
            } else {
                up = refm::dsha(&[up, up].concat());
            }
        }
        bits.extend(vec![false; tail]);
        let hashes: Vec<[u8; 32]> = lefts.iter().rev().copied().chain([id]).chain(rights.iter().copied()).collect();
        let mut header = vec![4, 0, 0, 0];
        header.extend([0; 32]);
        header.extend(up);
        header.extend([0; 4]);
        header.extend(0x1d00_ffffu32.to_le_bytes());
        header.extend([0; 4]);
        let bytes = refm::proof_bytes(&header, n, &bits, &hashes);
        let p = MerkleProof::parse(&bytes);
        ctx.note(|| format!("proof for position {pos} of {n}"));
        ctx.state(((n as u64) << 32) ^ pos as u64);
        let r = p.and_then(|p| PartialTransactionProof { tx_encoded_len: tx.size_no_witness() as u32, transaction: tx, merkle_proof: p }.verify_proof());
        if n > 16_666 {
            ctx.probe("block with more transactions than Bitcoin allows");
            return ctx.check("B04", "proof accepted from a block that cannot exist", r.is_err(), || format!("{n} transactions"));
        }
        let ok = matches!(&r, Ok(r) if r.transaction_position == pos && r.extracted_root.to_bytes_le() == up && r.tx_count == n);
        ctx.check("B04", "honest proof from a large block", ok, || format!("position {pos} of {n}: {r:?} for {}", hex::encode(&bytes)))
    }

    fn retarget(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        ctx.nontrivial = true;
        // a difficulty period on skewed miner clocks
        let first = src.range(0, u32::MAX as u64);
        let last = match src.weighted(&[4, 3, 3, 1, 1]) {
            0 => first + src.range(0, 2_419_200),
            1 => {
                let b = *src.pick(&[302_400u64, 1_209_600, 4_838_400]);
                (first + b).saturating_sub(src.range(0, 2)) + src.below(2)
            }
            2 => {
                ctx.fault("period ends before it began");
                first.saturating_sub(src.range(0, 3_000_000))
            }
            3 => src.range(0, u32::MAX as u64),
            _ => first,
        };
        let bits = match src.below(3) {
            0 => *src.pick(&[0x1d00_ffffu32, 0x1c00_ffff, 0x1715_2f4c, 0x1b04_04cb, 0x0300_ffff, 0x1d00_fffe]),
            1 => {
                let e = src.range(4, 0x1c) as u32;
                let m = src.range(0x8000, 0x7f_ffff) as u32;
                (e << 24) | m
            }
            _ => self.bits,
        };
        let prev = refm::expand(bits).unwrap_or(U256::one());
        let limit = (U256::one() << 224) - 1;
        let prev = if prev > limit { limit } else { prev };
        let want = refm::next_bits(prev, first, last);
        let got = btc::pow::calculate_next_work_required(prev, first, last);
        ctx.note(|| format!("retarget of {bits:#x} over {} s -> {want:#x}", last as i64 - first as i64));
        ctx.state(want as u64 ^ (first << 20) ^ last);
        ctx.check("B05", "retarget differs from Bitcoin's", got == Ok(want), || format!("prev {prev} first {first} last {last}: {got:?}, expected {want:#x}"))?;
        // compact form, both ways, on arbitrary words
        let w = odd_bits(src);
        let e = refm::expand(w);
        let g = U256::set_compact(w);
        ctx.check("B05", "target expanded differently", g == e, || format!("{w:#x}: {g:?}, expected {e:?}"))?;
        let v = match src.below(3) {
            0 => e.unwrap_or_default(),
            1 => U256::from_little_endian(&src.bytes(32)) >> (src.below(256) as usize),
            _ => (U256::one() << (src.below(256) as usize)) - U256::from(src.below(2)),
        };
        let c = v.get_compact();
        ctx.check("B05", "target compressed differently", c == Some(refm::compress(v)), || format!("{v}: {c:x?}"))?;
        Ok(())
    }

    /// Lengths and small helpers.
    fn small(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let n = match src.below(3) {
            0 => *src.pick(&EDGE),
            1 => *src.pick(&[0xffff_fffeu64, 0xffff_ffff, 0x1_0000_0000, u64::MAX]),
            _ => src.u64() >> src.below(64),
        };
        let enc = refm::varint(n);
        let got = parse_compact_uint(&enc);
        ctx.check("B01", "length prefix misread", got == Ok((n, enc.len())), || format!("{n}: {got:?}"))?;
        let cut = &enc[..src.usize(enc.len())];
        ctx.check("B01", "short length prefix accepted", parse_compact_uint(cut).is_err(), || hex::encode(cut))?;
        let m = (n >> 1).max(1);
        let want = if m <= 1 { 0 } else { 64 - (m - 1).leading_zeros() };
        ctx.check("B04", "log2", btc::utils::log2(m) == want, || format!("{m}"))?;
        let (a, b) = (src.array::<32>(), src.array::<32>());
        let ok = btc::utils::hash256_merkle_step(&a, &b).to_bytes_le() == refm::dsha(&[a, b].concat())
            && btc::utils::sha256d(&a) == refm::dsha(&a)
            && H256Le::from_bytes_le(&a).sha256d().to_bytes_le() == refm::dsha(&a);
        ctx.check("B03", "double hash", ok, || hex::encode(a))?;
        // damaged small message
        let mut x = enc;
        damage(src, ctx, &mut x, None);
        let truth = x.clone();
        self.net.push(Msg { kind: Kind::CompactUint, bytes: x, truth, damaged: true });
        Ok(())
    }
}
