//! Bitcoin miners on a network that partitions and heals, relayers with lossy, duplicating and
//! reordering links, adversarial relayers and users, and one parachain that crashes inside
//! blocks, re-executes them and now and then loses its last block to a competing one. The
//! parachain runs the real btc-relay and security pallets; the model below says what they have
//! to answer.
use crate::rt::{Ev, Relay, Rt, Security, System, PBPB};
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    parser::parse_transaction,
    types::{BlockHeader, FullTransactionProof, H256Le},
    Address,
};
use frame_support::{
    state,
    traits::{BuildGenesisConfig, Hooks},
};
use frame_system::RawOrigin;
use primitive_types::{H160, H256, U256};
use sha2::mined;
use sim_core::{mix, Ctx, Res, Rng, Scenario, Src};
use sim_ref as refm;
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
};

type Hash = [u8; 32];
const PERIOD: u32 = 2016;

// ------------------------------------------------------------------ the Bitcoin network

#[derive(Clone)]
struct Hdr {
    version: i32,
    prev: Hash,
    root: Hash,
    time: u32,
    target: U256,
    nonce: u32,
    hash: Hash,
    parent: Option<usize>,
    height: u32,
    txs: Rc<Vec<Vec<u8>>>,
    leaves: Rc<Vec<Hash>>,
}

impl Hdr {
    fn raw(&self) -> Vec<u8> {
        raw(self.version, &self.prev, &self.root, self.time, self.target, self.nonce)
    }
    fn sub(&self) -> Sub {
        Sub { version: self.version, prev: self.prev, root: self.root, time: self.time, target: self.target, nonce: self.nonce, claimed: self.hash }
    }
}

fn raw(version: i32, prev: &Hash, root: &Hash, time: u32, target: U256, nonce: u32) -> Vec<u8> {
    let mut o = version.to_le_bytes().to_vec();
    o.extend(prev);
    o.extend(root);
    o.extend(time.to_le_bytes());
    o.extend(refm::compress(target).to_le_bytes());
    o.extend(nonce.to_le_bytes());
    o
}

/// A submitted header, as the extrinsic carries it.
#[derive(Clone, Debug)]
struct Sub {
    version: i32,
    prev: Hash,
    root: Hash,
    time: u32,
    target: U256,
    nonce: u32,
    claimed: Hash,
}

impl Sub {
    fn raw(&self) -> Vec<u8> {
        raw(self.version, &self.prev, &self.root, self.time, self.target, self.nonce)
    }
    fn header(&self) -> BlockHeader {
        BlockHeader {
            merkle_root: H256Le::from_bytes_le(&self.root),
            target: self.target,
            timestamp: self.time,
            version: self.version,
            hash: H256Le::from_bytes_le(&self.claimed),
            hash_prev_block: H256Le::from_bytes_le(&self.prev),
            nonce: self.nonce,
        }
    }
}

struct Net {
    base: Rc<Vec<Hdr>>,
    more: Vec<Hdr>,
    index: HashMap<Hash, usize>,
    base_index: Rc<HashMap<Hash, usize>>,
    /// natural double hash -> declared proof of work
    pow: HashMap<Hash, Hash>,
    easy: bool,
}

impl Net {
    fn len(&self) -> usize {
        self.base.len() + self.more.len()
    }
    fn at(&self, i: usize) -> &Hdr {
        if i < self.base.len() {
            &self.base[i]
        } else {
            &self.more[i - self.base.len()]
        }
    }
    fn find(&self, h: &Hash) -> Option<usize> {
        self.base_index.get(h).or_else(|| self.index.get(h)).copied()
    }
    fn ancestor(&self, mut i: usize, height: u32) -> Option<usize> {
        loop {
            let b = self.at(i);
            if b.height == height {
                return Some(i);
            }
            if b.height < height {
                return None;
            }
            if i < self.base.len() {
                let h0 = self.base[0].height;
                return if height < h0 { None } else { Some((height - h0) as usize) };
            }
            i = b.parent?;
        }
    }
    /// The target Bitcoin demands of a child of `parent`.
    fn demanded(&self, parent: usize) -> U256 {
        let p = self.at(parent);
        let h = p.height + 1;
        if h % PERIOD != 0 || h < PERIOD {
            return p.target;
        }
        match self.ancestor(parent, h - PERIOD) {
            Some(f) => refm::expand(refm::next_bits(p.target, self.at(f).time as u64, p.time as u64)).unwrap_or(p.target),
            None => p.target,
        }
    }
    /// The hash the network assigns to these header bytes.
    fn hash(&self, raw: &[u8]) -> Hash {
        let n = refm::dsha(raw);
        self.pow.get(&n).copied().unwrap_or(n)
    }
    fn declare(&mut self, raw: &[u8], out: Hash) {
        self.pow.insert(refm::dsha(raw), out);
        mined::register(raw, out);
    }
    fn push(&mut self, h: Hdr) -> usize {
        let i = self.len();
        self.index.insert(h.hash, i);
        self.more.push(h);
        i
    }
    fn best_height(&self) -> u32 {
        let m = self.more.iter().map(|b| b.height).max().unwrap_or(0);
        m.max(self.base.last().map(|b| b.height).unwrap_or(0))
    }
}

fn below(src: &mut Src, limit: U256) -> Hash {
    // a hash smaller than `limit`, mostly well inside, at times right under it
    let v = match src.below(8) {
        7 => limit - 1,
        6 => limit - 1 - U256::from(src.below(1000)),
        _ => {
            let mut r = [0u8; 32];
            r.copy_from_slice(&src.bytes(32));
            U256::from_little_endian(&r) % limit
        }
    };
    let mut o = [0; 32];
    v.to_little_endian(&mut o);
    o
}

// ------------------------------------------------------------------ the model of the relay

#[derive(Clone, Default)]
struct Model {
    ready: bool,
    start: u32,
    /// accepted blocks beyond the base, with the active height at which they came in
    acc: BTreeMap<usize, u32>,
    base_len: usize,
    base_para: u32,
    parents: BTreeSet<usize>,
    tip: usize,
    tip_h: u32,
    chains: u32,
    k: u32,
    p: u32,
    difficulty: bool,
    active: u32,
    deactivated: bool,
    ids: BTreeSet<H256>,
    /// blocks of the main chain beyond the base, and the last base block on it
    main: BTreeSet<usize>,
    main_base: usize,
}

impl Model {
    fn known(&self, i: usize) -> bool {
        i < self.base_len || self.acc.contains_key(&i)
    }
    fn para(&self, i: usize) -> u32 {
        if i < self.base_len {
            self.base_para
        } else {
            self.acc[&i]
        }
    }
    fn on_main(&self, i: usize) -> bool {
        self.ready && if i < self.base_len { i <= self.main_base } else { self.main.contains(&i) }
    }
    fn retrace(&mut self, net: &Net) {
        self.main.clear();
        let mut i = self.tip;
        loop {
            if i < self.base_len {
                self.main_base = i;
                return;
            }
            self.main.insert(i);
            match net.at(i).parent {
                Some(p) => i = p,
                None => return,
            }
        }
    }
    /// Height of the highest known block that is not on the main chain.
    fn rival(&self, net: &Net) -> Option<u32> {
        let mut r = None;
        let mut see = |i: usize| {
            if !self.on_main(i) {
                r = r.max(Some(net.at(i).height));
            }
        };
        for i in self.acc.keys() {
            see(*i);
        }
        if self.base_len > 0 {
            see(self.base_len - 1);
        }
        r
    }
    fn ongoing_fork(&self, net: &Net) -> bool {
        self.rival(net).map_or(false, |r| (self.tip_h as u64) < r as u64 + self.k as u64)
    }
    fn judge_init(&self, s: &Sub, height: u32) -> Result<(), &'static str> {
        if self.ready {
            return Err("already initialised");
        }
        if s.version < 4 {
            return Err("version");
        }
        if self.difficulty && height % PERIOD != 0 {
            return Err("start height");
        }
        Ok(())
    }
    fn judge(&self, net: &Net, s: &Sub, bound: u32) -> Result<usize, &'static str> {
        if bound < self.chains + 1 {
            return Err("fork bound");
        }
        if s.version < 4 {
            return Err("version");
        }
        let parent = match net.find(&s.prev) {
            Some(p) if self.known(p) => p,
            _ => return Err("unknown parent"),
        };
        let hash = net.hash(&s.raw());
        if let Some(i) = net.find(&hash) {
            if self.known(i) {
                return Err("duplicate");
            }
        }
        if U256::from_little_endian(&hash) >= s.target {
            return Err("proof of work");
        }
        if self.difficulty && s.target != net.demanded(parent) {
            return Err("target");
        }
        Ok(parent)
    }
    /// Takes block `i` in; true when the main chain was replaced.
    fn accept(&mut self, net: &Net, i: usize) -> bool {
        let b = net.at(i);
        let parent = b.parent.unwrap();
        self.acc.insert(i, self.active);
        let forks = self.parents.contains(&parent) || parent + 1 < self.base_len;
        self.parents.insert(parent);
        if forks {
            self.chains += 1;
        }
        if parent == self.tip {
            self.tip = i;
            self.tip_h = b.height;
            self.main.insert(i);
        } else if b.height >= self.tip_h + self.k {
            self.tip = i;
            self.tip_h = b.height;
            self.retrace(net);
            return true;
        }
        false
    }
    fn included(&self, net: &Net, i: usize, confs: Option<u32>) -> Result<(), &'static str> {
        if !self.known(i) {
            return Err("unknown block");
        }
        if self.ongoing_fork(net) {
            return Err("ongoing fork");
        }
        if !self.on_main(i) {
            return Err("not on the main chain");
        }
        let c = confs.unwrap_or(self.k) as u64;
        if (self.tip_h as u64 + 1) < net.at(i).height as u64 + c {
            return Err("bitcoin confirmations");
        }
        if self.para(i) as u64 + self.p as u64 > self.active as u64 {
            return Err("parachain confirmations");
        }
        Ok(())
    }
    fn expired(&self, open: u32, btc_open: u32, period: u32, pbpb: u32) -> Option<bool> {
        let para = open.checked_add(period)?;
        period.checked_add(pbpb)?;
        let n = (period as u64 + pbpb as u64 - 1) / pbpb as u64;
        let btc = (btc_open as u64 + n).try_into().ok()?;
        let btc: u32 = btc;
        Some(self.active > para && self.tip_h > btc)
    }
}

// ------------------------------------------------------------------ prepared histories

struct Prepared {
    snap: state::Snapshot,
    model: Model,
    net: Rc<Vec<Hdr>>,
    index: Rc<HashMap<Hash, usize>>,
}

thread_local! {
    static PREP: RefCell<Vec<Rc<Prepared>>> = RefCell::new(vec![]);
    static CURRENT: RefCell<usize> = RefCell::new(usize::MAX);
}

fn genesis(k: u32, p: u32, difficulty: bool, inclusion: bool) {
    state::reset();
    System::reset_events();
    btc_relay::GenesisConfig::<Rt> {
        bitcoin_confirmations: k,
        parachain_confirmations: p,
        disable_difficulty_check: !difficulty,
        disable_inclusion_check: !inclusion,
    }
    .build();
}

/// Relays that have already followed Bitcoin to just before a difficulty boundary.
fn prepared(which: usize) -> Rc<Prepared> {
    if let Some(p) = PREP.with(|p| p.borrow().get(which).cloned()) {
        return p;
    }
    let mut out = vec![];
    // (start height, blocks, target, bitcoin confirmations, parachain confirmations, spacing)
    let plans: [(u32, u32, u32, u32, u32, u32); 3] = [
        (PERIOD * 300, PERIOD - 6, 0x1b04_864c, 3, 2, 600),
        (PERIOD * 5, 2 * PERIOD - 5, 0x1d00_ffff, 2, 1, 601),
        (PERIOD, PERIOD - 3, 0x1d00_8fff, 4, 0, 300),
    ];
    for (n, (start, blocks, bits, k, p, spacing)) in plans.into_iter().enumerate() {
        genesis(k, p, true, true);
        let mut model = Model { ready: true, start, k, p, difficulty: true, chains: 1, base_para: 1, active: 1, ..Default::default() };
        let mut net = Net { base: Rc::new(vec![]), more: vec![], index: HashMap::new(), base_index: Rc::new(HashMap::new()), pow: HashMap::new(), easy: false };
        let mut rng = Rng::new(77 + n as u64);
        let mut prev = [7u8; 32];
        Security::on_initialize(1);
        for i in 0..blocks {
            let target = if i == 0 { refm::expand(bits).unwrap() } else { net.demanded(i as usize - 1) };
            let mut h = Hdr {
                version: 0x2000_0000,
                prev,
                root: [n as u8 + 1; 32],
                time: 1_600_000_000 + i * spacing + (rng.next() % 300) as u32,
                target,
                nonce: i,
                hash: [0; 32],
                parent: (i as usize).checked_sub(1),
                height: start + i,
                txs: Rc::new(vec![]),
                leaves: Rc::new(vec![]),
            };
            let mut o = [0u8; 32];
            (U256([rng.next(), rng.next(), rng.next(), rng.next()]) % target).to_little_endian(&mut o);
            h.hash = o;
            mined::register(&h.raw(), o);
            prev = o;
            let call = if i == 0 {
                btc_relay::Call::<Rt>::initialize { block_header: h.sub().header(), block_height: start }
            } else {
                btc_relay::Call::<Rt>::store_block_header { block_header: h.sub().header(), fork_bound: 10 }
            };
            let _ = sim_node::dispatch::<Rt, _>(call, RawOrigin::Signed(1u64).into());
            net.push(h);
        }
        System::reset_events();
        model.base_len = net.more.len();
        model.tip = model.base_len - 1;
        model.tip_h = start + blocks - 1;
        model.main_base = model.tip;
        let snap = state::snapshot();
        let index: HashMap<Hash, usize> = net.more.iter().enumerate().map(|(i, h)| (h.hash, i)).collect();
        out.push(Rc::new(Prepared { snap, model, net: Rc::new(net.more), index: Rc::new(index) }));
    }
    mined::keep();
    CURRENT.with(|c| *c.borrow_mut() = usize::MAX);
    PREP.with(|p| *p.borrow_mut() = out);
    PREP.with(|p| p.borrow()[which].clone())
}

// ------------------------------------------------------------------ transactions

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Pay(Address, i64),
    Ret(Vec<u8>, i64),
    Other(Vec<u8>, i64),
}

fn script_of(a: &Address) -> Vec<u8> {
    match a {
        Address::P2PKH(h) => [&[0x76, 0xa9, 0x14][..], h.as_bytes(), &[0x88, 0xac]].concat(),
        Address::P2SH(h) => [&[0xa9, 0x14][..], h.as_bytes(), &[0x87]].concat(),
        Address::P2WPKHv0(h) => [&[0x00, 0x14][..], h.as_bytes()].concat(),
        Address::P2WSHv0(h) => [&[0x00, 0x20][..], h.as_bytes()].concat(),
    }
}

impl Out {
    fn script(&self) -> Vec<u8> {
        match self {
            Out::Pay(a, _) => script_of(a),
            Out::Ret(d, _) => [&[0x6a, d.len() as u8][..], d].concat(),
            Out::Other(s, _) => s.clone(),
        }
    }
    fn value(&self) -> i64 {
        match self {
            Out::Pay(_, v) | Out::Ret(_, v) | Out::Other(_, v) => *v,
        }
    }
}

fn tx_bytes(src: &mut Src, coinbase: Option<u32>, outs: &[Out], serial: u32) -> Vec<u8> {
    let mut o = (1 + src.below(2) as i32).to_le_bytes().to_vec();
    if let Some(h) = coinbase {
        o[0] = 2;
        o.push(1);
        o.extend([0; 32]);
        o.extend(u32::MAX.to_le_bytes());
        let mut hb = h.max(128).to_le_bytes().to_vec();
        while hb.last() == Some(&0) {
            hb.pop();
        }
        if hb.last().unwrap() & 0x80 != 0 {
            hb.push(0);
        }
        let mut s = vec![hb.len() as u8];
        s.extend(hb);
        let n = src.below(12) as usize;
        s.extend(src.bytes(n));
        o.extend(refm::varint(s.len() as u64));
        o.extend(s);
        o.extend(u32::MAX.to_le_bytes());
    } else {
        let n = 1 + src.below(3);
        o.extend(refm::varint(n));
        for _ in 0..n {
            let mut h = src.bytes(32);
            h[0] |= 1;
            o.extend(h);
            o.extend((src.below(4) as u32).to_le_bytes());
            let n = src.below(30) as usize;
            o.extend(refm::varint(n as u64));
            o.extend(src.bytes(n));
            o.extend(u32::MAX.to_le_bytes());
        }
    }
    o.extend(refm::varint(outs.len() as u64));
    for x in outs {
        o.extend(x.value().to_le_bytes());
        let s = x.script();
        o.extend(refm::varint(s.len() as u64));
        o.extend(s);
    }
    // no two transactions are the same
    o.extend(serial.to_le_bytes());
    o
}

fn address(src: &mut Src, pool: &[Address]) -> Address {
    if !pool.is_empty() && src.chance(2, 3) {
        let a = *src.pick(pool);
        // the same payload under another script type is another address
        if src.chance(1, 6) {
            return match a {
                Address::P2PKH(h) => Address::P2SH(h),
                Address::P2SH(h) => Address::P2WPKHv0(h),
                Address::P2WPKHv0(h) => Address::P2PKH(h),
                Address::P2WSHv0(h) => Address::P2SH(H160::from_slice(&h.as_bytes()[..20])),
            };
        }
        return a;
    }
    match src.below(4) {
        0 => Address::P2WPKHv0(H160(src.array())),
        1 => Address::P2PKH(H160(src.array())),
        2 => Address::P2SH(H160(src.array())),
        _ => Address::P2WSHv0(H256(src.array())),
    }
}

fn value(src: &mut Src) -> i64 {
    match src.below(12) {
        0 => 0,
        1 => 1,
        2 => 21_000_000_0000_0000,
        _ => src.magnitude(21_000_000_0000_0000) as i64,
    }
}

// ------------------------------------------------------------------ the simulated system

#[derive(Clone)]
enum Ext {
    Init(Sub, u32, bool),
    Store(Sub, Option<u32>),
    Counter(bool, bool),
    Id(u64, u32),
}

struct Pay {
    blk: usize,
    txi: usize,
    outs: Vec<Out>,
    to: Address,
    id: H256,
    amount: i64,
}

pub struct Sim {
    net: Net,
    model: Model,
    before_last: Option<(Model, Vec<Ext>)>,
    pool: Vec<Ext>,
    links: Vec<(Sub, u64)>,
    miners: Vec<usize>,
    split: bool,
    number: u32,
    clock: u32,
    w: Vec<u32>,
    steps: usize,
    pbpb: u32,
    fast: bool,
    inclusion: bool,
    pays: Vec<Pay>,
    addrs: Vec<Address>,
    requests: Vec<(u32, u32, u32)>,
    serial: u32,
    found: BTreeSet<Hash>,
    dead: bool,
    fork_rate: u64,
    loss: u64,
    retarget_pull: u64,
}

impl Sim {
    fn mine_on(&mut self, src: &mut Src, ctx: &mut Ctx, parent: usize) -> usize {
        let p = self.net.at(parent).clone();
        let target = if self.net.easy {
            // no difficulty rule: any target a header names will do
            *src.pick(&[U256::one() << 254, U256::from(0xffffu64) << 208, U256::from(0x7f_ffffu64) << 232, U256::from(3u64) << 200])
        } else {
            self.net.demanded(parent)
        };
        let boundary = (p.height + 2) % PERIOD == 0;
        let gap = if boundary && src.chance(self.retarget_pull, 4) {
            // the last block of a period decides the next target
            *src.pick(&[-600_000i64, -900_000, 700_000, 1_300_000, 3_700_000, 5_000_000])
        } else {
            src.irange(-600, 1800)
        };
        let time = (p.time as i64 + gap).clamp(1, u32::MAX as i64) as u32;
        let height = p.height + 1;
        let no_coinbase = src.chance(1, 24);
        let ntx = match src.below(6) {
            0 => 1,
            1..=3 => src.range(1, 4),
            _ => src.range(2, 9),
        } as usize;
        let mut txs = vec![];
        let mut pays = vec![];
        for i in 0..ntx {
            if i == 0 && !no_coinbase {
                let a = address(src, &self.addrs);
                txs.push(tx_bytes(src, Some(height), &[Out::Pay(a, 625_000_000)], self.serial));
                self.serial += 1;
                continue;
            }
            let to = address(src, &self.addrs);
            if self.addrs.len() < 12 {
                self.addrs.push(to);
            }
            let id = H256(src.array());
            let amount = value(src);
            let outs = self.payment(src, to, id, amount);
            txs.push(tx_bytes(src, None, &outs, self.serial));
            self.serial += 1;
            pays.push((i, outs, to, id, amount));
        }
        if no_coinbase && txs.len() > 1 && src.bool() {
            // a coinbase where none belongs
            let j = 1 + src.usize(txs.len() - 1);
            let a = address(src, &self.addrs);
            txs[j] = tx_bytes(src, Some(height), &[Out::Pay(a, 625_000_000)], self.serial);
            self.serial += 1;
            pays.retain(|p: &(usize, Vec<Out>, Address, H256, i64)| p.0 != j);
        }
        let leaves: Vec<Hash> = txs.iter().map(|t| refm::dsha(t)).collect();
        let mut h = Hdr {
            version: *src.pick(&[0x2000_0000, 4, 5, 0x3fff_ffff, i32::MAX]),
            prev: p.hash,
            root: refm::merkle_root(&leaves),
            time,
            target,
            nonce: 0,
            hash: [0; 32],
            parent: Some(parent),
            height,
            txs: Rc::new(txs),
            leaves: Rc::new(leaves),
        };
        h.nonce = self.serial;
        self.serial += 1;
        h.hash = self.fresh(src, target);
        self.net.declare(&h.raw(), h.hash);
        ctx.sim_time += 600;
        let i = self.net.push(h);
        for (txi, outs, to, id, amount) in pays {
            self.pays.push(Pay { blk: i, txi, outs, to, id, amount });
        }
        ctx.note(|| format!("mined #{i} height {height} on #{parent}"));
        i
    }

    /// A proof-of-work hash nobody has found yet.
    fn fresh(&mut self, src: &mut Src, limit: U256) -> Hash {
        let mut h = below(src, limit);
        while self.net.find(&h).is_some() || self.found.contains(&h) {
            let v = (U256::from_little_endian(&h) + U256::from(0x1_0001)) % limit;
            v.to_little_endian(&mut h);
        }
        self.found.insert(h);
        h
    }

    /// Outputs of a transaction meant to settle a request, right or wrong in one of many ways.
    fn payment(&self, src: &mut Src, to: Address, id: H256, amount: i64) -> Vec<Out> {
        let other = |src: &mut Src| address(src, &self.addrs);
        let mut o = vec![Out::Pay(to, amount), Out::Ret(id.as_bytes().to_vec(), 0)];
        if src.bool() {
            let change = other(src);
            o.push(Out::Pay(change, value(src)));
        }
        for _ in 0..[0, 0, 1, 1, 2][src.usize(5)] {
            match src.below(13) {
                0 => {
                    let a = other(src);
                    o.push(Out::Pay(a, value(src)));
                }
                1 => o.push(Out::Pay(to, value(src))),
                2 => {
                    let n = *src.pick(&[31usize, 33, 0, 20, 64, 80]);
                    let mut d = src.bytes(n);
                    if src.bool() {
                        // the right identifier, with something after it or its end missing
                        for (x, y) in d.iter_mut().zip(id.as_bytes()) {
                            *x = *y;
                        }
                    }
                    o[1] = Out::Ret(d, 0);
                }
                3 => o[1] = Out::Ret(id.as_bytes().to_vec(), 1 + src.below(1000) as i64),
                4 => o.push(Out::Ret(src.bytes(32), 0)),
                5 => o.push(Out::Ret(id.as_bytes().to_vec(), 0)),
                6 => {
                    o.remove(src.usize(o.len()));
                }
                7 => o[0] = Out::Pay(to, value(src)),
                8 => {
                    let s = match src.below(4) {
                        0 => [&[0x51, 0x20][..], &src.bytes(32)].concat(),
                        1 => [&[0x21][..], &[2], &src.bytes(32), &[0xac]].concat(),
                        2 => vec![0x51],
                        _ => [&[0x00, 0x15][..], &src.bytes(21)].concat(),
                    };
                    let v = value(src);
                    o.insert(src.usize(o.len() + 1), Out::Other(s, v));
                }
                9 => {
                    let d: [u8; 32] = src.array();
                    if let Some(x) = o.get_mut(1) {
                        *x = Out::Ret(d.to_vec(), 0)
                    }
                }
                10 => {
                    let mut d = id.as_bytes().to_vec();
                    d[src.usize(32)] ^= 1 << src.below(8);
                    if let Some(x) = o.get_mut(1) {
                        *x = Out::Ret(d, 0)
                    }
                }
                11 => {
                    let v = amount.saturating_add(src.irange(-1, 1));
                    o[0] = Out::Pay(to, v.max(0));
                }
                _ => {
                    let a = other(src);
                    o[0] = Out::Pay(a, amount);
                }
            }
            if o.is_empty() {
                o.push(Out::Pay(to, amount));
            }
            if o.len() < 2 {
                o.push(Out::Ret(id.as_bytes().to_vec(), 0));
            }
        }
        // any order
        for i in (1..o.len()).rev() {
            let j = src.usize(i + 1);
            if src.bool() {
                o.swap(i, j);
            }
        }
        o
    }

    fn relay(&mut self, src: &mut Src, ctx: &mut Ctx, i: usize) {
        let s = self.net.at(i).sub();
        if src.chance(self.loss, 8) {
            ctx.fault("header lost");
            return;
        }
        let copies = if src.chance(1, 12) { 2 } else { 1 };
        if copies == 2 {
            ctx.fault("header duplicated");
        }
        for _ in 0..copies {
            self.links.push((s.clone(), 0));
        }
    }

    fn adversary(&mut self, src: &mut Src, ctx: &mut Ctx) -> Sub {
        let parent = self.some_block(src);
        let p = self.net.at(parent).clone();
        let demanded = if self.net.easy { U256::one() << 240 } else { self.net.demanded(parent) };
        let mut s = Sub {
            version: 0x2000_0000,
            prev: p.hash,
            root: src.array(),
            time: p.time.saturating_add(600),
            target: demanded,
            nonce: self.serial,
            claimed: [0; 32],
        };
        self.serial += 1;
        let kind = src.below(10);
        let mut pow = Some(s.target);
        match kind {
            0 => {
                // no work at all, only a claimed hash
                pow = None;
                s.claimed = below(src, s.target);
            }
            1 => {
                let factor = *src.pick(&[2u64, 4, 3, 16]);
                s.target = if demanded.leading_zeros() > 8 { demanded * U256::from(factor) } else { demanded };
                s.target = refm::expand(refm::compress(s.target)).unwrap_or(s.target);
                pow = Some(s.target);
            }
            2 => {
                s.target = refm::expand(refm::compress(demanded / U256::from(*src.pick(&[2u64, 4, 3, 16])))).unwrap_or(demanded);
                pow = Some(s.target);
            }
            3 => s.version = *src.pick(&[3, 2, 1, 0, -1, i32::MIN]),
            4 => s.prev = src.array(),
            5 => {
                // work just short of the target
                pow = None;
                let mut o = [0; 32];
                (s.target + 1 + U256::from(*src.pick(&[0u64, 1, 1000]))).to_little_endian(&mut o);
                self.net.declare(&s.raw(), o);
            }
            6 if !self.net.easy => {
                // same compact form, different target
                s.target = demanded + 1;
                pow = Some(demanded);
            }
            7 => {
                // the parent's target carried across, or a change where none is due
                s.target = p.target;
                pow = Some(s.target);
            }
            8 if !self.net.easy => {
                // retargeted outside of a boundary
                let h = p.height.saturating_sub(5);
                if let Some(f) = self.net.ancestor(parent, h) {
                    s.target = refm::expand(refm::next_bits(p.target, self.net.at(f).time as u64, p.time as u64)).unwrap_or(p.target);
                    pow = Some(s.target);
                }
            }
            _ => s.claimed = src.array(), // valid, with a wrong hash attached
        }
        if let Some(limit) = pow {
            let out = self.fresh(src, limit);
            self.net.declare(&s.raw(), out);
            if kind != 9 {
                s.claimed = out;
            }
        }
        ctx.fault("adversarial header");
        ctx.note(|| format!("adversarial header kind {kind} on #{parent}"));
        s
    }

    /// A block near the interesting end of the network.
    fn some_block(&mut self, src: &mut Src) -> usize {
        let n = self.net.len();
        let back = src.below(12).min(n as u64 - 1) as usize;
        n - 1 - back
    }

    fn apply(&mut self, src: &mut Src, ctx: &mut Ctx, e: &Ext) -> Res {
        match e {
            Ext::Counter(on, root) => {
                let o = if *root { RawOrigin::Root } else { RawOrigin::Signed(3u64) };
                let r = sim_node::dispatch::<Rt, _>(security::Call::<Rt>::activate_counter { is_active: *on }, o.into());
                ctx.check("R06", "counter switch", r.is_ok() == *root, || format!("activate_counter by {} answered {r:?}", if *root { "root" } else { "a user" }))?;
                if *root {
                    self.model.deactivated = !on;
                }
            }
            Ext::Id(who, n) => {
                for _ in 0..*n {
                    let id = Security::get_secure_id(who);
                    let fresh = self.model.ids.insert(id);
                    ctx.check("R07", "identifier repeated", fresh, || format!("the identifier {id:?} was handed out twice (account {who})"))?;
                }
                ctx.nontrivial |= ctx.is("R07");
            }
            // a late second initialisation, whose block was reverted together with the first
            Ext::Init(_, _, true) if !self.model.ready => {}
            Ext::Init(s, height, _) => {
                let want = self.model.judge_init(s, *height);
                let before = state::changes();
                let call = btc_relay::Call::<Rt>::initialize { block_header: s.header(), block_height: *height };
                let r = sim_node::dispatch::<Rt, _>(call, RawOrigin::Signed(2u64).into());
                ctx.note(|| format!("initialize at {height}: {r:?}, model {want:?}"));
                ctx.check("R01", "initialisation", r.is_ok() == want.is_ok(), || format!("initialize at {height}: relay {r:?}, rule {want:?}"))?;
                if r.is_ok() != want.is_ok() {
                    self.dead = true;
                    return Ok(());
                }
                if want.is_ok() {
                    let hash = self.net.hash(&s.raw());
                    let i = match self.net.find(&hash) {
                        Some(i) => i,
                        None => {
                            let mut h = self.net.at(0).clone();
                            h.version = s.version;
                            h.prev = s.prev;
                            h.root = s.root;
                            h.time = s.time;
                            h.target = s.target;
                            h.nonce = s.nonce;
                            h.hash = hash;
                            h.height = *height;
                            h.parent = None;
                            self.net.push(h)
                        }
                    };
                    self.model.ready = true;
                    self.model.start = *height;
                    self.model.tip = i;
                    self.model.tip_h = *height;
                    self.model.chains = 1;
                    self.model.acc.insert(i, self.model.active);
                    self.model.retrace(&self.net);
                } else {
                    ctx.check("R01", "refused header left a trace", state::changes() == before, || "a refused initialisation changed the state".into())?;
                }
                self.compare(ctx)?;
            }
            Ext::Store(s, bound) => {
                let bound = bound.unwrap_or(self.model.chains + 1 + (s.nonce & 7));
                let want = self.model.judge(&self.net, s, bound);
                let before = state::changes();
                let ev0 = System::events_len();
                let call = btc_relay::Call::<Rt>::store_block_header { block_header: s.header(), fork_bound: bound };
                let r = sim_node::dispatch::<Rt, _>(call, RawOrigin::Signed(1u64).into());
                let hash = self.net.hash(&s.raw());
                ctx.note(|| format!("header {} -> {r:?}, rule {want:?}", name(&self.net, &hash)));
                ctx.check("R01", if want.is_ok() { "valid header refused" } else { "invalid header accepted" }, r.is_ok() == want.is_ok(), || {
                    format!("header {} at parent {}: relay {r:?}, rule {want:?}", name(&self.net, &hash), name(&self.net, &s.prev))
                })?;
                if r.is_ok() != want.is_ok() {
                    // reported above if this is R01's check; the model no longer follows
                    self.dead = true;
                    return Ok(());
                }
                match want {
                    Err(why) => {
                        ctx.probe(match why {
                            "proof of work" => "refused for lack of work",
                            "target" => "refused for a wrong target",
                            "duplicate" => "refused as duplicate",
                            "unknown parent" => "refused for an unknown parent",
                            "version" => "refused for its version",
                            _ => "refused for the fork bound",
                        });
                        ctx.check("R01", "refused header left a trace", r.is_ok() || state::changes() == before, || format!("a refused header ({why}) changed the state"))?;
                    }
                    Ok(parent) => {
                        let i = match self.net.find(&hash) {
                            Some(i) => i,
                            None => {
                                let p = self.net.at(parent).clone();
                                self.net.push(Hdr {
                                    version: s.version,
                                    prev: s.prev,
                                    root: s.root,
                                    time: s.time,
                                    target: s.target,
                                    nonce: s.nonce,
                                    hash,
                                    parent: Some(parent),
                                    height: p.height + 1,
                                    txs: Rc::new(vec![]),
                                    leaves: Rc::new(vec![]),
                                })
                            }
                        };
                        let reorg = self.model.accept(&self.net, i);
                        let h = self.net.at(i).height;
                        if h % PERIOD == 0 && self.model.difficulty {
                            ctx.probe("header across a difficulty boundary");
                            if self.model.tip != i {
                                ctx.probe("boundary crossed on a fork");
                            }
                        }
                        if reorg {
                            ctx.probe("main chain replaced");
                        }
                        if self.model.chains >= 4 {
                            ctx.probe("four or more branches");
                        }
                        ctx.nontrivial |= ctx.is("R01") || ctx.is("R02");
                        let evs: Vec<Ev> = if System::events_len() > ev0 { System::take_events() } else { vec![] };
                        let best = self.model.tip == i;
                        let told = evs.iter().any(|e| match e {
                            Ev::Relay(btc_relay::Event::StoreMainChainHeader { block_height, block_hash, .. }) => best && *block_height == h && block_hash.to_bytes_le() == hash,
                            Ev::Relay(btc_relay::Event::StoreForkHeader { fork_height, block_hash, .. }) => !best && *fork_height == h && block_hash.to_bytes_le() == hash,
                            _ => false,
                        });
                        let told_reorg = evs.iter().any(|e| matches!(e, Ev::Relay(btc_relay::Event::ChainReorg { new_chain_tip_hash, new_chain_tip_height, .. }) if *new_chain_tip_height == h && new_chain_tip_hash.to_bytes_le() == hash));
                        let any_reorg = evs.iter().any(|e| matches!(e, Ev::Relay(btc_relay::Event::ChainReorg { .. })));
                        {
                            ctx.check("R02", "announcement", told && any_reorg == reorg && (told_reorg || !reorg), || {
                                format!("header {} (best: {best}, replaces the main chain: {reorg}) was announced as {evs:?}", name(&self.net, &hash))
                            })?;
                        }
                    }
                }
                self.compare(ctx)?;
            }
        }
        let _ = src;
        Ok(())
    }

    fn compare(&mut self, ctx: &mut Ctx) -> Res {
        if !self.model.ready || self.dead {
            return Ok(());
        }
        let best = Relay::get_best_block();
        let (w, wh) = (self.net.at(self.model.tip).hash, self.model.tip_h);
        let h = Relay::get_best_block_height();
        ctx.state(mix(h as u64, mix(self.model.chains as u64, u64::from_le_bytes(best.to_bytes_le()[..8].try_into().unwrap()))));
        ctx.check("R02", "best block", best.to_bytes_le() == w && h == wh, || {
            format!("best block is {} at {h}, the rule says {} at {wh} (confirmations {})", name(&self.net, &best.to_bytes_le()), name(&self.net, &w), self.model.k)
        })?;
        if best.to_bytes_le() != w || h != wh {
            // R02 reports it; nothing after it means anything
            self.dead = true;
            return Ok(());
        }
        let full = Relay::is_fully_initialized();
        ctx.check("R02", "fully initialised", full == Ok(wh as u64 >= self.model.start as u64 + self.model.k as u64), || format!("is_fully_initialized {full:?} with start {} best {wh} confirmations {}", self.model.start, self.model.k))
    }

    fn produce(&mut self, src: &mut Src, ctx: &mut Ctx, quiet: bool) -> Res {
        // the last block is final now
        state::commit_to(1);
        let saved = self.model.clone();
        state::start_transaction();
        let mut body = vec![];
        let n = if quiet { self.pool.len() as u64 } else { src.below(6).min(self.pool.len() as u64) };
        for _ in 0..n {
            let i = if !quiet && src.chance(1, 4) {
                ctx.fault("extrinsics reordered");
                src.usize(self.pool.len())
            } else {
                0
            };
            body.push(self.pool.remove(i));
        }
        let mut crash = if !quiet && src.chance(1, 14) { Some(src.below(40)) } else { None };
        let parent: Hash = if quiet { [9; 32] } else { src.array() };
        loop {
            let mut r = Ok(());
            let out = sim_node::block::<Rt, _>(crash, || {
                System::set_block_number(self.number + 1);
                let mut ph = parent;
                ph[..4].copy_from_slice(&self.number.to_le_bytes());
                System::set_parent_hash(H256(ph));
                System::reset_events();
                let active = Security::active_block_number();
                Security::on_initialize(self.number + 1);
                Relay::on_initialize(self.number + 1);
                if !self.model.deactivated {
                    self.model.active += 1;
                }
                let now = Security::active_block_number();
                r = ctx.check("R06", "active block count", now == self.model.active, || format!("active block count went from {active} to {now}, counting is {}", if self.model.deactivated { "off" } else { "on" }));
                for e in &body {
                    if r.is_ok() {
                        r = self.apply(src, ctx, e);
                    }
                }
            });
            match out {
                Ok(()) => {
                    r?;
                    break;
                }
                Err(_) => {
                    ctx.fault("crash inside a block");
                    self.model = saved.clone();
                    crash = None;
                }
            }
        }
        self.number += 1;
        ctx.sim_time += 12;
        self.before_last = Some((saved, body));
        Ok(())
    }

    fn revert(&mut self, ctx: &mut Ctx) {
        if let Some((m, body)) = self.before_last.take() {
            state::unwind_to(1);
            self.model = m;
            self.number -= 1;
            for e in body.into_iter().rev() {
                self.pool.insert(0, e);
            }
            ctx.fault("last parachain block lost to a competing one");
            ctx.note(|| "last block reverted".into());
        }
    }

    fn query_headers(&mut self, src: &mut Src, ctx: &mut Ctx, all: bool) -> Res {
        if !self.model.ready || self.dead {
            return Ok(());
        }
        let n = self.net.len();
        let ids: Vec<usize> = if all { (n.saturating_sub(60)..n).collect() } else { (0..3).map(|_| self.some_block(src)).collect() };
        for i in ids {
            let hash = self.net.at(i).hash;
            let exists = Relay::block_header_exists(H256Le::from_bytes_le(&hash));
            ctx.check("R01", "header presence", exists == self.model.known(i), || format!("header {} stored: {exists}", name(&self.net, &hash)))?;
            let confs = match src.below(6) {
                0..=2 => None,
                3 => Some(src.below(8) as u32),
                4 => Some(0),
                _ => Some(*src.pick(&[u32::MAX, u32::MAX - 1, 100])),
            };
            let got = Relay::verify_block_header_inclusion(H256Le::from_bytes_le(&hash), confs);
            let want = self.model.included(&self.net, i, confs);
            ctx.nontrivial |= ctx.is("R03");
            self.probe_inclusion(ctx, &want);
            ctx.check("R03", if want.is_ok() { "confirmed block refused" } else { "unconfirmed block accepted" }, got.is_ok() == want.is_ok(), || {
                format!("block {} with {confs:?} confirmations: relay {:?}, rule {want:?}; best {} rival {:?} k {}", name(&self.net, &hash), got.map(|_| ()), self.model.tip_h, self.model.rival(&self.net), self.model.k)
            })?;
            if let Ok(h) = got {
                let same = h.merkle_root.to_bytes_le() == self.net.at(i).root && h.timestamp == self.net.at(i).time;
                ctx.check("R03", "wrong header returned", same, || format!("the header returned for {} is another one", name(&self.net, &hash)))?;
            }
        }
        Ok(())
    }

    fn probe_inclusion(&self, ctx: &mut Ctx, want: &Result<(), &'static str>) {
        ctx.probe(match want {
            Ok(()) => "included",
            Err("ongoing fork") => "inclusion refused: ongoing fork",
            Err("not on the main chain") => "inclusion refused: not on the main chain",
            Err("bitcoin confirmations") => "inclusion refused: bitcoin confirmations",
            Err("parachain confirmations") => "inclusion refused: parachain confirmations",
            _ => "inclusion refused: unknown block",
        });
    }

    fn partial(&self, blk: usize, txi: usize) -> Option<PartialTransactionProof> {
        let b = self.net.at(blk);
        let mut want = vec![false; b.leaves.len()];
        want[txi] = true;
        let (bits, hashes) = refm::partial_tree(&b.leaves, &want);
        let tx = parse_transaction(&b.txs[txi]).ok()?;
        Some(PartialTransactionProof {
            tx_encoded_len: b.txs[txi].len() as u32,
            transaction: tx,
            merkle_proof: MerkleProof {
                block_header: b.sub().header(),
                flag_bits: bits,
                transactions_count: b.leaves.len() as u32,
                hashes: hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect(),
            },
        })
    }

    fn proof(&self, blk: usize, txi: usize) -> Option<FullTransactionProof> {
        Some(FullTransactionProof { user_tx_proof: self.partial(blk, txi)?, coinbase_proof: self.partial(blk, 0)? })
    }

    fn is_coinbase(&self, blk: usize) -> bool {
        let t = &self.net.at(blk).txs[0];
        t[5..37] == [0; 32] && t[37..41] == [0xff; 4] && t[4] == 1
    }

    fn judge_proof(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let with_txs: Vec<usize> = (self.net.base.len()..self.net.len()).filter(|i| !self.net.at(*i).txs.is_empty()).collect();
        if with_txs.is_empty() || self.dead || !self.inclusion {
            return Ok(());
        }
        let back = src.below(14).min(with_txs.len() as u64 - 1) as usize;
        let blk = with_txs[with_txs.len() - 1 - back];
        let b = self.net.at(blk).clone();
        let txi = src.usize(b.txs.len());
        let mut proof = match self.proof(blk, txi) {
            Some(p) => p,
            None => return Ok(()),
        };
        let confs = if src.chance(1, 4) { Some(src.below(6) as u32) } else { None };
        let mut want = self.model.included(&self.net, blk, confs);
        if !self.is_coinbase(blk) {
            want = Err("no coinbase");
        }
        let other = with_txs[src.usize(with_txs.len())];
        let kind = if src.bool() { 0 } else { src.range(1, 12) };
        let kind = if kind != 0 && !self.is_coinbase(blk) && src.bool() { 2 } else { kind };
        let mut forged = true;
        match kind {
            1 if other != blk => match self.partial(other, 0) {
                Some(p) => proof.coinbase_proof = p,
                None => return Ok(()),
            },
            2 if b.txs.len() > 1 => {
                let j = 1 + src.usize(b.txs.len() - 1);
                match self.partial(blk, j) {
                    Some(p) => proof.coinbase_proof = p,
                    None => return Ok(()),
                }
            }
            3 if b.txs.len() > 1 => {
                let j = (txi + 1 + src.usize(b.txs.len() - 1)) % b.txs.len();
                match self.partial(blk, j) {
                    Some(p) => {
                        proof.user_tx_proof.transaction = p.transaction;
                        proof.user_tx_proof.tx_encoded_len = p.tx_encoded_len;
                    }
                    None => return Ok(()),
                }
            }
            4 => {
                // a block the relay has never seen, work and all
                let j = self.mine_on(src, ctx, blk);
                match self.proof(j, 0) {
                    Some(p) => proof = p,
                    None => return Ok(()),
                }
            }
            5 | 6 => {
                // a tree of the forger's own under a relayed block's hash
                let a = address(src, &self.addrs);
                let cb = tx_bytes(src, Some(b.height), &[Out::Pay(a, 1)], self.serial);
                let v = value(src);
                let t = tx_bytes(src, None, &[Out::Pay(a, v)], self.serial + 1);
                self.serial += 2;
                let leaves = Rc::new(vec![refm::dsha(&cb), refm::dsha(&t)]);
                let mut fake = b.clone();
                fake.txs = Rc::new(vec![cb, t]);
                fake.leaves = leaves.clone();
                if kind == 6 {
                    fake.root = refm::merkle_root(&leaves);
                }
                self.net.more.push(fake);
                let j = self.net.len() - 1;
                let p = self.proof(j, 1);
                self.net.more.pop();
                match p {
                    Some(p) => proof = p,
                    None => return Ok(()),
                }
            }
            7 => {
                let v = &mut proof.user_tx_proof.merkle_proof.hashes;
                let k = src.usize(v.len());
                let mut x = v[k].to_bytes_le();
                x[src.usize(32)] ^= 1 << src.below(8);
                v[k] = H256Le::from_bytes_le(&x);
            }
            8 => {
                // the sibling's proof for this block's coinbase
                proof.coinbase_proof.merkle_proof.transactions_count = proof.coinbase_proof.merkle_proof.transactions_count.wrapping_add(1 + src.below(3) as u32);
            }
            9 if other != blk => {
                // right tree, another block's header on the coinbase's side
                proof.coinbase_proof.merkle_proof.block_header = self.net.at(other).sub().header();
            }
            10 if other != blk => {
                proof.user_tx_proof.merkle_proof.block_header = self.net.at(other).sub().header();
                proof.coinbase_proof.merkle_proof.block_header = self.net.at(other).sub().header();
                if self.net.at(other).root == b.root {
                    forged = false;
                }
            }
            12 => {
                // a coinbase proof from a tree of the forger's own, as big as the real one
                let a = address(src, &self.addrs);
                let cb = tx_bytes(src, Some(b.height), &[Out::Pay(a, 1)], self.serial);
                self.serial += 1;
                let mut fake = b.clone();
                let mut txs = (*b.txs).clone();
                let mut leaves = (*b.leaves).clone();
                leaves[0] = refm::dsha(&cb);
                txs[0] = cb;
                fake.txs = Rc::new(txs);
                fake.leaves = Rc::new(leaves);
                self.net.more.push(fake);
                let j = self.net.len() - 1;
                let p = self.partial(j, 0);
                self.net.more.pop();
                match p {
                    Some(p) => proof.coinbase_proof = p,
                    None => return Ok(()),
                }
            }
            11 => {
                // value changed after the fact
                if let Some(o) = proof.user_tx_proof.transaction.outputs.get_mut(0) {
                    o.value ^= 1 << src.below(30);
                } else {
                    forged = false
                }
            }
            _ => forged = false,
        }
        let expect = if forged { Err("forged") } else { want };
        if !forged && kind == 10 {
            return Ok(());
        }
        if forged {
            ctx.fault("forged inclusion proof");
        }
        let tx = proof.user_tx_proof.transaction.clone();
        let got = Relay::_verify_transaction_inclusion(proof, confs);
        ctx.nontrivial |= ctx.is("R03");
        self.probe_inclusion(ctx, &want);
        ctx.note(|| format!("proof kind {kind} for tx {txi} of #{blk}: {:?}, rule {expect:?}", got.as_ref().map(|_| ())));
        ctx.check("R03", if expect.is_ok() { "included transaction refused" } else { "transaction accepted without inclusion" }, got.is_ok() == expect.is_ok(), || {
            format!("proof kind {kind} for transaction {txi} of {} with {confs:?} confirmations: relay {:?}, rule {expect:?}", name(&self.net, &b.hash), got.as_ref().map(|_| ()))
        })?;
        if let Ok(t) = got {
            ctx.check("R03", "another transaction returned", t == tx, || "the verified transaction is not the proved one".into())?;
        }
        Ok(())
    }

    fn judge_payment(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if self.pays.is_empty() || self.dead {
            return Ok(());
        }
        let back = src.below(30).min(self.pays.len() as u64 - 1) as usize;
        let k = self.pays.len() - 1 - back;
        let (blk, txi, outs, to, id, amount) = {
            let p = &self.pays[k];
            (p.blk, p.txi, p.outs.clone(), p.to, p.id, p.amount)
        };
        let proof = match self.proof(blk, txi) {
            Some(p) => p,
            None => return Ok(()),
        };
        let included = !self.inclusion || (self.is_coinbase(blk) && self.model.included(&self.net, blk, None).is_ok());
        // the request may name something else than what the payer meant
        let to = if src.chance(1, 6) { address(src, &self.addrs) } else { to };
        let amount = if src.chance(1, 6) { amount.saturating_add(src.irange(-2, 2)).max(0) } else { amount };
        let id = if src.chance(1, 8) { H256(src.array()) } else { id };
        ctx.nontrivial |= ctx.is("R04");

        let paid = outs.iter().find_map(|o| match o {
            Out::Pay(a, v) if *a == to => Some(*v),
            _ => None,
        });
        let want = if included { paid } else { None };
        let got = Relay::get_and_verify_issue_payment::<u128>(proof.clone(), to);
        ctx.check("R04", "issue payment", got.clone().ok() == want.map(|v| v as u128), || {
            format!("payment to {to:?} in {outs:?}: relay {got:?}, rule {want:?} (included: {included})")
        })?;
        ctx.probe(if want.is_some() { "issue payment found" } else { "issue payment refused" });

        let rets: Vec<_> = outs.iter().filter_map(|o| if let Out::Ret(d, v) = o { Some((d.clone(), *v)) } else { None }).collect();
        let ps: Vec<_> = outs.iter().filter_map(|o| if let Out::Pay(a, v) = o { Some((*a, *v)) } else { None }).collect();
        let ok = included
            && outs.iter().all(|o| !matches!(o, Out::Other(..)))
            && rets.len() == 1
            && rets[0].1 == 0
            && rets[0].0 == id.as_bytes()
            && (ps.len() == 1 || ps.len() == 2 && ps[0].0 != ps[1].0)
            && ps.iter().any(|(a, v)| *a == to && *v == amount);
        let got = Relay::verify_and_validate_op_return_transaction(proof, to, amount as u128, id);
        ctx.check("R04", if ok { "valid request payment refused" } else { "invalid request payment accepted" }, got.is_ok() == ok, || {
            format!("payment of {amount} to {to:?} for {id:?} in {outs:?}: relay {got:?}, rule {ok} (included: {included})")
        })?;
        ctx.probe(if ok { "request payment accepted" } else { "request payment refused" });
        Ok(())
    }

    fn judge_expiry(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if !self.model.ready || self.dead {
            return Ok(());
        }
        if self.requests.len() < 24 && src.bool() {
            let period = match src.below(6) {
                0 => src.u32(),
                1 => *src.pick(&[0u32, 1, u32::MAX, u32::MAX - 1, u32::MAX - 100]),
                _ => src.below(14) as u32 * self.pbpb / (1 + src.below(4) as u32) + src.below(3) as u32,
            };
            self.requests.push((self.model.active, self.model.tip_h, period));
        }
        for (open, btc, period) in self.requests.clone() {
            // a query may also concern a request far in the past
            let open = if src.chance(1, 10) { src.u32() } else { open };
            let want = self.model.expired(open, btc, period, self.pbpb);
            let got = Relay::has_request_expired(open, btc, period);
            ctx.nontrivial |= ctx.is("R06");
            ctx.probe(match want {
                Some(true) => "request expired",
                Some(false) => "request open",
                None => "deadline beyond the clocks",
            });
            // a deadline that does not fit the clocks never counts as reached
            let ok = match want {
                Some(w) => got == Ok(w),
                None => got != Ok(true),
            };
            ctx.check("R06", "request expiry", ok, || {
                format!(
                    "request opened at active block {open} and bitcoin height {btc} for {period} blocks ({} per bitcoin block): at active block {} and bitcoin height {} the relay says {got:?}, the rule {want:?}",
                    self.pbpb, self.model.active, self.model.tip_h
                )
            })?;
        }
        Ok(())
    }

    /// The chain is purged and started over: identifiers drawn before must not come back.
    fn purge(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let d = state::depth();
        state::start_transaction();
        state::wipe();
        let who = src.below(3);
        let mut r = Ok(());
        for n in 0..src.range(1, 4) {
            System::set_block_number(n as u32);
            System::set_parent_hash(H256(src.array::<32>()));
            for _ in 0..src.range(1, 8) {
                let id = Security::get_secure_id(&who);
                let seen = self.model.ids.contains(&id);
                if r.is_ok() {
                    r = ctx.check("R07", "identifier repeated after a purge", !seen, || format!("the identifier {id:?} came back after the chain was purged"));
                }
            }
        }
        state::unwind_to(d);
        ctx.fault("chain purged");
        r
    }
}

fn name(net: &Net, h: &Hash) -> String {
    match net.find(h) {
        Some(i) => format!("#{i}@{}", net.at(i).height),
        None => format!("unknown {:02x}{:02x}", h[31], h[30]),
    }
}

impl Drop for Sim {
    fn drop(&mut self) {
        sim_node::end_run();
        mined::clear();
    }
}

impl Scenario for Sim {
    const NAME: &'static str = "relay";
    fn real() -> &'static [&'static str] {
        &["crates/btc-relay", "crates/security", "crates/bitcoin"]
    }
    fn stubs() -> &'static [&'static str] {
        &["FRAME storage, events and dispatch (ws/shim)", "parachain consensus and block production", "Bitcoin miners and network", "proof-of-work search"]
    }

    fn new(src: &mut Src, ctx: &mut Ctx) -> Self {
        mined::clear();
        sim_node::end_run();
        System::reset_events();
        // make sure the prepared histories exist whatever this run uses, so that runs do not
        // depend on which came first on the thread
        prepared(0);
        let pbpb = *src.pick(&[100u32, 1, 2, 3, 50, 7]);
        PBPB.with(|p| p.set(pbpb));
        let history = [3usize, 0, 1, 2, 3, 4][src.weighted(&[3, 3, 2, 2, 3, 0])];
        let mut inclusion = true;
        let (net, model) = if history < 3 {
            let p = prepared(history);
            let same = CURRENT.with(|c| std::mem::replace(&mut *c.borrow_mut(), history)) == history;
            if !same {
                state::reset();
                state::restore(&p.snap);
            }
            let net = Net { base: p.net.clone(), more: vec![], index: HashMap::new(), base_index: p.index.clone(), pow: HashMap::new(), easy: false };
            (net, p.model.clone())
        } else {
            let difficulty = src.bool();
            inclusion = !(ctx.is("R04") && src.bool()) && !src.chance(1, 12);
            let k = 1 + src.below(5) as u32;
            let p = src.below(4) as u32;
            genesis(k, p, difficulty, inclusion);
            CURRENT.with(|c| *c.borrow_mut() = usize::MAX);
            let model = Model { k, p, difficulty, ..Default::default() };
            let mut net = Net { base: Rc::new(vec![]), more: vec![], index: HashMap::new(), base_index: Rc::new(HashMap::new()), pow: HashMap::new(), easy: !difficulty };
            let height = if difficulty { PERIOD * src.range(0, 400) as u32 } else { src.range(0, 900_000) as u32 };
            let target = refm::expand(*src.pick(&[0x1b04_864c, 0x1d00_ffff, 0x1703_a30c, 0x2000_ffff])).unwrap();
            let mut h = Hdr {
                version: 4,
                prev: src.array(),
                root: src.array(),
                time: 1_600_000_000,
                target,
                nonce: 0,
                hash: [0; 32],
                parent: None,
                height,
                txs: Rc::new(vec![]),
                leaves: Rc::new(vec![]),
            };
            h.hash = below(src, target);
            net.declare(&h.raw(), h.hash);
            net.push(h);
            (net, model)
        };
        sim_node::begin_run();
        let tip = net.len() - 1;
        let easy = net.easy;
        let mut w: Vec<u32> = vec![14, 18, 16, 5, 8, 8, 2, 3, 2, 1, 2, 3, 1, 1, 1];
        for x in w.iter_mut() {
            if src.chance(1, 5) {
                *x = if src.bool() { *x * 4 } else { 0 };
            }
        }
        w[0] = w[0].max(5);
        w[1] = w[1].max(5);
        w[2] = w[2].max(5);
        let base_active = model.active;
        let s = Sim {
            net,
            model,
            before_last: None,
            pool: vec![],
            links: vec![],
            miners: vec![tip; src.range(2, 4) as usize],
            split: src.bool(),
            number: base_active,
            clock: 0,
            w,
            steps: src.range(20, 140) as usize,
            pbpb,
            fast: easy,
            inclusion,
            pays: vec![],
            addrs: vec![],
            requests: vec![],
            serial: 1,
            found: BTreeSet::new(),
            dead: false,
            fork_rate: src.below(5),
            loss: src.below(3),
            retarget_pull: src.below(5),
        };
        ctx.note(|| format!("history {history}, k {} p {} difficulty {} inclusion {}", s.model.k, s.model.p, s.model.difficulty, s.inclusion));
        s
    }

    fn steps(&self) -> usize {
        self.steps
    }

    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.clock += 1;
        if !self.model.ready && src.chance(1, 3) && !self.pool.iter().any(|e| matches!(e, Ext::Init(..))) {
            let h = self.net.at(0).clone();
            let mut s = h.sub();
            let mut height = h.height;
            match src.below(6) {
                0 => {
                    s.version = *src.pick(&[3, -1, 0]);
                    ctx.fault("adversarial header");
                }
                1 if self.model.difficulty => height = height.wrapping_add(1 + src.below(2014) as u32),
                2 => s.claimed = src.array(),
                _ => {}
            }
            if height >= h.height && s.version >= 4 && height != h.height && !self.model.difficulty {
                height = h.height;
            }
            self.pool.push(Ext::Init(s, height, false));
        }
        let a = src.weighted(&self.w);
        match a {
            0 => {
                // a miner extends its tip, sees another's, or mines on an older block
                let m = src.usize(self.miners.len());
                if src.chance(self.fork_rate, 16) {
                    let b = self.some_block(src);
                    let i = self.mine_on(src, ctx, b);
                    ctx.fault("competing block mined");
                    self.relay(src, ctx, i);
                    if src.bool() {
                        self.miners[m] = i;
                    }
                } else {
                    let i = self.mine_on(src, ctx, self.miners[m]);
                    self.miners[m] = i;
                    if !self.split {
                        let h = self.net.at(i).height;
                        for x in self.miners.iter_mut() {
                            if self.net.at(*x).height < h {
                                *x = i;
                            }
                        }
                    }
                    self.relay(src, ctx, i);
                }
            }
            1 => {
                // the links deliver some headers, oldest first or not
                for _ in 0..src.range(1, 5) {
                    if self.links.is_empty() {
                        break;
                    }
                    let i = if src.chance(1, 4) {
                        ctx.fault("headers reordered");
                        src.usize(self.links.len())
                    } else {
                        0
                    };
                    let (s, tries) = self.links.remove(i);
                    let bound = if src.chance(1, 10) { Some(src.below(self.model.chains as u64 + 3) as u32) } else { None };
                    self.pool.push(Ext::Store(s.clone(), bound));
                    if src.chance(1, 4) && tries < 3 {
                        // a relayer that is not sure it got through tries again
                        self.links.push((s, tries + 1));
                        ctx.fault("submission retried");
                    }
                }
            }
            2 => self.produce(src, ctx, false)?,
            3 => {
                let s = self.adversary(src, ctx);
                self.pool.push(Ext::Store(s, None));
            }
            4 => self.judge_proof(src, ctx)?,
            5 => self.query_headers(src, ctx, false)?,
            6 => {
                self.split = !self.split;
                ctx.fault(if self.split { "network partition" } else { "partition healed" });
                if !self.split {
                    let best = *self.miners.iter().max_by_key(|x| self.net.at(**x).height).unwrap();
                    for x in self.miners.iter_mut() {
                        *x = best;
                    }
                }
            }
            7 => {
                // a relayer catches up: everything the relay misses, in order
                let t = *src.pick(&self.miners.clone());
                let mut chain = vec![];
                let mut i = t;
                while !self.model.known(i) && chain.len() < 40 {
                    chain.push(i);
                    match self.net.at(i).parent {
                        Some(p) => i = p,
                        None => break,
                    }
                }
                for i in chain.into_iter().rev() {
                    let s = self.net.at(i).sub();
                    self.pool.push(Ext::Store(s, None));
                }
            }
            8 => {
                let root = !src.chance(1, 4);
                let on = src.bool();
                self.pool.push(Ext::Counter(on, root));
                ctx.fault("active block counting switched");
            }
            9 => self.revert(ctx),
            10 => {
                let n = if src.chance(1, 20) { src.range(200, 900) } else { src.range(1, 6) } as u32;
                self.pool.push(Ext::Id(src.below(4), n));
            }
            11 => self.judge_expiry(src, ctx)?,
            12 => {
                if self.net.base.is_empty() {
                    self.purge(src, ctx)?
                }
            }
            14 => {
                // several branches race from about the same place
                let roots: Vec<usize> = (0..src.range(2, 4)).map(|_| self.some_block(src)).collect();
                let near = roots[0];
                let mut tips: Vec<usize> = roots.iter().map(|r| if src.chance(1, 3) { *r } else { near }).collect();
                for _ in 0..src.range(2, 5 + 2 * self.model.k as u64) {
                    let n = src.usize(tips.len());
                    let i = self.mine_on(src, ctx, tips[n]);
                    tips[n] = i;
                    let s = self.net.at(i).sub();
                    self.pool.push(Ext::Store(s, None));
                }
                ctx.fault("competing branches race");
            }
            _ => {
                // a second initialisation, or a header again
                let i = self.some_block(src);
                let h = self.net.at(i).clone();
                if self.model.ready && src.bool() {
                    self.pool.push(Ext::Init(h.sub(), h.height - h.height % PERIOD, true));
                } else {
                    self.pool.push(Ext::Store(h.sub(), None));
                }
                ctx.fault("stale submission");
            }
        }
        if ctx.is("R04") || src.chance(1, 6) {
            self.judge_payment(src, ctx)?;
        }
        let _ = self.fast;
        Ok(())
    }

    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        // faults stop: what is in flight arrives, miners agree, an honest relayer catches up
        self.pool.clear();
        self.links.clear();
        if self.model.deactivated {
            self.pool.push(Ext::Counter(true, true));
        }
        if !self.model.ready {
            let h = self.net.at(0).clone();
            self.pool.push(Ext::Init(h.sub(), h.height, false));
        }
        self.produce(src, ctx, true)?;
        if !self.model.ready || self.dead && !ctx.is("R05") {
            return Ok(());
        }
        self.query_headers(src, ctx, true)?;
        // the network's best chain among what descends from the relay's start
        let tops: Vec<usize> = (0..self.net.len()).filter(|i| self.net.ancestor(*i, self.model.start).map_or(false, |a| self.model.known(a))).collect();
        let mut tip = match tops.iter().max_by_key(|i| (self.net.at(**i).height, usize::MAX - **i)) {
            Some(t) => *t,
            None => return Ok(()),
        };
        let goal = self.net.best_height() + self.model.k;
        while self.net.at(tip).height < goal {
            tip = self.mine_on(src, ctx, tip);
        }
        let mut chain = vec![];
        let mut i = tip;
        while !Relay::block_header_exists(H256Le::from_bytes_le(&self.net.at(i).hash)) {
            chain.push(i);
            match self.net.at(i).parent {
                Some(p) => i = p,
                None => break,
            }
        }
        let missing = chain.len();
        for (n, i) in chain.into_iter().rev().enumerate() {
            let s = self.net.at(i).sub();
            self.pool.push(Ext::Store(s, None));
            if n % 4 == 3 {
                self.produce(src, ctx, true)?;
            }
        }
        self.produce(src, ctx, true)?;
        ctx.nontrivial |= ctx.is("R05");
        let best = Relay::get_best_block().to_bytes_le();
        ctx.check("R05", "relay does not converge", best == self.net.at(tip).hash, || {
            format!("after {missing} honest headers the relay's best block is {}, the network's is #{tip}@{}", name(&self.net, &best), self.net.at(tip).height)
        })?;
        // once confirmed on both chains a block proves transactions again
        for _ in 0..self.model.p {
            self.produce(src, ctx, true)?;
        }
        if let Some(conf) = self.net.ancestor(tip, self.net.at(tip).height + 1 - self.model.k) {
            let h = self.net.at(conf).hash;
            let r = Relay::verify_block_header_inclusion(H256Le::from_bytes_le(&h), None);
            ctx.check("R05", "confirmed block not usable", r.is_ok(), || format!("{} has {} confirmations on the best chain, yet {:?}", name(&self.net, &h), self.model.k, r.map(|_| ())))?;
        }
        self.query_headers(src, ctx, true)?;
        for _ in 0..3 {
            self.judge_proof(src, ctx)?;
            self.judge_payment(src, ctx)?;
        }
        self.judge_expiry(src, ctx)
    }
}
