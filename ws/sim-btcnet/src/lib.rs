//! A simulated Bitcoin network for the parachain simulators, and a model of what a relay
//! following it knows. Transactions and blocks are built byte by byte.
use bitcoin::{
    merkle::{MerkleProof, PartialTransactionProof},
    parser::parse_transaction,
    types::{BlockHeader, FullTransactionProof, H256Le},
    Address,
};
use primitive_types::U256;
use sha2::mined;
use sim_ref as refm;
use std::collections::{BTreeMap, BTreeSet};

pub type Hash = [u8; 32];

#[derive(Clone)]
pub struct Block {
    pub prev: Hash,
    pub root: Hash,
    pub time: u32,
    pub nonce: u32,
    pub hash: Hash,
    pub parent: Option<usize>,
    pub height: u32,
    pub txs: Vec<Vec<u8>>,
    pub leaves: Vec<Hash>,
}

fn target() -> U256 {
    U256::from(0x7f_ffffu64) << 232
}

#[derive(Default)]
pub struct Net {
    pub blocks: Vec<Block>,
    pub serial: u32,
}

pub fn script_of(a: &Address) -> Vec<u8> {
    match a {
        Address::P2PKH(h) => [&[0x76, 0xa9, 0x14][..], h.as_bytes(), &[0x88, 0xac]].concat(),
        Address::P2SH(h) => [&[0xa9, 0x14][..], h.as_bytes(), &[0x87]].concat(),
        Address::P2WPKHv0(h) => [&[0x00, 0x14][..], h.as_bytes()].concat(),
        Address::P2WSHv0(h) => [&[0x00, 0x20][..], h.as_bytes()].concat(),
    }
}
pub fn op_return(d: &[u8]) -> Vec<u8> {
    [&[0x6a, d.len() as u8][..], d].concat()
}

impl Net {
    /// A network whose first block has this height. Forgets earlier networks.
    pub fn new(height: u32) -> Net {
        mined::clear();
        let mut n = Net::default();
        n.push(None, height, 1_600_000_000, vec![]);
        n
    }
    fn push(&mut self, parent: Option<usize>, height: u32, time: u32, mut txs: Vec<Vec<u8>>) -> usize {
        let cb = self.coinbase(height);
        txs.insert(0, cb);
        let leaves: Vec<Hash> = txs.iter().map(|t| refm::dsha(t)).collect();
        let mut b = Block {
            prev: parent.map_or([7; 32], |p| self.blocks[p].hash),
            root: refm::merkle_root(&leaves),
            time,
            nonce: self.next(),
            hash: [0; 32],
            parent,
            height,
            txs,
            leaves,
        };
        let raw = Self::raw(&b);
        b.hash = refm::dsha(&raw);
        b.hash[30] = 0;
        b.hash[31] = 0;
        mined::register(&raw, b.hash);
        self.blocks.push(b);
        self.blocks.len() - 1
    }
    fn next(&mut self) -> u32 {
        self.serial += 1;
        self.serial
    }
    fn raw(b: &Block) -> Vec<u8> {
        let mut o = 0x2000_0000i32.to_le_bytes().to_vec();
        o.extend(b.prev);
        o.extend(b.root);
        o.extend(b.time.to_le_bytes());
        o.extend(refm::compress(target()).to_le_bytes());
        o.extend(b.nonce.to_le_bytes());
        o
    }
    fn coinbase(&mut self, h: u32) -> Vec<u8> {
        let mut o = 2i32.to_le_bytes().to_vec();
        o.push(1);
        o.extend([0; 32]);
        o.extend(u32::MAX.to_le_bytes());
        let mut hb = h.max(128).to_le_bytes().to_vec();
        while hb.last() == Some(&0) {
            hb.pop();
        }
        if hb.last().unwrap() & 0x80 != 0 {
            hb.push(0);
        }
        let mut s = vec![hb.len() as u8];
        s.extend(hb);
        s.extend(self.next().to_le_bytes());
        o.extend(refm::varint(s.len() as u64));
        o.extend(s);
        o.extend(u32::MAX.to_le_bytes());
        o.push(0);
        o.extend(0u32.to_le_bytes());
        o
    }
    /// A transaction with these outputs (script, value), unlike any other.
    pub fn tx(&mut self, outs: &[(Vec<u8>, i64)]) -> Vec<u8> {
        let mut o = 1i32.to_le_bytes().to_vec();
        o.push(1);
        let mut h = [3u8; 32];
        h[..4].copy_from_slice(&self.next().to_le_bytes());
        o.extend(h);
        o.extend(1u32.to_le_bytes());
        o.push(0);
        o.extend(u32::MAX.to_le_bytes());
        o.extend(refm::varint(outs.len() as u64));
        for (s, v) in outs {
            o.extend(v.to_le_bytes());
            o.extend(refm::varint(s.len() as u64));
            o.extend(s);
        }
        o.extend(0u32.to_le_bytes());
        o
    }
    pub fn mine(&mut self, parent: usize, txs: Vec<Vec<u8>>, spacing: u32) -> usize {
        let (h, t) = (self.blocks[parent].height + 1, self.blocks[parent].time.saturating_add(spacing));
        self.push(Some(parent), h, t, txs)
    }
    pub fn header(&self, i: usize) -> BlockHeader {
        let b = &self.blocks[i];
        BlockHeader {
            merkle_root: H256Le::from_bytes_le(&b.root),
            target: target(),
            timestamp: b.time,
            version: 0x2000_0000,
            hash: H256Le::from_bytes_le(&b.hash),
            hash_prev_block: H256Le::from_bytes_le(&b.prev),
            nonce: b.nonce,
        }
    }
    pub fn partial(&self, blk: usize, txi: usize) -> Option<PartialTransactionProof> {
        let b = &self.blocks[blk];
        let mut want = vec![false; b.leaves.len()];
        want[txi] = true;
        let (bits, hashes) = refm::partial_tree(&b.leaves, &want);
        Some(PartialTransactionProof {
            tx_encoded_len: b.txs[txi].len() as u32,
            transaction: parse_transaction(&b.txs[txi]).ok()?,
            merkle_proof: MerkleProof {
                block_header: self.header(blk),
                flag_bits: bits,
                transactions_count: b.leaves.len() as u32,
                hashes: hashes.iter().map(|h| H256Le::from_bytes_le(h)).collect(),
            },
        })
    }
    pub fn proof(&self, blk: usize, txi: usize) -> Option<FullTransactionProof> {
        Some(FullTransactionProof { user_tx_proof: self.partial(blk, txi)?, coinbase_proof: self.partial(blk, 0)? })
    }
}

/// What a relay knows that was told some of the blocks.
#[derive(Clone, Default)]
pub struct View {
    /// known blocks, with the parachain's active block count when they came in
    pub known: BTreeMap<usize, u32>,
    pub tip: usize,
    main: BTreeSet<usize>,
    pub k: u32,
    pub p: u32,
}

impl View {
    pub fn new(first: usize, active: u32, k: u32, p: u32) -> View {
        View { known: [(first, active)].into(), tip: first, main: [first].into(), k, p }
    }
    /// Whether the relay takes this block in.
    pub fn accept(&mut self, net: &Net, i: usize, active: u32) -> bool {
        let b = &net.blocks[i];
        let Some(parent) = b.parent else { return false };
        if self.known.contains_key(&i) || !self.known.contains_key(&parent) {
            return false;
        }
        self.known.insert(i, active);
        if parent == self.tip {
            self.tip = i;
            self.main.insert(i);
        } else if b.height >= net.blocks[self.tip].height + self.k {
            self.tip = i;
            self.main.clear();
            let mut x = Some(i);
            while let Some(j) = x.filter(|j| self.known.contains_key(j)) {
                self.main.insert(j);
                x = net.blocks[j].parent;
            }
        }
        true
    }
    pub fn height(&self, net: &Net) -> u32 {
        net.blocks[self.tip].height
    }
    /// Whether a transaction in this block counts as included now.
    pub fn included(&self, net: &Net, i: usize, active: u32) -> Result<(), &'static str> {
        let Some(at) = self.known.get(&i) else { return Err("unknown block") };
        let rival = self.known.keys().filter(|j| !self.main.contains(j)).map(|j| net.blocks[*j].height).max();
        let tip = self.height(net) as u64;
        if rival.map_or(false, |r| tip < r as u64 + self.k as u64) {
            return Err("ongoing fork");
        }
        if !self.main.contains(&i) {
            return Err("not on the main chain");
        }
        if tip + 1 < net.blocks[i].height as u64 + self.k as u64 {
            return Err("bitcoin confirmations");
        }
        if *at as u64 + self.p as u64 > active as u64 {
            return Err("parachain confirmations");
        }
        Ok(())
    }
}
