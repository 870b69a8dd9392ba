//! Vaults, their nominators, users, oracles, relayers and governance act on the bridge; calls are
//! lost, repeated and reordered on their way, headers arrive late, miners fork, oracles stall and
//! report outliers, prices crash, clocks jump, payments are forged, and the node crashes inside
//! blocks and executes them again. After every call the whole state is compared with the rules.
use crate::{chain::*, num::*, rt::*, spec::*, world::*};
use bitcoin::Address;
use frame_support::{
    state,
    traits::{BuildGenesisConfig, Hooks},
};
use frame_system::RawOrigin;
use primitives::{issue::IssueRequestStatus, redeem::RedeemRequestStatus, replace::ReplaceRequestStatus};
use sim_btcnet::{op_return, script_of, Net, View};
use sim_core::*;
use sp_core::{H160, H256};
use sp_runtime::FixedU128;
use std::{
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};
use vault_registry::VaultStatus;

const START: u32 = 700_000;

#[derive(Clone)]
struct Pay {
    blk: usize,
    txi: usize,
    outs: Vec<Out>,
    req: H256,
}

/// What goes back when a node crashes inside a block.
#[derive(Clone)]
struct Model {
    w: World,
    view: View,
    fed: BTreeMap<(usize, u64), (u128, u64)>,
    auth: BTreeSet<u64>,
    now: u64,
    slashed: bool,
    issuance: [u128; 3],
    dead: bool,
}

pub struct Sim {
    net: Net,
    tips: [usize; 2],
    split: bool,
    m: Model,
    max_delay: u64,
    market: [u128; 3],
    pool: Vec<Op>,
    unsent: Vec<(H256, Vec<Out>)>,
    pays: Vec<Pay>,
    number: u32,
    steps: usize,
    weights: Vec<u32>,
    loss: u64,
    stalled: BTreeSet<u64>,
    /// collateral loses its value, run after run
    crisis: bool,
    /// hardly anybody opens a vault
    few: bool,
}

fn address(src: &mut Src) -> Address {
    match src.below(4) {
        0 => Address::P2WPKHv0(H160(src.array())),
        1 => Address::P2PKH(H160(src.array())),
        2 => Address::P2SH(H160(src.array())),
        _ => Address::P2WSHv0(H256(src.array())),
    }
}

fn scripts(outs: &[Out]) -> Vec<(Vec<u8>, i64)> {
    outs.iter()
        .map(|o| match o {
            Out::To(a, v) => (script_of(a), *v),
            Out::Data(d, v) => (op_return(d), *v),
        })
        .collect()
}

/// An amount at one of these limits, one off, a part of one, or any.
fn amount(src: &mut Src, limits: &[u128], most: u128) -> u128 {
    match src.below(8) {
        0 => src.magnitude(most),
        1 | 2 => {
            let l = *src.pick(limits);
            (l as i128 + src.irange(-1, 1) as i128).max(0) as u128
        }
        3 => *src.pick(limits),
        _ => {
            let l = *src.pick(limits);
            l / 1000 * src.range(1, 999) as u128
        }
    }
}
fn fx(x: u128) -> FixedU128 {
    FixedU128::from_inner(x)
}
fn percent(src: &mut Src, lo: u64, hi: u64) -> u128 {
    src.range(lo * 100, hi * 100) as u128 * (ONE / 10_000)
}

impl Sim {
    fn submit(&mut self, src: &mut Src, ctx: &mut Ctx, op: Op) {
        ctx.note(|| format!("sent: {op:?}"));
        if src.chance(self.loss, 12) {
            ctx.fault("call lost on its way");
            return;
        }
        if src.chance(1, 12) {
            ctx.fault("call repeated on its way");
            self.pool.push(op.clone());
        }
        self.pool.push(op);
    }

    // ------------------------------------------------------------ what people do

    fn vault_of(&self, src: &mut Src) -> usize {
        let have: Vec<usize> = self.m.w.v.keys().copied().collect();
        if have.is_empty() || src.chance(1, 16) {
            src.usize(NV)
        } else {
            *src.pick(&have)
        }
    }
    fn person(&self, src: &mut Src) -> u64 {
        1 + src.below(PEOPLE)
    }

    fn feed(&mut self, src: &mut Src, ctx: &mut Ctx) {
        // the market moves
        for i in 0..3 {
            let f = match src.below(12) {
                0 => {
                    ctx.fault("price jump");
                    percent(src, 40, 300)
                }
                1 | 2 | 3 if self.crisis && i < 2 => {
                    ctx.fault("crisis");
                    percent(src, 105, 250)
                }
                1 => percent(src, 80, 125),
                _ => percent(src, 98, 102),
            };
            let x = muldiv(self.market[i], f, ONE).unwrap();
            let (lo, hi) = match i {
                0 => (2_000 * ONE, if self.crisis { 5_000_000 * ONE } else { 50_000 * ONE }),
                1 => (100_000 * ONE, if self.crisis { 500_000_000 * ONE } else { 5_000_000 * ONE }),
                _ => (ONE, 100 * ONE),
            };
            self.market[i] = x.clamp(lo, hi);
        }
        for o in [1, 2, 3, 4] {
            if !self.m.auth.contains(&o) && !src.chance(1, 16) {
                continue;
            }
            if self.stalled.contains(&o) {
                continue;
            }
            let mut vals = vec![];
            for i in 0..3 {
                if src.chance(1, 20) {
                    continue;
                }
                let v = if src.chance(1, 30) {
                    ctx.fault("oracle outlier");
                    *src.pick(&[self.market[i] / 100, self.market[i] / 10, self.market[i] * 10, self.market[i] * 100])
                } else {
                    muldiv(self.market[i], percent(src, 99, 101), ONE).unwrap()
                };
                vals.push((i, v));
            }
            self.submit(src, ctx, Op::Feed { oracle: o, vals });
        }
        if src.chance(1, 16) {
            let o = 1 + src.below(3);
            if !self.stalled.remove(&o) {
                ctx.fault("oracle stalled");
                self.stalled.insert(o);
            }
        }
    }

    fn manage(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        match src.below(8) {
            0 => Op::Key(self.person(src)),
            1 | 2 if !self.few || w.v.is_empty() || src.chance(1, 10) => {
                let v = src.usize(NV);
                Op::Register { v, col: if src.bool() { src.magnitude(100_000_000_000_000_000) } else { self.start_collateral(src, v) } }
            }
            1 | 2 | 3 | 4 => {
                let v = self.vault_of(src);
                let b = w.accepting(v) == Ok(false) || src.chance(1, 6);
                Op::Accept { v, b }
            }
            5 => {
                let v = self.vault_of(src);
                let s = w.p.secure[v % 3];
                let thr = match src.below(4) {
                    0 => None,
                    1 => Some(s + src.below(2) as u128),
                    _ => Some(s + percent(src, 0, 100)),
                };
                Op::Custom { v, thr }
            }
            _ => {
                let v = self.vault_of(src);
                let who = if src.chance(2, 3) { op_of(v) } else { self.person(src) };
                self.collateral(src, who, v)
            }
        }
    }
    fn start_collateral(&self, src: &mut Src, v: usize) -> u128 {
        // worth between 0.1 and 100 bitcoin
        let x = src.range(10_000_000, 10_000_000_000) as u128;
        self.m.w.w2c(x, v % 3).unwrap_or(ONE).min(1_000_000_000_000_000_000)
    }
    fn collateral(&self, src: &mut Src, who: u64, v: usize) -> Op {
        let w = &self.m.w;
        let c = v % 3;
        if src.chance(2, 5) {
            let room = w.limit[v].saturating_sub(w.total(v).saturating_sub(w.own(v)));
            let ceil = w.p.ceiling[c].saturating_sub(w.tc[c]);
            let x = amount(src, &[room, ceil, w.total(v), 1, w.free(who, c)], w.free(who, c));
            return Op::Deposit { who, v, x };
        }
        let idx = match src.below(6) {
            0 => Some(src.below(w.nonce[v] as u64 + 2) as u32),
            1 => Some(w.nonce[v]),
            _ => None,
        };
        if src.chance(1, 5) {
            return Op::Withdraw { who, v, x: None, idx };
        }
        let have = w.stake(v, idx.unwrap_or(0), who);
        let used = w.thr(v).and_then(|t| w.used(v, t)).unwrap_or(0);
        let x = amount(src, &[have, w.total(v).saturating_sub(used), w.total(v).saturating_sub(w.p.min[c]), w.own(v), w.total(v)], have + 2);
        Op::Withdraw { who, v, x: Some(x), idx }
    }
    fn nominate(&mut self, src: &mut Src) -> Op {
        let v = self.vault_of(src);
        let w = &self.m.w;
        match src.below(10) {
            0 if !w.opted.contains(&v) => Op::OptIn { v },
            0 if src.bool() => Op::OptOut { v },
            1 => Op::Limit { v, x: if src.bool() { w.total(v) / 100 * src.range(1, 300) as u128 } else { src.magnitude(ONE) } },
            2 => Op::Commission { v, rate: *src.pick(&[0, ONE / 20, ONE / 3, ONE, ONE + 1]) },
            3 => Op::OptIn { v },
            _ => {
                let open: Vec<usize> = w.opted.iter().copied().collect();
                let v = if open.is_empty() || src.chance(1, 10) { v } else { *src.pick(&open) };
                let who = if src.chance(1, 5) { op_of(v) } else { self.person(src) };
                self.collateral(src, who, v)
            }
        }
    }

    fn ask_issue(&mut self, src: &mut Src) -> Op {
        let v = self.vault_of(src);
        let w = &self.m.w;
        let room = w.issuable(v).unwrap_or(1_000_000);
        let x = amount(src, &[room, w.p.issue_dust, room / 3], 10_000_000_000);
        Op::RequestIssue { who: self.person(src), v, x, gc: if src.bool() { INTR } else { src.usize(4) } }
    }
    fn ask_redeem(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let holders: Vec<u64> = (1..=PEOPLE).filter(|a| w.free(*a, W) > 0).collect();
        let who = if holders.is_empty() { self.person(src) } else { *src.pick(&holders) };
        let owing: Vec<usize> = w.v.iter().filter(|x| x.1.issued_tokens > x.1.to_be_redeemed_tokens).map(|x| *x.0).collect();
        let v = if owing.is_empty() || src.chance(1, 12) { self.vault_of(src) } else { *src.pick(&owing) };
        let have = w.free(who, W);
        let owed = w.v.get(&v).map_or(0, |a| a.issued_tokens.saturating_sub(a.to_be_redeemed_tokens));
        let incl = w.price[2].and_then(|p| muldiv(p, w.p.redeem_size as u128, ONE)).unwrap_or(0);
        let x = amount(src, &[have, owed, have.min(owed), incl + w.p.redeem_dust], have + 1);
        let to = if src.chance(1, 30) { Address::P2PKH(H160::zero()) } else { address(src) };
        Op::RequestRedeem { who, v, x, to }
    }
    fn ask_replace(&mut self, src: &mut Src) -> Option<Op> {
        let w = &self.m.w;
        let owing: Vec<usize> = w.v.iter().filter(|x| x.1.issued_tokens > 0).map(|x| *x.0).collect();
        let v = if owing.is_empty() || src.chance(1, 12) { self.vault_of(src) } else { *src.pick(&owing) };
        let a = w.v.get(&v)?;
        let room = a.issued_tokens.saturating_sub(a.to_be_replaced_tokens).saturating_sub(a.to_be_redeemed_tokens);
        Some(match src.below(6) {
            0 => Op::WithdrawReplace { v, x: amount(src, &[a.to_be_replaced_tokens, 1], 1 << 34) },
            1 | 2 => Op::RequestReplace { v, x: amount(src, &[room, w.p.replace_dust], 1 << 34) },
            _ => {
                let offered: Vec<usize> = w.v.iter().filter(|x| x.1.to_be_replaced_tokens > 0).map(|x| *x.0).collect();
                if offered.is_empty() {
                    return Some(Op::RequestReplace { v, x: room });
                }
                let old = *src.pick(&offered);
                let new = self.vault_of(src);
                let tbr = w.v[&old].to_be_replaced_tokens;
                let x = amount(src, &[tbr, tbr, w.issuable(new).unwrap_or(0), w.p.replace_dust], 1 << 34);
                let col = if src.bool() { 0 } else { amount(src, &[w.w2c(x, new % 3).unwrap_or(0) * 2, w.free(op_of(new), new % 3)], 1 << 60) };
                Op::AcceptReplace { old, new, x, col, to: address(src) }
            }
        })
    }

    /// Somebody pays for a request: what is asked, or not quite.
    fn pay(&mut self, src: &mut Src, ctx: &mut Ctx, kinds: &[usize]) {
        let w = &self.m.w;
        let mut reqs: Vec<(usize, H256, Address, u128, bool)> = vec![];
        for (id, r) in &w.issues {
            reqs.push((0, *id, r.btc_address, r.amount + r.fee, r.status == IssueRequestStatus::Pending));
        }
        for (id, r) in &w.redeems {
            reqs.push((1, *id, r.btc_address, r.amount_btc, r.status == RedeemRequestStatus::Pending));
        }
        for (id, r) in &w.replaces {
            reqs.push((2, *id, r.btc_address, r.amount, r.status == ReplaceRequestStatus::Pending));
        }
        let paid: BTreeSet<H256> = self.pays.iter().map(|p| p.req).chain(self.unsent.iter().map(|u| u.0)).collect();
        let fresh: Vec<_> = reqs.iter().filter(|r| r.4 && kinds.contains(&r.0) && !paid.contains(&r.1)).cloned().collect();
        let r = if !fresh.is_empty() && !src.chance(1, 8) {
            src.pick(&fresh).clone()
        } else if !reqs.is_empty() {
            src.pick(&reqs).clone()
        } else {
            return;
        };
        let (kind, id, to, want, _) = r;
        let dead = kind == 0 && w.liquidated(index_of(&w.issues[&id].vault)) == Ok(true);
        let v = match src.below(if kind == 0 { 5 } else { 10 }) {
            _ if dead && src.bool() => want.saturating_mul(src.range(100, 200) as u128 + 1).div_euclid(100).min(1 << 50) as i64,
            0 => (want as i128 + src.irange(-1, 1) as i128).clamp(0, 1 << 50) as i64,
            1 => {
                let x = want / 100 * src.range(1, 250) as u128;
                x.min(1 << 50) as i64
            }
            _ => want.min(1 << 50) as i64,
        };
        let mut outs = vec![Out::To(to, v)];
        if kind != 0 || src.chance(1, 4) {
            let d = match src.below(20) {
                0 => H256(src.array()).as_bytes().to_vec(),
                1 => id.as_bytes()[..31].to_vec(),
                _ => id.as_bytes().to_vec(),
            };
            let at = src.usize(2);
            let val = if src.chance(1, 30) { 1 } else { 0 };
            outs.insert(at, Out::Data(d, val));
        }
        for _ in 0..[0, 0, 0, 1, 1, 1, 1, 2][src.usize(8)] {
            let o = match src.below(6) {
                0 => Out::To(to, src.magnitude(1 << 40) as i64),
                1 => Out::Data(id.as_bytes().to_vec(), 0),
                _ => Out::To(address(src), src.magnitude(1 << 40) as i64),
            };
            let at = src.usize(outs.len() + 1);
            outs.insert(at, o);
        }
        ctx.note(|| format!("payment for {id:?} (asked {want}): {outs:?}"));
        self.unsent.push((id, outs));
    }

    fn mine(&mut self, src: &mut Src, ctx: &mut Ctx) {
        if self.split && src.chance(1, 3) {
            let (a, b) = (self.tips[0], self.tips[1]);
            let t = if self.net.blocks[b].height > self.net.blocks[a].height { b } else { a };
            self.tips = [t, t];
            self.split = false;
            ctx.fault("miners' partition healed");
        } else if !self.split && src.chance(1, 25) {
            self.split = true;
            ctx.fault("miners partitioned");
        }
        let side = if self.split { src.usize(2) } else { 0 };
        let all = self.unsent.len();
        let n = if src.chance(3, 4) { all } else { src.usize(all + 1) };
        let (mut txs, mut made) = (vec![], vec![]);
        for (id, outs) in self.unsent.drain(..n) {
            txs.push(self.net.tx(&scripts(&outs)));
            made.push((id, outs));
        }
        let blk = self.net.mine(self.tips[side], txs, 600);
        self.tips[side] = blk;
        if !self.split {
            self.tips = [blk, blk];
        }
        for (i, (req, outs)) in made.into_iter().enumerate() {
            self.pays.push(Pay { blk, txi: i + 1, outs, req });
        }
        ctx.sim_time += 600;
        if src.chance(9, 10) {
            self.submit(src, ctx, Op::Header(blk));
        }
        if src.chance(1, 6) {
            self.catch_up(src, ctx);
        }
    }
    fn catch_up(&mut self, src: &mut Src, ctx: &mut Ctx) {
        for i in 1..self.net.blocks.len() {
            if !self.m.view.known.contains_key(&i) {
                self.submit(src, ctx, Op::Header(i));
            }
        }
    }

    fn proof(&mut self, src: &mut Src, ctx: &mut Ctx, p: usize) -> Option<Proof> {
        let pay = self.pays[p].clone();
        let mut proof = self.net.proof(pay.blk, pay.txi)?;
        let mut out = Proof { blk: pay.blk, outs: pay.outs.clone(), forged: false, data: Rc::new(proof.clone()) };
        if !src.chance(1, 16) {
            return Some(out);
        }
        ctx.fault("forged payment proof");
        match src.below(4) {
            0 => {
                let o = proof.user_tx_proof.transaction.outputs.get_mut(0)?;
                o.value = o.value.wrapping_add(1 + src.below(1 << 40) as i64);
            }
            1 => {
                let other = src.usize(self.net.blocks.len());
                if other == pay.blk {
                    return None;
                }
                proof.coinbase_proof = self.net.partial(other, 0)?;
            }
            2 => {
                // a block nobody has relayed
                let t = self.net.tx(&scripts(&pay.outs));
                let b = self.net.mine(pay.blk, vec![t], 600);
                out.blk = b;
                out.data = Rc::new(self.net.proof(b, 1)?);
                return Some(out);
            }
            _ => {
                let n = proof.user_tx_proof.merkle_proof.hashes.len();
                let mut x = proof.user_tx_proof.merkle_proof.hashes[n - 1].to_bytes_le();
                x[src.usize(32)] ^= 1 << src.below(8);
                proof.user_tx_proof.merkle_proof.hashes[n - 1] = bitcoin::types::H256Le::from_bytes_le(&x);
            }
        }
        out.forged = true;
        out.data = Rc::new(proof);
        Some(out)
    }

    fn execute(&mut self, src: &mut Src, ctx: &mut Ctx, kinds: &[usize]) {
        let w = &self.m.w;
        let kind_of = |id: &H256| if w.issues.contains_key(id) { 0 } else if w.redeems.contains_key(id) { 1 } else { 2 };
        let open = |id: &H256| {
            w.issues.get(id).map_or(false, |r| r.status != IssueRequestStatus::Completed)
                || w.redeems.get(id).map_or(false, |r| r.status == RedeemRequestStatus::Pending)
                || w.replaces.get(id).map_or(false, |r| r.status != ReplaceRequestStatus::Completed)
        };
        let good: Vec<usize> = (0..self.pays.len())
            .filter(|p| {
                let p = &self.pays[*p];
                open(&p.req) && kinds.contains(&kind_of(&p.req)) && self.m.view.included(&self.net, p.blk, w.active + 1).is_ok()
            })
            .collect();
        let p = if !good.is_empty() && !src.chance(1, 10) {
            *src.pick(&good)
        } else if !self.pays.is_empty() {
            self.pays.len() - 1 - src.below(8).min(self.pays.len() as u64 - 1) as usize
        } else {
            return;
        };
        let mut id = self.pays[p].req;
        if src.chance(1, 20) {
            // a payment for another request
            let all: Vec<H256> = w.issues.keys().chain(w.redeems.keys()).chain(w.replaces.keys()).copied().collect();
            if !all.is_empty() {
                id = *src.pick(&all);
            }
        }
        let kind = kind_of(&id);
        let who = match w.issues.get(&id) {
            Some(r) if src.chance(2, 3) => r.requester,
            _ => self.person(src),
        };
        let Some(proof) = self.proof(src, ctx, p) else { return };
        let op = match kind {
            0 => Op::ExecuteIssue { who, id, proof },
            1 => Op::ExecuteRedeem { who, id, proof },
            _ => Op::ExecuteReplace { who, id, proof },
        };
        self.submit(src, ctx, op);
    }

    fn cancel(&mut self, src: &mut Src) -> Option<Op> {
        let w = &self.m.w;
        let mut all = vec![];
        for (id, r) in &w.issues {
            all.push((0, *id, r.requester, r.status == IssueRequestStatus::Pending));
        }
        for (id, r) in &w.redeems {
            all.push((1, *id, r.redeemer, r.status == RedeemRequestStatus::Pending));
        }
        for (id, r) in &w.replaces {
            all.push((2, *id, r.new_vault.account_id, r.status == ReplaceRequestStatus::Pending));
        }
        let open: Vec<_> = all.iter().filter(|x| x.3).cloned().collect();
        let (kind, id, by, _) = if !open.is_empty() && !src.chance(1, 16) {
            src.pick(&open).clone()
        } else if !all.is_empty() {
            src.pick(&all).clone()
        } else {
            return None;
        };
        let who = if src.chance(7, 8) { by } else { self.person(src) };
        Some(match kind {
            0 => Op::CancelIssue { who, id },
            1 => Op::CancelRedeem { who, id, reimburse: src.bool() },
            _ => Op::CancelReplace { who, id },
        })
    }

    fn other_redeem(&mut self, src: &mut Src) -> Option<Op> {
        let w = &self.m.w;
        Some(match src.below(3) {
            0 => {
                let some = |f: &dyn Fn(&RedeemRequestStatus) -> bool| -> Vec<H256> { w.redeems.iter().filter(|r| f(&r.1.status)).map(|r| *r.0).collect() };
                let mut l = some(&|s| *s == RedeemRequestStatus::Reimbursed(false));
                if l.is_empty() || src.chance(1, 4) {
                    l = some(&|s| matches!(s, RedeemRequestStatus::Reimbursed(_)));
                }
                if l.is_empty() {
                    return None;
                }
                let id = *src.pick(&l);
                let v = if src.chance(2, 3) { index_of(&w.redeems[&id].vault) } else { self.vault_of(src) };
                Op::MintReimbursed { v, id }
            }
            1 => {
                let c = (0..3).find(|c| w.liq[*c].issued > 0).unwrap_or(src.usize(3));
                let l = &w.liq[c];
                let holders: Vec<u64> = (1..=PEOPLE).filter(|a| w.free(*a, W) > 0).collect();
                let who = if holders.is_empty() { self.person(src) } else { *src.pick(&holders) };
                let x = amount(src, &[l.issued.saturating_sub(l.tbr), w.free(who, W), 1], 1 << 34);
                Op::LiquidationRedeem { who, c, x }
            }
            _ => {
                let own: Vec<usize> = w.v.keys().copied().filter(|v| w.free(op_of(*v), W) > 0).collect();
                let v = if own.is_empty() { self.vault_of(src) } else { *src.pick(&own) };
                let a = w.v.get(&v)?;
                let x = amount(src, &[a.issued_tokens.saturating_sub(a.to_be_redeemed_tokens), w.free(op_of(v), W)], 1 << 34);
                Op::SelfRedeem { v, x }
            }
        })
    }

    fn report(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let dead: Vec<usize> = w.v.iter().filter(|x| x.1.status == VaultStatus::Liquidated).map(|x| *x.0).collect();
        if !dead.is_empty() && src.chance(1, 5) {
            return Op::Recover { v: *src.pick(&dead) };
        }
        let low: Vec<usize> = w
            .v
            .keys()
            .copied()
            .filter(|v| {
                let worth = w.c2w(w.total(*v), v % 3).ok().and_then(|x| muldiv(x, ONE, w.p.liq[v % 3]));
                worth.map_or(false, |x| x < w.v[v].issued_tokens)
            })
            .collect();
        let v = if !low.is_empty() && src.chance(5, 6) { *src.pick(&low) } else { self.vault_of(src) };
        if src.chance(1, 24) {
            return Op::Recover { v };
        }
        Op::Report { who: self.person(src), v }
    }

    fn govern(&mut self, src: &mut Src) -> Op {
        use Param::*;
        let c = src.usize(3);
        let w = &self.m.w;
        let p = match src.below(18) {
            0 => Min(c, src.magnitude(ONE)),
            1 => Ceiling(c, amount(src, &[w.tc[c], w.tc[c] * 2, 10 * ONE], u128::MAX >> 8)),
            2 => Secure(c, percent(src, 146, 260)),
            3 => Premium(c, percent(src, 136, 146)),
            4 => Liq(c, percent(src, 105, 136)),
            5 => IssuePeriod(src.range(1, 30) as u32),
            6 => RedeemPeriod(src.range(0, 30) as u32),
            7 => ReplacePeriod(src.range(0, 30) as u32),
            8 => IssueFee(percent(src, 0, 5)),
            9 => IssueGrief(percent(src, 0, 3)),
            10 => RedeemFee(percent(src, 0, 5)),
            11 => PremiumFee(percent(src, 0, 12)),
            12 => PunishFee(percent(src, 0, 30)),
            13 => ReplaceGrief(percent(src, 0, 30)),
            14 => Nomination(src.chance(7, 8)),
            15 => AddOracle(1 + src.below(4)),
            16 => RemoveOracle(1 + src.below(4)),
            _ => src.pick(&[IssueFee(1_000_000 * ONE + 1), RedeemFee(u128::MAX), PunishFee(1_000_000 * ONE + 1)]).clone(),
        };
        Op::Param { root: src.chance(7, 8), p }
    }

    fn claim(&mut self, src: &mut Src) -> Op {
        let v = self.vault_of(src);
        let w = &self.m.w;
        let n = w.nonce[v];
        let stakers: Vec<u64> = (1..=PEOPLE).filter(|a| w.stake(v, n, *a) > 0).collect();
        let who = if stakers.is_empty() || src.chance(1, 8) { self.person(src) } else { *src.pick(&stakers) };
        let idx = match src.below(4) {
            0 => Some(src.below(n as u64 + 1) as u32),
            _ => None,
        };
        Op::WithdrawRewards { who, v, idx }
    }

    // ------------------------------------------------------------ the chain

    fn median(&self, key: usize) -> Option<u128> {
        let from = self.m.now.saturating_sub(self.max_delay);
        let mut xs: Vec<u128> = self.m.fed.iter().filter(|(k, x)| k.0 == key && x.1 >= from).map(|x| x.1 .0).collect();
        xs.sort();
        let n = xs.len();
        match n {
            0 => None,
            n if n % 2 == 0 => Some((xs[n / 2 - 1] + xs[n / 2]) / 2),
            n => Some(xs[n / 2]),
        }
    }

    fn begin(&mut self, ctx: &mut Ctx, step: u64) -> Res {
        let n = self.number + 1;
        System::set_block_number(n);
        System::reset_events();
        Security::on_initialize(n);
        Oracle::on_initialize(n);
        let mut exp = self.m.w.clone();
        exp.active += 1;
        let was = exp.price;
        for i in 0..3 {
            exp.price[i] = self.median(i);
        }
        self.m.now += step;
        Timestamp::set_timestamp(self.m.now);
        let act = World::read(&exp);
        for i in 0..3 {
            ctx.check("V08", "price is not the median", act.price[i] == exp.price[i], || {
                format!("key {i}: {:?}, the fresh values' median is {:?}", act.price[i], exp.price[i])
            })?;
            if was[i] != exp.price[i] {
                ctx.probe(if exp.price[i].is_none() { "price expired" } else { "price changed" });
            }
        }
        exp.price = act.price;
        for c in 0..3 {
            // prices shift what a currency's vaults weigh
            let all: u128 = (0..NV).filter(|v| v % 3 == c).map(|v| exp.rw[v]).sum();
            let now = exp.c2w(all, c).ok();
            let changed = c < 2 && was[c] != exp.price[c] && exp.price[c].is_some();
            let ok = now == Some(act.cap[c]) || act.cap[c] == exp.cap[c] && !changed;
            ctx.check("V09", "capacity does not follow the price", ok, || {
                format!("{:?}: {} before, {} now, by the price {now:?}", COLS[c], exp.cap[c], act.cap[c])
            })?;
            exp.cap[c] = act.cap[c];
        }
        if let Some((what, d)) = differ(&exp, &act, &self.m.w, false).or_else(|| differ_wrapped(&exp, &act, &self.m.w)) {
            ctx.check("V02", &format!("{what} changes by itself"), false, || d)?;
        }
        self.m.w = act;
        Ok(())
    }

    fn apply(&mut self, ctx: &mut Ctx, op: &Op) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let net = &self.net;
        let header = |i: usize| net.header(i);
        if let Op::Header(i) = op {
            let r = dispatch(op, header);
            let want = self.m.view.accept(net, *i, self.m.w.active);
            if r.is_ok() != want {
                // decided by sim-relay; here the run ends
                self.m.dead = true;
                ctx.probe("relay differs");
            }
            self.m.w.best = self.m.view.height(net);
            self.m.w.ready = self.m.w.best >= START + self.m.view.k;
            return Ok(());
        }
        let prop = prop_of(op);
        let name = op_name(op);
        let (view, active) = (&self.m.view, self.m.w.active);
        let mut exp = self.m.w.spec(op, |b| view.included(net, b, active).is_ok());
        match op {
            Op::Feed { oracle, vals } => {
                if self.m.auth.contains(oracle) {
                    for (k, v) in vals {
                        self.m.fed.insert((*k, *oracle), (*v, self.m.now));
                    }
                } else {
                    exp = Err("not an oracle");
                }
            }
            Op::Param { root: true, p: Param::AddOracle(a) } => {
                self.m.auth.insert(*a);
            }
            Op::Param { root: true, p: Param::RemoveOracle(a) } => {
                self.m.auth.remove(a);
            }
            _ => {}
        }
        let before = state::hash();
        let r = dispatch(op, header);
        ctx.event(hash_str(&format!("{name}{:?}", r.is_ok())));
        ctx.note(|| format!("  {op:?}: {:?}, rule {:?}", r.as_ref().map_err(why), exp.as_ref().map(|_| ())));
        ctx.nontrivial |= r.is_ok() && ctx.is(prop) || !matches!(ctx.property.as_str(), "V03" | "V04" | "V05" | "V07" | "V08" | "V09") && r.is_ok();
        ctx.probe(match (op, r.is_ok()) {
            (Op::RequestIssue { .. }, true) => "issue requested",
            (Op::ExecuteIssue { .. }, true) => "issue executed",
            (Op::CancelIssue { .. }, true) => "issue cancelled",
            (Op::RequestRedeem { .. }, true) => "redeem requested",
            (Op::ExecuteRedeem { .. }, true) => "redeem executed",
            (Op::CancelRedeem { .. }, true) => "redeem cancelled",
            (Op::MintReimbursed { .. }, true) => "reimbursed redeem minted",
            (Op::LiquidationRedeem { .. }, true) => "liquidation redeem",
            (Op::SelfRedeem { .. }, true) => "self redeem",
            (Op::RequestReplace { .. }, true) => "replace requested",
            (Op::WithdrawReplace { .. }, true) => "replace withdrawn",
            (Op::AcceptReplace { .. }, true) => "replace accepted",
            (Op::ExecuteReplace { .. }, true) => "replace executed",
            (Op::CancelReplace { .. }, true) => "replace cancelled",
            (Op::Report { .. }, true) => "vault liquidated",
            (Op::Recover { .. }, true) => "vault recovered",
            (Op::WithdrawRewards { .. }, true) => "rewards withdrawn",
            (Op::Deposit { .. }, true) => "collateral deposited",
            (Op::Withdraw { .. }, true) => "collateral withdrawn",
            (Op::OptOut { .. }, true) => "opted out of nomination",
            (_, true) => "other call accepted",
            (_, false) => "call refused",
        });
        match (exp, r) {
            (Err("overflow"), _) => {
                self.m.w = World::read(&self.m.w);
            }
            (Ok(x), Err(e)) => {
                let tainted = matches!(op, Op::WithdrawRewards { .. }) && !x.rew.taint.is_empty();
                self.m.dead |= matches!(op, Op::Param { .. });
                ctx.check(prop, &format!("{name} refused: {}", why(&e)), tainted, || format!("{op:?} is refused by the chain but not by the rules"))?;
            }
            (Err(e), Ok(())) => {
                self.m.dead |= matches!(op, Op::Param { .. } | Op::Recover { .. });
                self.m.w = World::read(&self.m.w);
                ctx.check(prop, &format!("{name} accepted: {e}"), false, || format!("{op:?} is accepted by the chain but not by the rules"))?;
            }
            (Err(_), Err(_)) => {
                ctx.check(prop, "refused call changes the state", state::hash() == before, || format!("{op:?}"))?;
            }
            (Ok(mut exp), Ok(())) => {
                if exp.cap.iter().all(|x| *x == 0) && exp.free(TREASURY, W) > self.m.w.free(TREASURY, W) {
                    ctx.probe("fee swept to the treasury");
                }
                if !exp.any_stake.is_empty() || matches!(op, Op::ExecuteRedeem { .. } | Op::CancelRedeem { .. } | Op::Report { .. } | Op::CancelReplace { .. }) {
                    self.m.slashed = true;
                }
                let mut act = World::read(&exp);
                let d = name_new(&mut exp, &act, &self.m.w)
                    .err()
                    .map(|e| ("new request", e))
                    .or_else(|| differ(&exp, &act, &self.m.w, self.m.slashed));
                let f = differ_wrapped(&exp, &act, &self.m.w);
                act.rew = exp.rew;
                self.m.w = act;
                if let Some((what, d)) = d {
                    ctx.check(prop, &format!("{name}: {what} differs"), false, || format!("{op:?}: {d}"))?;
                }
                if let Some((what, d)) = f {
                    let p = if what == "pay-out" { "V09" } else { prop };
                    ctx.check(p, &format!("{name}: {what} differs"), false, || format!("{op:?}: {d}"))?;
                }
            }
        }
        Ok(())
    }

    /// What holds of the state whatever happened.
    fn invariants(&self, ctx: &mut Ctx) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let w = &self.m.w;
        let issued: u128 = w.v.values().map(|v| v.issued_tokens).sum::<u128>() + w.liq.iter().map(|l| l.issued).sum::<u128>();
        ctx.check("V01", "supply differs from what vaults owe", w.iss[W] == issued, || format!("{} tokens, vaults owe {issued}", w.iss[W]))?;
        let mut tbi: BTreeMap<usize, u128> = BTreeMap::new();
        let mut tbr: BTreeMap<usize, u128> = BTreeMap::new();
        let mut grief: BTreeMap<(u64, usize), u128> = BTreeMap::new();
        let mut actrep: BTreeMap<usize, u128> = BTreeMap::new();
        let mut locked: BTreeMap<u64, u128> = BTreeMap::new();
        for r in w.issues.values().filter(|r| r.status == IssueRequestStatus::Pending) {
            *tbi.entry(index_of(&r.vault)).or_default() += r.amount + r.fee;
            *grief.entry((r.requester, cur(r.griefing_currency))).or_default() += r.griefing_collateral;
        }
        for r in w.redeems.values().filter(|r| r.status == RedeemRequestStatus::Pending) {
            *tbr.entry(index_of(&r.vault)).or_default() += r.amount_btc + r.transfer_fee_btc;
            *locked.entry(r.redeemer).or_default() += r.amount_btc + r.transfer_fee_btc + r.fee;
        }
        for r in w.replaces.values().filter(|r| r.status == ReplaceRequestStatus::Pending) {
            *tbr.entry(index_of(&r.old_vault)).or_default() += r.amount;
            *tbi.entry(index_of(&r.new_vault)).or_default() += r.amount;
            *actrep.entry(index_of(&r.old_vault)).or_default() += r.griefing_collateral;
        }
        let mut dead_tbi = [0; 3];
        let mut dead_tbr = [0; 3];
        for (v, x) in &w.v {
            let (i, r) = (tbi.get(v).copied().unwrap_or(0), tbr.get(v).copied().unwrap_or(0));
            let dead = x.status == VaultStatus::Liquidated;
            if dead {
                dead_tbi[v % 3] += i;
                dead_tbr[v % 3] += r;
            }
            let ok = x.to_be_redeemed_tokens == r && (dead && x.to_be_issued_tokens == 0 || x.to_be_issued_tokens == i);
            ctx.check("V01", "reservations differ from open requests", ok, || {
                format!("vault {v}: to be issued {} (open requests {i}), to be redeemed {} (open requests {r})", x.to_be_issued_tokens, x.to_be_redeemed_tokens)
            })?;
            ctx.check("V01", "more to be redeemed than issued", dead || x.to_be_redeemed_tokens <= x.issued_tokens, || format!("vault {v}: {x:?}"))?;
            let a = actrep.get(v).copied().unwrap_or(0);
            ctx.check("V02", "griefing collateral of replacements differs", x.active_replace_collateral == a, || {
                format!("vault {v}: {}, open requests {a}", x.active_replace_collateral)
            })?;
        }
        for c in 0..3 {
            let l = &w.liq[c];
            ctx.check("V01", "liquidation vault differs from open requests", l.tbi == dead_tbi[c] && l.tbr == dead_tbr[c] && l.tbr <= l.issued, || {
                format!("{:?}: {l:?}, open requests to issue {} and to redeem {}", COLS[c], dead_tbi[c], dead_tbr[c])
            })?;
            let tol = self.m.slashed as u128 * 3;
            let all: u128 = (0..NV).filter(|v| v % 3 == c).map(|v| w.total(v) + w.v.get(&v).map_or(0, |x| x.liquidated_collateral)).sum::<u128>() + l.col;
            ctx.check("V02", "total collateral differs from the vaults'", w.tc[c].abs_diff(all) <= tol, || {
                format!("{:?}: {} recorded, vaults and liquidation vault have {all}", COLS[c], w.tc[c])
            })?;
            ctx.check("V02", "currency created or destroyed", w.iss[c] == self.m.issuance[c], || format!("{:?}: {} of {}", COLS[c], w.iss[c], self.m.issuance[c]))?;
            for a in 1..=PEOPLE {
                let v = if a <= 3 { Some((a as usize - 1) * 3 + c) } else { None };
                let mut want = grief.get(&(a, c)).copied().unwrap_or(0);
                if let Some(v) = v {
                    want += (0..=w.nonce[v]).map(|n| w.t.get(&(v, n)).copied().unwrap_or(0)).sum::<u128>();
                    want += w.v.get(&v).map_or(0, |x| x.liquidated_collateral);
                    if c == INTR {
                        want += w.v.iter().filter(|x| op_of(*x.0) == a).map(|x| x.1.replace_collateral + x.1.active_replace_collateral).sum::<u128>();
                    }
                }
                let r = w.res[&(a, c)];
                ctx.check("V02", "locked funds differ from what is recorded", r.abs_diff(want) <= tol, || {
                    format!("account {a} {:?}: {r} locked, {want} accounted for", COLS[c])
                })?;
            }
            ctx.check("V02", "liquidation vault's funds differ", w.res[&(LIQ, c)] == l.col, || format!("{:?}: {} locked, {} recorded", COLS[c], w.res[&(LIQ, c)], l.col))?;
        }
        for a in 1..=PEOPLE {
            let want = locked.get(&a).copied().unwrap_or(0) + grief.get(&(a, W)).copied().unwrap_or(0);
            ctx.check("V02", "locked tokens differ from open requests", w.res[&(a, W)] == want, || format!("account {a}: {} locked, open requests {want}", w.res[&(a, W)]))?;
        }
        ctx.state(hash_str(&format!("{:?}{:?}", w.v.values().map(|v| (v.issued_tokens, v.to_be_issued_tokens, v.to_be_redeemed_tokens)).collect::<Vec<_>>(), w.t)));
        Ok(())
    }

    fn produce(&mut self, src: &mut Src, ctx: &mut Ctx, all: bool) -> Res {
        let saved = self.m.clone();
        let mut body = vec![];
        let n = if all { self.pool.len() } else { src.usize(9).min(self.pool.len()) };
        for _ in 0..n {
            let i = if src.chance(1, 8) {
                ctx.fault("calls reordered");
                src.usize(self.pool.len())
            } else {
                0
            };
            body.push(self.pool.remove(i));
        }
        let step = if src.chance(1, 40) {
            ctx.fault("clock jump");
            // often to the very end of what a fed value is good for
            let ends: Vec<u64> = self.m.fed.values().map(|x| x.1 + self.max_delay).filter(|e| *e > self.m.now).collect();
            if !ends.is_empty() && src.chance(2, 3) {
                *src.pick(&ends) - self.m.now + src.below(2)
            } else {
                src.magnitude(self.max_delay as u128 * 2) as u64 + 1
            }
        } else {
            6_000 + src.below(12_000)
        };
        let mut crash = if src.chance(1, 16) { Some(src.usize(body.len() + 1)) } else { None };
        loop {
            let mut r = Ok(());
            let out = sim_node::block::<Rt, _>(None, || {
                r = self.begin(ctx, step);
                for (i, op) in body.iter().enumerate() {
                    if crash == Some(i) {
                        std::panic::panic_any(state::SimCrash);
                    }
                    if r.is_ok() {
                        r = self.apply(ctx, op);
                    }
                }
                if crash == Some(body.len()) {
                    std::panic::panic_any(state::SimCrash);
                }
            });
            r?;
            if out.is_ok() {
                break;
            }
            ctx.fault("crash inside a block");
            self.m = saved.clone();
            crash = None;
        }
        self.number += 1;
        ctx.sim_time += step / 1000;
        if !body.is_empty() {
            self.invariants(ctx)?;
        }
        Ok(())
    }

    fn direct(&mut self, ctx: &mut Ctx, op: Op) -> Res {
        self.apply(ctx, &op)
    }

    /// Prices from every oracle, a settled chain, every period over.
    fn calm(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.pool.clear();
        self.produce(src, ctx, true)?;
        let longest = [self.m.w.p.issue_period, self.m.w.p.redeem_period, self.m.w.p.replace_period]
            .into_iter()
            .chain(self.m.w.issues.values().map(|r| r.period))
            .chain(self.m.w.redeems.values().map(|r| r.period))
            .chain(self.m.w.replaces.values().map(|r| r.period))
            .max()
            .unwrap_or(0);
        let mut body = vec![];
        let tip = if self.net.blocks[self.tips[1]].height > self.net.blocks[self.tips[0]].height { self.tips[1] } else { self.tips[0] };
        let mut t = tip;
        let rivals = self.m.view.known.keys().map(|i| self.net.blocks[*i].height).max().unwrap_or(0);
        let goal = rivals.max(self.net.blocks[tip].height) + longest / PER_BTC_BLOCK + 4 + self.m.view.k;
        while self.net.blocks[t].height < goal {
            t = self.net.mine(t, vec![], 600);
        }
        self.tips = [t, t];
        for i in 1..self.net.blocks.len() {
            if !self.m.view.known.contains_key(&i) {
                body.push(Op::Header(i));
            }
        }
        for o in self.m.auth.clone() {
            body.push(Op::Feed { oracle: o, vals: (0..3).map(|i| (i, self.market[i])).collect() });
        }
        self.pool = body;
        for i in 0..longest + 3 {
            if i == 1 {
                for o in self.m.auth.clone() {
                    self.pool.push(Op::Feed { oracle: o, vals: (0..3).map(|i| (i, self.market[i])).collect() });
                }
            }
            self.number += 1;
            let body = std::mem::take(&mut self.pool);
            let mut r = Ok(());
            let _ = sim_node::block::<Rt, _>(None, || {
                self.number -= 1;
                r = self.begin(ctx, if i == 0 { self.max_delay + 1 } else { 6_000 }); // stale values go
                self.number += 1;
                for op in &body {
                    if r.is_ok() {
                        r = self.apply(ctx, op);
                    }
                }
            });
            r?;
        }
        Ok(())
    }
}

impl Scenario for Sim {
    const NAME: &'static str = "vaults";
    fn real() -> &'static [&'static str] {
        &["vault-registry", "issue", "redeem", "replace", "nomination", "fee", "reward", "staking", "oracle", "currency", "security", "btc-relay", "bitcoin"]
    }
    fn stubs() -> &'static [&'static str] {
        &["frame-system, frame-support, pallet-timestamp, orml-tokens", "lending markets (a fixed rate)", "Bitcoin network and proof of work"]
    }
    fn new(src: &mut Src, ctx: &mut Ctx) -> Self {
        state::disarm_crash();
        state::unwind_to(0);
        state::reset();
        System::reset_events();
        let (k, p) = (1 + src.below(2) as u32, src.below(2) as u32);
        btc_relay::GenesisConfig::<Rt> { bitcoin_confirmations: k, parachain_confirmations: p, disable_difficulty_check: true, disable_inclusion_check: false }.build();
        let mut prm = Params::default();
        for c in 0..3 {
            prm.min[c] = *src.pick(&[1, 1000, 1_000_000_000_000, 100_000_000_000_000]);
            prm.ceiling[c] = if src.chance(1, 4) { 1_000_000_000_000_000_000 } else { u128::MAX >> 8 };
            prm.secure[c] = percent(src, 146, 220);
            prm.premium[c] = percent(src, 136, 146);
            prm.liq[c] = percent(src, 105, 136);
        }
        prm.punish_delay = src.range(0, 20) as u32;
        prm.issue_period = src.range(3, 30) as u32;
        prm.redeem_period = src.range(3, 30) as u32;
        prm.replace_period = src.range(3, 30) as u32;
        prm.issue_dust = src.range(1, 2000) as u128;
        prm.redeem_dust = src.range(1, 2000) as u128;
        prm.replace_dust = src.range(1, 2000) as u128;
        prm.redeem_size = src.range(100, 500) as u32;
        prm.issue_fee = percent(src, 0, 2);
        prm.issue_grief = percent(src, 0, 1);
        prm.redeem_fee = percent(src, 0, 2);
        prm.premium_fee = percent(src, 0, 10);
        prm.punish_fee = percent(src, 0, 20);
        prm.replace_grief = percent(src, 0, 20);
        prm.lend_rate = if src.bool() { ONE } else { percent(src, 50, 3000) };
        LEND_RATE.with(|r| r.set(prm.lend_rate));
        let of = |x: &[u128; 3]| (0..3).map(|c| (pair(c), fx(x[c]))).collect::<Vec<_>>();
        vault_registry::GenesisConfig::<Rt> {
            minimum_collateral_vault: (0..3).map(|c| (COLS[c], prm.min[c])).collect(),
            punishment_delay: prm.punish_delay,
            system_collateral_ceiling: (0..3).map(|c| (pair(c), prm.ceiling[c])).collect(),
            secure_collateral_threshold: of(&prm.secure),
            premium_redeem_threshold: of(&prm.premium),
            liquidation_collateral_threshold: of(&prm.liq),
        }
        .build();
        issue::GenesisConfig::<Rt> { issue_period: prm.issue_period, issue_btc_dust_value: prm.issue_dust }.build();
        redeem::GenesisConfig::<Rt> { redeem_period: prm.redeem_period, redeem_btc_dust_value: prm.redeem_dust, redeem_transaction_size: prm.redeem_size }.build();
        replace::GenesisConfig::<Rt> { replace_period: prm.replace_period, replace_btc_dust_value: prm.replace_dust }.build();
        nomination::GenesisConfig::<Rt> { is_nomination_enabled: src.chance(7, 8), _marker: Default::default() }.build();
        fee::GenesisConfig::<Rt> {
            issue_fee: fx(prm.issue_fee),
            issue_griefing_collateral: fx(prm.issue_grief),
            redeem_fee: fx(prm.redeem_fee),
            premium_redeem_fee: fx(prm.premium_fee),
            punishment_fee: fx(prm.punish_fee),
            replace_griefing_collateral: fx(prm.replace_grief),
        }
        .build();
        let max_delay = *src.pick(&[600_000u64, 3_600_000, 10_000_000]);
        let oracles = 1 + src.below(3);
        oracle::GenesisConfig::<Rt> { max_delay: max_delay as u32, authorized_oracles: (1..=oracles).map(|a| (a, name("o"))).collect() }.build();
        let funds: u128 = 3_000_000_000_000_000_000;
        for a in 1..=PEOPLE {
            for c in COLS {
                orml_tokens::Pallet::<Rt>::sim_set_free(&a, c, funds);
            }
        }
        Security::on_initialize(1);
        System::set_block_number(1);
        let mut net = Net::new(START);
        let call = btc_relay::Call::<Rt>::initialize { block_header: net.header(0), block_height: START };
        let ready = sim_node::dispatch::<Rt, _>(call, RawOrigin::Signed(6).into()).is_ok();
        let mut view = View::new(0, 1, k, p);
        let mut tip = 0;
        for _ in 0..k + src.below(3) as u32 {
            tip = net.mine(tip, vec![], 600);
            let call = btc_relay::Call::<Rt>::store_block_header { block_header: net.header(tip), fork_bound: 1000 };
            let _ = sim_node::dispatch::<Rt, _>(call, RawOrigin::Signed(6).into());
            view.accept(&net, tip, 1);
        }
        let now = 1_700_000_000_000;
        Timestamp::set_timestamp(now);
        state::start_transaction();
        let mut w = World { p: prm, ..Default::default() };
        w.rew.pend = vec![0.0; NV];
        w = World::read(&w);
        w.best = view.height(&net);
        w.ready = w.best >= START + k;
        let issuance = [w.iss[0], w.iss[1], w.iss[2]];
        let mut s = Sim {
            tips: [tip, tip],
            net,
            split: false,
            m: Model { w, view, fed: BTreeMap::new(), auth: (1..=oracles).collect(), now, slashed: false, issuance, dead: !ready },
            max_delay,
            market: [10_000 * ONE, 1_000_000 * ONE, 10 * ONE],
            pool: vec![],
            unsent: vec![],
            pays: vec![],
            number: 1,
            steps: 60 + src.usize(140),
            weights: vec![],
            loss: src.below(3),
            stalled: BTreeSet::new(),
            crisis: src.chance(1, 6),
            few: src.chance(1, 6),
        };
        //              feed man nom iss red rep pay exe can oth rep gov cla mine blk wait
        s.weights = match ctx.property.as_str() {
            "V02" => vec![4, 3, 8, 5, 5, 4, 6, 6, 4, 3, 4, 2, 2, 6, 14, 2],
            "V03" => vec![4, 2, 1, 10, 2, 1, 8, 8, 5, 1, 2, 2, 1, 6, 14, 2],
            "V04" => vec![4, 2, 1, 6, 9, 1, 8, 8, 5, 5, 2, 2, 1, 6, 14, 2],
            "V05" if src.chance(1, 3) => vec![3, 2, 9, 6, 2, 12, 4, 5, 8, 1, 2, 2, 1, 6, 14, 2],
            "V05" => vec![3, 2, 1, 6, 2, 10, 8, 8, 4, 1, 2, 2, 1, 6, 14, 2],
            "V06" => vec![7, 6, 3, 8, 3, 3, 6, 6, 2, 1, 9, 3, 1, 5, 14, 1],
            "V07" => vec![4, 3, 14, 5, 3, 1, 4, 4, 2, 1, 4, 2, 3, 4, 14, 1],
            "V08" => vec![12, 2, 0, 3, 2, 0, 2, 2, 1, 0, 1, 3, 0, 2, 14, 2],
            "V09" => vec![3, 3, 6, 8, 5, 2, 7, 8, 2, 1, 2, 1, 8, 6, 14, 1],
            _ => vec![4, 3, 3, 7, 6, 4, 8, 8, 4, 3, 4, 2, 2, 6, 14, 2],
        };
        if s.crisis && src.bool() {
            // and nobody reports the vaults
            s.weights[10] = 0;
        }
        let part = if s.few { 8 } else if s.crisis { 4 } else { 2 };
        // prices, and some vaults to begin with
        for o in 1..=oracles {
            let vals = (0..3).map(|i| (i, s.market[i])).collect();
            let _ = s.direct(ctx, Op::Feed { oracle: o, vals });
        }
        let mut go = || -> Res {
            sim_node::block::<Rt, _>(None, || s.begin(ctx, 6_000)).map_err(|_| ()).unwrap_or(Ok(()))?;
            s.number += 1;
            for a in 1..=3 {
                s.direct(ctx, Op::Key(a))?;
            }
            for v in 0..NV {
                if src.chance(1, part) {
                    let col = s.start_collateral(src, v);
                    s.direct(ctx, Op::Register { v, col })?;
                    if src.chance(1, 3) {
                        s.direct(ctx, Op::OptIn { v })?;
                        s.direct(ctx, Op::Limit { v, x: col * 2 })?;
                    }
                }
            }
            Ok(())
        };
        let _ = go();
        s
    }
    fn steps(&self) -> usize {
        self.steps
    }
    fn panic_property(&self) -> Option<&'static str> {
        Some("V06")
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let kinds: &[usize] = match ctx.property.as_str() {
            "V03" => &[0],
            _ => &[0, 1, 2],
        };
        let op = match src.weighted(&self.weights.clone()) {
            0 => {
                self.feed(src, ctx);
                None
            }
            1 => Some(self.manage(src)),
            2 => Some(self.nominate(src)),
            3 => Some(self.ask_issue(src)),
            4 => Some(self.ask_redeem(src)),
            5 => self.ask_replace(src),
            6 => {
                self.pay(src, ctx, kinds);
                None
            }
            7 => {
                self.execute(src, ctx, kinds);
                None
            }
            8 => self.cancel(src),
            9 => self.other_redeem(src),
            10 => Some(self.report(src)),
            11 => Some(self.govern(src)),
            12 => Some(self.claim(src)),
            13 => {
                self.mine(src, ctx);
                None
            }
            14 => return self.produce(src, ctx, false),
            _ => {
                for _ in 0..src.range(2, 12) {
                    if src.chance(1, 4) {
                        self.mine(src, ctx);
                    }
                    self.produce(src, ctx, true)?;
                }
                None
            }
        };
        if let Some(op) = op {
            self.submit(src, ctx, op);
        }
        Ok(())
    }
    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.loss = 0;
        self.produce(src, ctx, true)?;
        if self.m.dead {
            return Ok(());
        }
        // the faults stop: whatever is open can be brought to an end
        self.calm(src, ctx)?;
        if self.m.dead || self.m.auth.is_empty() {
            return Ok(());
        }
        let mut r = Ok(());
        let _ = sim_node::block::<Rt, _>(None, || r = self.end(src, ctx));
        r?;
        self.invariants(ctx)
    }
}

impl Sim {
    fn must(&mut self, ctx: &mut Ctx, op: Op) -> Res {
        let net = &self.net;
        let (view, active) = (&self.m.view, self.m.w.active);
        let exp = self.m.w.spec(&op, |b| view.included(net, b, active).is_ok());
        if let Err(e) = &exp {
            if *e != "overflow" {
                ctx.check(prop_of(&op), &format!("cannot {}: {e}", op_name(&op)), false, || format!("{op:?} after the faults have stopped"))?;
            }
        }
        self.apply(ctx, &op)
    }
    fn end(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let w = self.m.w.clone();
        for (id, r) in w.issues.iter().filter(|r| r.1.status == IssueRequestStatus::Pending) {
            self.must(ctx, Op::CancelIssue { who: r.requester, id: *id })?;
        }
        for (id, r) in w.redeems.iter().filter(|r| r.1.status == RedeemRequestStatus::Pending) {
            self.must(ctx, Op::CancelRedeem { who: r.redeemer, id: *id, reimburse: src.bool() })?;
        }
        for (id, r) in w.replaces.iter().filter(|r| r.1.status == ReplaceRequestStatus::Pending) {
            self.must(ctx, Op::CancelReplace { who: r.new_vault.account_id, id: *id })?;
        }
        for v in w.v.keys() {
            for n in 0..=self.m.w.nonce[*v] {
                for a in 1..=PEOPLE {
                    if self.m.w.rew.own.get(&(*v, n, a)).map_or(false, |x| *x > 0.0) || self.m.w.stake(*v, n, a) > 0 {
                        self.must(ctx, Op::WithdrawRewards { who: a, v: *v, idx: Some(n) })?;
                    }
                }
            }
        }
        Ok(())
    }
}
