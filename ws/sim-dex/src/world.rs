//! What the exchanges' state is, and the rules of each call of the pairs.
use crate::{num::*, rt::*};
use codec::{Decode, Encode};
use dex_general::PairStatus;
use frame_support::PalletId;
use sp_runtime::traits::AccountIdConversion;
use frame_system::pallet_prelude::BlockNumberFor;
use orml_traits::MultiCurrency;
use primitive_types::U256;
use primitives::{CurrencyId, DOT, IBTC, INTR};
use std::collections::BTreeMap;

pub type R<T> = Result<T, &'static str>;
pub type Block = BlockNumberFor<Rt>;

/// currencies: 0..5 tokens, 5..9 the stable pools' shares, 9..15 the pairs' shares
pub const NT: usize = 5;
pub const NQ: usize = 4;
pub const NP: usize = 6;
pub const S0: usize = NT;
pub const L0: usize = NT + NQ;
pub const NC: usize = L0 + NP;
pub const DECIMALS: [u32; NT] = [10, 10, 8, 6, 18];
const PAIRS: [(usize, usize); NP] = [(0, 1), (0, 2), (1, 2), (2, 3), (2, S0), (0, 4)];

pub const USERS: usize = 5;
pub const FEE: usize = 5;
pub const ADM: usize = 6;
pub const BOOT: usize = 7;
pub const PAIR0: usize = 8;
pub const POOL0: usize = PAIR0 + NP;
pub const NA: usize = POOL0 + NQ;

pub fn cur(c: usize) -> CurrencyId {
    match c {
        0 => CurrencyId::Token(INTR),
        1 => CurrencyId::Token(DOT),
        2 => CurrencyId::Token(IBTC),
        3 => CurrencyId::ForeignAsset(1),
        4 => CurrencyId::ForeignAsset(2),
        c if c < L0 => CurrencyId::StableLpToken((c - S0) as u32),
        c => {
            let (a, b) = pair(c - L0);
            CurrencyId::join_lp_token(cur(a), cur(b)).unwrap()
        }
    }
}
pub fn pair(p: usize) -> (usize, usize) {
    let (a, b) = PAIRS[p];
    if cur(a) < cur(b) { (a, b) } else { (b, a) }
}
pub fn pair_of(a: usize, b: usize) -> Option<usize> {
    (0..NP).find(|p| PAIRS[*p] == (a, b) || PAIRS[*p] == (b, a))
}
pub fn account(a: usize) -> Acc {
    match a {
        FEE => 600,
        ADM => 700,
        BOOT => <PalletId as AccountIdConversion<Acc>>::into_sub_account_truncating(&<GeneralId as sp_core::Get<PalletId>>::get(), "boot"),
        a if a < USERS => a as u128 + 1,
        a if a < POOL0 => {
            let (x, y) = pair(a - PAIR0);
            General::pair_account_id(cur(x), cur(y))
        }
        a => Stable::pool_account_id(&((a - POOL0) as u32)),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Boot {
    pub target: (u128, u128),
    pub cap: (u128, u128),
    pub acc: (u128, u128),
    pub end: Block,
}
#[derive(Clone, PartialEq, Debug)]
pub enum St {
    Off,
    Boot(Boot),
    Trade { total: u128, rate: u128 },
}
#[derive(Clone, PartialEq, Debug)]
pub struct Pair {
    pub st: St,
    pub ended: Option<Boot>,
    pub k: U256,
    pub contrib: [(u128, u128); USERS],
    pub rewards: BTreeMap<usize, u128>,
    pub limits: BTreeMap<usize, u128>,
    pub listed: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Pool {
    pub cur: Vec<usize>,
    pub mult: Vec<u128>,
    pub bal: Vec<u128>,
    pub fee: u128,
    pub adm: u128,
    pub ia: u128,
    pub fa: u128,
    pub iat: u128,
    pub fat: u128,
    pub recv: usize,
    /// base pool, its price and when that was taken
    pub meta: Option<(usize, u128, u64)>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct World {
    pub block: Block,
    pub now: u64,
    pub free: [[u128; NC]; NA],
    pub iss: [u128; NC],
    pub fee: (bool, u8),
    pub pair: Vec<Pair>,
    pub pool: Vec<Pool>,
}

#[derive(Clone, Debug)]
pub enum Hop {
    General(Vec<usize>),
    Single(usize, usize, usize),
    FromBase(usize, usize, usize, usize),
    ToBase(usize, usize, usize, usize),
}
#[derive(Clone, Debug)]
pub enum Op {
    FeeReceiver { root: bool, on: bool },
    FeePoint { root: bool, x: u8 },
    Rate { root: bool, a: usize, b: usize, x: u128 },
    Create { root: bool, a: usize, b: usize, x: u128 },
    Add { who: usize, a: usize, b: usize, x: u128, y: u128, mx: u128, my: u128, dl: Block },
    Remove { who: usize, a: usize, b: usize, l: u128, mx: u128, my: u128, to: usize, dl: Block },
    SwapIn { who: usize, x: u128, min: u128, path: Vec<usize>, to: usize, dl: Block },
    SwapOut { who: usize, x: u128, max: u128, path: Vec<usize>, to: usize, dl: Block },
    Start { root: bool, a: usize, b: usize, t: (u128, u128), c: (u128, u128), end: Block, rewards: Vec<usize>, limits: Vec<(usize, u128)> },
    Change { root: bool, a: usize, b: usize, t: (u128, u128), c: (u128, u128), end: Block, rewards: Vec<usize>, limits: Vec<(usize, u128)> },
    Contribute { who: usize, a: usize, b: usize, x: u128, y: u128, dl: Block },
    Claim { who: usize, to: usize, a: usize, b: usize, dl: Block },
    End { who: usize, a: usize, b: usize },
    Refund { who: usize, a: usize, b: usize },
    Charge { who: usize, a: usize, b: usize, r: Vec<(usize, u128)> },
    Withdraw { root: bool, a: usize, b: usize, to: usize },
    NewPool { root: bool, cur: Vec<usize>, dec: Vec<u32>, a: u128, fee: u128, adm: u128, recv: usize, meta: bool },
    AddL { who: usize, q: usize, x: Vec<u128>, min: u128, to: usize, dl: Block },
    Swap { who: usize, q: usize, i: usize, j: usize, x: u128, min: u128, to: usize, dl: Block },
    RemoveL { who: usize, q: usize, l: u128, min: Vec<u128>, to: usize, dl: Block },
    RemoveOne { who: usize, q: usize, l: u128, i: usize, min: u128, to: usize, dl: Block },
    RemoveSome { who: usize, q: usize, x: Vec<u128>, max: u128, to: usize, dl: Block },
    AddBoth { who: usize, q: usize, b: usize, x: Vec<u128>, y: Vec<u128>, min: u128, to: usize, dl: Block },
    RemoveBoth { who: usize, q: usize, b: usize, l: u128, min: Vec<u128>, minb: Vec<u128>, to: usize, dl: Block },
    RemoveBothOne { who: usize, q: usize, b: usize, l: u128, i: usize, min: u128, to: usize, dl: Block },
    FromBase { who: usize, q: usize, b: usize, i: usize, j: usize, x: u128, min: u128, to: usize, dl: Block },
    ToBase { who: usize, q: usize, b: usize, i: usize, j: usize, x: u128, min: u128, to: usize, dl: Block },
    Under { who: usize, q: usize, i: usize, j: usize, x: u128, min: u128, to: usize, dl: Block },
    Route { who: usize, x: u128, min: u128, hops: Vec<Hop>, to: usize, dl: Block },
    Receiver { root: bool, q: usize, to: usize },
    SwapFee { root: bool, q: usize, x: u128 },
    AdminFee { root: bool, q: usize, x: u128 },
    Ramp { root: bool, q: usize, a: u128, t: u128 },
    StopRamp { root: bool, q: usize },
    AdminWithdraw { who: usize, q: usize },
    Transfer { from: usize, to: usize, c: usize, x: u128 },
}
pub fn prop_of(op: &Op) -> &'static str {
    match op {
        Op::SwapIn { .. } | Op::SwapOut { .. } | Op::Rate { .. } => "X01",
        Op::FeeReceiver { .. } | Op::FeePoint { .. } | Op::Create { .. } | Op::Add { .. } | Op::Remove { .. } | Op::Transfer { .. } => "X02",
        Op::Start { .. } | Op::Change { .. } | Op::Contribute { .. } | Op::Claim { .. } | Op::End { .. } | Op::Refund { .. } | Op::Charge { .. } | Op::Withdraw { .. } => "X03",
        Op::Swap { .. } => "X04",
        Op::AddL { .. } | Op::RemoveL { .. } | Op::RemoveOne { .. } | Op::RemoveSome { .. } => "X05",
        Op::AddBoth { .. } | Op::RemoveBoth { .. } | Op::RemoveBothOne { .. } | Op::FromBase { .. } | Op::ToBase { .. } | Op::Under { .. } | Op::Route { .. } => "X07",
        _ => "X06",
    }
}
pub fn op_name(op: &Op) -> String {
    let d = format!("{op:?}");
    d[..d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len())].to_string()
}

impl World {
    pub fn read(block: Block, now: u64) -> World {
        let ids: [Acc; NA] = std::array::from_fn(account);
        let curs: [CurrencyId; NC] = std::array::from_fn(cur);
        let back = |c: &CurrencyId| curs.iter().position(|x| x == c).unwrap_or(NC);
        let who = |a: &Acc| ids.iter().position(|x| x == a).unwrap_or(NA);
        let mut w = World { block, now, free: [[0; NC]; NA], iss: [0; NC], fee: (false, 0), pair: vec![], pool: vec![] };
        for c in 0..NC {
            w.iss[c] = <Tokens as MultiCurrency<Acc>>::total_issuance(curs[c]);
            if w.iss[c] > 0 {
                for a in 0..NA {
                    w.free[a][c] = Tokens::accounts(&ids[a], curs[c]).free;
                }
            }
        }
        let f = General::fee_meta();
        w.fee = (f.0.is_some(), f.1);
        type Status = PairStatus<u128, Block, Acc>;
        let boot = |s: &Status| match s {
            PairStatus::Bootstrap(b) => Some(Boot { target: b.target_supply, cap: b.capacity_supply, acc: b.accumulated_supply, end: b.end_block_number }),
            _ => None,
        };
        for p in 0..NP {
            let (a, b) = pair(p);
            let id = (curs[a], curs[b]);
            let st = General::pair_status(id);
            w.pair.push(Pair {
                st: match &st {
                    PairStatus::Trading(t) => St::Trade { total: t.total_supply, rate: t.fee_rate },
                    PairStatus::Disable => St::Off,
                    b => St::Boot(boot(b).unwrap()),
                },
                ended: boot(&General::bootstrap_end_status(id)),
                k: General::k_last(id),
                contrib: std::array::from_fn(|u| General::bootstrap_personal_supply((id, ids[u]))),
                rewards: General::get_bootstrap_rewards(id).iter().map(|(c, x)| (back(c), *x)).collect(),
                limits: General::get_bootstrap_limits(id).iter().map(|(c, x)| (back(c), *x)).collect(),
                listed: General::lp_pairs(id).is_some(),
            });
        }
        for q in 0..NQ {
            let Some(pool) = Stable::pools(q as u32) else { break };
            let e = pool.encode();
            let meta = (e[0] == 1).then(|| {
                let mut r = &e[1..];
                let b = u32::decode(&mut r).unwrap() as usize;
                (b, u128::decode(&mut r).unwrap(), u64::decode(&mut r).unwrap())
            });
            let i = pool.info();
            w.pool.push(Pool {
                cur: i.currency_ids.iter().map(|c| back(c)).collect(),
                mult: i.token_multipliers.to_vec(),
                bal: i.balances.to_vec(),
                fee: i.fee,
                adm: i.admin_fee,
                ia: i.initial_a,
                fa: i.future_a,
                iat: i.initial_a_time,
                fat: i.future_a_time,
                recv: who(&i.admin_fee_receiver),
                meta,
            });
        }
        w
    }

    pub fn mv(&mut self, c: usize, from: usize, to: usize, x: u128) -> R<()> {
        if x == 0 || from == to {
            return Ok(());
        }
        self.free[from][c] = self.free[from][c].checked_sub(x).ok_or("not enough tokens")?;
        self.free[to][c] += x;
        Ok(())
    }
    pub fn mint(&mut self, c: usize, to: usize, x: u128) {
        self.free[to][c] += x;
        self.iss[c] += x;
    }
    pub fn burn(&mut self, c: usize, from: usize, x: u128) -> R<()> {
        self.free[from][c] = self.free[from][c].checked_sub(x).ok_or("not enough tokens")?;
        self.iss[c] -= x;
        Ok(())
    }
    pub fn reserves(&self, p: usize) -> (u128, u128) {
        let (a, b) = pair(p);
        (self.free[PAIR0 + p][a], self.free[PAIR0 + p][b])
    }
    fn reserve(&self, p: usize, c: usize) -> u128 {
        self.free[PAIR0 + p][c]
    }
    fn rate(&self, p: usize) -> u128 {
        match self.pair[p].st {
            St::Trade { rate, .. } => rate,
            _ => 30,
        }
    }
    fn due(&self, dl: Block) -> R<()> {
        if dl > self.block { Ok(()) } else { Err("too late") }
    }
    pub fn failed(&self, b: &Boot) -> bool {
        self.block > b.end && (b.acc.0 < b.target.0 || b.acc.1 < b.target.1)
    }

    /// What a path gives, by the reserves as they are when each hop is taken.
    pub fn path_out(&self, x: u128, path: &[usize]) -> R<Vec<u128>> {
        if path.len() < 2 {
            return Err("no path");
        }
        let mut v = vec![x];
        for h in path.windows(2) {
            let p = pair_of(h[0], h[1]).ok_or("no such pair")?;
            let (ri, ro) = (self.reserve(p, h[0]), self.reserve(p, h[1]));
            let x = *v.last().unwrap();
            if ri == 0 || ro == 0 || x == 0 {
                return Err("nothing to swap");
            }
            let f = U256::from(x) * U256::from(10_000 - self.rate(p));
            let y = f * U256::from(ro) / (U256::from(ri) * U256::from(10_000) + f);
            if y.is_zero() {
                return Err("nothing comes out");
            }
            v.push(y.as_u128());
        }
        Ok(v)
    }
    pub fn path_in(&self, y: u128, path: &[usize]) -> R<Vec<u128>> {
        if path.len() < 2 {
            return Err("no path");
        }
        let mut v = vec![y];
        for h in path.windows(2).rev() {
            let p = pair_of(h[0], h[1]).ok_or("no such pair")?;
            let (ri, ro) = (self.reserve(p, h[0]), self.reserve(p, h[1]));
            let y = *v.last().unwrap();
            if ri == 0 || ro == 0 || y == 0 || y >= ro {
                return Err("not in the reserves");
            }
            let n = U256::from(ri) * U256::from(y) * U256::from(10_000);
            let x = n / (U256::from(ro - y) * U256::from(10_000 - self.rate(p))) + 1;
            v.push(u128::try_from(x).map_err(|_| "too much")?);
        }
        v.reverse();
        Ok(v)
    }
    fn hops(&mut self, who: usize, v: &[u128], path: &[usize], to: usize) -> R<()> {
        let p: Vec<usize> = path.windows(2).map(|h| pair_of(h[0], h[1]).unwrap()).collect();
        self.mv(path[0], who, PAIR0 + p[0], v[0])?;
        for i in 0..p.len() {
            if !matches!(self.pair[p[i]].st, St::Trade { .. }) {
                return Err("pair does not trade");
            }
            // each hop by itself keeps the product of the reserves there are
            let (ri, ro) = (self.reserve(p[i], path[i]), self.reserve(p[i], path[i + 1]));
            let before = U256::from(ri - v[i]) * U256::from(ro);
            if v[i + 1] > ro || U256::from(ri) * U256::from(ro - v[i + 1]) < before {
                return Err("the reserves' product would fall");
            }
            let t = if i + 1 < p.len() { PAIR0 + p[i + 1] } else { to };
            self.mv(path[i + 1], PAIR0 + p[i], t, v[i + 1])?;
        }
        Ok(())
    }
    /// The protocol's part of the growth since the pair was last touched.
    fn protocol(&mut self, p: usize) {
        let k = self.pair[p].k;
        let (r0, r1) = self.reserves(p);
        let St::Trade { total, rate } = self.pair[p].st.clone() else { return };
        if !self.fee.0 {
            self.pair[p].k = U256::zero();
        } else if !k.is_zero() {
            let (is, was) = (sqrt(U256::from(r0) * U256::from(r1)), sqrt(k));
            if is > was {
                let x = U256::from(total) * (is - was) / (is * U256::from(self.fee.1) + was);
                let x = u128::try_from(x).unwrap_or(0);
                self.mint(L0 + p, FEE, x);
                self.pair[p].st = St::Trade { total: total + x, rate };
            }
        }
    }
    fn remember(&mut self, p: usize) {
        if self.fee.0 {
            let (a, b) = self.reserves(p);
            self.pair[p].k = U256::from(a) * U256::from(b);
        }
    }
    fn add(&mut self, who: usize, a: usize, b: usize, x: u128, y: u128, mx: u128, my: u128) -> R<()> {
        let p = pair_of(a, b).ok_or("no such pair")?;
        if !matches!(self.pair[p].st, St::Trade { .. }) {
            return Err("pair does not trade");
        }
        let (ra, rb) = (self.reserve(p, a), self.reserve(p, b));
        let (x, y) = if ra == 0 || rb == 0 {
            (x, y)
        } else {
            let best = muldiv(x, rb, ra).unwrap_or(0);
            if best <= y {
                if best < my {
                    return Err("beyond the limits");
                }
                (x, best)
            } else {
                let best = muldiv(y, ra, rb).unwrap_or(0);
                if best < mx || best > x {
                    return Err("beyond the limits");
                }
                (best, y)
            }
        };
        if self.free[who][a] < x || self.free[who][b] < y {
            return Err("not enough tokens");
        }
        self.protocol(p);
        let St::Trade { total, rate } = self.pair[p].st else { unreachable!() };
        let l = if total == 0 {
            sqrt(U256::from(x) * U256::from(y)).as_u128()
        } else {
            muldiv(x, total, ra).unwrap_or(0).min(muldiv(y, total, rb).unwrap_or(0))
        };
        if l == 0 {
            return Err("nothing to mint");
        }
        self.pair[p].st = St::Trade { total: total + l, rate };
        self.mint(L0 + p, who, l);
        self.mv(a, who, PAIR0 + p, x)?;
        self.mv(b, who, PAIR0 + p, y)?;
        self.remember(p);
        Ok(())
    }
    fn remove(&mut self, who: usize, a: usize, b: usize, l: u128, mx: u128, my: u128, to: usize) -> R<()> {
        let p = pair_of(a, b).ok_or("no such pair")?;
        if !matches!(self.pair[p].st, St::Trade { .. }) {
            return Err("pair does not trade");
        }
        let (ra, rb) = (self.reserve(p, a), self.reserve(p, b));
        self.protocol(p);
        let St::Trade { total, rate } = self.pair[p].st else { unreachable!() };
        let (x, y) = (muldiv(ra, l, total).unwrap_or(0), muldiv(rb, l, total).unwrap_or(0));
        if x < mx || y < my {
            return Err("less than asked for");
        }
        let left = total.checked_sub(l).ok_or("more than there is")?;
        self.pair[p].st = St::Trade { total: left, rate };
        self.burn(L0 + p, who, l)?;
        self.mv(a, PAIR0 + p, to, x)?;
        self.mv(b, PAIR0 + p, to, y)?;
        self.remember(p);
        Ok(())
    }

    /// What the pairs' state is after the call, or why the call is refused.
    pub fn spec(&self, op: &Op) -> R<World> {
        let mut w = self.clone();
        let root = |r: &bool| if *r { Ok(()) } else { Err("not governance") };
        let tradable = |c: usize| if c < L0 { Ok(()) } else { Err("no such asset") };
        match op {
            Op::FeeReceiver { root: r, on } => {
                root(r)?;
                w.fee.0 = *on;
            }
            Op::FeePoint { root: r, x } => {
                root(r)?;
                w.fee.1 = *x;
            }
            Op::Rate { root: r, a, b, x } => {
                root(r)?;
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                let St::Trade { total, .. } = w.pair[p].st else { return Err("pair does not trade") };
                if *x >= 10_000 {
                    return Err("fee too high");
                }
                w.pair[p].st = St::Trade { total, rate: *x };
            }
            Op::Create { root: r, a, b, x } => {
                root(r)?;
                tradable(*a)?;
                tradable(*b)?;
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                if *x >= 10_000 {
                    return Err("fee too high");
                }
                match &self.pair[p].st {
                    St::Trade { .. } => return Err("already there"),
                    St::Boot(b) if self.failed(b) => w.pair[p].ended = Some(b.clone()),
                    St::Boot(_) => return Err("already there"),
                    St::Off => {}
                }
                w.pair[p].st = St::Trade { total: 0, rate: *x };
                w.pair[p].listed = true;
            }
            Op::Add { who, a, b, x, y, mx, my, dl } => {
                w.due(*dl)?;
                w.add(*who, *a, *b, *x, *y, *mx, *my)?;
            }
            Op::Remove { who, a, b, l, mx, my, to, dl } => {
                w.due(*dl)?;
                w.remove(*who, *a, *b, *l, *mx, *my, *to)?;
            }
            Op::SwapIn { who, x, min, path, to, dl } => {
                w.due(*dl)?;
                let v = w.path_out(*x, path)?;
                if v.last().unwrap() < min {
                    return Err("less than asked for");
                }
                w.hops(*who, &v, path, *to)?;
            }
            Op::SwapOut { who, x, max, path, to, dl } => {
                w.due(*dl)?;
                let v = w.path_in(*x, path)?;
                if v[0] > *max {
                    return Err("more than offered");
                }
                w.hops(*who, &v, path, *to)?;
            }
            Op::Start { root: r, a, b, t, c, end, rewards, limits } | Op::Change { root: r, a, b, t, c, end, rewards, limits } => {
                root(r)?;
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                let turn = |v: &(u128, u128)| if pair(p).0 == *a { *v } else { (v.1, v.0) };
                let again = matches!(op, Op::Change { .. });
                let acc = match &self.pair[p].st {
                    St::Trade { .. } => return Err("already there"),
                    St::Boot(b) if again || self.failed(b) => b.acc,
                    St::Boot(_) => return Err("already there"),
                    St::Off if again => return Err("no bootstrap"),
                    St::Off => (0, 0),
                };
                if matches!(self.pair[p].st, St::Boot(_)) && self.pair[p].rewards.values().any(|x| *x > 0) {
                    return Err("rewards are left");
                }
                w.pair[p].st = St::Boot(Boot { target: turn(t), cap: turn(c), acc, end: *end });
                w.pair[p].rewards = rewards.iter().map(|c| (*c, 0)).collect();
                w.pair[p].limits = limits.iter().copied().collect();
            }
            Op::Contribute { who, a, b, x, y, dl } => {
                w.due(*dl)?;
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                if self.pair[p].limits.iter().any(|(c, x)| self.free[*who][*c] < *x) {
                    return Err("not qualified");
                }
                let St::Boot(mut s) = self.pair[p].st.clone() else { return Err("no bootstrap") };
                if self.block >= s.end {
                    return Err("bootstrap is over");
                }
                let (x, y) = if pair(p).0 == *a { (*x, *y) } else { (*y, *x) };
                // what is above the capacity is not taken
                let x = if s.acc.0.checked_add(x).ok_or("too much")? > s.cap.0 { s.cap.0.checked_sub(s.acc.0).ok_or("full")? } else { x };
                let y = if s.acc.1.checked_add(y).ok_or("too much")? > s.cap.1 { s.cap.1.checked_sub(s.acc.1).ok_or("full")? } else { y };
                if x == 0 && y == 0 {
                    return Err("nothing contributed");
                }
                w.mv(pair(p).0, *who, BOOT, x)?;
                w.mv(pair(p).1, *who, BOOT, y)?;
                s.acc = (s.acc.0 + x, s.acc.1 + y);
                w.pair[p].st = St::Boot(s);
                let c = &mut w.pair[p].contrib[*who];
                *c = (c.0 + x, c.1 + y);
            }
            Op::End { a, b, .. } => {
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                let St::Boot(s) = self.pair[p].st.clone() else { return Err("no bootstrap") };
                if self.block < s.end || s.acc.0 < s.target.0 || s.acc.1 < s.target.1 {
                    return Err("bootstrap not done");
                }
                let l = sqrt(U256::from(s.acc.0) * U256::from(s.acc.1)).as_u128();
                if l == 0 {
                    return Err("nothing to mint");
                }
                w.mv(pair(p).0, BOOT, PAIR0 + p, s.acc.0)?;
                w.mv(pair(p).1, BOOT, PAIR0 + p, s.acc.1)?;
                w.mint(L0 + p, PAIR0 + p, l);
                w.pair[p].st = St::Trade { total: l, rate: 30 };
                w.pair[p].ended = Some(s);
                w.pair[p].listed = true;
            }
            Op::Claim { who, to, a, b, dl } => {
                w.due(*dl)?;
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                if !matches!(self.pair[p].st, St::Trade { .. }) {
                    return Err("bootstrap is not over");
                }
                let (x, y) = self.pair[p].contrib[*who];
                if (x, y) == (0, 0) {
                    return Err("nothing contributed");
                }
                let s = self.pair[p].ended.clone().ok_or("no bootstrap")?;
                if self.failed(&s) {
                    return Err("bootstrap failed");
                }
                let l = self.share(p, *who).ok_or("too much")?;
                w.mv(L0 + p, PAIR0 + p, *to, l)?;
                let all = sqrt(U256::from(s.acc.0) * U256::from(s.acc.1)).as_u128();
                for (c, r) in self.pair[p].rewards.iter() {
                    w.mv(*c, BOOT, *who, muldiv(l, *r, all).ok_or("too much")?)?;
                }
                w.pair[p].contrib[*who] = (0, 0);
            }
            Op::Refund { who, a, b } => {
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                let s = match &self.pair[p].st {
                    St::Boot(b) => b.clone(),
                    _ => self.pair[p].ended.clone().ok_or("no bootstrap")?,
                };
                if !self.failed(&s) {
                    return Err("bootstrap has not failed");
                }
                let (x, y) = self.pair[p].contrib[*who];
                if (x, y) == (0, 0) {
                    return Err("nothing contributed");
                }
                w.mv(pair(p).0, BOOT, *who, x)?;
                w.mv(pair(p).1, BOOT, *who, y)?;
                if let St::Boot(b) = &mut w.pair[p].st {
                    b.acc = (b.acc.0 - x, b.acc.1 - y);
                }
                w.pair[p].contrib[*who] = (0, 0);
            }
            Op::Charge { who, a, b, r } => {
                let p = pair_of(*a, *b).ok_or("no such pair")?;
                if r.len() != self.pair[p].rewards.len() {
                    return Err("other rewards");
                }
                for (c, x) in r {
                    if !self.pair[p].rewards.contains_key(c) {
                        return Err("no such reward");
                    }
                    w.mv(*c, *who, BOOT, *x)?;
                    *w.pair[p].rewards.get_mut(c).unwrap() += x;
                }
            }
            Op::Withdraw { root: r, a, b, to } => {
                root(r)?;
                if let Some(p) = pair_of(*a, *b) {
                    for (c, x) in self.pair[p].rewards.iter() {
                        w.mv(*c, BOOT, *to, *x)?;
                        w.pair[p].rewards.insert(*c, 0);
                    }
                }
            }
            Op::Transfer { from, to, c, x } => w.mv(*c, *from, *to, *x)?,
            _ => unreachable!(),
        }
        Ok(w)
    }
    /// The share of the pair which a contribution has turned into.
    pub fn share(&self, p: usize, who: usize) -> Option<u128> {
        let s = self.pair[p].ended.as_ref()?;
        let (x, y) = self.pair[p].contrib[who];
        let (x, y, tx, ty) = (U256::from(x), U256::from(y), U256::from(s.acc.0), U256::from(s.acc.1));
        if tx.is_zero() || ty.is_zero() {
            return None;
        }
        let half = |a: U256, ta: U256, b: U256, tb: U256| Some((a.checked_mul(tb)? + b.checked_mul(ta)?) / (tb * 2));
        let (a, b) = (half(x, tx, y, ty)?, half(y, ty, x, tx)?);
        u128::try_from(sqrt(a.checked_mul(b)?)).ok()
    }
}

/// The first thing in which two states differ.
pub fn differ(exp: &World, act: &World) -> Option<(&'static str, String)> {
    for c in 0..NC {
        for a in 0..NA {
            if exp.free[a][c] != act.free[a][c] {
                return Some(("balance", format!("account {a} currency {c}: is {}, by the rules {}", act.free[a][c], exp.free[a][c])));
            }
        }
        if exp.iss[c] != act.iss[c] {
            return Some(("issuance", format!("currency {c}: is {}, by the rules {}", act.iss[c], exp.iss[c])));
        }
    }
    for (p, (e, a)) in exp.pair.iter().zip(&act.pair).enumerate() {
        if e != a {
            return Some(("pair", format!("{p}: is {a:?}, by the rules {e:?}")));
        }
    }
    if exp.pool.len() != act.pool.len() {
        return Some(("pools", format!("{} and {}", act.pool.len(), exp.pool.len())));
    }
    for (q, (e, a)) in exp.pool.iter().zip(&act.pool).enumerate() {
        if e != a {
            return Some(("pool", format!("{q}: is {a:?}, by the rules {e:?}")));
        }
    }
    (exp.fee != act.fee).then(|| ("fee settings", format!("are {:?}, by the rules {:?}", act.fee, exp.fee)))
}
