//! What the lending markets' state is, and the rules of each call.
use crate::{num::*, rt::*};
use loans::{InterestRateModel, Market, MarketState};
use orml_traits::MultiCurrency;
use primitives::CurrencyId;
use sp_arithmetic::{traits::{CheckedDiv, CheckedMul, Saturating}, FixedPointNumber, FixedU128, Permill};
use sp_runtime::traits::{One, Zero};
use std::collections::BTreeMap;

pub type R<T> = Result<T, &'static str>;

/// DOT, the wrapped token (in which values are expressed) and INTR (in which rewards are paid)
pub const UNDER: [CurrencyId; 3] = [DOT, WRAPPED, NATIVE];
pub const NM: usize = 3;
/// currencies 0..3 are underlying, 3..6 the markets' lend tokens
pub const NC: usize = 6;
pub fn cur(c: usize) -> CurrencyId {
    if c < NM { UNDER[c] } else { CurrencyId::LendToken((c - NM) as u32 + 1) }
}
pub const PEOPLE: usize = 6;
pub const POOL: usize = 6;
pub const INCENTIVE: usize = 7;
pub const REWARD: usize = 8;
pub const NA: usize = 9;
pub fn account(a: usize) -> Acc {
    match a {
        POOL => Loans::account_id(),
        INCENTIVE => Loans::incentive_reward_account_id(),
        REWARD => Loans::reward_account_id(),
        a => a as u128 + 1,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Mkt {
    pub p: Market<u128>,
    pub last: u64,
    pub tb: u128,
    pub tr: u128,
    pub idx: FixedU128,
    /// exchange, borrow and supply rate and utilization as last published
    pub shown: (FixedU128, FixedU128, FixedU128, Permill),
}

/// A number per account and currency.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Tab([[u128; NC]; NA]);
impl std::ops::Index<&(usize, usize)> for Tab {
    type Output = u128;
    fn index(&self, k: &(usize, usize)) -> &u128 {
        &self.0[k.0][k.1]
    }
}
impl Tab {
    pub fn get_mut(&mut self, k: &(usize, usize)) -> Option<&mut u128> {
        Some(&mut self.0[k.0][k.1])
    }
    fn differ(&self, a: &Tab) -> Option<String> {
        (0..NA * NC)
            .map(|i| (i / NC, i % NC))
            .find(|k| self[k] != a[k])
            .map(|k| format!("account {} currency {}: is {}, by the rules {}", k.0, k.1, a[&k], self[&k]))
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct World {
    pub now: u64,
    pub price: [Option<u128>; NM],
    pub m: BTreeMap<usize, Mkt>,
    pub bor: BTreeMap<(usize, usize), (u128, FixedU128)>,
    pub dep: BTreeMap<(usize, usize), u128>,
    pub free: Tab,
    pub res: Tab,
    pub iss: [u128; NC],
    pub speed: [(u128, u128); NM],
    pub min: FixedU128,
    pub max: FixedU128,
}

#[derive(Clone, Debug)]
pub enum Op {
    Mint { who: usize, m: usize, x: u128 },
    Redeem { who: usize, m: usize, x: u128 },
    RedeemAll { who: usize, m: usize },
    Borrow { who: usize, m: usize, x: u128 },
    Repay { who: usize, m: usize, x: u128 },
    RepayAll { who: usize, m: usize },
    Lock { who: usize, m: usize },
    Unlock { who: usize, m: usize },
    Liquidate { who: usize, b: usize, m: usize, x: u128, cm: usize },
    AddReserves { root: bool, from: usize, m: usize, x: u128 },
    ReduceReserves { root: bool, to: usize, m: usize, x: u128 },
    ReduceIncentive { root: bool, to: usize, m: usize, x: u128 },
    AddReward { who: usize, x: u128 },
    Speed { root: bool, m: usize, s: Option<u128>, b: Option<u128> },
    Claim { who: usize },
    ClaimMarket { who: usize, m: usize },
    Transfer { from: usize, to: usize, c: usize, x: u128 },
    AddMarket { root: bool, m: usize, p: Market<u128> },
    Activate { root: bool, m: usize },
    Rates { root: bool, m: usize, r: InterestRateModel },
    Update { root: bool, m: usize, u: Upd },
}
#[derive(Clone, Debug, Default)]
pub struct Upd {
    pub cf: Option<Permill>,
    pub lt: Option<Permill>,
    pub rf: Option<Permill>,
    pub close: Option<Permill>,
    pub ir: Option<Permill>,
    pub inc: Option<FixedU128>,
    pub sc: Option<u128>,
    pub bc: Option<u128>,
}

pub fn prop_of(op: &Op) -> &'static str {
    match op {
        Op::Mint { .. } | Op::Redeem { .. } | Op::RedeemAll { .. } => "L01",
        Op::Repay { .. } | Op::RepayAll { .. } | Op::AddReserves { .. } | Op::ReduceReserves { .. } => "L02",
        Op::Borrow { .. } | Op::Lock { .. } | Op::Unlock { .. } | Op::Transfer { .. } => "L03",
        Op::Liquidate { .. } | Op::ReduceIncentive { .. } => "L04",
        Op::AddReward { .. } | Op::Speed { .. } | Op::Claim { .. } | Op::ClaimMarket { .. } => "L05",
        Op::AddMarket { .. } | Op::Activate { .. } | Op::Rates { .. } | Op::Update { .. } => "L06",
    }
}
pub fn op_name(op: &Op) -> String {
    let d = format!("{op:?}");
    d[..d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len())].to_string()
}

pub fn rates_ok(r: &InterestRateModel) -> bool {
    let pc = |n: u128| FixedU128::saturating_from_rational(n, 100u128);
    match r {
        InterestRateModel::Jump(j) => {
            j.base_rate <= pc(10) && j.jump_rate <= pc(100) && j.full_rate <= pc(500) && j.base_rate <= j.jump_rate && j.jump_rate <= j.full_rate && !j.jump_utilization.is_zero()
        }
        InterestRateModel::Curve(c) => c.base_rate <= pc(10),
    }
}
const YEAR: u128 = 31_536_000;
fn fxu(u: Permill) -> FixedU128 {
    FixedU128::from_inner(u.deconstruct() as u128 * (ONE / 1_000_000))
}
/// The yearly rate at a utilization.
pub fn borrow_rate(r: &InterestRateModel, u: Permill) -> R<FixedU128> {
    let f = |a: FixedU128, b: FixedU128| a.checked_mul(&b).ok_or("overflow");
    match r {
        InterestRateModel::Jump(j) => {
            let (at, rise, from, width) = if u <= j.jump_utilization {
                (u, j.jump_rate.saturating_sub(j.base_rate), j.base_rate, j.jump_utilization)
            } else {
                (u - j.jump_utilization, j.full_rate.saturating_sub(j.jump_rate), j.jump_rate, Permill::one() - j.jump_utilization)
            };
            f(rise, fxu(at))?.checked_div(&fxu(width)).map(|x| x.saturating_add(from)).ok_or("no rate")
        }
        InterestRateModel::Curve(c) => Ok(fxu(u).saturating_pow(9).saturating_add(c.base_rate)),
    }
}

impl World {
    pub fn read(old: &World) -> World {
        let mut w = World { now: old.now, min: old.min, max: old.max, ..Default::default() };
        let ids: [Acc; NA] = std::array::from_fn(account);
        for i in 0..NM {
            w.price[i] = if i == 1 { Some(ONE) } else { Oracle::get_price(primitives::oracle::Key::ExchangeRate(UNDER[i])).ok().map(|p| p.into_inner()) };
            let c = UNDER[i];
            if let Ok(p) = Loans::market(c) {
                w.m.insert(
                    i,
                    Mkt {
                        p,
                        last: Loans::last_accrued_interest_time(c),
                        tb: loans::TotalBorrows::<Rt>::get(c),
                        tr: loans::TotalReserves::<Rt>::get(c),
                        idx: Loans::borrow_index(c),
                        shown: (Loans::exchange_rate(c), Loans::borrow_rate(c), Loans::supply_rate(c), Loans::utilization_ratio(c)),
                    },
                );
            }
            w.speed[i] = (Loans::reward_supply_speed(c), Loans::reward_borrow_speed(c));
            for a in 0..NA {
                if a < PEOPLE {
                    let b = Loans::account_borrows(c, ids[a]);
                    if b.principal != 0 {
                        w.bor.insert((i, a), (b.principal, b.borrow_index));
                    }
                }
                let d = loans::AccountDeposits::<Rt>::get(cur(NM + i), ids[a]);
                if d != 0 {
                    w.dep.insert((i, a), d);
                }
            }
        }
        for c in 0..NC {
            w.iss[c] = <Tokens as MultiCurrency<Acc>>::total_issuance(cur(c));
            for a in 0..NA {
                let x = Tokens::accounts(&ids[a], cur(c));
                *w.free.get_mut(&(a, c)).unwrap() = x.free;
                *w.res.get_mut(&(a, c)).unwrap() = x.reserved;
            }
        }
        w
    }

    pub fn free(&self, a: usize, c: usize) -> u128 {
        self.free[&(a, c)]
    }
    pub fn total(&self, a: usize, c: usize) -> u128 {
        self.free[&(a, c)] + self.res[&(a, c)]
    }
    pub fn dep(&self, m: usize, a: usize) -> u128 {
        self.dep.get(&(m, a)).copied().unwrap_or(0)
    }
    pub fn mk(&self, m: usize) -> R<&Mkt> {
        self.m.get(&m).ok_or("no such market")
    }
    pub fn active(&self, m: usize) -> R<()> {
        if self.mk(m)?.p.state == MarketState::Active { Ok(()) } else { Err("market not active") }
    }
    fn mv(&mut self, from: usize, to: usize, c: usize, x: u128) -> R<()> {
        if x == 0 || from == to {
            return Ok(());
        }
        if self.free(from, c) < x {
            return Err("not enough funds");
        }
        if c >= NM && !self.m.contains_key(&(c - NM)) {
            return Err("no such market");
        }
        *self.free.get_mut(&(from, c)).unwrap() -= x;
        *self.free.get_mut(&(to, c)).unwrap() += x;
        if c >= NM && self.dep(c - NM, to) != 0 {
            self.lock(to, c - NM, x)?;
        }
        Ok(())
    }
    fn lock(&mut self, a: usize, m: usize, x: u128) -> R<()> {
        self.active(m)?;
        if self.free(a, NM + m) < x {
            return Err("not enough funds");
        }
        *self.free.get_mut(&(a, NM + m)).unwrap() -= x;
        *self.res.get_mut(&(a, NM + m)).unwrap() += x;
        let d = self.dep(m, a) + x;
        if d != 0 {
            self.dep.insert((m, a), d);
        }
        Ok(())
    }
    fn unlock(&mut self, a: usize, m: usize, x: u128) -> R<()> {
        let d = self.dep(m, a).checked_sub(x).ok_or("more than is locked")?;
        *self.res.get_mut(&(a, NM + m)).unwrap() -= x;
        *self.free.get_mut(&(a, NM + m)).unwrap() += x;
        if d == 0 {
            self.dep.remove(&(m, a));
        } else {
            self.dep.insert((m, a), d);
        }
        Ok(())
    }

    // ------------------------------------------------------------ interest

    pub fn cash(&self, m: usize) -> u128 {
        self.free(POOL, m)
    }
    /// what all lend tokens of a market are worth
    pub fn backing(&self, m: usize) -> R<u128> {
        let k = self.mk(m)?;
        (self.cash(m) + k.tb).checked_sub(k.tr).ok_or("reserves exceed everything")
    }
    pub fn rate(&self, m: usize) -> R<FixedU128> {
        let s = self.iss[NM + m];
        if s == 0 {
            return Ok(self.min);
        }
        let r = FixedU128::checked_from_rational(self.backing(m)?, s).ok_or("overflow")?;
        if r < self.min {
            return Err("exchange rate below its limit");
        }
        if r >= self.max {
            return Err("exchange rate above its limit");
        }
        Ok(r)
    }
    pub fn util(&self, m: usize) -> R<Permill> {
        let k = self.mk(m)?;
        if k.tb == 0 {
            return Ok(Permill::zero());
        }
        Ok(Permill::from_rational(k.tb, self.backing(m)?))
    }
    pub fn accrue(&mut self, m: usize) -> R<()> {
        let now = self.now;
        let k = self.mk(m)?.clone();
        if k.last == 0 {
            self.m.get_mut(&m).unwrap().last = now;
            return Ok(());
        }
        if now <= k.last {
            return Ok(());
        }
        let u = self.util(m)?;
        let br = borrow_rate(&k.p.rate_model, u)?;
        let keep = Permill::one() - k.p.reserve_factor;
        let sr = br.checked_mul(&fxu(keep)).and_then(|x| x.checked_mul(&fxu(u))).ok_or("overflow")?;
        let per_second = FixedU128::from_inner(br.into_inner() / YEAR);
        let grown = (FixedU128::one() + per_second).saturating_pow((now - k.last) as usize);
        let idx = k.idx.checked_mul(&grown).ok_or("overflow")?;
        let by = idx.checked_div(&k.idx).ok_or("overflow")?;
        let tb = muldiv(k.tb, by.into_inner(), ONE).ok_or("overflow")?;
        let interest = tb.checked_sub(k.tb).ok_or("overflow")?;
        let q = self.m.get_mut(&m).unwrap();
        q.tb = tb;
        q.tr += q.p.reserve_factor.mul_floor(interest);
        q.idx = idx;
        q.last = now;
        let er = self.rate(m)?;
        self.m.get_mut(&m).unwrap().shown = (er, br, sr, u);
        Ok(())
    }
    pub fn debt(&self, m: usize, a: usize) -> R<u128> {
        match self.bor.get(&(m, a)) {
            None => Ok(0),
            Some((p, i)) => up(*p, self.mk(m)?.idx.checked_div(i).ok_or("overflow")?.into_inner(), ONE).ok_or("overflow"),
        }
    }
    pub fn to_under(&mut self, m: usize, v: u128) -> R<u128> {
        self.active(m)?;
        self.accrue(m)?;
        muldiv(v, self.rate(m)?.into_inner(), ONE).ok_or("overflow")
    }
    pub fn to_lend(&mut self, m: usize, x: u128) -> R<u128> {
        self.active(m)?;
        self.accrue(m)?;
        muldiv(x, ONE, self.rate(m)?.into_inner()).ok_or("overflow")
    }
    /// as many lend tokens as are worth at least this
    pub fn to_lend_up(&mut self, m: usize, x: u128) -> R<u128> {
        self.active(m)?;
        self.accrue(m)?;
        up(x, ONE, self.rate(m)?.into_inner()).ok_or("overflow")
    }
    pub fn value(&self, m: usize, x: u128) -> R<u128> {
        if m == 1 {
            return Ok(x);
        }
        muldiv(x, ONE, self.price[m].ok_or("no price")?).ok_or("overflow")
    }

    // ------------------------------------------------------------ collateral

    pub fn collateral(&mut self, a: usize, liq: bool) -> R<u128> {
        let mut t = 0u128;
        for m in 0..NM {
            let d = self.dep(m, a);
            if d == 0 || self.active(m).is_err() {
                continue;
            }
            let x = self.to_under(m, d)?;
            let p = &self.mk(m)?.p;
            let f = if liq { p.liquidation_threshold } else { p.collateral_factor };
            t = t.checked_add(self.value(m, f.mul_ceil(x))?).ok_or("overflow")?;
        }
        Ok(t)
    }
    pub fn owed(&self, a: usize) -> R<u128> {
        let mut t = 0u128;
        for m in 0..NM {
            if self.active(m).is_err() {
                continue;
            }
            let x = self.debt(m, a)?;
            if x != 0 {
                t = t.checked_add(self.value(m, x)?).ok_or("overflow")?;
            }
        }
        Ok(t)
    }
    fn withdraw(&mut self, a: usize, m: usize, v: u128) -> R<()> {
        self.active(m)?;
        let all = self.collateral(a, false)?;
        let x = self.to_under(m, v)?;
        let cf = self.mk(m)?.p.collateral_factor;
        let part = self.value(m, cf.mul_ceil(x))?;
        if all < self.owed(a)? + part {
            return Err("needed as collateral");
        }
        self.unlock(a, m, v)
    }
    fn redeem(&mut self, a: usize, m: usize, x: u128, v: u128) -> R<()> {
        if self.dep(m, a) != 0 {
            self.withdraw(a, m, v)?;
        }
        self.active(m)?;
        self.accrue(m)?;
        if v == 0 {
            return Err("zero");
        }
        if self.total(a, NM + m) < v {
            return Err("not enough lend tokens");
        }
        let worth = self.to_under(m, v)?;
        let there = self.cash(m).checked_sub(self.mk(m)?.tr).ok_or("not enough cash")?;
        if worth > there || x > self.cash(m) {
            return Err("not enough cash");
        }
        if self.free(a, NM + m) < v {
            return Err("lend tokens are locked");
        }
        *self.free.get_mut(&(a, NM + m)).unwrap() -= v;
        self.iss[NM + m] -= v;
        self.mv(POOL, a, m, x)
    }
    fn set_debt(&mut self, m: usize, a: usize, x: u128) {
        let i = self.m[&m].idx;
        if x == 0 {
            self.bor.remove(&(m, a));
        } else {
            self.bor.insert((m, a), (x, i));
        }
    }
    fn market_ok(p: &Market<u128>) -> R<()> {
        let one = Permill::one();
        if !(p.collateral_factor < one && p.liquidation_threshold < one && p.liquidation_threshold >= p.collateral_factor)
            || p.reserve_factor.is_zero()
            || p.reserve_factor >= one
            || p.liquidate_incentive_reserved_factor >= one
        {
            return Err("invalid factor");
        }
        if p.supply_cap == 0 {
            return Err("invalid cap");
        }
        Ok(())
    }

    /// What a call does to this state, or why it is refused. Rewards are followed elsewhere.
    pub fn spec(&self, op: &Op) -> R<World> {
        let mut w = self.clone();
        match op {
            Op::Mint { who, m, x } => {
                let (who, m, x) = (*who, *m, *x);
                if x == 0 {
                    return Err("zero");
                }
                w.active(m)?;
                if w.cash(m).checked_add(x).ok_or("overflow")? > w.mk(m)?.p.supply_cap {
                    return Err("supply cap");
                }
                let v = w.to_lend(m, x)?;
                if v == 0 {
                    return Err("nothing for it");
                }
                w.mv(who, POOL, m, x)?;
                *w.free.get_mut(&(who, NM + m)).unwrap() += v;
                w.iss[NM + m] += v;
                if w.dep(m, who) != 0 {
                    w.lock(who, m, v)?;
                }
            }
            Op::Redeem { who, m, x } => {
                if *x == 0 {
                    return Err("zero");
                }
                let v = w.to_lend_up(*m, *x)?;
                w.redeem(*who, *m, *x, v)?;
            }
            Op::RedeemAll { who, m } => {
                w.mk(*m)?;
                let v = w.total(*who, NM + m);
                let x = w.to_under(*m, v)?;
                w.redeem(*who, *m, x, v)?;
            }
            Op::Borrow { who, m, x } => {
                let (who, m, x) = (*who, *m, *x);
                if x == 0 {
                    return Err("zero");
                }
                w.active(m)?;
                w.accrue(m)?;
                let k = w.mk(m)?.clone();
                if k.tb.checked_add(x).ok_or("overflow")? > k.p.borrow_cap {
                    return Err("borrow cap");
                }
                if w.cash(m).checked_sub(k.tr).ok_or("not enough cash")? < x {
                    return Err("not enough cash");
                }
                let v = w.value(m, x)?;
                let have = w.collateral(who, false)?;
                if have < w.owed(who)?.checked_add(v).ok_or("overflow")? {
                    return Err("not enough collateral");
                }
                let d = w.debt(m, who)?;
                w.set_debt(m, who, d + x);
                w.m.get_mut(&m).unwrap().tb += x;
                w.mv(POOL, who, m, x)?;
            }
            Op::Repay { .. } | Op::RepayAll { .. } => {
                let (who, m, x) = match op {
                    Op::Repay { who, m, x } => (*who, *m, Some(*x)),
                    Op::RepayAll { who, m } => (*who, *m, None),
                    _ => unreachable!(),
                };
                if x == Some(0) {
                    return Err("zero");
                }
                w.active(m)?;
                w.accrue(m)?;
                let d = w.debt(m, who)?;
                let x = x.unwrap_or(d);
                if x == 0 || x > d {
                    return Err("more than is owed");
                }
                w.mv(who, POOL, m, x)?;
                w.set_debt(m, who, d - x);
                let k = w.m.get_mut(&m).unwrap();
                k.tb = k.tb.saturating_sub(x);
            }
            Op::Lock { who, m } => {
                w.mk(*m)?;
                let x = w.free(*who, NM + m);
                if x == 0 {
                    return Err("zero");
                }
                if w.res[&(*who, NM + m)] != 0 {
                    return Err("already locked");
                }
                w.lock(*who, *m, x)?;
            }
            Op::Unlock { who, m } => {
                w.mk(*m)?;
                let x = w.dep(*m, *who);
                if x == 0 {
                    return Err("zero");
                }
                w.withdraw(*who, *m, x)?;
            }
            Op::Liquidate { who, b, m, x, cm } => {
                let (who, b, m, x, cm) = (*who, *b, *m, *x, *cm);
                w.accrue(m)?;
                w.accrue(cm)?;
                if x == 0 {
                    return Err("zero");
                }
                w.active(m)?;
                w.active(cm)?;
                if who == b {
                    return Err("own debt");
                }
                if w.collateral(b, true)? >= w.owed(b)? {
                    return Err("no shortfall");
                }
                let p = w.mk(m)?.p.clone();
                let d = w.debt(m, b)?;
                if p.close_factor.mul_ceil(w.value(m, d)?) < w.value(m, x)? {
                    return Err("more than the close factor allows");
                }
                let have = w.dep(cm, b);
                if have == 0 {
                    return Err("no such collateral");
                }
                let there = w.to_under(cm, have)?;
                let there = w.value(cm, there)?;
                let take = muldiv(w.value(m, x)?, p.liquidate_incentive.into_inner(), ONE).ok_or("overflow")?;
                if there < take {
                    return Err("not enough of that collateral");
                }
                let take = if cm == 1 { take } else { muldiv(take, w.price[cm].ok_or("no price")?, ONE).ok_or("overflow")? };
                w.mv(who, POOL, m, x)?;
                let left = d.checked_sub(x).ok_or("more than is owed")?;
                w.set_debt(m, b, left);
                let k = w.m.get_mut(&m).unwrap();
                k.tb = k.tb.saturating_sub(x);
                let v = w.to_lend(cm, take)?;
                w.unlock(b, cm, v)?;
                let kept = muldiv(v, ONE, p.liquidate_incentive.into_inner()).ok_or("overflow")?;
                let kept = p.liquidate_incentive_reserved_factor.mul_floor(kept);
                let rest = v.checked_sub(kept).ok_or("overflow")?;
                w.mv(b, who, NM + cm, rest)?;
                w.mv(b, INCENTIVE, NM + cm, kept)?;
            }
            Op::AddReserves { root, from, m, x } => {
                if !root {
                    return Err("not governance");
                }
                w.active(*m)?;
                w.accrue(*m)?;
                if *x == 0 {
                    return Err("zero");
                }
                w.mv(*from, POOL, *m, *x)?;
                w.m.get_mut(m).unwrap().tr += x;
            }
            Op::ReduceReserves { root, to, m, x } => {
                if !root {
                    return Err("not governance");
                }
                w.active(*m)?;
                w.accrue(*m)?;
                if *x == 0 {
                    return Err("zero");
                }
                let k = w.m.get_mut(m).unwrap();
                k.tr = k.tr.checked_sub(*x).ok_or("more than the reserves")?;
                w.mv(POOL, *to, *m, *x)?;
            }
            Op::ReduceIncentive { root, to, m, x } => {
                if !root {
                    return Err("not governance");
                }
                if *x == 0 {
                    return Err("zero");
                }
                w.active(*m)?;
                w.accrue(*m)?;
                let v = w.to_lend_up(*m, *x)?;
                w.redeem(INCENTIVE, *m, *x, v)?;
                w.mv(INCENTIVE, *to, *m, *x)?;
            }
            Op::AddReward { who, x } => {
                if *x == 0 {
                    return Err("zero");
                }
                w.mv(*who, REWARD, 2, *x)?;
            }
            Op::Speed { root, m, s, b } => {
                if !root {
                    return Err("not governance");
                }
                w.active(*m)?;
                let v = &mut w.speed[*m];
                v.0 = s.unwrap_or(v.0);
                v.1 = b.unwrap_or(v.1);
            }
            Op::Claim { .. } => {}
            Op::ClaimMarket { m, .. } => {
                w.mk(*m)?;
            }
            Op::Transfer { from, to, c, x } => w.mv(*from, *to, *c, *x)?,
            Op::AddMarket { root, m, p } => {
                if !root {
                    return Err("not governance");
                }
                if w.m.contains_key(m) {
                    return Err("market exists");
                }
                if p.state != MarketState::Pending {
                    return Err("not pending");
                }
                if !rates_ok(&p.rate_model) {
                    return Err("invalid rates");
                }
                Self::market_ok(p)?;
                let taken = w.m.values().any(|k| k.p.lend_token_id == p.lend_token_id) || w.m.keys().any(|k| UNDER[*k] == p.lend_token_id);
                if taken {
                    return Err("lend token taken");
                }
                let z = FixedU128::zero();
                let shown = (w.min, z, z, Permill::zero());
                w.m.insert(*m, Mkt { p: p.clone(), last: 0, tb: 0, tr: 0, idx: FixedU128::one(), shown });
            }
            Op::Activate { root, m } => {
                if !root {
                    return Err("not governance");
                }
                w.mk(*m)?;
                let k = w.m.get_mut(m).unwrap();
                if k.p.state == MarketState::Active {
                    return Err("already active");
                }
                k.p.state = MarketState::Active;
            }
            Op::Rates { root, m, r } => {
                if !root {
                    return Err("not governance");
                }
                if !rates_ok(r) {
                    return Err("invalid rates");
                }
                w.mk(*m)?;
                w.m.get_mut(m).unwrap().p.rate_model = *r;
            }
            Op::Update { root, m, u } => {
                if !root {
                    return Err("not governance");
                }
                w.mk(*m)?;
                let p = &mut w.m.get_mut(m).unwrap().p;
                p.collateral_factor = u.cf.unwrap_or(p.collateral_factor);
                p.liquidation_threshold = u.lt.unwrap_or(p.liquidation_threshold);
                p.reserve_factor = u.rf.unwrap_or(p.reserve_factor);
                p.close_factor = u.close.unwrap_or(p.close_factor);
                p.liquidate_incentive_reserved_factor = u.ir.unwrap_or(p.liquidate_incentive_reserved_factor);
                p.liquidate_incentive = u.inc.unwrap_or(p.liquidate_incentive);
                p.supply_cap = u.sc.unwrap_or(p.supply_cap);
                p.borrow_cap = u.bc.unwrap_or(p.borrow_cap);
                Self::market_ok(p)?;
            }
        }
        Ok(w)
    }
}

/// The first thing in which two states differ.
pub fn differ(e: &World, a: &World) -> Option<(&'static str, String)> {
    fn maps<K: Ord + Copy + std::fmt::Debug, V: PartialEq + Clone + std::fmt::Debug>(e: &BTreeMap<K, V>, a: &BTreeMap<K, V>) -> Option<String> {
        let mut keys: Vec<K> = e.keys().chain(a.keys()).copied().collect();
        keys.sort();
        keys.into_iter().find(|k| e.get(k) != a.get(k)).map(|k| format!("{k:?}: is {:?}, by the rules {:?}", a.get(&k), e.get(&k)))
    }
    let interest = |w: &World| w.m.iter().map(|(k, m)| (*k, (m.last, m.idx, m.shown))).collect::<BTreeMap<_, _>>();
    let totals = |w: &World| w.m.iter().map(|(k, m)| (*k, (m.tb, m.tr))).collect::<BTreeMap<_, _>>();
    let params = |w: &World| w.m.iter().map(|(k, m)| (*k, m.p.clone())).collect::<BTreeMap<_, _>>();
    if let Some(d) = maps(&params(e), &params(a)) {
        return Some(("market", d));
    }
    if let Some(d) = maps(&interest(e), &interest(a)) {
        return Some(("interest", d));
    }
    if let Some(d) = maps(&totals(e), &totals(a)) {
        return Some(("total borrows or reserves", d));
    }
    if let Some(d) = maps(&e.bor, &a.bor) {
        return Some(("debt", d));
    }
    if let Some(d) = maps(&e.dep, &a.dep) {
        return Some(("collateral", d));
    }
    if let Some(d) = e.free.differ(&a.free) {
        return Some(("free balance", d));
    }
    if let Some(d) = e.res.differ(&a.res) {
        return Some(("locked balance", d));
    }
    if e.iss != a.iss {
        return Some(("issuance", format!("{:?}, by the rules {:?}", a.iss, e.iss)));
    }
    if e.speed != a.speed {
        return Some(("reward speed", format!("{:?}, by the rules {:?}", a.speed, e.speed)));
    }
    None
}
