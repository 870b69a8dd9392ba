//! Vaults and nominators stake collateral, vaults are slashed and refund their nominators, rewards
//! are distributed and claimed, from the current and from former staking pools of a vault.
use crate::{num::Num, rt::*};
use frame_support::state;
use primitives::{CurrencyId, CurrencyId::*, TokenSymbol::*, VaultId};
use reward::RewardsApi;
use sim_core::*;
use sp_runtime::DispatchError;
use staking::StakingApi;
use std::collections::BTreeMap;

type Vault = VaultId<u64, CurrencyId>;

const CURRENCIES: [CurrencyId; 2] = [WRAPPED, NATIVE];
const ACCOUNTS: u64 = 4;
const LIMIT: f64 = 1.6e20;

fn vault(i: usize) -> Vault {
    VaultId::new(i as u64, if i == 0 { Token(DOT) } else { LendToken(3) }, WRAPPED)
}

#[derive(Clone, Debug)]
enum Op {
    Deposit(usize, u64, u128),
    Withdraw(usize, u64, u128, Option<u32>),
    Leave(usize, u64, Option<u32>),
    Slash(usize, u128),
    Distribute(usize, usize, u128),
    Claim(usize, u64, usize, Option<u32>),
    Refund(usize),
    Failing(Vec<Op>),
}
enum Done {
    Nothing,
    Amount(u128),
}

type P = (Option<u32>, Vault);
fn exec(op: &Op) -> Result<Done, DispatchError> {
    type S = Staking;
    let at = |v: usize, n: &Option<u32>| -> P { (*n, vault(v)) };
    Ok(match op {
        Op::Deposit(v, a, x) => {
            <S as RewardsApi<P, u64, u128>>::deposit_stake(&at(*v, &None), a, *x)?;
            Done::Nothing
        }
        Op::Withdraw(v, a, x, n) => {
            <S as RewardsApi<P, u64, u128>>::withdraw_stake(&at(*v, n), a, *x)?;
            Done::Nothing
        }
        Op::Leave(v, a, n) => Done::Amount(<S as RewardsApi<P, u64, u128>>::withdraw_all_stake(&at(*v, n), a)?),
        Op::Slash(v, x) => {
            <S as StakingApi<Vault, u32, u128>>::slash_stake(&vault(*v), *x)?;
            Done::Nothing
        }
        Op::Distribute(v, c, x) => {
            <S as RewardsApi<P, u64, u128>>::distribute_reward(&at(*v, &None), CURRENCIES[*c], *x)?;
            Done::Nothing
        }
        Op::Claim(v, a, c, n) => {
            Done::Amount(<S as RewardsApi<P, u64, u128>>::withdraw_reward(&at(*v, n), a, CURRENCIES[*c])?)
        }
        Op::Refund(v) => Done::Amount(<S as StakingApi<Vault, u32, u128>>::force_refund(&vault(*v))?),
        Op::Failing(ops) => {
            for o in ops {
                exec(o)?;
            }
            return Err(DispatchError::Other("later failure in the same extrinsic"));
        }
    })
}
fn stake_of(v: usize, n: u32, a: u64) -> Result<u128, DispatchError> {
    <Staking as RewardsApi<P, u64, u128>>::get_stake(&(Some(n), vault(v)), &a)
}
fn reward_of(v: usize, n: u32, a: u64, c: usize) -> Result<u128, DispatchError> {
    <Staking as RewardsApi<P, u64, u128>>::compute_reward(&(Some(n), vault(v)), &a, CURRENCIES[c])
}
fn total_of(v: usize) -> Result<u128, DispatchError> {
    <Staking as RewardsApi<P, u64, u128>>::get_total_stake(&(None, vault(v)))
}

#[derive(Clone, Default)]
struct Member {
    /// the stake as of the last time it was settled, and what remains of it now
    nominal: Num,
    now: Num,
    earned: [(Num, f64); 2],
}
#[derive(Clone, Default)]
struct PoolModel {
    members: BTreeMap<u64, Member>,
    rpt: [Num; 2],
    spt: Num,
    distributed: [u128; 2],
    paid: [u128; 2],
    /// how far roundings may have moved any stake, and the total
    off: f64,
    /// and what was paid so far
    off_paid: [f64; 2],
    /// the pool's total may be off by roundings
    inexact: bool,
    unjudged: bool,
}
impl PoolModel {
    fn total(&self) -> Num {
        self.members.values().fold(Num::zero(), |a, m| a.add(&m.now))
    }
    fn nominal(&self) -> Num {
        self.members.values().fold(Num::zero(), |a, m| a.add(&m.nominal))
    }
    fn fits(&self, extra: f64) -> bool {
        let n = self.nominal().f() + extra + 4.0 * self.off;
        n < LIMIT
            && self.spt.f() * n * 2.0 < LIMIT
            && self.rpt.iter().all(|r| r.f() < LIMIT && r.f() * (n + 1.0) * 2.0 < LIMIT)
            && self.members.values().all(|m| m.earned.iter().all(|e| e.0.f() < LIMIT))
    }
    fn settle(&mut self, a: u64) -> &mut Member {
        self.off += 4e-18;
        let m = self.members.entry(a).or_default();
        m.nominal = m.now.clone();
        for e in &mut m.earned {
            e.1 += 4e-18;
        }
        m
    }
}
#[derive(Clone, Default)]
struct Model {
    /// by vault and nonce
    pools: BTreeMap<(usize, u32), PoolModel>,
    nonce: [u32; 2],
}
impl Model {
    fn pool(&mut self, v: usize, n: u32) -> &mut PoolModel {
        self.pools.entry((v, n)).or_default()
    }
    fn get(&self, v: usize, n: u32) -> PoolModel {
        self.pools.get(&(v, n)).cloned().unwrap_or_default()
    }
}

pub struct Sim {
    m: Model,
    /// what was read after the last operation
    cache: Option<Readings>,
    max: u128,
    /// slashes strike only pools whose stakes have all been settled since the last one
    tidy: bool,
}
impl Drop for Sim {
    fn drop(&mut self) {
        sim_node::end_run();
    }
}
type Readings = BTreeMap<(usize, u32, u64), (Result<u128, DispatchError>, [Result<u128, DispatchError>; 2])>;

fn within(x: u128, y: &Num, off: f64) -> bool {
    y.sub(&Num::from_f64(off)).max0().floor() <= x && x <= y.add(&Num::from_f64(off)).floor()
}

impl Sim {
    fn amount(&self, src: &mut Src) -> u128 {
        src.magnitude(self.max)
    }
    fn op(&self, src: &mut Src, depth: usize) -> Op {
        let v = src.usize(2);
        let a = src.below(ACCOUNTS);
        let index = |src: &mut Src| match src.below(3) {
            0 => None,
            1 => Some(src.below(self.m.nonce[v] as u64 + 1) as u32),
            _ => Some(self.m.nonce[v].saturating_sub(1)),
        };
        match src.weighted(&[8, 4, 3, 4, 7, 5, 1, if depth == 0 { 1 } else { 0 }]) {
            0 => Op::Deposit(v, a, self.amount(src)),
            1 => {
                let i = index(src);
                let have = self.m.get(v, i.unwrap_or(self.m.nonce[v])).members.get(&a).map_or(0, |m| m.now.floor());
                let x = if src.chance(4, 5) { src.upto(have) } else { self.amount(src) };
                Op::Withdraw(v, a, x, i)
            }
            2 => Op::Leave(v, a, index(src)),
            3 => {
                let t = self.m.get(v, self.m.nonce[v]).total().floor();
                // a part, most, or all of the collateral
                let x = match src.below(6) {
                    0 => t,
                    1 => t.saturating_sub(src.below(3) as u128),
                    2 => src.upto(t),
                    _ => src.upto(t / 4),
                };
                Op::Slash(v, x)
            }
            4 => Op::Distribute(v, src.usize(2), self.amount(src)),
            5 => Op::Claim(v, a, src.usize(2), index(src)),
            6 => Op::Refund(v),
            _ => {
                let n = 1 + src.usize(3);
                Op::Failing((0..n).map(|_| self.op(src, 1)).collect())
            }
        }
    }
    fn read(&self) -> Readings {
        let mut out = BTreeMap::new();
        for v in 0..2 {
            for n in 0..=self.m.nonce[v] {
                for a in 0..ACCOUNTS {
                    out.insert((v, n, a), (stake_of(v, n, a), [reward_of(v, n, a, 0), reward_of(v, n, a, 1)]));
                }
            }
        }
        out
    }

    fn apply(&mut self, op: &Op, ctx: &mut Ctx) -> Res {
        let before = self.cache.take().unwrap_or_else(|| self.read());
        let hash = state::hash();
        let (v, at) = match op {
            Op::Deposit(v, ..) | Op::Slash(v, _) | Op::Distribute(v, ..) | Op::Refund(v) => (*v, self.m.nonce[*v]),
            Op::Withdraw(v, _, _, n) | Op::Leave(v, _, n) | Op::Claim(v, _, _, n) => (*v, n.unwrap_or(self.m.nonce[*v])),
            Op::Failing(_) => (0, 0),
        };
        if let Op::Slash(v, x) = op {
            // the callers never slash more than there is
            let op = Op::Slash(*v, (*x).min(total_of(*v).unwrap_or(0)));
            if self.tidy && *x > 0 {
                for a in 0..ACCOUNTS {
                    self.apply(&Op::Withdraw(*v, a, 0, None), ctx)?;
                }
            }
            let before = self.cache.take().unwrap_or_else(|| self.read());
            return self.apply_at(&op, ctx, *v, at, before, state::hash());
        }
        self.apply_at(op, ctx, v, at, before, hash)
    }

    fn apply_at(&mut self, op: &Op, ctx: &mut Ctx, v: usize, at: u32, before: Readings, hash: u64) -> Res {
        let r = sim_node::extrinsic::<Rt, _>(|| exec(op));
        let shown = match &r {
            Ok(Done::Nothing) => "done".to_string(),
            Ok(Done::Amount(x)) => format!("{x}"),
            Err(e) => format!("{e:?}"),
        };
        ctx.note(|| format!("{op:?} -> {shown}"));
        ctx.event(hash_str(&shown));
        if r.is_err() {
            ctx.check("F02", "refused-operation-left-a-trace", state::hash() == hash, || format!("{op:?}"))?;
        }
        let judged = !self.m.get(v, at).unjudged;
        let fits = self.m.get(v, at).fits(match op {
            Op::Deposit(_, _, x) => *x as f64,
            _ => 0.0,
        });
        let nonce = self.m.nonce[v];
        match op {
            Op::Failing(_) => ctx.fault("extrinsic-fails-half-way"),
            Op::Deposit(_, a, x) => {
                ctx.check("F02", "deposit-refused", r.is_ok() || !fits || !judged, || format!("{op:?} {shown}"))?;
                if r.is_ok() {
                    let m = self.m.pool(v, at).settle(*a);
                    m.nominal = m.nominal.add(&Num::int(*x));
                    m.now = m.nominal.clone();
                }
            }
            Op::Withdraw(_, a, x, _) => {
                let have = before.get(&(v, at, *a)).map_or(Ok(0), |x| x.0);
                if judged {
                    let max = self.m.get(v, at).members.get(a).map_or(Num::zero(), |m| m.now.clone());
                    let off = self.m.get(v, at).off;
                    ctx.check("F02", "withdrew-more-than-staked", r.is_err() || *x <= max.add(&Num::from_f64(off)).floor(), || {
                        format!("{op:?} of {max}")
                    })?;
                    ctx.check("F02", "withdrawal-refused", r.is_ok() || !have.map_or(false, |h| *x <= h) || !fits, || {
                        format!("{op:?} of {have:?}: {shown}")
                    })?;
                    if at != nonce && *x > 0 && r.is_ok() {
                        ctx.probe("stake withdrawn from a former pool");
                    }
                }
                if r.is_ok() {
                    let m = self.m.pool(v, at).settle(*a);
                    m.nominal = m.nominal.sub(&Num::int(*x)).max0();
                    m.now = m.nominal.clone();
                }
            }
            Op::Leave(_, a, _) => match &r {
                Ok(Done::Amount(x)) => {
                    if judged {
                        let have = before.get(&(v, at, *a)).map_or(Ok(0), |x| x.0);
                        ctx.check("F02", "left-with-another-amount", have == Ok(*x), || format!("{op:?} gave {x}, had {have:?}"))?;
                        if at != nonce && *x > 0 {
                            ctx.probe("stake withdrawn from a former pool");
                        }
                    }
                    let p = self.m.pool(v, at);
                    p.inexact |= !p.spt.is_zero();
                    let m = p.settle(*a);
                    m.nominal = Num::zero();
                    m.now = Num::zero();
                }
                _ => ctx.check("F02", "withdrawal-refused", !fits || !judged, || format!("{op:?} {shown}"))?,
            },
            Op::Slash(_, x) => {
                let p = self.m.pool(v, at);
                let t = p.total();
                if *x > 0 {
                    let left = t.sub(&Num::int(*x)).max0();
                    let grown = p.rpt.iter().all(|r| {
                        r.f() * (*x as f64 + 1.0) * 2.0 < LIMIT
                            && (left.f() < 1e-3 || r.f() * (t.f() / left.f()) * (p.nominal().f() + 1.0) * 2.0 < LIMIT)
                    });
                    // next to nothing left: the rate may not fit
                    let grown = grown && (left.f() > 1e-3 || p.rpt.iter().all(|r| r.is_zero()) || left.is_zero() && p.off == 0.0);
                    ctx.check("F02", "slash-refused", r.is_ok() || !fits || !grown || !judged, || format!("{op:?} {shown}"))?;
                }
                if r.is_ok() && *x > 0 {
                    self.slash(v, at, *x, ctx)?;
                }
            }
            Op::Distribute(_, c, x) => {
                let p = self.m.pool(v, at);
                let t = p.total();
                let ok = fits
                    && (*x as f64) < LIMIT
                    && (t.f() <= p.off || (p.rpt[*c].f() + *x as f64 / t.f()) * (p.nominal().f() + 1.0) * 2.0 < LIMIT)
                    && p.distributed[*c] as f64 + (*x as f64) < LIMIT
                    && (t.is_zero() || t.f() > p.off * 4.0);
                ctx.check("F02", "distribution-refused", r.is_ok() || !ok || !judged, || format!("{op:?} {shown}"))?;
                if r.is_ok() && *x > 0 && !t.is_zero() {
                    if t.f() <= p.off * 1e6 {
                        p.unjudged = true;
                    } else {
                        let per = Num::int(*x).div(&t);
                        for m in p.members.values_mut() {
                            let e = &mut m.earned[*c];
                            e.0 = e.0.add(&per.mul(&m.now));
                            e.1 += 2.0 * *x as f64 * 2.0 * p.off / t.f() + (m.now.f() + p.off) * 4e-18 + 4e-18;
                        }
                        p.rpt[*c] = p.rpt[*c].add(&per);
                        p.distributed[*c] += *x;
                        ctx.probe("reward distributed");
                    }
                }
            }
            Op::Claim(_, a, c, _) => {
                let known = before.get(&(v, at, *a)).map_or(Ok(0), |x| x.1[*c]);
                match &r {
                    Ok(Done::Amount(x)) => {
                        if judged {
                            // settling the stake first may round the other way
                            let tol = self.m.get(v, at).members.get(a).map_or(0.0, |m| m.earned[*c].1);
                            let e = self.m.get(v, at).members.get(a).map_or(Num::zero(), |m| m.earned[*c].0.clone());
                            let off = self.m.get(v, at).off * self.m.get(v, at).rpt[*c].f() * 2.0 + tol + 4e-18;
                            ctx.check("F02", "claim-pays-another-amount", within(*x, &e, off), || {
                                format!("{op:?} paid {x}, its share is {e} (within {off:e}, announced {known:?})")
                            })?;
                        }
                        let p = self.m.pool(v, at);
                        p.paid[*c] += *x;
                        let m = p.settle(*a);
                        // what is left over of the claimed unit is not kept
                        let tol = m.earned[*c].1;
                        m.earned[*c] = (Num::zero(), 4e-18);
                        p.off_paid[*c] += tol;
                        let now = reward_of(v, at, *a, *c);
                        if judged {
                            ctx.check("F02", "claimed-twice", now == Ok(0), || format!("{op:?} again {now:?}"))?;
                            if *x > 0 {
                                ctx.nontrivial = true;
                                ctx.probe("reward claimed");
                                if at != nonce {
                                    ctx.probe("reward claimed from a former pool");
                                }
                            }
                        }
                    }
                    _ => ctx.check("F02", "claim-refused", !fits || !judged || known.is_err(), || {
                        format!("{op:?} {shown}, announced {known:?}")
                    })?,
                }
            }
            Op::Refund(_) => {
                let owner = v as u64;
                let have = before.get(&(v, at, owner)).map_or(Ok(0), |x| x.0);
                match &r {
                    Ok(Done::Amount(x)) => {
                        let p = self.m.pool(v, at);
                        let (t, off) = (p.total(), p.off);
                        let kept = have.unwrap_or(0);
                        let m = p.settle(owner);
                        m.nominal = m.nominal.sub(&Num::int(kept)).max0();
                        m.now = m.nominal.clone();
                        if judged {
                            ctx.check("F02", "refunded-another-amount", within(*x, &t.sub(&Num::int(kept)), off), || {
                                format!("{op:?} refunded {x} of {t}, the vault's own {kept}")
                            })?;
                        }
                        self.m.nonce[v] += 1;
                        let new = self.m.nonce[v];
                        let dead = !judged;
                        let n = self.m.pool(v, new);
                        let m = n.settle(owner);
                        m.nominal = Num::int(kept);
                        m.now = Num::int(kept);
                        n.unjudged = dead && have.is_err();
                        let is = <Staking as StakingApi<Vault, u32, u128>>::nonce(&vault(v));
                        ctx.check("F02", "not-the-next-pool", is == new, || format!("{is} != {new}"))?;
                        ctx.probe("nominators refunded");
                    }
                    // (a rounding of a whole unit makes the nominators' part negative)
                    _ => ctx.check("F02", "refund-refused", !fits || !judged || self.m.get(v, at).off > 0.5, || format!("{op:?} {shown}"))?,
                }
            }
        }
        let after = self.read();
        for (k, x) in &after {
            let same = match op {
                Op::Slash(..) | Op::Distribute(..) => (k.0, k.1) != (v, at),
                Op::Deposit(_, a, _) | Op::Withdraw(_, a, ..) | Op::Leave(_, a, _) | Op::Claim(_, a, ..) => *k != (v, at, *a),
                Op::Refund(_) => k.0 != v || k.1 < at || (k.1 == at && k.2 != v as u64),
                Op::Failing(_) => true,
            };
            if same {
                let was = before.get(k).cloned();
                ctx.check("F02", "someone-elses-stake-changed", was.as_ref() == Some(x), || {
                    format!("{op:?} changed vault {} pool {} account {} from {was:?} to {x:?}", k.0, k.1, k.2)
                })?;
            }
        }
        let r = self.judge(&after, ctx);
        self.cache = Some(after);
        r
    }

    fn slash(&mut self, v: usize, at: u32, x: u128, ctx: &mut Ctx) -> Res {
        let p = self.m.pool(v, at);
        let (t, nom) = (p.total(), p.nominal());
        let x_ = Num::int(x);
        if t.f() <= p.off || nom.is_zero() {
            // only a residue of roundings was there to slash
            p.unjudged = true;
            return Ok(());
        }
        p.spt = p.spt.add(&x_.div(&nom));
        let off = p.off;
        // stakes settled at different times have different shares of their nominal stake left
        let mixed = p.members.values().any(|m| {
            let d = m.nominal.mul(&t).sub(&m.now.mul(&nom)).abs();
            d.f() > 1e-9 * (1.0 + m.now.f() * nom.f()) || d.f() > (off + 1e-17) * 8.0 * (t.f() + nom.f())
        });
        let share = x_.div(&t);
        let per_nominal = x_.div(&nom);
        // what the pallet is known to do with those: slash in proportion to the nominal stakes
        let known: BTreeMap<u64, Num> =
            p.members.iter().map(|(a, m)| (*a, m.now.sub(&m.nominal.mul(&per_nominal)).max0())).collect();
        let left = t.sub(&x_);
        for m in p.members.values_mut() {
            let lost = m.now.mul(&share);
            for c in 0..2 {
                let e = &mut m.earned[c];
                if left.f() <= off {
                    // nobody is left to hold what was not claimed
                    e.0 = e.0.sub(&m.now.mul(&p.rpt[c])).max0();
                    e.1 += (off + nom.f() * 8e-18) * p.rpt[c].f() * 2.0;
                } else {
                    let grown = p.rpt[c].f() * t.f() / left.f();
                    e.1 += 2.0 * (p.rpt[c].f() * m.now.f() * 2.0 * off / left.f() + grown * nom.f() * 4e-18 + m.now.f() * 8e-18 + 8e-18);
                }
            }
            m.now = m.now.sub(&lost).max0();
        }
        if left.f() > off {
            for c in 0..2 {
                p.rpt[c] = p.rpt[c].mul(&t).div(&left);
            }
        } else {
            ctx.probe("everything slashed");
            if (p.inexact || !left.is_zero()) && !p.rpt.iter().all(|r| r.is_zero()) {
                // a residue of roundings may be left, whose share is anything
                p.unjudged = true;
            }
        }
        p.off += nom.f() * 4e-18 + 4e-18;
        ctx.probe("slashed");
        if mixed && !p.unjudged {
            ctx.probe("slashed stakes settled at different times");
            let p = self.m.get(v, at);
            let mut bad = None;
            let mut worse = None;
            for (a, m) in &p.members {
                let is = stake_of(v, at, *a);
                if !is.map_or(!p.fits(0.0), |is| within(is, &known[a], p.off)) {
                    worse = Some(format!("slash of {x} left account {a} {is:?}"));
                }
                if !is.map_or(!p.fits(0.0), |is| within(is, &m.now, p.off)) {
                    bad = Some(format!("slash of {x} left account {a} {is:?}, its proportional share of the rest is {}", m.now));
                }
            }
            self.m.pool(v, at).unjudged = true;
            if let Some(b) = bad {
                if let Some(w) = worse {
                    return ctx.check("F02", "slash-not-proportional", false, || w);
                }
                return ctx.check("F02", "slash-of-stakes-settled-at-different-times", false, || b);
            }
        }
        Ok(())
    }

    fn judge(&self, now: &Readings, ctx: &mut Ctx) -> Res {
        for ((v, n), p) in &self.m.pools {
            if p.unjudged {
                continue;
            }
            if *n == self.m.nonce[*v] {
                let t = total_of(*v);
                ctx.check("F02", "total-stake", t.map_or(p.total().f() <= p.off, |t| within(t, &p.total(), p.off)), || {
                    format!("vault {v}: {t:?}, stakes add up to {}", p.total())
                })?;
            }
            let mut owed = [0u128; 2];
            let mut tols = [0f64; 2];
            for a in 0..ACCOUNTS {
                let m = p.members.get(&a).cloned().unwrap_or_default();
                let (stake, rewards) = &now[&(*v, *n, a)];
                match stake {
                    Ok(s) => ctx.check("F02", "stake", within(*s, &m.now, p.off), || {
                        format!("vault {v} pool {n} account {a}: {s}, expected {} (within {:e})", m.now, p.off)
                    })?,
                    Err(e) => ctx.check("F02", "stake-not-computable", !p.fits(0.0), || format!("vault {v} pool {n} account {a}: {e:?}"))?,
                }
                for c in 0..2 {
                    let (e, tol) = &m.earned[c];
                    match rewards[c] {
                        Ok(x) => {
                            owed[c] += x;
                            tols[c] += *tol;
                            ctx.check("F02", "not-the-proportional-share", within(x, e, *tol), || {
                                format!("vault {v} pool {n} account {a} currency {c}: owed {x}, its share is {e} (within {tol:e})")
                            })?
                        }
                        Err(er) => ctx.check("F02", "reward-not-computable", !p.fits(0.0), || {
                            format!("vault {v} pool {n} account {a} currency {c}: {er:?}")
                        })?,
                    }
                }
            }
            for c in 0..2 {
                let max = Num::int(p.distributed[c]).add(&Num::from_f64(tols[c] + p.off_paid[c] + p.off)).floor();
                ctx.check("F02", "more-paid-than-distributed", p.paid[c] + owed[c] <= max, || {
                    format!("vault {v} pool {n} currency {c}: {} paid and {} owed of {}", p.paid[c], owed[c], p.distributed[c])
                })?;
            }
        }
        Ok(())
    }
}

impl Scenario for Sim {
    const NAME: &'static str = "vaults";
    fn real() -> &'static [&'static str] {
        &["crates/staking", "primitives", "sp-arithmetic"]
    }
    fn stubs() -> &'static [&'static str] {
        &["FRAME storage, dispatch and events", "callers of the staking pallet (vault-registry, fee)"]
    }
    fn new(src: &mut Src, _: &mut Ctx) -> Self {
        sim_node::begin_run();
        let max = match src.below(5) {
            0 => 1_000_000_000_000,
            1 => 100,
            2 => 1_000_000,
            3 => 1_000_000_000_000_000,
            _ => 200_000_000_000_000_000_000,
        };
        Sim { m: Model::default(), cache: None, max, tidy: src.chance(3, 4) }
    }
    fn steps(&self) -> usize {
        20
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        ctx.sim_time += 12;
        let n = 1 + src.usize(3);
        let mut ops: Vec<Op> = (0..n).map(|_| self.op(src, 0)).collect();
        if src.chance(1, 6) {
            ctx.fault("extrinsic-duplicated");
            let x = src.pick(&ops).clone();
            ops.push(x);
        }
        let crash = if src.chance(1, 6) { Some(1 + src.below(40)) } else { None };
        let saved = self.m.clone();
        let root = state::hash();
        let r = sim_node::block::<Rt, Res>(crash, || {
            for o in &ops {
                self.apply(o, ctx)?;
            }
            Ok(())
        });
        match r {
            Ok(r) => r?,
            Err(_) => {
                ctx.fault("node-crash-inside-block");
                self.m = saved;
                self.cache = None;
                ctx.check("F02", "crash-left-a-trace", state::hash() == root, || "state differs from the last block's".into())?;
                if src.bool() && ops.len() > 1 {
                    ctx.fault("extrinsics-reordered");
                    ops.rotate_left(1);
                }
                for o in &ops {
                    self.apply(o, ctx)?;
                }
            }
        }
        ctx.state(state::hash());
        Ok(())
    }
    fn finish(&mut self, _: &mut Src, ctx: &mut Ctx) -> Res {
        // everyone claims and leaves, from every pool there was
        for v in 0..2 {
            for n in 0..=self.m.nonce[v] {
                for a in 0..ACCOUNTS {
                    for c in 0..2 {
                        self.apply(&Op::Claim(v, a, c, Some(n)), ctx)?;
                    }
                    self.apply(&Op::Leave(v, a, Some(n)), ctx)?;
                }
            }
        }
        Ok(())
    }
}
