//! Vaults and users stake in reward pools, rewards in several currencies are distributed to them,
//! they claim, adjust and leave, in any order, over blocks that crash and are executed again.
use crate::{num::Num, rt::*};
use frame_support::state;
use primitives::{CurrencyId, CurrencyId::*, TokenSymbol::*, VaultId};
use reward::RewardsApi;
use sim_core::*;
use sp_runtime::DispatchError;
use std::collections::{BTreeMap, BTreeSet};

type Pool = CurrencyId;
type Staker = VaultId<u64, CurrencyId>;
type Api = Reward;

const POOLS: [Pool; 2] = [Token(DOT), ForeignAsset(1)];
const CURRENCIES: [CurrencyId; 4] = [Token(IBTC), Token(INTR), ForeignAsset(7), LendToken(2)];
const N: u64 = 4;

fn staker(i: usize) -> Staker {
    VaultId::new(i as u64 / 2, if i % 2 == 0 { Token(DOT) } else { Token(KSM) }, Token(IBTC))
}

#[derive(Clone, Debug)]
enum Op {
    Deposit(usize, usize, u128),
    Withdraw(usize, usize, u128),
    Leave(usize, usize),
    Set(usize, usize, u128),
    Distribute(usize, usize, u128),
    Claim(usize, usize, usize),
    /// several operations in one extrinsic, which fails in the end
    Failing(Vec<Op>),
}

#[derive(Clone, Default)]
struct Member {
    stake: u128,
    /// its share of what was distributed, and how far roundings may be off
    earned: BTreeMap<usize, (Num, f64)>,
}

#[derive(Clone, Default)]
struct PoolModel {
    members: BTreeMap<usize, Member>,
    currencies: BTreeSet<usize>,
    /// reward per unit of stake
    rpt: BTreeMap<usize, Num>,
}
impl PoolModel {
    fn total(&self) -> u128 {
        self.members.values().fold(0u128, |a, m| a.saturating_add(m.stake))
    }
}
#[derive(Clone, Default)]
struct Model {
    pools: [PoolModel; 2],
    distributed: BTreeMap<usize, u128>,
    paid: BTreeMap<usize, u128>,
}

type Readings = BTreeMap<(usize, usize, usize), Result<u128, DispatchError>>;

pub struct Sim {
    m: Model,
    /// what was read after the last operation
    cache: Option<Readings>,
    max: u128,
    block: u64,
}
impl Drop for Sim {
    fn drop(&mut self) {
        sim_node::end_run();
    }
}

/// Fixed point numbers of the chain end here; near and above, refusals are allowed.
const LIMIT: f64 = 1.6e20;

fn exec(op: &Op) -> Result<u128, DispatchError> {
    match op {
        Op::Deposit(p, s, a) => <Api as RewardsApi<_, _, u128>>::deposit_stake(&POOLS[*p], &staker(*s), *a).map(|_| 0),
        Op::Withdraw(p, s, a) => {
            <Api as RewardsApi<_, _, u128>>::withdraw_stake(&POOLS[*p], &staker(*s), *a).map(|_| 0)
        }
        Op::Leave(p, s) => <Api as RewardsApi<_, _, u128>>::withdraw_all_stake(&POOLS[*p], &staker(*s)),
        Op::Set(p, s, a) => <Api as RewardsApi<_, _, u128>>::set_stake(&POOLS[*p], &staker(*s), *a).map(|_| 0),
        Op::Distribute(p, c, a) => {
            <Api as RewardsApi<_, _, u128>>::distribute_reward(&POOLS[*p], CURRENCIES[*c], *a).map(|_| 0)
        }
        Op::Claim(p, s, c) => <Api as RewardsApi<_, _, u128>>::withdraw_reward(&POOLS[*p], &staker(*s), CURRENCIES[*c]),
        Op::Failing(ops) => {
            for o in ops {
                exec(o)?;
            }
            Err(DispatchError::Other("later failure in the same extrinsic"))
        }
    }
}

impl Sim {
    fn amount(&self, src: &mut Src) -> u128 {
        src.magnitude(self.max)
    }
    fn op(&self, src: &mut Src, depth: usize) -> Op {
        let p = src.usize(2);
        let s = src.below(N) as usize;
        match src.weighted(&[6, 4, 2, 3, 8, 6, if depth == 0 { 1 } else { 0 }]) {
            0 => Op::Deposit(p, s, self.amount(src)),
            1 => {
                let have = self.m.pools[p].members.get(&s).map_or(0, |m| m.stake);
                let a = if src.chance(4, 5) { src.upto(have) } else { self.amount(src) };
                Op::Withdraw(p, s, a)
            }
            2 => Op::Leave(p, s),
            3 => Op::Set(p, s, self.amount(src)),
            4 => {
                let c = src.weighted(&[5, 4, 2, 1]);
                Op::Distribute(p, c, self.amount(src))
            }
            5 => Op::Claim(p, s, src.usize(4)),
            _ => {
                let n = 1 + src.usize(3);
                Op::Failing((0..n).map(|_| self.op(src, 1)).collect())
            }
        }
    }

    fn read(&self) -> Readings {
        let mut out = BTreeMap::new();
        for p in 0..2 {
            for s in 0..N as usize {
                for c in 0..4 {
                    out.insert((p, s, c), Reward::compute_reward(&POOLS[p], &staker(s), CURRENCIES[c]).and_then(|x| {
                        u128::try_from(x).map_err(|_| DispatchError::Other("negative reward"))
                    }));
                }
            }
        }
        out
    }

    /// Would every number this operation touches fit the chain's fixed point type?
    fn fits(&self, p: usize, stake: u128, extra_rpt: &[(usize, f64)]) -> bool {
        let pool = &self.m.pools[p];
        if stake as f64 > LIMIT || pool.total() as f64 + stake as f64 > LIMIT {
            return false;
        }
        (0..4).all(|c| {
            let mut r = pool.rpt.get(&c).map_or(0.0, |x| x.f());
            for (d, e) in extra_rpt {
                if *d == c {
                    r += e;
                }
            }
            r < LIMIT && r * (stake.max(pool.total()) as f64 + 1.0) * 2.0 < LIMIT
        })
    }

    fn apply(&mut self, op: &Op, ctx: &mut Ctx) -> Res {
        let before = self.cache.take().unwrap_or_else(|| self.read());
        let hash = state::hash();
        let r = sim_node::extrinsic::<Rt, _>(|| exec(op));
        ctx.note(|| format!("{op:?} -> {r:?}"));
        ctx.event(hash_str(&format!("{r:?}")));
        if let Err(_) = r {
            ctx.check("F01", "refused-operation-left-a-trace", state::hash() == hash, || format!("{op:?}"))?;
        }
        let mut moved: Option<(usize, usize)> = None;
        match op {
            Op::Failing(_) => {
                ctx.fault("extrinsic-fails-half-way");
            }
            Op::Deposit(p, s, a) => {
                let ok = self.fits(*p, *a, &[]);
                ctx.check("F01", "deposit-refused", r.is_ok() || !ok, || format!("{op:?} {r:?}"))?;
                if r.is_ok() {
                    self.adjust(*p, *s, *a, true);
                    moved = Some((*p, *s));
                }
            }
            Op::Withdraw(p, s, a) => {
                let have = self.m.pools[*p].members.get(s).map_or(0, |m| m.stake);
                ctx.check("F01", "withdrew-more-than-staked", r.is_err() || *a <= have, || format!("{op:?} of {have}"))?;
                let ok = self.fits(*p, *a, &[]);
                ctx.check("F01", "withdrawal-refused", r.is_ok() || *a > have || !ok, || format!("{op:?} {r:?}"))?;
                if r.is_ok() {
                    self.adjust(*p, *s, *a, false);
                    moved = Some((*p, *s));
                }
            }
            Op::Leave(p, s) => {
                let have = self.m.pools[*p].members.get(s).map_or(0, |m| m.stake);
                match r {
                    Ok(x) => {
                        ctx.check("F01", "left-with-another-amount", x == have, || format!("{x} != {have}"))?;
                        self.adjust(*p, *s, have, false);
                        moved = Some((*p, *s));
                    }
                    Err(e) => {
                        let ok = self.fits(*p, have, &[]);
                        ctx.check("F01", "withdrawal-refused", !ok, || format!("{op:?} {e:?}"))?;
                    }
                }
            }
            Op::Set(p, s, a) => {
                let have = self.m.pools[*p].members.get(s).map_or(0, |m| m.stake);
                let ok = self.fits(*p, *a, &[]);
                ctx.check("F01", "stake-not-set", r.is_ok() || !ok, || format!("{op:?} {r:?}"))?;
                if r.is_ok() {
                    if *a > have {
                        self.adjust(*p, *s, *a - have, true);
                    } else {
                        self.adjust(*p, *s, have - *a, false);
                    }
                    moved = Some((*p, *s));
                }
            }
            Op::Distribute(p, c, a) => {
                let total = self.m.pools[*p].total();
                if *a > 0 {
                    ctx.check("F01", "distributed-to-nobody", r.is_err() || total > 0, || format!("{op:?}"))?;
                    let full = !self.m.pools[*p].currencies.contains(c) && self.m.pools[*p].currencies.len() >= 3;
                    ctx.check("F01", "too-many-currencies", r.is_err() || !full, || format!("{op:?}"))?;
                    let all = *self.m.distributed.get(c).unwrap_or(&0);
                    let ok = total > 0
                        && !full
                        && (*a as f64) < LIMIT
                        && (all as f64 + *a as f64) < LIMIT
                        && self.fits(*p, 0, &[(*c, *a as f64 / total as f64)]);
                    ctx.check("F01", "distribution-refused", r.is_ok() || !ok, || format!("{op:?} {r:?}"))?;
                } else {
                    ctx.check("F01", "distribution-refused", r.is_ok(), || format!("{op:?} {r:?}"))?;
                }
                if r.is_ok() && *a > 0 {
                    let pool = &mut self.m.pools[*p];
                    pool.currencies.insert(*c);
                    let per = Num::int(*a).div(&Num::int(total));
                    for m in pool.members.values_mut() {
                        let e = m.earned.entry(*c).or_default();
                        e.0 = e.0.add(&per.mul(&Num::int(m.stake)));
                        // the rate is rounded, and the stake multiplies the error
                        e.1 += m.stake as f64 * 2e-18 + 2e-18;
                    }
                    let x = pool.rpt.entry(*c).or_default();
                    *x = x.add(&per);
                    *self.m.distributed.entry(*c).or_default() += *a;
                    ctx.probe("reward distributed");
                }
            }
            Op::Claim(p, s, c) => {
                let known = before[&(*p, *s, *c)];
                match r {
                    Ok(x) => {
                        ctx.check("F01", "claim-pays-another-amount", known == Ok(x), || format!("{op:?} paid {x}, announced {known:?}"))?;
                        *self.m.paid.entry(*c).or_default() += x;
                        if let Some(m) = self.m.pools[*p].members.get_mut(s) {
                            m.earned.remove(c);
                        }
                        let now = Api::compute_reward(&POOLS[*p], &staker(*s), CURRENCIES[*c]);
                        ctx.check("F01", "claimed-twice", now == Ok(0), || format!("{op:?} again {now:?}"))?;
                        if x > 0 {
                            ctx.probe("reward claimed");
                            ctx.nontrivial = true;
                        }
                    }
                    Err(e) => {
                        ctx.check("F01", "claim-refused", known.is_err(), || format!("{op:?} {e:?}, announced {known:?}"))?;
                    }
                }
            }
        }
        let after = self.read();
        // who did nothing is owed what they were owed
        let touched = match op {
            Op::Distribute(p, c, _) => Some((*p, None, Some(*c))),
            Op::Claim(p, s, c) => Some((*p, Some(*s), Some(*c))),
            _ => moved.map(|(p, s)| (p, Some(s), None)),
        };
        for (k, v) in &after {
            let may = touched.map_or(false, |(p, s, c)| {
                p == k.0 && s.map_or(true, |s| s == k.1) && c.map_or(true, |c| c == k.2)
            });
            if !may {
                ctx.check("F01", "someone-elses-reward-changed", before.get(k) == Some(v), || {
                    format!("{op:?} changed pool {} staker {} currency {} from {:?} to {v:?}", k.0, k.1, k.2, before[k])
                })?;
            }
        }
        let r = self.judge(&after, ctx);
        self.cache = Some(after);
        r
    }

    fn adjust(&mut self, p: usize, s: usize, a: u128, up: bool) {
        let pool = &mut self.m.pools[p];
        let m = pool.members.entry(s).or_default();
        if up {
            m.stake += a
        } else {
            m.stake -= a
        }
        for c in &pool.currencies {
            m.earned.entry(*c).or_default().1 += 2e-18;
        }
    }

    fn judge(&self, now: &Readings, ctx: &mut Ctx) -> Res {
        for p in 0..2 {
            let pool = &self.m.pools[p];
            let total = <Api as RewardsApi<_, _, u128>>::get_total_stake(&POOLS[p]);
            ctx.check("F01", "total-stake", total == Ok(pool.total()), || format!("pool {p}: {total:?} != {}", pool.total()))?;
            for s in 0..N as usize {
                let m = pool.members.get(&s).cloned().unwrap_or_default();
                let stake = <Api as RewardsApi<_, _, u128>>::get_stake(&POOLS[p], &staker(s));
                ctx.check("F01", "stake", stake == Ok(m.stake), || format!("pool {p} staker {s}: {stake:?} != {}", m.stake))?;
                for c in 0..4 {
                    let (e, tol) = m.earned.get(&c).cloned().unwrap_or_default();
                    let rate = pool.rpt.get(&c).map_or(0.0, |x| x.f());
                    match now[&(p, s, c)] {
                        Ok(x) => {
                            let lo = e.sub(&Num::from_f64(tol)).max0().floor();
                            let hi = e.add(&Num::from_f64(tol)).floor();
                            ctx.check("F01", "not-the-proportional-share", lo <= x && x <= hi, || {
                                format!("pool {p} staker {s} currency {c}: owed {x}, its share is {e} (within {tol:e})")
                            })?;
                        }
                        Err(er) => {
                            let fits = rate * m.stake as f64 * 2.0 < LIMIT && e.f() < LIMIT;
                            ctx.check("F01", "reward-not-computable", !fits, || format!("pool {p} staker {s} currency {c}: {er:?}"))?;
                        }
                    }
                }
            }
        }
        for c in 0..4 {
            let d = *self.m.distributed.get(&c).unwrap_or(&0);
            let paid = *self.m.paid.get(&c).unwrap_or(&0);
            let owed: u128 = now.iter().filter(|(k, _)| k.2 == c).filter_map(|(_, v)| v.ok()).sum();
            ctx.check("F01", "more-paid-than-distributed", paid + owed <= d, || {
                format!("currency {c}: {paid} paid and {owed} owed of {d} distributed")
            })?;
            let left = Api::get_total_rewards(CURRENCIES[c]);
            ctx.check("F01", "unclaimed-total", left == Ok((d - paid) as i128), || {
                format!("currency {c}: {left:?} unclaimed, {d} distributed, {paid} paid")
            })?;
        }
        Ok(())
    }
}

impl Scenario for Sim {
    const NAME: &'static str = "pools";
    fn real() -> &'static [&'static str] {
        &["crates/reward", "primitives", "sp-arithmetic"]
    }
    fn stubs() -> &'static [&'static str] {
        &["FRAME storage, dispatch and events", "callers of the reward pallet"]
    }
    fn new(src: &mut Src, _: &mut Ctx) -> Self {
        sim_node::begin_run();
        let max = match src.below(5) {
            0 => 1_000_000_000_000,
            1 => 100,
            2 => 1_000_000,
            3 => 1_000_000_000_000_000_000,
            _ => 200_000_000_000_000_000_000,
        };
        Sim { m: Model::default(), cache: None, max, block: 0 }
    }
    fn steps(&self) -> usize {
        24
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.block += 1;
        ctx.sim_time += 12;
        let n = 1 + src.usize(3);
        let mut ops: Vec<Op> = (0..n).map(|_| self.op(src, 0)).collect();
        if src.chance(1, 6) {
            ctx.fault("extrinsic-duplicated");
            let x = src.pick(&ops).clone();
            ops.push(x);
        }
        let crash = if src.chance(1, 6) { Some(1 + src.below(25)) } else { None };
        let saved = self.m.clone();
        let root = state::hash();
        let r = sim_node::block::<Rt, Res>(crash, || {
            for o in &ops {
                self.apply(o, ctx)?;
            }
            Ok(())
        });
        match r {
            Ok(r) => r?,
            Err(_) => {
                ctx.fault("node-crash-inside-block");
                self.m = saved;
                self.cache = None;
                ctx.check("F01", "crash-left-a-trace", state::hash() == root, || "state differs from the last block's".into())?;
                if src.bool() && ops.len() > 1 {
                    ctx.fault("extrinsics-reordered");
                    ops.rotate_left(1);
                }
                for o in &ops {
                    self.apply(o, ctx)?;
                }
            }
        }
        ctx.state(state::hash());
        Ok(())
    }
    fn finish(&mut self, _: &mut Src, ctx: &mut Ctx) -> Res {
        // everyone claims and leaves; nothing but roundings may remain
        for p in 0..2 {
            for s in 0..N as usize {
                for c in 0..4 {
                    self.apply(&Op::Claim(p, s, c), ctx)?;
                }
                self.apply(&Op::Leave(p, s), ctx)?;
            }
        }
        Ok(())
    }
}
