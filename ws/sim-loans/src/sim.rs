//! Suppliers, borrowers, liquidators, strangers and governance act on the lending markets; calls are
//! lost, repeated and reordered on their way, the oracle stalls and prices jump and crash, the clock
//! jumps by up to a year, funds are donated, and the node crashes inside blocks and executes them
//! again. After every call the whole state is compared with the rules.
use crate::{num::*, rt::*, world::*};
use frame_support::{
    state,
    traits::{BuildGenesisConfig, ConstU32, Hooks},
    BoundedVec,
};
use frame_system::RawOrigin;
use loans::{CurveModel, InterestRateModel, JumpModel, Market, MarketState};
use orml_traits::MultiCurrency;
use primitives::{oracle::Key, CurrencyId};
use sim_core::*;
use sp_arithmetic::{FixedU128, Permill};
use sp_runtime::DispatchError;

const ORACLE: Acc = 99;

/// Between what an account has earned of the rewards and not been paid, roundings aside.
#[derive(Clone, Default, Debug)]
struct Earned {
    lo: [f64; NA],
    hi: [f64; NA],
    /// of which in this market since it was last collected
    part: [[f64; NA]; NM],
}

/// What goes back when a node crashes inside a block.
#[derive(Clone)]
struct Model {
    w: World,
    e: Earned,
    fed: [Option<(u128, u64)>; NM],
    now: u64,
    cuts: [f64; NM],
    dead: bool,
}

pub struct Sim {
    m: Model,
    max_delay: u64,
    market: [u128; NM],
    pool: Vec<Op>,
    number: u32,
    steps: usize,
    weights: Vec<u32>,
    loss: u64,
    stalled: bool,
    crisis: bool,
    /// how much there is to begin with
    scale: u128,
}

fn amount(src: &mut Src, limits: &[u128], most: u128) -> u128 {
    match src.below(8) {
        0 => src.magnitude(most.max(1)),
        1 | 2 => {
            let l = *src.pick(limits);
            let d = src.irange(-2, 2) as i128;
            (l as i128 + d).max(0) as u128
        }
        3 => *src.pick(limits),
        _ => {
            let l = *src.pick(limits);
            l / 1000 * src.range(1, 999) as u128
        }
    }
}
fn fx(x: u128) -> FixedU128 {
    FixedU128::from_inner(x)
}
fn percent(src: &mut Src, lo: u64, hi: u64) -> u128 {
    src.range(lo * 100, hi * 100) as u128 * (ONE / 10_000)
}
fn part(src: &mut Src, lo: u64, hi: u64) -> Permill {
    match src.below(6) {
        0 => Permill::from_parts(src.range(lo * 10_000, hi * 10_000) as u32),
        _ => Permill::from_percent(src.range(lo, hi) as u32),
    }
}
fn rates(src: &mut Src, wild: bool) -> InterestRateModel {
    if src.chance(1, 4) {
        return InterestRateModel::Curve(CurveModel { base_rate: fx(percent(src, 0, if wild { 12 } else { 10 })) });
    }
    let base = percent(src, 0, if wild { 12 } else { 10 });
    let jump = if wild && src.chance(1, 4) { percent(src, 0, 110) } else { base + (ONE - base) / 100 * src.range(0, 100) as u128 };
    let full = if wild && src.chance(1, 4) { percent(src, 0, 510) } else { jump + (5 * ONE - jump) / 100 * src.range(0, 100) as u128 };
    let at = if wild && src.chance(1, 4) { *src.pick(&[Permill::zero(), Permill::one()]) } else { part(src, 1, 99) };
    InterestRateModel::Jump(JumpModel { base_rate: fx(base), jump_rate: fx(jump.min(if wild { u128::MAX } else { ONE })), full_rate: fx(full), jump_utilization: at })
}
fn why(e: &DispatchError) -> String {
    match e {
        DispatchError::Module(m) => m.message.unwrap_or("?").to_string(),
        e => format!("{e:?}"),
    }
}

fn dispatch(op: &Op) -> Result<(), DispatchError> {
    let by = |a: usize| RawOrigin::Signed(account(a)).into();
    let gov = |root: bool| -> frame_system::SimOrigin<Acc> {
        if root {
            RawOrigin::Root.into()
        } else {
            RawOrigin::Signed(account(0)).into()
        }
    };
    macro_rules! call {
        ($who:expr, $($t:tt)*) => { sim_node::dispatch::<Rt, _>(loans::Call::<Rt>::$($t)*, $who) };
    }
    match op.clone() {
        Op::Mint { who, m, x } => call!(by(who), mint { asset_id: cur(m), mint_amount: x }),
        Op::Redeem { who, m, x } => call!(by(who), redeem { asset_id: cur(m), redeem_amount: x }),
        Op::RedeemAll { who, m } => call!(by(who), redeem_all { asset_id: cur(m) }),
        Op::Borrow { who, m, x } => call!(by(who), borrow { asset_id: cur(m), borrow_amount: x }),
        Op::Repay { who, m, x } => call!(by(who), repay_borrow { asset_id: cur(m), repay_amount: x }),
        Op::RepayAll { who, m } => call!(by(who), repay_borrow_all { asset_id: cur(m) }),
        Op::Lock { who, m } => call!(by(who), deposit_all_collateral { asset_id: cur(m) }),
        Op::Unlock { who, m } => call!(by(who), withdraw_all_collateral { asset_id: cur(m) }),
        Op::Liquidate { who, b, m, x, cm } => {
            call!(by(who), liquidate_borrow { borrower: account(b), liquidation_asset_id: cur(m), repay_amount: x, collateral_asset_id: cur(cm) })
        }
        Op::AddReserves { root, from, m, x } => call!(gov(root), add_reserves { payer: account(from), asset_id: cur(m), add_amount: x }),
        Op::ReduceReserves { root, to, m, x } => call!(gov(root), reduce_reserves { receiver: account(to), asset_id: cur(m), reduce_amount: x }),
        Op::ReduceIncentive { root, to, m, x } => call!(gov(root), reduce_incentive_reserves { receiver: account(to), asset_id: cur(m), redeem_amount: x }),
        Op::AddReward { who, x } => call!(by(who), add_reward { amount: x }),
        Op::Speed { root, m, s, b } => call!(gov(root), update_market_reward_speed { asset_id: cur(m), supply_reward_per_block: s, borrow_reward_per_block: b }),
        Op::Claim { who } => call!(by(who), claim_reward {}),
        Op::ClaimMarket { who, m } => call!(by(who), claim_reward_for_market { asset_id: cur(m) }),
        Op::Transfer { from, to, c, x } => {
            sim_node::extrinsic::<Rt, _>(|| <Tokens as MultiCurrency<Acc>>::transfer(cur(c), &account(from), &account(to), x)).map(|_| ())
        }
        Op::AddMarket { root, m, p } => call!(gov(root), add_market { asset_id: cur(m), market: p }),
        Op::Activate { root, m } => call!(gov(root), activate_market { asset_id: cur(m) }),
        Op::Rates { root, m, r } => call!(gov(root), update_rate_model { asset_id: cur(m), rate_model: r }),
        Op::Update { root, m, u } => call!(
            gov(root),
            update_market {
                asset_id: cur(m),
                collateral_factor: u.cf,
                liquidation_threshold: u.lt,
                reserve_factor: u.rf,
                close_factor: u.close,
                liquidate_incentive_reserved_factor: u.ir,
                liquidate_incentive: u.inc,
                supply_cap: u.sc,
                borrow_cap: u.bc
            }
        ),
    }
}

impl Sim {
    fn submit(&mut self, src: &mut Src, ctx: &mut Ctx, op: Op) {
        ctx.note(|| format!("sent: {op:?}"));
        if src.chance(self.loss, 12) {
            ctx.fault("call lost on its way");
            return;
        }
        if src.chance(1, 12) {
            ctx.fault("call repeated on its way");
            self.pool.push(op.clone());
        }
        self.pool.push(op);
    }

    // ------------------------------------------------------------ what people do

    /// The state with interest up to now, for aiming at limits.
    fn ahead(&self) -> World {
        let mut w = self.m.w.clone();
        for m in 0..NM {
            if w.active(m).is_ok() {
                let _ = w.accrue(m);
            }
        }
        w
    }
    fn supply(&mut self, src: &mut Src) -> Op {
        let mut w = self.ahead();
        let (who, m) = (src.usize(PEOPLE), src.usize(NM));
        let cap = w.mk(m).map_or(0, |k| k.p.supply_cap).saturating_sub(w.cash(m));
        match src.below(8) {
            0 | 1 | 2 | 3 => {
                let l = [w.free(who, m), cap.min(w.free(who, m)), w.free(who, m) / 10, self.scale];
                Op::Mint { who, m, x: amount(src, &l, self.scale) }
            }
            4 => Op::RedeemAll { who, m },
            _ => {
                // often with what the holder can take out
                let holders: Vec<usize> = (0..PEOPLE).filter(|a| w.total(*a, NM + m) > 0).collect();
                let who = if holders.is_empty() { who } else { *src.pick(&holders) };
                let all = w.total(who, NM + m);
                let worth = w.to_under(m, all).unwrap_or(0);
                let there = w.cash(m).saturating_sub(w.mk(m).map_or(0, |k| k.tr));
                let owed = w.owed(who).unwrap_or(0);
                let col = w.collateral(who, false).unwrap_or(0).saturating_sub(owed);
                let cf = w.mk(m).map_or(0, |k| k.p.collateral_factor.deconstruct() as u128).max(1);
                let price = w.price[m].unwrap_or(ONE);
                let slack = muldiv(muldiv(col, price, ONE).unwrap_or(0), 1_000_000, cf).unwrap_or(0);
                let l = [worth, there, worth.min(there), slack.min(worth), 1];
                Op::Redeem { who, m, x: amount(src, &l, worth) }
            }
        }
    }
    fn borrow(&mut self, src: &mut Src) -> Op {
        let mut w = self.ahead();
        let (mut who, m) = (src.usize(PEOPLE), src.usize(NM));
        let rich: Vec<usize> = (0..PEOPLE).filter(|a| (0..NM).any(|m| w.dep(m, *a) > 0)).collect();
        if !rich.is_empty() && src.chance(7, 8) {
            who = *src.pick(&rich);
        }
        let owed = w.owed(who).unwrap_or(0);
        let col = w.collateral(who, false).unwrap_or(0).saturating_sub(owed);
        let can = muldiv(col, w.price[m].unwrap_or(ONE), ONE).unwrap_or(0);
        let (cap, there) = w.mk(m).map_or((0, 0), |k| (k.p.borrow_cap.saturating_sub(k.tb), w.cash(m).saturating_sub(k.tr)));
        let l = [can, can, can.min(there), there.min(can), cap.min(can), 1];
        Op::Borrow { who, m, x: amount(src, &l, self.scale) }
    }
    fn repay(&mut self, src: &mut Src) -> Op {
        let w = self.ahead();
        let d: Vec<(usize, usize)> = w.bor.keys().copied().collect();
        let (m, who) = if d.is_empty() || src.chance(1, 12) { (src.usize(NM), src.usize(PEOPLE)) } else { *src.pick(&d) };
        if src.chance(1, 3) {
            return Op::RepayAll { who, m };
        }
        let x = w.debt(m, who).unwrap_or(0);
        Op::Repay { who, m, x: amount(src, &[x, x / 2, w.free(who, m), 1], x) }
    }
    fn toggle(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let (who, m) = (src.usize(PEOPLE), src.usize(NM));
        match src.below(4) {
            0 => Op::Unlock { who, m },
            1 => {
                let h: Vec<(usize, usize)> = (0..PEOPLE).flat_map(|a| (0..NM).map(move |m| (a, m))).filter(|x| w.free(x.0, NM + x.1) > 0).collect();
                let (who, m) = if h.is_empty() { (who, m) } else { *src.pick(&h) };
                let to = if src.chance(1, 8) { *src.pick(&[POOL, INCENTIVE, REWARD]) } else { src.usize(PEOPLE) };
                let f = w.free(who, NM + m);
                Op::Transfer { from: who, to, c: NM + m, x: amount(src, &[f, f / 2, 1], f) }
            }
            _ => {
                let h: Vec<(usize, usize)> = (0..PEOPLE).flat_map(|a| (0..NM).map(move |m| (a, m))).filter(|x| w.free(x.0, NM + x.1) > 0).collect();
                let (who, m) = if h.is_empty() || src.chance(1, 8) { (who, m) } else { *src.pick(&h) };
                Op::Lock { who, m }
            }
        }
    }
    fn liquidate(&mut self, src: &mut Src) -> Op {
        let mut w = self.ahead();
        let d: Vec<(usize, usize)> = w.bor.keys().copied().collect();
        let bad: Vec<(usize, usize)> = d
            .iter()
            .copied()
            .filter(|(_, a)| w.clone().collateral(*a, true).unwrap_or(0) < w.owed(*a).unwrap_or(0))
            .collect();
        let (m, b) = if !bad.is_empty() && src.chance(7, 8) {
            *src.pick(&bad)
        } else if d.is_empty() || src.chance(1, 8) {
            (src.usize(NM), src.usize(PEOPLE))
        } else {
            *src.pick(&d)
        };
        let cols: Vec<usize> = (0..NM).filter(|c| w.dep(*c, b) > 0).collect();
        let cm = if cols.is_empty() || src.chance(1, 12) { src.usize(NM) } else { *src.pick(&cols) };
        let debt = w.debt(m, b).unwrap_or(0);
        let (close, inc) = w.mk(m).map_or((0, ONE), |k| (k.p.close_factor.mul_ceil(debt), k.p.liquidate_incentive.into_inner()));
        let d = w.dep(cm, b);
        let col = w.to_under(cm, d).unwrap_or(0);
        let col = w.value(cm, col).unwrap_or(0);
        let col = muldiv(col, ONE, inc.max(1)).unwrap_or(0);
        let most = if m == 1 { col } else { muldiv(col, w.price[m].unwrap_or(ONE), ONE).unwrap_or(0) };
        let l = [close, close.min(most), most.min(close), most.min(debt), debt, close];
        let mut who = src.usize(PEOPLE);
        if who == b && src.chance(7, 8) {
            who = (b + 1) % PEOPLE;
        }
        Op::Liquidate { who, b, m, x: amount(src, &l, debt), cm }
    }
    fn reserves(&mut self, src: &mut Src) -> Op {
        let mut w = self.ahead();
        let m = src.usize(NM);
        let root = src.chance(9, 10);
        let a = src.usize(PEOPLE);
        let tr = w.mk(m).map_or(0, |k| k.tr);
        match src.below(4) {
            0 => Op::AddReserves { root, from: a, m, x: amount(src, &[w.free(a, m), w.free(a, m) / 100], self.scale) },
            1 | 2 => Op::ReduceReserves { root, to: a, m, x: amount(src, &[tr, w.cash(m), tr / 2], tr) },
            _ => {
                let v = w.total(INCENTIVE, NM + m);
                let x = w.to_under(m, v).unwrap_or(0);
                Op::ReduceIncentive { root, to: a, m, x: amount(src, &[x, x / 2, 1], x) }
            }
        }
    }
    fn rewards(&mut self, src: &mut Src) -> Op {
        let who = src.usize(PEOPLE);
        match src.below(8) {
            0 => {
                let f = self.m.w.free(who, 2);
                Op::AddReward { who, x: amount(src, &[f / 10, f / 100], f) }
            }
            1 | 2 => {
                let mut one = |src: &mut Src| if src.chance(1, 3) { None } else { Some(*src.pick(&[0, 1, 1_000_000, 1_000_000_007, self.scale / 1000])) };
                let (s, b) = (one(src), one(src));
                Op::Speed { root: src.chance(9, 10), m: src.usize(NM), s, b }
            }
            3 | 4 => Op::ClaimMarket { who, m: src.usize(NM) },
            _ => Op::Claim { who },
        }
    }
    fn a_market(&self, src: &mut Src, m: usize, wild: bool) -> Market<u128> {
        let cf = part(src, 0, 90);
        let lt = Permill::from_parts((cf.deconstruct() + src.range(0, 200_000) as u32).min(999_999));
        let mut p = Market {
            collateral_factor: cf,
            liquidation_threshold: lt,
            reserve_factor: part(src, 1, 50),
            close_factor: part(src, 20, 100),
            liquidate_incentive: fx(percent(src, 100, 130)),
            liquidate_incentive_reserved_factor: part(src, 0, 20),
            rate_model: rates(src, wild),
            state: MarketState::Pending,
            supply_cap: *src.pick(&[u128::MAX >> 8, self.scale * 3, self.scale]),
            borrow_cap: *src.pick(&[u128::MAX >> 8, self.scale * 2, self.scale / 2]),
            lend_token_id: cur(NM + m),
        };
        if wild && src.chance(1, 3) {
            match src.below(7) {
                0 => p.collateral_factor = Permill::one(),
                1 => p.liquidation_threshold = *src.pick(&[Permill::one(), Permill::zero()]),
                2 => p.reserve_factor = *src.pick(&[Permill::one(), Permill::zero()]),
                3 => p.liquidate_incentive_reserved_factor = Permill::one(),
                4 => p.supply_cap = 0,
                5 => p.state = MarketState::Active,
                _ => p.state = MarketState::Supervision,
            }
        }
        let taken: Vec<CurrencyId> = self.m.w.m.iter().flat_map(|(k, v)| [UNDER[*k], v.p.lend_token_id]).collect();
        if wild && !taken.is_empty() && src.chance(1, 8) {
            p.lend_token_id = *src.pick(&taken);
        }
        p
    }
    fn govern(&mut self, src: &mut Src) -> Op {
        let m = src.usize(NM);
        let root = src.chance(9, 10);
        match src.below(6) {
            0 => Op::AddMarket { root, m, p: self.a_market(src, m, true) },
            1 => Op::Activate { root, m },
            2 => Op::Rates { root, m, r: rates(src, true) },
            _ => {
                let p = self.a_market(src, m, true);
                let mut u = Upd::default();
                macro_rules! some {
                    ($f:ident, $g:ident) => {
                        if src.chance(1, 4) {
                            u.$f = Some(p.$g);
                        }
                    };
                }
                some!(cf, collateral_factor);
                some!(lt, liquidation_threshold);
                some!(rf, reserve_factor);
                some!(close, close_factor);
                some!(ir, liquidate_incentive_reserved_factor);
                some!(inc, liquidate_incentive);
                some!(sc, supply_cap);
                some!(bc, borrow_cap);
                Op::Update { root, m, u }
            }
        }
    }
    fn give(&mut self, src: &mut Src, ctx: &mut Ctx) -> Op {
        let (from, m) = (src.usize(PEOPLE), src.usize(NM));
        let f = self.m.w.free(from, m);
        if src.chance(1, 6) {
            ctx.fault("donation to the pool");
            return Op::Transfer { from, to: *src.pick(&[POOL, POOL, INCENTIVE, REWARD]), c: m, x: amount(src, &[1, f / 1_000_000, f / 1000], f / 100) };
        }
        Op::Transfer { from, to: src.usize(PEOPLE), c: m, x: amount(src, &[f, f / 2], f) }
    }
    fn make(&mut self, src: &mut Src, ctx: &mut Ctx) -> Op {
        match src.weighted(&self.weights.clone()) {
            0 => self.supply(src),
            1 => self.borrow(src),
            2 => self.repay(src),
            3 => self.toggle(src),
            4 => self.liquidate(src),
            5 => self.reserves(src),
            6 => self.rewards(src),
            7 => self.govern(src),
            _ => self.give(src, ctx),
        }
    }

    // ------------------------------------------------------------ blocks

    fn feed(&mut self, src: &mut Src, ctx: &mut Ctx) {
        for i in [0, 2] {
            let f = match src.below(10) {
                0 => {
                    ctx.fault("price jump");
                    percent(src, 40, 250)
                }
                1 | 2 if self.crisis => {
                    ctx.fault("crisis");
                    if i == 0 {
                        percent(src, 100, 160)
                    } else {
                        percent(src, 60, 160)
                    }
                }
                1 => percent(src, 80, 125),
                _ => percent(src, 99, 101),
            };
            let x = muldiv(self.market[i], f, ONE).unwrap();
            self.market[i] = x.clamp(ONE / 10, 100_000_000 * ONE);
        }
        if src.chance(1, 24) {
            self.stalled = !self.stalled;
            if self.stalled {
                ctx.fault("oracle stalled");
            }
        }
    }
    fn tell(&mut self) {
        let values = [0, 2].map(|i| (Key::ExchangeRate(UNDER[i]), fx(self.market[i]))).to_vec();
        let call = oracle::Call::<Rt>::feed_values { values };
        if sim_node::dispatch::<Rt, _>(call, RawOrigin::Signed(ORACLE).into()).is_ok() {
            for i in [0, 2] {
                self.m.fed[i] = Some((self.market[i], self.m.now));
            }
        }
    }

    fn begin(&mut self, ctx: &mut Ctx, step: u64) -> Res {
        let n = self.number + 1;
        System::set_block_number(n);
        System::reset_events();
        Security::on_initialize(n);
        Oracle::on_initialize(n);
        // what the block just gone has earned
        let w = &self.m.w;
        let e = &mut self.m.e;
        for m in 0..NM {
            let total = w.iss[NM + m] as f64;
            let (s, b) = (w.speed[m].0 as f64, w.speed[m].1 as f64);
            let k = w.mk(m).ok().cloned();
            for a in 0..NA {
                let share = w.total(a, NM + m) as f64;
                if s > 0.0 && share > 0.0 {
                    let x = s * share / total;
                    let lo = (x - share / 1e12 - 2.0).max(0.0);
                    e.lo[a] += lo;
                    e.part[m][a] += lo;
                    e.hi[a] += x;
                }
                let (Some(k), Ok(debt)) = (&k, w.debt(m, a)) else { continue };
                if b > 0.0 && debt > 0 {
                    let idx = k.idx.into_inner() as f64 / 1e18;
                    let (share, total) = (debt as f64 / idx, k.tb as f64 / idx);
                    if total > 3.0 {
                        e.hi[a] += b * (share + 2.0) / (total - 2.5);
                        let lo = (b * (share - 2.5).max(0.0) / (total + 2.0) - share / 1e12 - 2.0).max(0.0);
                        e.lo[a] += lo;
                        e.part[m][a] += lo;
                    } else {
                        e.hi[a] += b * (share + 2.0);
                    }
                }
            }
        }
        self.m.now += step;
        Timestamp::set_timestamp(self.m.now);
        let mut exp = self.m.w.clone();
        exp.now = self.m.now / 1000;
        let act = World::read(&exp);
        if act.price != exp.price {
            ctx.probe(if act.price.contains(&None) { "price expired" } else { "price changed" });
        }
        if let Some((what, d)) = differ(&exp, &act) {
            ctx.check("L01", &format!("{what} changes by itself"), false, || d)?;
        }
        self.m.w = act;
        Ok(())
    }

    fn apply(&mut self, ctx: &mut Ctx, op: &Op) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let prop = prop_of(op);
        let name = op_name(op);
        let old = self.m.w.clone();
        let mut exp = old.spec(op);
        let before = state::hash();
        let r = dispatch(op);
        ctx.event(hash_str(&format!("{name}{:?}", r.is_ok())));
        ctx.note(|| format!("  {op:?}: {:?}, rule {:?}", r.as_ref().map_err(why), exp.as_ref().map(|_| ())));
        ctx.nontrivial |= r.is_ok() && (ctx.is(prop) || ctx.is("L01") || ctx.is("L02"));
        ctx.probe(match (op, r.is_ok()) {
            (Op::Mint { .. }, true) => "supplied",
            (Op::Redeem { .. }, true) => "redeemed",
            (Op::RedeemAll { .. }, true) => "redeemed all",
            (Op::Borrow { .. }, true) => "borrowed",
            (Op::Repay { .. }, true) => "repaid",
            (Op::RepayAll { .. }, true) => "repaid all",
            (Op::Lock { .. }, true) => "locked",
            (Op::Unlock { .. }, true) => "unlocked",
            (Op::Liquidate { .. }, true) => "liquidated",
            (Op::AddReserves { .. }, true) => "reserves added",
            (Op::ReduceReserves { .. }, true) => "reserves reduced",
            (Op::ReduceIncentive { .. }, true) => "incentive reserves reduced",
            (Op::Claim { .. }, true) => "rewards claimed",
            (Op::ClaimMarket { .. }, true) => "a market's rewards claimed",
            (Op::Transfer { c, .. }, true) if *c >= NM => "lend tokens transferred",
            (_, true) => "other call accepted",
            (_, false) => "call refused",
        });
        // what claims pay follows the rewards' own rules
        if let Op::Claim { who } | Op::ClaimMarket { who, .. } = op {
            let act = World::read(&old);
            let paid = act.free(*who, 2).wrapping_sub(old.free(*who, 2));
            let e = &mut self.m.e;
            let slack = 8.0 + e.hi[*who] * 1e-9;
            let (least, whole) = match op {
                Op::ClaimMarket { m, .. } => (e.part[*m][*who], false),
                _ => (e.lo[*who], true),
            };
            let (lo, hi) = (least, e.hi[*who]);
            if r.is_ok() {
                let p = paid as f64;
                if whole {
                    e.lo[*who] = 0.0;
                    e.hi[*who] = 0.0;
                    for m in 0..NM {
                        e.part[m][*who] = 0.0;
                    }
                } else {
                    e.lo[*who] = (e.lo[*who] - p).max(0.0);
                    e.hi[*who] = (hi - p).max(0.0);
                    for m in 0..NM {
                        // which may have been another market's
                        e.part[m][*who] = (e.part[m][*who] - p).max(0.0);
                    }
                    if let Op::ClaimMarket { m, .. } = op {
                        e.part[*m][*who] = 0.0;
                    }
                }
                if paid > 0 {
                    ctx.probe("rewards paid");
                }
                ctx.check(prop, "claim pays too little", p >= lo - slack, || format!("{op:?}: {paid}, earned at least {lo}"))?;
                ctx.check(prop, "claim pays too much", p <= hi + slack, || format!("{op:?}: {paid}, earned at most {hi}"))?;
                if let Ok(x) = &mut exp {
                    *x.free.get_mut(&(REWARD, 2)).unwrap() -= paid;
                    *x.free.get_mut(&(*who, 2)).unwrap() += paid;
                }
            } else if old.free(REWARD, 2) as f64 <= hi + slack {
                ctx.probe("not enough rewards");
                exp = Err("not enough rewards");
            }
        }
        match (exp, r) {
            (Err("overflow"), _) => {
                self.m.w = World::read(&old);
                self.m.dead = true;
            }
            (Ok(_), Err(e)) => {
                ctx.check(prop, &format!("{name} refused: {}", why(&e)), false, || format!("{op:?} is refused by the chain but not by the rules"))?;
            }
            (Err(e), Ok(())) => {
                self.m.w = World::read(&old);
                ctx.check(prop, &format!("{name} accepted: {e}"), false, || format!("{op:?} is accepted by the chain but not by the rules"))?;
            }
            (Err(_), Err(_)) => {
                ctx.check(prop, "refused call changes the state", state::hash() == before, || format!("{op:?}"))?;
            }
            (Ok(exp), Ok(())) => {
                self.m.w = World::read(&exp);
                let act = &self.m.w;
                for m in 0..NM {
                    // what was cut off goes on bearing interest
                    if let (Ok(a), Ok(b)) = (old.mk(m), exp.mk(m)) {
                        self.m.cuts[m] *= (b.idx.into_inner() as f64 / a.idx.into_inner().max(1) as f64).max(1.0);
                    }
                    self.m.cuts[m] += 2.0;
                }
                if let Some((what, d)) = differ(&exp, act) {
                    let p = if what == "interest" { "L02" } else { prop };
                    ctx.check(p, &format!("{name}: {what} differs"), false, || format!("{op:?}: {d}"))?;
                }
                // a supplier's tokens do not lose worth
                for m in 0..NM {
                    let (a, b) = (old.iss[NM + m], act.iss[NM + m]);
                    let (Ok(x), Ok(y)) = (old.backing(m), act.backing(m)) else { continue };
                    if a == 0 || b == 0 {
                        continue;
                    }
                    let (was, is) = (x as f64 / a as f64, y as f64 / b as f64);
                    let ok = is >= was * (1.0 - 1e-13) - 1.0 / b as f64 * 1e-6;
                    ctx.check("L01", "lend tokens lose worth", ok, || format!("{op:?}: market {m}: {x} for {a} before, {y} for {b} now"))?;
                }
            }
        }
        Ok(())
    }

    fn invariants(&self, ctx: &mut Ctx) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let w = &self.m.w;
        for c in 0..NC {
            let all: u128 = (0..NA).map(|a| w.total(a, c)).sum();
            ctx.check("L01", "tokens are not all somewhere", all == w.iss[c], || format!("currency {c}: {all} held, {} issued", w.iss[c]))?;
        }
        for m in 0..NM {
            for a in 0..NA {
                let (d, r, f) = (w.dep(m, a), w.res[&(a, NM + m)], w.free(a, NM + m));
                ctx.check("L03", "collateral is not what is locked", d == r, || format!("market {m} account {a}: {d}, locked {r}"))?;
                ctx.check("L03", "collateral beside free lend tokens", d == 0 || f == 0, || format!("market {m} account {a}: {d} and {f}"))?;
            }
            let Ok(k) = w.mk(m) else { continue };
            let debts: f64 = (0..NA).map(|a| w.debt(m, a).unwrap_or(0) as f64).sum();
            let tol = self.m.cuts[m] + debts * 1e-12;
            ctx.check("L02", "debts are not the total", (debts - k.tb as f64).abs() <= tol, || format!("market {m}: {debts} owed, total {}", k.tb))?;
            let low = w.iss[NM + m] as f64 * (w.min.into_inner() as f64 / 1e18);
            let b = w.backing(m).unwrap_or(0) as f64;
            ctx.check("L01", "lend tokens are not backed", b >= low * (1.0 - 1e-13) - 1.0, || format!("market {m}: {b} for {}", w.iss[NM + m]))?;
        }
        Ok(())
    }

    fn produce(&mut self, src: &mut Src, ctx: &mut Ctx, all: bool) -> Res {
        if src.chance(1, 2) {
            self.feed(src, ctx);
        }
        let saved = self.m.clone();
        let mut body = vec![];
        let n = if all { self.pool.len() } else { src.usize(7).min(self.pool.len()) };
        for _ in 0..n {
            let i = if src.chance(1, 8) {
                ctx.fault("calls reordered");
                src.usize(self.pool.len())
            } else {
                0
            };
            body.push(Some(self.pool.remove(i)));
        }
        // and somebody who sees the block before it is made
        for _ in 0..src.usize(3) {
            body.push(None);
        }
        let step = if src.chance(1, 24) {
            ctx.fault("clock jump");
            src.magnitude(31_536_000_000) as u64 + 1000
        } else {
            6_000 + src.below(12_000)
        };
        let tell = !self.stalled && src.chance(3, 4);
        let mut crash = if src.chance(1, 16) { Some(src.usize(body.len() + 1)) } else { None };
        loop {
            let mut r = Ok(());
            let out = sim_node::block::<Rt, _>(None, || {
                r = self.begin(ctx, step);
                if tell {
                    self.tell();
                }
                for i in 0..body.len() {
                    if crash == Some(i) {
                        std::panic::panic_any(state::SimCrash);
                    }
                    if body[i].is_none() {
                        body[i] = Some(self.make(src, ctx));
                    }
                    if r.is_ok() {
                        r = self.apply(ctx, body[i].as_ref().unwrap());
                    }
                }
                if crash == Some(body.len()) {
                    std::panic::panic_any(state::SimCrash);
                }
            });
            r?;
            if out.is_ok() {
                break;
            }
            ctx.fault("crash inside a block");
            self.m = saved.clone();
            crash = None;
        }
        self.number += 1;
        ctx.sim_time += step / 1000;
        if !body.is_empty() {
            self.invariants(ctx)?;
        }
        Ok(())
    }

    /// Everybody repays, unlocks and redeems.
    fn end(&mut self, ctx: &mut Ctx) -> Res {
        for m in 0..NM {
            let mut w = self.m.w.clone();
            if w.active(m).is_err() {
                continue;
            }
            if let Err(e) = w.accrue(m).and_then(|_| w.rate(m)) {
                self.m.dead = true;
                ctx.check("L01", &format!("nobody can redeem: {e}"), e == "overflow", || format!("market {m}: {:?}, {} lend tokens", w.mk(m), w.iss[NM + m]))?;
            }
        }
        for m in 0..NM {
            for a in 0..PEOPLE {
                if self.m.dead {
                    return Ok(());
                }
                let mut w = self.m.w.clone();
                if w.active(m).is_err() || w.accrue(m).is_err() {
                    continue;
                }
                let d = w.debt(m, a).unwrap_or(0);
                if d > 0 {
                    let f = w.free(a, m);
                    if f < d {
                        orml_tokens::Pallet::<Rt>::sim_set_free(&account(a), cur(m), d);
                        self.m.w = World::read(&self.m.w);
                    }
                    self.must(ctx, "L02", Op::RepayAll { who: a, m })?;
                }
            }
            if let Ok(k) = self.m.w.mk(m) {
                if !self.m.dead && self.m.w.bor.keys().all(|x| x.0 != m) {
                    let tb = k.tb;
                    ctx.check("L02", "borrowed though all is repaid", tb as f64 <= self.m.cuts[m], || format!("market {m}: {tb}"))?;
                }
            }
        }
        for m in 0..NM {
            if self.m.w.bor.keys().any(|x| x.0 == m) || self.m.w.active(m).is_err() {
                continue;
            }
            for a in 0..PEOPLE {
                if self.m.dead {
                    return Ok(());
                }
                if self.m.w.dep(m, a) > 0 {
                    self.must(ctx, "L03", Op::Unlock { who: a, m })?;
                }
                let mut w = self.m.w.clone();
                let v = w.total(a, NM + m);
                if v == 0 {
                    continue;
                }
                let Ok(worth) = w.to_under(m, v) else { continue };
                let there = w.cash(m).saturating_sub(w.m[&m].tr);
                if worth > there {
                    // what roundings have left behind is owed by nobody
                    let short = worth - there;
                    ctx.check("L01", "not enough for everybody to redeem", short as f64 <= self.m.cuts[m], || format!("market {m}: {worth} to redeem, {there} there"))?;
                    if there > 0 {
                        self.must(ctx, "L01", Op::Redeem { who: a, m, x: there })?;
                    }
                } else {
                    self.must(ctx, "L01", Op::RedeemAll { who: a, m })?;
                }
            }
        }
        Ok(())
    }
    fn must(&mut self, ctx: &mut Ctx, prop: &str, op: Op) -> Res {
        if let Err(e) = self.m.w.spec(&op) {
            let (prop, class) = match e {
                "exchange rate above its limit" => ("L01", format!("nobody can redeem: {e}")),
                e => (prop, format!("cannot {}: {e}", op_name(&op))),
            };
            ctx.check(prop, &class, e == "overflow", || format!("{op:?} after the faults have stopped"))?;
            self.m.dead = self.m.dead || prop == "L01" && e != "overflow";
        }
        self.apply(ctx, &op)
    }
}

impl Scenario for Sim {
    const NAME: &'static str = "loans";
    fn real() -> &'static [&'static str] {
        &["loans", "oracle", "currency", "security"]
    }
    fn stubs() -> &'static [&'static str] {
        &["frame-system, frame-support, pallet-timestamp, orml-tokens"]
    }
    fn new(src: &mut Src, ctx: &mut Ctx) -> Self {
        state::disarm_crash();
        state::unwind_to(0);
        state::reset();
        System::reset_events();
        let min = fx(ONE / 50);
        let max = fx(*src.pick(&[ONE, ONE, 10 * ONE, 1_000_000 * ONE]));
        loans::GenesisConfig::<Rt> { max_exchange_rate: max, min_exchange_rate: min, _marker: Default::default() }.build();
        let max_delay = *src.pick(&[600_000u64, 3_600_000, 40_000_000_000]);
        let name: BoundedVec<u8, ConstU32<255>> = BoundedVec::try_from(b"o".to_vec()).unwrap();
        oracle::GenesisConfig::<Rt> { max_delay: max_delay as u32, authorized_oracles: vec![(ORACLE, name)] }.build();
        let scale = *src.pick(&[10u128, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000, 100_000_000_000_000_000]);
        // how much of each currency is as much worth
        let market = [*src.pick(&[ONE, 10_000 * ONE]), ONE, *src.pick(&[ONE, 1_000_000 * ONE])];
        for a in 0..PEOPLE {
            for c in 0..NM {
                let x = scale / 100 * src.range(0, 300) as u128 + src.below(10) as u128;
                let x = if c == 1 { x / (market[0] / ONE) } else { x };
                orml_tokens::Pallet::<Rt>::sim_set_free(&account(a), cur(c), x);
            }
        }
        orml_tokens::Pallet::<Rt>::sim_set_free(&account(REWARD), cur(2), if src.chance(1, 4) { 1000 } else { scale * 1000 });
        Security::on_initialize(1);
        System::set_block_number(1);
        let now = 1_700_000_000_000;
        Timestamp::set_timestamp(now);
        state::start_transaction();
        let w = World::read(&World { now: now / 1000, min, max, ..Default::default() });
        let mut s = Sim {
            m: Model { w, e: Earned::default(), fed: [None; NM], now, cuts: [4.0; NM], dead: false },
            max_delay,
            market,
            pool: vec![],
            number: 1,
            steps: 40 + src.usize(120),
            weights: vec![],
            loss: src.below(3),
            stalled: false,
            crisis: src.chance(1, 3),
            scale,
        };
        //                           sup bor rep tog liq res rew gov give
        s.weights = match ctx.property.as_str() {
            "L01" => vec![12, 4, 4, 3, 2, 2, 1, 1, 3],
            "L02" => vec![6, 6, 8, 4, 2, 5, 1, 2, 1],
            "L03" => vec![6, 10, 3, 8, 2, 1, 1, 1, 2],
            "L04" => vec![5, 8, 2, 4, 10, 3, 1, 1, 1],
            "L05" => vec![5, 5, 4, 4, 4, 1, 10, 1, 2],
            "L06" => vec![4, 3, 2, 2, 1, 1, 3, 10, 1],
            _ => vec![5, 5, 4, 4, 4, 2, 3, 2, 2],
        };
        let go = |s: &mut Sim, src: &mut Src, ctx: &mut Ctx| -> Res {
            let mut r = Ok(());
            let _ = sim_node::block::<Rt, _>(None, || {
                r = s.begin(ctx, 6_000);
                s.tell();
            });
            r?;
            s.number += 1;
            let mut r = Ok(());
            let _ = sim_node::block::<Rt, _>(None, || r = s.begin(ctx, 6_000));
            r?;
            s.number += 1;
            let few = ctx.is("L06");
            for m in 0..NM {
                if few && src.bool() {
                    continue;
                }
                let p = s.a_market(src, m, false);
                s.apply(ctx, &Op::AddMarket { root: true, m, p })?;
                if src.chance(15, 16) {
                    s.apply(ctx, &Op::Activate { root: true, m })?;
                    let pick = |src: &mut Src| Some(*src.pick(&[0, 0, 1_000_000_007, s.scale / 10_000]));
                    let (a, b) = (pick(src), pick(src));
                    s.apply(ctx, &Op::Speed { root: true, m, s: a, b })?;
                    for a in 0..PEOPLE {
                        if src.chance(1, 3) {
                            let x = amount(src, &[s.m.w.free(a, m)], s.scale);
                            s.apply(ctx, &Op::Mint { who: a, m, x })?;
                            if src.bool() {
                                s.apply(ctx, &Op::Lock { who: a, m })?;
                            }
                        }
                    }
                }
            }
            Ok(())
        };
        if go(&mut s, src, ctx).is_err() {
            s.m.dead = true;
        }
        s
    }
    fn steps(&self) -> usize {
        self.steps
    }
    fn panic_property(&self) -> Option<&'static str> {
        Some("L01")
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if self.m.dead {
            return Ok(());
        }
        match src.below(8) {
            0 | 1 => self.produce(src, ctx, false),
            2 if src.chance(1, 4) => {
                for _ in 0..src.range(2, 12) {
                    self.produce(src, ctx, true)?;
                }
                Ok(())
            }
            _ => {
                let op = self.make(src, ctx);
                self.submit(src, ctx, op);
                Ok(())
            }
        }
    }
    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.loss = 0;
        self.produce(src, ctx, true)?;
        if self.m.dead {
            return Ok(());
        }
        // the faults stop
        self.stalled = false;
        for i in 0..3 {
            let mut r = Ok(());
            let _ = sim_node::block::<Rt, _>(None, || {
                r = self.begin(ctx, if i == 0 { self.max_delay.min(10_000_000) } else { 6_000 });
                self.tell();
            });
            r?;
            self.number += 1;
        }
        let mut r = Ok(());
        let _ = sim_node::block::<Rt, _>(None, || r = self.end(ctx));
        r?;
        self.invariants(ctx)
    }
}
