//! Traders, providers of liquidity, contributors to bootstraps, strangers and governance act on the
//! exchanges; calls are lost, repeated and reordered on their way and come too late, tokens are
//! donated, the clock jumps, and the node crashes inside blocks and executes them again. After every
//! call the whole state is compared with the rules.
use crate::{num::*, rt::*, stable::*, world::*};
use dex_swap_router::{Route, StablePath, StableSwapMode};
use frame_support::state;
use frame_system::RawOrigin;
use orml_traits::MultiCurrency;
use sim_core::*;
use sp_runtime::DispatchError;
use std::collections::BTreeMap;

/// What goes back when a node crashes inside a block.
#[derive(Clone)]
struct Model {
    w: World,
    /// rewards charged and not paid
    left: Vec<BTreeMap<usize, u128>>,
    now: u64,
    dead: bool,
}

pub struct Sim {
    m: Model,
    pool: Vec<Op>,
    number: Block,
    steps: usize,
    weights: Vec<u32>,
    loss: u64,
    /// how many whole tokens an account has to begin with, in millionths
    scale: u128,
}

fn amount(src: &mut Src, limits: &[u128], most: u128) -> u128 {
    match src.below(8) {
        0 => src.magnitude(most.max(1)),
        1 | 2 => {
            let l = *src.pick(limits);
            let d = src.irange(-2, 2) as i128;
            (l as i128 + d).max(0) as u128
        }
        3 => *src.pick(limits),
        _ => {
            let l = *src.pick(limits);
            l / 1000 * src.range(1, 999) as u128
        }
    }
}
/// A limit: none, just about what comes, or far off.
fn least(src: &mut Src, x: u128) -> u128 {
    match src.below(8) {
        0 => x,
        1 => x.saturating_add(2).saturating_sub(src.below(5) as u128),
        2 => (x / 100).saturating_mul(src.range(90, 110) as u128),
        _ => 0,
    }
}
fn most(src: &mut Src, x: u128) -> u128 {
    match src.below(8) {
        0 => x,
        1 => x.saturating_add(2).saturating_sub(src.below(5) as u128),
        2 => (x / 100).saturating_mul(src.range(90, 110) as u128),
        _ => u128::MAX / 4,
    }
}
fn why(e: &DispatchError) -> String {
    match e {
        DispatchError::Module(m) => m.message.unwrap_or("?").to_string(),
        e => format!("{e:?}"),
    }
}

pub fn dispatch(op: &Op) -> Result<(), DispatchError> {
    let by = |a: usize| -> frame_system::SimOrigin<Acc> { RawOrigin::Signed(account(a)).into() };
    let gov = |root: bool| -> frame_system::SimOrigin<Acc> {
        if root {
            RawOrigin::Root.into()
        } else {
            RawOrigin::Signed(account(0)).into()
        }
    };
    macro_rules! g {
        ($who:expr, $($t:tt)*) => { sim_node::dispatch::<Rt, _>(dex_general::Call::<Rt>::$($t)*, $who) };
    }
    macro_rules! s {
        ($who:expr, $($t:tt)*) => { sim_node::dispatch::<Rt, _>(dex_stable::Call::<Rt>::$($t)*, $who) };
    }
    let path = |p: &Vec<usize>| p.iter().map(|c| cur(*c)).collect::<Vec<_>>();
    let list = |p: &Vec<(usize, u128)>| p.iter().map(|(c, x)| (cur(*c), *x)).collect::<Vec<_>>();
    match op.clone() {
        Op::FeeReceiver { root, on } => g!(gov(root), set_fee_receiver { send_to: on.then(|| account(FEE)) }),
        Op::FeePoint { root, x } => g!(gov(root), set_fee_point { fee_point: x }),
        Op::Rate { root, a, b, x } => g!(gov(root), set_exchange_fee { asset_0: cur(a), asset_1: cur(b), fee_rate: x }),
        Op::Create { root, a, b, x } => g!(gov(root), create_pair { asset_0: cur(a), asset_1: cur(b), fee_rate: x }),
        Op::Add { who, a, b, x, y, mx, my, dl } => {
            g!(by(who), add_liquidity { asset_0: cur(a), asset_1: cur(b), amount_0_desired: x, amount_1_desired: y, amount_0_min: mx, amount_1_min: my, deadline: dl })
        }
        Op::Remove { who, a, b, l, mx, my, to, dl } => {
            g!(by(who), remove_liquidity { asset_0: cur(a), asset_1: cur(b), liquidity: l, amount_0_min: mx, amount_1_min: my, recipient: account(to), deadline: dl })
        }
        Op::SwapIn { who, x, min, path: p, to, dl } => {
            g!(by(who), swap_exact_assets_for_assets { amount_in: x, amount_out_min: min, path: path(&p), recipient: account(to), deadline: dl })
        }
        Op::SwapOut { who, x, max, path: p, to, dl } => {
            g!(by(who), swap_assets_for_exact_assets { amount_out: x, amount_in_max: max, path: path(&p), recipient: account(to), deadline: dl })
        }
        Op::Start { root, a, b, t, c, end, rewards, limits } => g!(
            gov(root),
            bootstrap_create {
                asset_0: cur(a),
                asset_1: cur(b),
                target_supply_0: t.0,
                target_supply_1: t.1,
                capacity_supply_0: c.0,
                capacity_supply_1: c.1,
                end,
                rewards: path(&rewards),
                limits: list(&limits)
            }
        ),
        Op::Change { root, a, b, t, c, end, rewards, limits } => g!(
            gov(root),
            bootstrap_update {
                asset_0: cur(a),
                asset_1: cur(b),
                target_supply_0: t.0,
                target_supply_1: t.1,
                capacity_supply_0: c.0,
                capacity_supply_1: c.1,
                end,
                rewards: path(&rewards),
                limits: list(&limits)
            }
        ),
        Op::Contribute { who, a, b, x, y, dl } => {
            g!(by(who), bootstrap_contribute { asset_0: cur(a), asset_1: cur(b), amount_0_contribute: x, amount_1_contribute: y, deadline: dl })
        }
        Op::Claim { who, to, a, b, dl } => g!(by(who), bootstrap_claim { recipient: account(to), asset_0: cur(a), asset_1: cur(b), deadline: dl }),
        Op::End { who, a, b } => g!(by(who), bootstrap_end { asset_0: cur(a), asset_1: cur(b) }),
        Op::Refund { who, a, b } => g!(by(who), bootstrap_refund { asset_0: cur(a), asset_1: cur(b) }),
        Op::Charge { who, a, b, r } => g!(by(who), bootstrap_charge_reward { asset_0: cur(a), asset_1: cur(b), charge_rewards: list(&r) }),
        Op::Withdraw { root, a, b, to } => g!(gov(root), bootstrap_withdraw_reward { asset_0: cur(a), asset_1: cur(b), recipient: account(to) }),
        Op::NewPool { root, cur: c, dec, a, fee, adm, recv, meta } => {
            if meta {
                s!(
                    gov(root),
                    create_meta_pool {
                        currency_ids: path(&c),
                        currency_decimals: dec,
                        a,
                        fee,
                        admin_fee: adm,
                        admin_fee_receiver: account(recv),
                        lp_currency_symbol: b"lp".to_vec()
                    }
                )
            } else {
                s!(
                    gov(root),
                    create_base_pool {
                        currency_ids: path(&c),
                        currency_decimals: dec,
                        a,
                        fee,
                        admin_fee: adm,
                        admin_fee_receiver: account(recv),
                        lp_currency_symbol: b"lp".to_vec()
                    }
                )
            }
        }
        Op::AddL { who, q, x, min, to, dl } => s!(by(who), add_liquidity { pool_id: q as u32, amounts: x, min_mint_amount: min, to: account(to), deadline: dl }),
        Op::Swap { who, q, i, j, x, min, to, dl } => {
            s!(by(who), swap { pool_id: q as u32, from_index: i as u32, to_index: j as u32, in_amount: x, min_out_amount: min, to: account(to), deadline: dl })
        }
        Op::RemoveL { who, q, l, min, to, dl } => s!(by(who), remove_liquidity { pool_id: q as u32, lp_amount: l, min_amounts: min, to: account(to), deadline: dl }),
        Op::RemoveOne { who, q, l, i, min, to, dl } => {
            s!(by(who), remove_liquidity_one_currency { pool_id: q as u32, lp_amount: l, index: i as u32, min_amount: min, to: account(to), deadline: dl })
        }
        Op::RemoveSome { who, q, x, max, to, dl } => {
            s!(by(who), remove_liquidity_imbalance { pool_id: q as u32, amounts: x, max_burn_amount: max, to: account(to), deadline: dl })
        }
        Op::AddBoth { who, q, b, x, y, min, to, dl } => s!(
            by(who),
            add_pool_and_base_pool_liquidity { pool_id: q as u32, base_pool_id: b as u32, meta_amounts: x, base_amounts: y, min_to_mint: min, to: account(to), deadline: dl }
        ),
        Op::RemoveBoth { who, q, b, l, min, minb, to, dl } => s!(
            by(who),
            remove_pool_and_base_pool_liquidity { pool_id: q as u32, base_pool_id: b as u32, amount: l, min_amounts_meta: min, min_amounts_base: minb, to: account(to), deadline: dl }
        ),
        Op::RemoveBothOne { who, q, b, l, i, min, to, dl } => s!(
            by(who),
            remove_pool_and_base_pool_liquidity_one_currency { pool_id: q as u32, base_pool_id: b as u32, amount: l, i: i as u32, min_amount: min, to: account(to), deadline: dl }
        ),
        Op::FromBase { who, q, b, i, j, x, min, to, dl } => s!(
            by(who),
            swap_pool_from_base { pool_id: q as u32, base_pool_id: b as u32, in_index: i as u32, out_index: j as u32, dx: x, min_dy: min, to: account(to), deadline: dl }
        ),
        Op::ToBase { who, q, b, i, j, x, min, to, dl } => s!(
            by(who),
            swap_pool_to_base { pool_id: q as u32, base_pool_id: b as u32, in_index: i as u32, out_index: j as u32, dx: x, min_dy: min, to: account(to), deadline: dl }
        ),
        Op::Under { who, q, i, j, x, min, to, dl } => s!(
            by(who),
            swap_meta_pool_underlying { pool_id: q as u32, in_index: i as u32, out_index: j as u32, dx: x, min_dy: min, to: account(to), deadline: dl }
        ),
        Op::Route { who, x, min, hops, to, dl } => {
            let stable = |q: usize, b: usize, mode, f: usize, t: usize| {
                Route::Stable(StablePath { pool_id: q as u32, base_pool_id: b as u32, mode, from_currency: cur(f), to_currency: cur(t) })
            };
            let routes = hops
                .iter()
                .map(|h| match h {
                    Hop::General(p) => Route::General(path(p)),
                    Hop::Single(q, f, t) => stable(*q, *q, StableSwapMode::Single, *f, *t),
                    Hop::FromBase(q, b, f, t) => stable(*q, *b, StableSwapMode::FromBase, *f, *t),
                    Hop::ToBase(q, b, f, t) => stable(*q, *b, StableSwapMode::ToBase, *f, *t),
                })
                .collect();
            let call = dex_swap_router::Call::<Rt>::swap_exact_tokens_for_tokens { amount_in: x, amount_out_min: min, routes, to: account(to), deadline: dl };
            sim_node::dispatch::<Rt, _>(call, by(who))
        }
        Op::Receiver { root, q, to } => s!(gov(root), update_fee_receiver { pool_id: q as u32, fee_receiver: account(to) }),
        Op::SwapFee { root, q, x } => s!(gov(root), set_swap_fee { pool_id: q as u32, new_swap_fee: x }),
        Op::AdminFee { root, q, x } => s!(gov(root), set_admin_fee { pool_id: q as u32, new_admin_fee: x }),
        Op::Ramp { root, q, a, t } => s!(gov(root), ramp_a { pool_id: q as u32, future_a: a, future_a_time: t }),
        Op::StopRamp { root, q } => s!(gov(root), stop_ramp_a { pool_id: q as u32 }),
        Op::AdminWithdraw { who, q } => s!(by(who), withdraw_admin_fee { pool_id: q as u32 }),
        Op::Transfer { from, to, c, x } => {
            sim_node::extrinsic::<Rt, _>(|| <Tokens as MultiCurrency<Acc>>::transfer(cur(c), &account(from), &account(to), x)).map(|_| ())
        }
    }
}

impl World {
    /// What the composite calls amount to: their parts one after the other, on a state which is
    /// thrown away afterwards.
    fn parts(&self, op: &Op) -> R<World> {
        let mut out = Err("?");
        let _ = sim_node::extrinsic::<Rt, ()>(|| {
            out = self.clone().run_parts(op);
            Err(DispatchError::Other("thrown away"))
        });
        out
    }
    fn one(&mut self, op: Op) -> R<()> {
        dispatch(&op).map_err(|_| "a part is refused")?;
        *self = World::read(self.block, self.now);
        Ok(())
    }
    /// where the base pool's shares are in the pool
    fn slot(&self, q: usize, b: usize) -> R<usize> {
        self.pool.get(q).and_then(|p| p.cur.iter().position(|c| *c == S0 + b)).ok_or("no base pool's shares")
    }
    fn over(&self, q: usize, b: usize) -> R<()> {
        if b >= self.pool.len() {
            return Err("no such pool");
        }
        match self.pool.get(q).and_then(|p| p.meta) {
            Some((x, _, _)) if x == b => Ok(()),
            _ => Err("not over this base"),
        }
    }
    fn single(&self, b: usize, i: usize, x: u128) -> R<Vec<u128>> {
        let mut v = vec![0; self.pool[b].cur.len()];
        *v.get_mut(i).ok_or("no such currency")? = x;
        Ok(v)
    }
    /// From the base's currency i to the meta's currency j.
    fn from_base(&mut self, who: usize, q: usize, b: usize, i: usize, j: usize, x: u128, min: u128, to: usize, dl: Block) -> R<()> {
        self.over(q, b)?;
        let k = self.slot(q, b)?;
        let v = self.single(b, i, x)?;
        if j == k {
            return self.one(Op::AddL { who, q: b, x: v, min, to, dl });
        }
        let had = self.free[who][S0 + b];
        self.one(Op::AddL { who, q: b, x: v, min: 0, to: who, dl })?;
        let got = self.free[who][S0 + b] - had;
        self.one(Op::Swap { who, q, i: k, j, x: got, min, to, dl })
    }
    fn to_base(&mut self, who: usize, q: usize, b: usize, i: usize, j: usize, x: u128, min: u128, to: usize, dl: Block) -> R<()> {
        if b >= self.pool.len() {
            return Err("no such pool");
        }
        let k = self.slot(q, b)?;
        if i == k {
            return Err("nothing to swap");
        }
        let had = self.free[who][S0 + b];
        self.one(Op::Swap { who, q, i, j: k, x, min: 0, to: who, dl })?;
        let got = self.free[who][S0 + b] - had;
        self.one(Op::RemoveOne { who, q: b, l: got, i: j, min, to, dl })
    }
    fn run_parts(mut self, op: &Op) -> R<World> {
        match op.clone() {
            Op::AddBoth { who, q, b, mut x, y, min, to, dl } => {
                self.over(q, b)?;
                let k = self.slot(q, b)?;
                if x.len() != self.pool[q].cur.len() {
                    return Err("other currencies");
                }
                x[k] = 0;
                if y.iter().any(|y| *y > 0) {
                    let had = self.free[who][S0 + b];
                    self.one(Op::AddL { who, q: b, x: y, min: 0, to: who, dl })?;
                    x[k] = self.free[who][S0 + b] - had;
                }
                self.one(Op::AddL { who, q, x, min, to, dl })?;
            }
            Op::RemoveBoth { who, q, b, l, min, minb, to, dl } => {
                if b >= self.pool.len() {
                    return Err("no such pool");
                }
                let had = self.free[who][S0 + b];
                self.one(Op::RemoveL { who, q, l, min, to: who, dl })?;
                let got = self.free[who][S0 + b].checked_sub(had).ok_or("nothing of the base")?;
                self.one(Op::RemoveL { who, q: b, l: got, min: minb, to, dl })?;
            }
            Op::RemoveBothOne { who, q, b, l, i, min, to, dl } => {
                self.over(q, b)?;
                let k = self.slot(q, b)?;
                let had = self.free[who][S0 + b];
                self.one(Op::RemoveOne { who, q, l, i: k, min: 0, to: who, dl })?;
                let got = self.free[who][S0 + b] - had;
                self.one(Op::RemoveOne { who, q: b, l: got, i, min, to, dl })?;
            }
            Op::FromBase { who, q, b, i, j, x, min, to, dl } => self.from_base(who, q, b, i, j, x, min, to, dl)?,
            Op::ToBase { who, q, b, i, j, x, min, to, dl } => self.to_base(who, q, b, i, j, x, min, to, dl)?,
            Op::Under { who, q, i, j, x, min, to, dl } => {
                let Some((b, _, _)) = self.pool.get(q).and_then(|p| p.meta) else { return Err("not a meta pool") };
                let n = self.pool[q].cur.len() - 1;
                let all = n + self.pool[b].cur.len();
                if i == j || i >= all || j >= all {
                    return Err("no such currency");
                }
                match (i < n, j < n) {
                    (true, true) => self.one(Op::Swap { who, q, i, j, x, min, to, dl })?,
                    (false, false) => self.one(Op::Swap { who, q: b, i: i - n, j: j - n, x, min, to, dl })?,
                    (false, true) => self.from_base(who, q, b, i - n, j, x, min, to, dl)?,
                    (true, false) => self.to_base(who, q, b, i, j - n, x, min, to, dl)?,
                }
            }
            Op::Route { who, mut x, min, hops, to, dl } => {
                if dl <= self.block {
                    return Err("too late");
                }
                let end = |h: &Hop| match h {
                    Hop::General(p) => p.first().zip(p.last()).map(|(a, b)| (*a, *b)),
                    Hop::Single(_, a, b) | Hop::FromBase(_, _, a, b) | Hop::ToBase(_, _, a, b) => Some((*a, *b)),
                };
                for h in hops.windows(2) {
                    let (a, b) = (end(&h[0]).ok_or("no path")?, end(&h[1]).ok_or("no path")?);
                    if a.1 != b.0 {
                        return Err("the routes do not meet");
                    }
                }
                for (n, h) in hops.iter().enumerate() {
                    let recv = if n + 1 == hops.len() { to } else { who };
                    let at = |w: &World, q: usize, c: usize| w.pool.get(q).and_then(|p| p.cur.iter().position(|x| *x == c)).ok_or("not in the pool");
                    let (a, b) = end(h).ok_or("no path")?;
                    let had = self.free[recv][b];
                    match h {
                        Hop::General(p) => {
                            let v = self.path_out(x, p)?;
                            self.one(Op::SwapIn { who, x, min: 0, path: p.clone(), to: recv, dl })?;
                            x = *v.last().unwrap();
                            continue;
                        }
                        Hop::Single(q, f, t) => {
                            let (i, j) = (at(&self, *q, *f)?, at(&self, *q, *t)?);
                            self.one(Op::Swap { who, q: *q, i, j, x, min: 0, to: recv, dl })?;
                        }
                        Hop::FromBase(q, b, f, t) => {
                            let (i, j) = (at(&self, *b, *f)?, at(&self, *q, *t)?);
                            self.from_base(who, *q, *b, i, j, x, 0, recv, dl)?;
                        }
                        Hop::ToBase(q, b, f, t) => {
                            let (i, j) = (at(&self, *q, *f)?, at(&self, *b, *t)?);
                            self.to_base(who, *q, *b, i, j, x, 0, recv, dl)?;
                        }
                    }
                    let had = if a == b && recv == who { had - x } else { had };
                    x = self.free[recv][b] - had;
                }
                if x < min {
                    return Err("less than asked for");
                }
            }
            _ => unreachable!(),
        }
        Ok(self)
    }
}

impl Sim {
    fn submit(&mut self, src: &mut Src, ctx: &mut Ctx, op: Op) {
        ctx.note(|| format!("sent: {op:?}"));
        if src.chance(self.loss, 12) {
            ctx.fault("call lost on its way");
            return;
        }
        if src.chance(1, 12) {
            ctx.fault("call repeated on its way");
            self.pool.push(op.clone());
        }
        self.pool.push(op);
    }

    // ------------------------------------------------------------ what people do

    fn whole(&self, c: usize) -> u128 {
        let d = if c < NT { DECIMALS[c] } else { 18 };
        (10u128.pow(d) * self.scale / 1_000_000).max(10)
    }
    fn due(&self, src: &mut Src) -> Block {
        let n = self.m.w.block;
        match src.below(12) {
            0 => n + 1,
            1 => n + src.below(3) as Block,
            _ => n + 1000,
        }
    }
    fn to(&self, src: &mut Src, who: usize) -> usize {
        if src.chance(1, 4) { src.usize(USERS) } else { who }
    }
    fn rich(&self, src: &mut Src, c: usize) -> usize {
        let h: Vec<usize> = (0..USERS).filter(|a| self.m.w.free[*a][c] > 0).collect();
        if h.is_empty() || src.chance(1, 12) { src.usize(USERS) } else { *src.pick(&h) }
    }
    fn way(&self, src: &mut Src, from: usize, most: usize) -> Vec<usize> {
        let mut p = vec![from];
        for _ in 0..src.range(1, most as u64) {
            let l = *p.last().unwrap();
            let next: Vec<usize> = (0..L0)
                .filter(|c| pair_of(l, *c).map_or(false, |p| matches!(self.m.w.pair[p].st, St::Trade { total, .. } if total > 0)))
                .collect();
            if next.is_empty() || src.chance(1, 24) {
                p.push(src.usize(L0));
            } else {
                p.push(*src.pick(&next));
            }
        }
        p
    }
    fn start(&self, src: &mut Src) -> usize {
        let t: Vec<usize> = (0..NP).filter(|p| matches!(self.m.w.pair[*p].st, St::Trade { total, .. } if total > 0)).collect();
        if t.is_empty() {
            return src.usize(NT);
        }
        let p = pair(*src.pick(&t));
        if src.bool() { p.0 } else { p.1 }
    }
    fn trade(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let c = self.start(src);
        let who = self.rich(src, c);
        let path = self.way(src, c, 4);
        let to = self.to(src, who);
        let dl = self.due(src);
        let f = w.free[who][c];
        let p = path.get(1).and_then(|d| pair_of(c, *d));
        let r = p.map_or(f, |p| w.free[PAIR0 + p][c]);
        if src.chance(2, 3) {
            let x = amount(src, &[f, r.min(f), r.min(f), r / 100, r / 10_000, 10, f / 10], f.max(1));
            let y = w.path_out(x, &path).ok().and_then(|v| v.last().copied()).unwrap_or(0);
            Op::SwapIn { who, x, min: least(src, y), path, to, dl }
        } else {
            let d = *path.last().unwrap();
            let r = path.get(path.len() - 2).and_then(|c| pair_of(*c, d)).map_or(f, |p| w.free[PAIR0 + p][d]);
            let x = amount(src, &[r, r / 2, r / 100, r / 10_000, 10], r.max(1));
            let y = w.path_in(x, &path).ok().map(|v| v[0]).unwrap_or(0);
            Op::SwapOut { who, x, max: most(src, y), path, to, dl }
        }
    }
    fn a_pair(&self, src: &mut Src) -> (usize, usize, usize) {
        let p = src.usize(NP);
        let (a, b) = pair(p);
        if src.bool() { (p, a, b) } else { (p, b, a) }
    }
    fn provide(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let (p, a, b) = self.a_pair(src);
        let dl = self.due(src);
        if src.chance(1, 2) {
            let who = src.usize(USERS);
            let (ra, rb) = (w.free[PAIR0 + p][a], w.free[PAIR0 + p][b]);
            let x = amount(src, &[w.free[who][a], w.free[who][a] / 10, ra.min(w.free[who][a]), ra / 1000, self.whole(a), 100], w.free[who][a]);
            let best = muldiv(x, rb, ra).unwrap_or(w.free[who][b]);
            let y = amount(src, &[best, best, best, w.free[who][b]], w.free[who][b]);
            let back = muldiv(y, ra, rb).unwrap_or(0);
            return Op::Add { who, a, b, x, y, mx: least(src, back.min(x)), my: least(src, best.min(y)), dl };
        }
        let who = self.rich(src, L0 + p);
        let l = w.free[who][L0 + p];
        let x = amount(src, &[l, l, l / 2, 1], l);
        let total = w.iss[L0 + p];
        let f = |c: usize| muldiv(w.free[PAIR0 + p][c], x, total).unwrap_or(0);
        let (u, v) = (f(a), f(b));
        Op::Remove { who, a, b, l: x, mx: least(src, u), my: least(src, v), to: self.to(src, who), dl }
    }
    fn pairs(&mut self, src: &mut Src) -> Op {
        let root = src.chance(11, 12);
        let (_, a, b) = self.a_pair(src);
        match src.below(5) {
            0 => Op::FeeReceiver { root, on: src.chance(2, 3) },
            1 => Op::FeePoint { root, x: *src.pick(&[0, 5, 1, 30, 255]) },
            2 | 3 => Op::Rate { root, a, b, x: *src.pick(&[30, 0, 1, 100, 9_999, 10_000, 1_000_000]) },
            _ => {
                if src.chance(1, 6) {
                    return Op::Create { root, a: src.usize(L0), b: src.usize(L0), x: 30 };
                }
                Op::Create { root, a, b, x: *src.pick(&[30, 30, 0, 9_999, 10_000]) }
            }
        }
    }
    fn bootstrap(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let (mut p, mut a, mut b) = self.a_pair(src);
        let live: Vec<usize> = (0..NP).filter(|p| w.pair[*p].st != St::Off && !(matches!(w.pair[*p].st, St::Trade { .. }) && w.pair[*p].contrib.iter().all(|c| *c == (0, 0)))).collect();
        if !live.is_empty() && src.chance(7, 8) {
            p = *src.pick(&live);
            (a, b) = pair(p);
            if src.bool() {
                (a, b) = (b, a);
            }
        }
        let who = src.usize(USERS);
        let dl = self.due(src);
        let terms = |s: &Self, src: &mut Src| {
            let t = (s.whole(a) / 10 * src.range(0, 20) as u128 + 1, s.whole(b) / 10 * src.range(0, 20) as u128 + 1);
            let c = (t.0 + s.whole(a) / 10 * src.range(0, 10) as u128, t.1 + s.whole(b) / 10 * src.range(0, 10) as u128);
            let end = w.block + 1 + src.below(12) as Block;
            let mut r: Vec<usize> = (0..src.usize(3)).map(|_| src.usize(NT)).collect();
            r.sort();
            r.dedup();
            let l = if src.chance(1, 4) { vec![(src.usize(NT), src.magnitude(s.whole(0)))] } else { vec![] };
            (t, c, end, r, l)
        };
        let k = src.below(16);
        match (&w.pair[p].st, k) {
            (St::Off, 0..=11) | (_, 0) => {
                let (t, c, end, rewards, limits) = terms(self, src);
                Op::Start { root: src.chance(11, 12), a, b, t, c, end, rewards, limits }
            }
            (_, 1) => {
                let (t, c, end, rewards, limits) = terms(self, src);
                Op::Change { root: src.chance(11, 12), a, b, t, c, end, rewards, limits }
            }
            (_, 2) => Op::End { who, a, b },
            (_, 3) => Op::Claim { who, to: self.to(src, who), a, b, dl },
            (_, 4) => Op::Refund { who, a, b },
            (_, 5) => {
                let live = w.pair[p].rewards.values().any(|x| *x > 0) && w.pair[p].rewards != self.m.left[p];
                if live && src.chance(15, 16) {
                    return Op::Claim { who, to: who, a, b, dl };
                }
                Op::Withdraw { root: src.chance(11, 12), a, b, to: who }
            }
            (_, 6) => {
                let mut r: Vec<(usize, u128)> = w.pair[p].rewards.keys().map(|c| (*c, amount(src, &[w.free[who][*c] / 10], w.free[who][*c]))).collect();
                if src.chance(1, 8) {
                    r.push((src.usize(NT), 5));
                }
                Op::Charge { who, a, b, r }
            }
            (St::Boot(s), _) => {
                if w.block >= s.end {
                    // contributors of which pair it is
                    let c: Vec<usize> = (0..USERS).filter(|u| w.pair[p].contrib[*u] != (0, 0)).collect();
                    if w.failed(s) && !c.is_empty() && k > 9 {
                        return Op::Refund { who: *src.pick(&c), a, b };
                    }
                    return Op::End { who, a, b };
                }
                let (mut u, mut v) = (s.cap.0.saturating_sub(s.acc.0), s.cap.1.saturating_sub(s.acc.1));
                let (mut t, mut z) = (s.target.0.saturating_sub(s.acc.0), s.target.1.saturating_sub(s.acc.1));
                if pair(p).0 != a {
                    (u, v) = (v, u);
                    (t, z) = (z, t);
                }
                let x = amount(src, &[u, t, w.free[who][a].min(t), self.whole(a) / 10, 0], w.free[who][a]);
                let y = amount(src, &[v, z, w.free[who][b].min(z), self.whole(b) / 10, 0], w.free[who][b]);
                Op::Contribute { who, a, b, x, y, dl }
            }
            _ => {
                let c: Vec<usize> = (0..USERS).filter(|u| w.pair[p].contrib[*u] != (0, 0)).collect();
                let who = if c.is_empty() { who } else { *src.pick(&c) };
                if src.chance(1, 4) {
                    return Op::Refund { who, a, b };
                }
                Op::Claim { who, to: self.to(src, who), a, b, dl }
            }
        }
    }
    fn a_pool(&self, src: &mut Src) -> usize {
        if src.chance(1, 32) { src.usize(NQ) } else { src.usize(self.m.w.pool.len()) }
    }
    fn metas(&self) -> Vec<(usize, usize)> {
        self.m.w.pool.iter().enumerate().filter_map(|(q, p)| Some((q, p.meta?.0))).collect()
    }
    fn swap(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let q = self.a_pool(src);
        let dl = self.due(src);
        let Some(p) = w.pool.get(q) else { return Op::Swap { who: 0, q, i: 0, j: 1, x: 10, min: 0, to: 0, dl } };
        let n = p.cur.len();
        let i = src.usize(n);
        let j = if src.chance(1, 16) { src.usize(n + 1) } else { (i + 1 + src.usize(n - 1)) % n };
        let who = self.rich(src, p.cur[i]);
        let f = w.free[who][p.cur[i]];
        let x = amount(src, &[f, f / 2, p.bal[i].min(f), p.bal[i] / 100, p.bal[i] / 10_000, 10], f);
        // near one for one
        let y = p.mult.get(j).and_then(|m| muldiv(x, p.mult[i], *m)).unwrap_or(0);
        Op::Swap { who, q, i, j, x, min: least(src, y / 100 * 99), to: self.to(src, who), dl }
    }
    fn supply(&self, src: &mut Src, q: usize, who: usize) -> Vec<u128> {
        let w = &self.m.w;
        let Some(p) = w.pool.get(q) else { return vec![1, 1] };
        let empty = w.iss[S0 + q] == 0;
        let one = src.chance(1, 3);
        let only = src.usize(p.cur.len());
        let level = src.range(1, 100) as u128;
        let mut v: Vec<u128> = (0..p.cur.len())
            .map(|i| {
                let f = w.free[who][p.cur[i]];
                if empty {
                    let x = self.whole(p.cur[i]) / 100 * level;
                    return if src.chance(1, 8) { amount(src, &[f, 1], f) } else { x.min(f) };
                }
                if one && i != only {
                    return 0;
                }
                amount(src, &[f / 2, f / 10, p.bal[i].min(f), p.bal[i] / 100, p.bal[i] / 10, 1], f)
            })
            .collect();
        if src.chance(1, 32) {
            v.push(1);
        }
        v
    }
    fn liquidity(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let q = self.a_pool(src);
        let dl = self.due(src);
        let who = if src.chance(1, 2) { self.rich(src, S0 + q) } else { src.usize(USERS) };
        let Some(p) = w.pool.get(q) else { return Op::RemoveL { who, q, l: 1, min: vec![0, 0], to: who, dl } };
        let to = self.to(src, who);
        let n = p.cur.len();
        let total = w.iss[S0 + q];
        if total == 0 || src.chance(2, 5) {
            let x = self.supply(src, q, who);
            let s = x.iter().zip(&p.mult).fold(0u128, |a, (x, m)| a.saturating_add(x.saturating_mul(*m)));
            return Op::AddL { who, q, x, min: least(src, s), to, dl };
        }
        let who = self.rich(src, S0 + q);
        let f = w.free[who][S0 + q];
        let l = amount(src, &[f, f, f / 2, f / 100, f / 10_000, 1], f);
        match src.below(3) {
            0 => {
                let min = (0..n).map(|i| { let x = muldiv(p.bal[i], l, total).unwrap_or(0); least(src, x) }).collect();
                Op::RemoveL { who, q, l, min, to, dl }
            }
            1 => {
                let i = if src.chance(1, 24) { n } else { src.usize(n) };
                let y = p.mult.get(i).map_or(0, |m| l / m);
                Op::RemoveOne { who, q, l, i, min: least(src, y), to, dl }
            }
            _ => {
                let one = src.bool();
                let only = src.usize(n);
                let x: Vec<u128> = (0..n)
                    .map(|i| {
                        let m = muldiv(p.bal[i], f, total).unwrap_or(0);
                        if one && i != only { 0 } else { amount(src, &[m, m / 2, m / 10, m / 1000, p.bal[i], 1], m) }
                    })
                    .collect();
                let s = x.iter().zip(&p.mult).fold(0u128, |a, (x, m)| a.saturating_add(x.saturating_mul(*m)));
                Op::RemoveSome { who, q, x, max: most(src, s), to, dl }
            }
        }
    }
    fn pools(&mut self, src: &mut Src) -> Op {
        let root = src.chance(11, 12);
        let w = &self.m.w;
        let q = self.a_pool(src);
        let now = w.now as u128;
        match src.below(9) {
            0 => Op::Receiver { root, q, to: *src.pick(&[ADM, 0, 1]) },
            1 => Op::SwapFee { root, q, x: *src.pick(&[0, 3_000_000, 100_000_000, 100_000_001, 50_000_000]) },
            2 => Op::AdminFee { root, q, x: *src.pick(&[0, 5_000_000_000, 10_000_000_000, 10_000_000_001, 1_000_000_000]) },
            3 | 4 | 5 => {
                let a = w.pool.get(q).map_or(100, |_| w.amp(q)) / 100;
                let a = match src.below(6) {
                    0 => a * 10 + src.below(3) as u128,
                    1 => (a / 10).max(1),
                    2 => *src.pick(&[0, 1, 999_999, 1_000_000]),
                    _ => amount(src, &[a * 5, a, a * 10], 1000),
                };
                let t = now + match src.below(4) {
                    0 => 86_400,
                    1 => 86_399,
                    2 => 86_400 + src.magnitude(100_000_000),
                    _ => 86_400 + src.magnitude(3_000_000),
                };
                Op::Ramp { root, q, a, t }
            }
            6 => Op::StopRamp { root, q },
            _ if w.pool.len() < NQ && src.chance(1, 3) => self.a_new_pool(src, root),
            _ => Op::AdminWithdraw { who: src.usize(USERS), q },
        }
    }
    fn a_new_pool(&self, src: &mut Src, root: bool) -> Op {
        let w = &self.m.w;
        let n = w.pool.len();
        let meta = n > 0 && src.chance(2, 3);
        let mut c: Vec<usize> = (0..NT).collect();
        let k = if meta { src.range(1, 3) } else { src.range(2, 4) } as usize;
        while c.len() > k {
            let i = src.usize(c.len());
            c.remove(i);
        }
        if meta {
            c.push(S0 + src.usize(n));
        }
        if src.chance(1, 24) {
            c.pop();
            c.push(src.usize(NT));
            c.sort();
            c.dedup();
            if c.len() < 2 {
                c.push(S0);
            }
        }
        let mut dec: Vec<u32> = c.iter().map(|c| if *c < NT { DECIMALS[*c] } else { 18 }).collect();
        if src.chance(1, 24) {
            dec[0] = 19;
        }
        let a = match src.below(6) {
            0 => *src.pick(&[1, 999_999, 0, 1_000_000]),
            1 => 1 + src.magnitude(999_000),
            _ => src.range(2, 2000) as u128,
        };
        let fee = *src.pick(&[3_000_000, 0, 100_000_000, 20_000_000, 100_000_001]);
        let adm = *src.pick(&[5_000_000_000, 0, 10_000_000_000, 10_000_000_001, 333_333_333]);
        Op::NewPool { root, cur: c, dec, a, fee, adm, recv: ADM, meta }
    }
    fn composite(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let ms = self.metas();
        let dl = self.due(src);
        let (q, b) = if ms.is_empty() { (src.usize(NQ), src.usize(NQ)) } else { *src.pick(&ms) };
        let b = if src.chance(1, 24) { src.usize(NQ) } else { b };
        let mut who = src.usize(USERS);
        let to = self.to(src, who);
        let n = w.pool.get(q).map_or(2, |p| p.cur.len());
        let nb = w.pool.get(b).map_or(2, |p| p.cur.len());
        let some = |src: &mut Src, n: usize| if src.chance(1, 24) { src.usize(n + 2) } else { src.usize(n) };
        let give = |s: &Self, src: &mut Src, who: &mut usize, c: Option<usize>| -> (u128, u128) {
            let Some(c) = c else { return (10, 10) };
            *who = s.rich(src, c);
            let f = s.m.w.free[*who][c];
            let x = amount(src, &[f, f / 2, f / 100, f / 10_000, s.whole(c) / 10, 10], f);
            (x, if c < NT { x * 10u128.pow(18 - DECIMALS[c]) } else { x })
        };
        let est = |w: &World, q: usize, i: usize, v: u128| w.pool.get(q).and_then(|p| p.mult.get(i)).map_or(0, |m| v / m / 100 * 99);
        match src.below(7) {
            0 => {
                let (mut x, y) = (self.supply(src, q, who), self.supply(src, b, who));
                if src.chance(1, 3) {
                    x = vec![0; n];
                }
                let s = w.pool.get(q).map_or(0, |p| x.iter().zip(&p.mult).fold(0u128, |a, (x, m)| a.saturating_add(x.saturating_mul(*m))));
                Op::AddBoth { who, q, b, x, y, min: least(src, s), to, dl }
            }
            1 => {
                who = self.rich(src, S0 + q);
                let f = w.free[who][S0 + q];
                let l = amount(src, &[f, f / 2, f / 100, 10], f);
                let (min, minb) = (vec![least(src, 10); n], vec![least(src, 10); nb]);
                Op::RemoveBoth { who, q, b, l, min, minb, to, dl }
            }
            2 => {
                who = self.rich(src, S0 + q);
                let f = w.free[who][S0 + q];
                let l = amount(src, &[f, f / 2, f / 100, 10], f);
                let i = some(src, nb);
                Op::RemoveBothOne { who, q, b, l, i, min: least(src, est(w, b, i, l)), to, dl }
            }
            3 => {
                let (i, j) = (some(src, nb), some(src, n));
                let (x, v) = give(self, src, &mut who, w.pool.get(b).and_then(|p| p.cur.get(i).copied()));
                Op::FromBase { who, q, b, i, j, x, min: least(src, est(w, q, j, v)), to, dl }
            }
            4 => {
                let (i, j) = (some(src, n), some(src, nb));
                let (x, v) = give(self, src, &mut who, w.pool.get(q).and_then(|p| p.cur.get(i).copied()));
                Op::ToBase { who, q, b, i, j, x, min: least(src, est(w, b, j, v)), to, dl }
            }
            _ => {
                let all = n - 1 + nb;
                let (i, j) = (some(src, all), some(src, all));
                let c = |k: usize| if k < n - 1 { (q, k) } else { (b, k + 1 - n) };
                let (x, v) = give(self, src, &mut who, w.pool.get(c(i).0).and_then(|p| p.cur.get(c(i).1).copied()));
                Op::Under { who, q, i, j, x, min: least(src, est(w, c(j).0, c(j).1, v)), to, dl }
            }
        }
    }
    fn route(&mut self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let dl = self.due(src);
        let first = if src.bool() { self.start(src) } else { src.usize(L0) };
        let mut c = first;
        let mut hops = vec![];
        for _ in 0..src.range(1, 4) {
            if src.chance(1, 24) {
                c = src.usize(L0);
            }
            let mut all: Vec<Hop> = vec![];
            for (q, p) in w.pool.iter().enumerate() {
                if p.cur.contains(&c) {
                    all.extend(p.cur.iter().filter(|t| **t != c).map(|t| Hop::Single(q, c, *t)));
                }
                if let Some((b, _, _)) = p.meta {
                    let bp = &w.pool[b];
                    if bp.cur.contains(&c) {
                        all.extend(p.cur.iter().map(|t| Hop::FromBase(q, b, c, *t)));
                    }
                    if p.cur.contains(&c) {
                        all.extend(bp.cur.iter().map(|t| Hop::ToBase(q, b, c, *t)));
                    }
                }
            }
            let g = self.way(src, c, 3);
            let h = if all.is_empty() || src.chance(1, 3) { Hop::General(g) } else { src.pick(&all).clone() };
            c = match &h {
                Hop::General(p) => *p.last().unwrap(),
                Hop::Single(_, _, t) | Hop::FromBase(_, _, _, t) | Hop::ToBase(_, _, _, t) => *t,
            };
            hops.push(h);
        }
        if src.chance(1, 48) {
            hops.clear();
        }
        if src.chance(1, 48) {
            hops.push(Hop::General(vec![]));
        }
        let who = self.rich(src, first);
        let f = w.free[who][first];
        let x = amount(src, &[f, f / 10, f / 1000, self.whole(first) / 100], f);
        let mut y = 0;
        if src.chance(1, 3) {
            // what it gives now
            let op = Op::Route { who, x, min: 0, hops: hops.clone(), to: who, dl: w.block + 1 };
            if let Ok(z) = w.parts(&op) {
                y = z.free[who][c].saturating_sub(w.free[who][c]);
            }
        }
        Op::Route { who, x, min: least(src, y), hops, to: self.to(src, who), dl }
    }
    fn give(&mut self, src: &mut Src, ctx: &mut Ctx) -> Op {
        let from = src.usize(USERS);
        let c = if src.bool() { src.usize(NT) } else { src.usize(NC) };
        let f = self.m.w.free[from][c];
        if src.chance(1, 3) {
            ctx.fault("donation");
            let (p, q) = (src.usize(NP), src.usize(NQ));
            let to = *src.pick(&[PAIR0 + p, POOL0 + q, BOOT]);
            return Op::Transfer { from, to, c, x: amount(src, &[1, f / 1_000_000, f / 1000], f / 100) };
        }
        Op::Transfer { from, to: src.usize(USERS), c, x: amount(src, &[f, f / 2], f) }
    }
    fn make(&mut self, src: &mut Src, ctx: &mut Ctx) -> Op {
        match src.weighted(&self.weights.clone()) {
            0 => self.trade(src),
            1 => self.provide(src),
            2 => self.bootstrap(src),
            3 => self.pairs(src),
            4 => self.swap(src),
            5 => self.liquidity(src),
            6 => self.pools(src),
            7 => self.composite(src),
            8 => self.route(src),
            _ => self.give(src, ctx),
        }
    }

    // ------------------------------------------------------------ blocks

    fn begin(&mut self, ctx: &mut Ctx, step: u64, blocks: Block) -> Res {
        let n = self.number + blocks;
        System::set_block_number(n);
        System::reset_events();
        self.m.now += step;
        Timestamp::set_timestamp(self.m.now);
        self.m.w.block = n;
        self.m.w.now = self.m.now / 1000;
        let act = World::read(n, self.m.w.now);
        if let Some((what, d)) = differ(&self.m.w, &act) {
            ctx.check("X06", &format!("{what} changes by itself"), false, || d)?;
        }
        Ok(())
    }

    fn apply(&mut self, ctx: &mut Ctx, op: &Op) -> Res {
        if self.m.dead {
            return Ok(());
        }
        match op {
            // no more than the model has room for
            Op::NewPool { .. } if self.m.w.pool.len() == NQ => return Ok(()),
            Op::Create { a, b, .. } if a != b && pair_of(*a, *b).is_none() => return Ok(()),
            _ => {}
        }
        let prop = prop_of(op);
        let name = op_name(op);
        let old = self.m.w.clone();
        let parts = (prop == "X07").then(|| old.parts(op));
        let before = state::hash();
        let r = dispatch(op);
        let ok = r.is_ok();
        let act = if ok { World::read(old.block, old.now) } else { old.clone() };
        let stale = matches!(op, Op::Under { q, .. } if *q < old.pool.len() && old.old_price(*q));
        let verdict = match prop {
            "X01" | "X02" | "X03" => match old.spec(op) {
                Ok(w) => Verdict::Accept { exp: Ok(w), may_refuse: false },
                Err(e) => Verdict::Refuse(e),
            },
            // a price taken in between would be another one
            "X07" if stale => Verdict::Unknown,
            "X07" => match parts.unwrap() {
                Ok(w) => Verdict::Accept { exp: Ok(w), may_refuse: false },
                Err(e) => Verdict::Refuse(e),
            },
            _ => old.stable(op, &act, ok),
        };
        ctx.event(hash_str(&format!("{name}{ok:?}")));
        ctx.note(|| {
            let v = match &verdict {
                Verdict::Refuse(e) => e.to_string(),
                Verdict::Unknown => "unknown".into(),
                Verdict::Accept { may_refuse, .. } => format!("accept{}", if *may_refuse { " or refuse" } else { "" }),
            };
            format!("  {op:?}: {:?}, rule {v}", r.as_ref().map_err(why))
        });
        ctx.nontrivial |= ok && ctx.is(prop);
        ctx.probe(match (op, ok) {
            (_, false) => "call refused",
            (Op::SwapIn { path, .. } | Op::SwapOut { path, .. }, _) => {
                let mut p: Vec<usize> = path.windows(2).filter_map(|h| pair_of(h[0], h[1])).collect();
                let n = p.len();
                p.sort();
                p.dedup();
                match (n, n == p.len()) {
                    (1, _) => "swapped",
                    (_, true) => "swapped along a path",
                    _ => "swapped along a path through a pair twice",
                }
            }
            (Op::Add { .. }, _) => "pair liquidity added",
            (Op::Remove { .. }, _) => "pair liquidity removed",
            (Op::Start { .. }, _) => "bootstrap started",
            (Op::Contribute { .. }, _) => "contributed",
            (Op::End { .. }, _) => "bootstrap ended",
            (Op::Claim { .. }, _) => "claimed",
            (Op::Refund { .. }, _) => "refunded",
            (Op::Charge { .. }, _) => "rewards charged",
            (Op::Withdraw { .. }, _) => "rewards withdrawn",
            (Op::NewPool { meta: true, .. }, _) => "meta pool created",
            (Op::NewPool { .. }, _) => "pool created",
            (Op::AddL { .. }, _) => "pool liquidity added",
            (Op::Swap { q, .. }, _) if old.pool[*q].meta.is_some() => "swapped in a meta pool",
            (Op::Swap { .. }, _) => "swapped in a pool",
            (Op::RemoveL { .. }, _) => "pool liquidity removed",
            (Op::RemoveOne { .. }, _) => "removed for one currency",
            (Op::RemoveSome { .. }, _) => "removed out of proportion",
            (Op::AddBoth { .. }, _) => "added to pool and base",
            (Op::RemoveBoth { .. }, _) => "removed from pool and base",
            (Op::RemoveBothOne { .. }, _) => "removed from pool and base for one currency",
            (Op::FromBase { .. }, _) => "swapped from the base",
            (Op::ToBase { .. }, _) => "swapped to the base",
            (Op::Under { .. }, _) if stale => "swapped underlying with a new price",
            (Op::Under { .. }, _) => "swapped underlying",
            (Op::Route { .. }, _) => "routed",
            (Op::Ramp { .. }, _) => "A ramped",
            (Op::StopRamp { .. }, _) => "ramp stopped",
            (Op::AdminWithdraw { .. }, _) => "admin fee withdrawn",
            _ => "other call accepted",
        });
        self.m.w = act.clone();
        if !ok {
            ctx.check(prop, "refused call changes the state", state::hash() == before, || format!("{op:?}"))?;
            if let Verdict::Accept { may_refuse: false, .. } = verdict {
                ctx.check(prop, &format!("{name} refused: {}", why(&r.unwrap_err())), false, || format!("{op:?} is refused by the chain but not by the rules; pools {:?}", old.pool.iter().map(|p| &p.bal).collect::<Vec<_>>()))?;
            }
            return Ok(());
        }
        if old.pool.iter().enumerate().any(|(q, p)| p.meta.is_some() && old.old_price(q) && act.pool[q].meta != p.meta) {
            ctx.probe("base price taken anew");
        }
        match verdict {
            Verdict::Refuse(e) => {
                ctx.check(prop, &format!("{name} accepted: {e}"), false, || format!("{op:?} is accepted by the chain but not by the rules"))?;
            }
            Verdict::Unknown => ctx.probe("beyond the rules' numbers"),
            Verdict::Accept { exp: Err(e), .. } => {
                ctx.check(prop, &format!("{name}: not by the rules"), false, || format!("{op:?}: {e}"))?;
            }
            Verdict::Accept { exp: Ok(exp), .. } => {
                if let Some((what, d)) = differ(&exp, &act) {
                    ctx.check(prop, &format!("{name}: {what} differs"), false, || format!("{op:?}: {d}"))?;
                }
            }
        }
        self.track(ctx, op, &old)?;
        // nobody takes out more than the reserves allow
        for p in 0..NP {
            let (St::Trade { .. }, St::Trade { .. }) = (&old.pair[p].st, &act.pair[p].st) else { continue };
            if matches!(op, Op::Remove { .. }) {
                continue;
            }
            let k = |w: &World| {
                let (a, b) = w.reserves(p);
                primitive_types::U256::from(a) * primitive_types::U256::from(b)
            };
            ctx.check("X01", "the reserves' product falls", k(&act) >= k(&old), || format!("{op:?}: pair {p}: {:?}, before {:?}", act.reserves(p), old.reserves(p)))?;
        }
        for q in 0..old.pool.len() {
            let (x, y) = (&old.pool[q], &act.pool[q]);
            let (t, u) = (old.iss[S0 + q], act.iss[S0 + q]);
            if x.bal == y.bal && t == u || t == 0 || u == 0 || old.amp(q) != act.amp(q) {
                continue;
            }
            let Some((a, b, slack)) = worth(&old, &act, q) else { continue };
            let ok = b.plus(slack).0 * primitive_types::U512::from(t) >= a.0 * primitive_types::U512::from(u);
            ctx.check("X05", "a pool's shares lose worth", ok, || format!("{op:?}: pool {q}: {} for {t}, then {} for {u}", a.floor(), b.floor()))?;
        }
        Ok(())
    }
    /// What remains of a bootstrap's rewards.
    fn track(&mut self, ctx: &mut Ctx, op: &Op, old: &World) -> Res {
        match op {
            Op::Charge { a, b, r, .. } => {
                let p = pair_of(*a, *b).unwrap();
                for (c, x) in r {
                    *self.m.left[p].entry(*c).or_default() += x;
                }
            }
            Op::Claim { who, a, b, .. } => {
                let p = pair_of(*a, *b).unwrap();
                let Some(s) = old.pair[p].ended.as_ref() else { return Ok(()) };
                let all = sqrt(primitive_types::U256::from(s.acc.0) * primitive_types::U256::from(s.acc.1)).as_u128();
                let l = old.share(p, *who).unwrap_or(0);
                for (c, x) in &old.pair[p].rewards {
                    let paid = muldiv(l, *x, all).unwrap_or(0);
                    let left = self.m.left[p].entry(*c).or_default();
                    let enough = *left >= paid;
                    *left = left.saturating_sub(paid);
                    if !enough {
                        ctx.check("X03", "more rewards paid than charged", false, || format!("{op:?}: currency {c}"))?;
                    }
                }
            }
            Op::Withdraw { a, b, .. } => {
                let Some(p) = pair_of(*a, *b) else { return Ok(()) };
                let r = &old.pair[p].rewards;
                let over = r.iter().any(|(c, x)| *x > *self.m.left[p].get(c).unwrap_or(&0));
                self.m.left[p].clear();
                if over {
                    self.m.dead = true;
                    ctx.check("X03", "rewards withdrawn which had been claimed", false, || format!("{op:?}"))?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn invariants(&self, ctx: &mut Ctx) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let w = &self.m.w;
        for c in 0..NC {
            let all: u128 = (0..NA).map(|a| w.free[a][c]).sum();
            ctx.check("X02", "tokens are not all somewhere", all == w.iss[c], || format!("currency {c}: {all} held, {} issued", w.iss[c]))?;
        }
        let mut owed = [0u128; NC];
        for (p, v) in w.pair.iter().enumerate() {
            let total = if let St::Trade { total, .. } = v.st { total } else { 0 };
            ctx.check("X02", "a pair's shares are not those issued", total == w.iss[L0 + p], || format!("pair {p}: {total}, issued {}", w.iss[L0 + p]))?;
            let (x, y) = w.reserves(p);
            ctx.check("X02", "a pair's shares are backed by nothing", total == 0 || x > 0 && y > 0, || format!("pair {p}: {total} for {x}, {y}"))?;
            for (c, x) in &self.m.left[p] {
                owed[*c] += x;
            }
            let pending = match &v.st {
                St::Boot(_) => true,
                St::Trade { .. } => v.ended.as_ref().map_or(false, |b| w.failed(b)),
                St::Off => false,
            };
            let sum = v.contrib.iter().fold((0, 0), |s: (u128, u128), c| (s.0 + c.0, s.1 + c.1));
            if pending {
                owed[pair(p).0] += sum.0;
                owed[pair(p).1] += sum.1;
            }
            if let St::Boot(b) = &v.st {
                ctx.check("X03", "contributions are not the sum", sum == b.acc, || format!("pair {p}: {sum:?}, accumulated {:?}", b.acc))?;
            } else if let (St::Trade { .. }, Some(b), false) = (&v.st, &v.ended, pending) {
                let held = w.free[PAIR0 + p][L0 + p];
                let shares: u128 = (0..USERS).filter_map(|u| w.share(p, u)).sum();
                ctx.check("X03", "shares to be claimed are not there", held >= shares, || format!("pair {p}: {shares} to be claimed, {held} held; {b:?}"))?;
            }
        }
        for c in 0..NC {
            ctx.check("X03", "the bootstraps' account does not cover what they owe", w.free[BOOT][c] >= owed[c], || format!("currency {c}: {} held, {} owed", w.free[BOOT][c], owed[c]))?;
        }
        for (q, p) in w.pool.iter().enumerate() {
            for (i, c) in p.cur.iter().enumerate() {
                let f = w.free[POOL0 + q][*c];
                ctx.check("X06", "a pool's balance is not held", f >= p.bal[i], || format!("pool {q} currency {c}: {} of which {f} held", p.bal[i]))?;
            }
        }
        Ok(())
    }

    fn produce(&mut self, src: &mut Src, ctx: &mut Ctx, all: bool) -> Res {
        let saved = self.m.clone();
        let mut body = vec![];
        let n = if all { self.pool.len() } else { src.usize(7).min(self.pool.len()) };
        for _ in 0..n {
            let i = if src.chance(1, 8) {
                ctx.fault("calls reordered");
                src.usize(self.pool.len())
            } else {
                0
            };
            body.push(Some(self.pool.remove(i)));
        }
        // and somebody who sees the block before it is made
        for _ in 0..src.usize(3) {
            body.push(None);
        }
        let step = if src.chance(1, 16) {
            ctx.fault("clock jump");
            *src.pick(&[600_000u64, 601_000, 86_400_000, 3_600_000, 7_000_000, 36_001_000]) + src.below(3) * 1000
        } else {
            6_000 + src.below(12_000)
        };
        let blocks = 1 + if src.chance(1, 16) { src.below(8) as Block } else { 0 };
        let mut crash = if src.chance(1, 16) { Some(src.usize(body.len() + 1)) } else { None };
        loop {
            let mut r = Ok(());
            let out = sim_node::block::<Rt, _>(None, || {
                r = self.begin(ctx, step, blocks);
                for i in 0..body.len() {
                    if crash == Some(i) {
                        std::panic::panic_any(state::SimCrash);
                    }
                    if body[i].is_none() {
                        body[i] = Some(self.make(src, ctx));
                    }
                    if r.is_ok() {
                        r = self.apply(ctx, body[i].as_ref().unwrap());
                    }
                }
                if crash == Some(body.len()) {
                    std::panic::panic_any(state::SimCrash);
                }
            });
            r?;
            if out.is_ok() {
                break;
            }
            ctx.fault("crash inside a block");
            self.m = saved.clone();
            crash = None;
        }
        self.number += blocks;
        ctx.sim_time += step / 1000;
        if !body.is_empty() {
            self.invariants(ctx)?;
        }
        Ok(())
    }

    /// Everybody takes out what is theirs.
    fn end(&mut self, ctx: &mut Ctx) -> Res {
        let dl = self.m.w.block + 10;
        for p in 0..NP {
            let (a, b) = pair(p);
            if let St::Boot(s) = self.m.w.pair[p].st.clone() {
                if !self.m.w.failed(&s) {
                    self.must(ctx, "X03", Op::End { who: 0, a, b })?;
                }
            }
            for u in 0..USERS {
                if self.m.dead || self.m.w.pair[p].contrib[u] == (0, 0) {
                    continue;
                }
                let failed = match &self.m.w.pair[p].st {
                    St::Boot(_) => true,
                    _ => self.m.w.pair[p].ended.as_ref().map_or(false, |b| self.m.w.failed(b)),
                };
                if failed {
                    self.must(ctx, "X03", Op::Refund { who: u, a, b })?;
                } else {
                    self.must(ctx, "X03", Op::Claim { who: u, to: u, a, b, dl })?;
                }
            }
            for u in 0..=FEE {
                let l = self.m.w.free[u][L0 + p];
                if l > 0 && !self.m.dead {
                    self.must(ctx, "X02", Op::Remove { who: u, a, b, l, mx: 0, my: 0, to: u, dl })?;
                }
            }
        }
        for q in (0..self.m.w.pool.len()).rev() {
            for u in 0..USERS {
                let l = self.m.w.free[u][S0 + q];
                if l > 0 {
                    let min = vec![0; self.m.w.pool[q].cur.len()];
                    self.must(ctx, "X05", Op::RemoveL { who: u, q, l, min, to: u, dl })?;
                }
            }
            self.must(ctx, "X06", Op::AdminWithdraw { who: 0, q })?;
        }
        Ok(())
    }
    fn must(&mut self, ctx: &mut Ctx, prop: &str, op: Op) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let r = match prop {
            "X02" | "X03" => self.m.w.spec(&op).err(),
            _ => match self.m.w.stable(&op, &self.m.w, false) {
                Verdict::Refuse(e) => Some(e),
                _ => None,
            },
        };
        if let Some(e) = r {
            ctx.check(prop, &format!("cannot {}: {e}", op_name(&op)), false, || format!("{op:?} after the faults have stopped"))?;
        }
        self.apply(ctx, &op)
    }
}

/// What a pool's balances are worth before and after, and what roundings take; none where a
/// balance is dust, or the chain's numbers may not do.
fn worth(old: &World, act: &World, q: usize) -> Option<(Fx, Fx, Fx)> {
    let vp = act.pool[q].meta.map_or(0, |m| m.1);
    let f = |w: &World| {
        let p = &w.pool[q];
        let mut x = vec![];
        for (b, m) in p.bal.iter().zip(&p.mult) {
            x.push(b.checked_mul(*m)?);
        }
        if p.meta.is_some() {
            let l = x.last_mut()?;
            *l = muldiv(*l, vp, 1_000_000_000_000_000_000)?;
        }
        let (lo, hi) = (*x.iter().min()?, *x.iter().max()?);
        if wild(&x) || lo < 1_000_000 {
            return None;
        }
        Some((curve(&x.iter().map(|x| Fx::of(*x)).collect::<Vec<_>>(), w.amp(q))?, hi / lo))
    };
    let (a, b) = (f(old)?, f(act)?);
    // an error of the whole before the call is carried over to what is added
    let grown = if a.0 .0.is_zero() { 1 } else { (b.0 .0 / a.0 .0).min(u128::MAX.into()).as_u128() };
    Some((a.0, b.0, Fx::of((24 + 8 * a.1.max(b.1)).checked_mul(grown.checked_add(1)?)?)))
}

impl Scenario for Sim {
    const NAME: &'static str = "dex";
    fn real() -> &'static [&'static str] {
        &["dex-general", "dex-stable", "dex-swap-router"]
    }
    fn stubs() -> &'static [&'static str] {
        &["frame-system, frame-support, pallet-timestamp, orml-tokens"]
    }
    fn new(src: &mut Src, ctx: &mut Ctx) -> Self {
        state::disarm_crash();
        state::unwind_to(0);
        state::reset();
        System::reset_events();
        let scale = *src.pick(&[1_000_000_000u128, 1_000_000_000_000, 1_000_000_000_000_000, 1_000_000, 1_000]);
        let start = 1_700_000_000_000;
        Timestamp::set_timestamp(start);
        System::set_block_number(1);
        let w = World::read(1, start / 1000);
        let mut s = Sim {
            m: Model { w, left: vec![BTreeMap::new(); NP], now: start, dead: false },
            pool: vec![],
            number: 1,
            steps: 40 + src.usize(120),
            weights: vec![],
            loss: src.below(3),
            scale,
        };
        for a in 0..USERS {
            for c in 0..NT {
                let x = s.whole(c) / 100 * src.range(0, 300) as u128 + src.below(10) as u128;
                orml_tokens::Pallet::<Rt>::sim_set_free(&account(a), cur(c), x);
            }
        }
        state::start_transaction();
        s.m.w = World::read(1, start / 1000);
        //                           trade prov boot pairs swap liq pools comp route give
        s.weights = match ctx.property.as_str() {
            "X01" => vec![12, 4, 1, 1, 0, 0, 0, 0, 3, 1],
            "X02" => vec![5, 10, 2, 2, 0, 0, 0, 0, 1, 2],
            "X03" => vec![1, 2, 16, 1, 0, 0, 0, 0, 0, 1],
            "X04" => vec![0, 0, 0, 0, 12, 4, 2, 1, 1, 1],
            "X05" => vec![0, 0, 0, 0, 4, 12, 1, 1, 0, 1],
            "X06" => vec![0, 0, 0, 0, 5, 5, 8, 1, 0, 1],
            _ => vec![1, 1, 0, 0, 2, 3, 1, 12, 5, 1],
        };
        let pairs = matches!(ctx.property.as_str(), "X01" | "X02" | "X03" | "X07");
        let pools = matches!(ctx.property.as_str(), "X04" | "X05" | "X06" | "X07") || src.chance(1, 4);
        let go = |s: &mut Sim, src: &mut Src, ctx: &mut Ctx| -> Res {
            let mut r = Ok(());
            let _ = sim_node::block::<Rt, _>(None, || r = s.begin(ctx, 6_000, 1));
            r?;
            s.number += 1;
            let dl = 1000;
            if pools {
                for _ in 0..src.range(1, NQ as u64) {
                    let mut op = s.a_new_pool(src, true);
                    if let Op::NewPool { a, fee, adm, dec, .. } = &mut op {
                        *a = (*a).clamp(1, 999_999);
                        *fee = (*fee).min(100_000_000);
                        *adm = (*adm).min(10_000_000_000);
                        dec[0] = dec[0].min(18);
                    }
                    s.apply(ctx, &op)?;
                    let q = s.m.w.pool.len();
                    if q == 0 || src.chance(1, 16) {
                        continue;
                    }
                    for u in 0..USERS {
                        if u == 0 || src.chance(1, 3) {
                            let x = s.supply(src, q - 1, u);
                            s.apply(ctx, &Op::AddL { who: u, q: q - 1, x, min: 0, to: u, dl })?;
                        }
                    }
                }
            }
            if pairs {
                for p in 0..NP {
                    let (a, b) = pair(p);
                    if ctx.is("X03") && src.chance(3, 4) || src.chance(1, 6) {
                        continue;
                    }
                    s.apply(ctx, &Op::Create { root: true, a, b, x: 30 })?;
                    if src.chance(1, 8) {
                        continue;
                    }
                    let who = src.usize(USERS);
                    let (f, g) = (s.m.w.free[who][a], s.m.w.free[who][b]);
                    let (x, y) = (amount(src, &[f / 2, f / 10, f], f), amount(src, &[g / 2, g / 10, g], g));
                    s.apply(ctx, &Op::Add { who, a, b, x, y, mx: 0, my: 0, dl })?;
                }
                if src.bool() {
                    s.apply(ctx, &Op::FeeReceiver { root: true, on: true })?;
                    s.apply(ctx, &Op::FeePoint { root: true, x: 5 })?;
                }
            }
            Ok(())
        };
        if go(&mut s, src, ctx).is_err() {
            s.m.dead = true;
        }
        s
    }
    fn steps(&self) -> usize {
        self.steps
    }
    fn panic_property(&self) -> Option<&'static str> {
        None
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if self.m.dead {
            return Ok(());
        }
        match src.below(8) {
            0 | 1 => self.produce(src, ctx, false),
            2 if src.chance(1, 4) => {
                for _ in 0..src.range(2, 6) {
                    self.produce(src, ctx, true)?;
                }
                Ok(())
            }
            _ => {
                let op = self.make(src, ctx);
                self.submit(src, ctx, op);
                Ok(())
            }
        }
    }
    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.loss = 0;
        self.produce(src, ctx, true)?;
        if self.m.dead {
            return Ok(());
        }
        // the faults stop
        let last = self.m.w.pair.iter().map(|p| if let St::Boot(b) = &p.st { b.end } else { 0 }).max().unwrap_or(0);
        let blocks = last.saturating_sub(self.number) + 2;
        let mut r = Ok(());
        let _ = sim_node::block::<Rt, _>(None, || r = self.begin(ctx, 6_000, blocks));
        r?;
        self.number += blocks;
        let mut r = Ok(());
        let _ = sim_node::block::<Rt, _>(None, || r = self.end(ctx));
        r?;
        self.invariants(ctx)
    }
}
