//! People lock tokens, propose, vote, farm and collate; governance decides; calls are lost, repeated
//! and reordered on their way, blocks have no author, the clock jumps, preimages are taken back, funds
//! are donated, and the node crashes inside blocks and executes them again. After every call, and
//! after every block's own work, the whole state is compared with the rules.
use crate::{rt::*, world::*};
use codec::Decode;
use frame_support::{
    state,
    traits::{Bounded, BuildGenesisConfig, Contains, Hooks, StorePreimage, UnfilteredDispatchable},
};
use frame_system::RawOrigin;
use orml_traits::MultiCurrency;
use pallet_authorship::EventHandler;
use pallet_session::SessionManager;
use sim_core::*;
use sp_runtime::{DispatchError, FixedU128};

/// What goes back when a node crashes inside a block.
#[derive(Clone)]
struct Model {
    w: World,
    /// earned by the stakers of the escrow and not yet paid
    e: [f64; P],
    /// earned on the farms and not yet paid
    f: [[[f64; P]; NR]; 2],
    /// what blocks have given to the stakers so far, and what there was to give
    promised: u128,
    funded: u128,
    /// what farms have given so far
    given: [[u128; NR]; 2],
    now: u64,
    session: Vec<u8>,
    authored: u64,
    dead: bool,
}

pub struct Sim {
    m: Model,
    pool: Vec<Op>,
    known: Vec<Inner>,
    nonce: u32,
    steps: usize,
    weights: Vec<u32>,
    loss: u64,
    period: u32,
    step: u64,
    scale: u128,
}

fn why(e: &DispatchError) -> String {
    match e {
        DispatchError::Module(m) => m.message.unwrap_or("?").to_string(),
        DispatchError::Other(s) => s.to_string(),
        e => format!("{e:?}"),
    }
}
fn amount(src: &mut Src, limits: &[u128], most: u128) -> u128 {
    match src.below(8) {
        0 => src.magnitude(most.max(1)),
        1 | 2 => {
            let l = *src.pick(limits);
            let d = src.irange(-2, 2) as i128;
            (l as i128 + d).max(0) as u128
        }
        3 => *src.pick(limits),
        _ => {
            let l = *src.pick(limits);
            l / 1000 * src.range(1, 999) as u128
        }
    }
}

fn lp(p: u8, flip: bool) -> primitives::CurrencyId {
    match LP[p as usize] {
        primitives::CurrencyId::LpToken(a, b) if flip => primitives::CurrencyId::LpToken(b, a),
        x => x,
    }
}
fn bounded(i: &Inner, lookup: bool) -> Bounded<RuntimeCall> {
    use codec::Encode;
    let b = i.encode();
    if lookup {
        Bounded::Lookup { hash: hash_of(i), len: b.len() as u32 }
    } else {
        Bounded::Inline(b.try_into().unwrap())
    }
}

fn dispatch(op: &Op) -> Result<(), DispatchError> {
    use frame_support::dispatch::GetCallName;
    let signed = |a: u8| RawOrigin::Signed(account(a as usize)).into();
    let gov = |root: bool| -> frame_system::SimOrigin<Acc> {
        if root {
            RawOrigin::Root.into()
        } else {
            RawOrigin::Signed(account(0)).into()
        }
    };
    fn filtered(origin: &frame_system::SimOrigin<Acc>, pallet: &str, name: &str) -> Result<(), DispatchError> {
        if matches!(origin.0, RawOrigin::Root) {
            return Ok(());
        }
        let i = CALLS.iter().position(|c| *c == (pallet, name)).unwrap_or_else(|| panic!("{pallet} {name}"));
        if <TxPause as Contains<RuntimeCall>>::contains(&RuntimeCall(i as u8)) {
            Ok(())
        } else {
            Err(DispatchError::Other("paused"))
        }
    }
    fn go<C: GetCallName + UnfilteredDispatchable<RuntimeOrigin = frame_system::SimOrigin<Acc>>>(
        pallet: &str,
        call: C,
        origin: frame_system::SimOrigin<Acc>,
    ) -> Result<(), DispatchError> {
        filtered(&origin, pallet, call.get_call_name())?;
        sim_node::dispatch::<Rt, _>(call, origin)
    }
    macro_rules! esc { ($o:expr, $($t:tt)*) => { go("escrow", escrow::Call::<Rt>::$($t)*, $o) }; }
    macro_rules! ann {
        ($i:expr, $o:expr, $($t:tt)*) => {
            if $i == 0 {
                go("escrow-annuity", annuity::Call::<Rt, Instance1>::$($t)*, $o)
            } else {
                go("vault-annuity", annuity::Call::<Rt, Instance2>::$($t)*, $o)
            }
        };
    }
    macro_rules! far { ($o:expr, $($t:tt)*) => { go("farming", farming::Call::<Rt>::$($t)*, $o) }; }
    macro_rules! dem { ($o:expr, $($t:tt)*) => { go("democracy", democracy::Call::<Rt>::$($t)*, $o) }; }
    macro_rules! col { ($o:expr, $($t:tt)*) => { go("collators", collator_selection::Call::<Rt>::$($t)*, $o) }; }
    match op.clone() {
        Op::Create { who, x, end } => esc!(signed(who), create_lock { amount: x, unlock_height: end }),
        Op::Increase { who, x } => esc!(signed(who), increase_amount { amount: x }),
        Op::Extend { who, end } => esc!(signed(who), increase_unlock_height { unlock_height: end }),
        Op::Withdraw { who } => esc!(signed(who), withdraw {}),
        Op::Limit { root, who, s, e } => esc!(gov(root), set_account_limit { who: account(who as usize), start: s, end: e }),
        Op::Block { root, who } => esc!(gov(root), set_account_block { who: account(who as usize) }),
        Op::Refresh { who, target } => esc!(signed(who), update_user_stake { target_user: account(target as usize) }),
        Op::Rewards { inst, who } => ann!(inst, signed(who), withdraw_rewards {}),
        Op::Emission { inst, root } => ann!(inst, gov(root), update_rewards {}),
        Op::PerWrapped { inst, root, x } => ann!(inst, gov(root), set_reward_per_wrapped { reward_per_wrapped: x }),
        Op::Inflation { root, start, rate } => {
            go("supply", supply::Call::<Rt>::set_start_height_and_inflation { start_height: start, inflation: FixedU128::from_inner(rate) }, gov(root))
        }
        Op::Schedule { root, p, c, count, x, flip } => far!(
            gov(root),
            update_reward_schedule { pool_currency_id: lp(p, flip), reward_currency_id: CUR[c as usize], period_count: count, amount: x }
        ),
        Op::Unschedule { root, p, c, flip } => {
            far!(gov(root), remove_reward_schedule { pool_currency_id: lp(p, flip), reward_currency_id: CUR[c as usize] })
        }
        Op::Farm { who, p, len, flip } => far!(signed(who), deposit { pool_currency_id: lp(p, flip), length_rewards: len }),
        Op::Unfarm { who, p, x, len, flip } => far!(signed(who), withdraw { pool_currency_id: lp(p, flip), amount: x, length_rewards: len }),
        Op::Harvest { who, p, c, flip } => far!(signed(who), claim { pool_currency_id: lp(p, flip), reward_currency_id: CUR[c as usize] }),
        Op::Note { inner } => {
            use codec::Encode;
            SimPreimages::note(inner.encode());
            Ok(())
        }
        Op::Unnote { inner } => {
            if SimPreimages::unnote(hash_of(&inner)) {
                Ok(())
            } else {
                Err(DispatchError::Other("not noted"))
            }
        }
        Op::Propose { who, lookup, inner, x } => dem!(signed(who), propose { proposal: bounded(&inner, lookup), value: x }),
        Op::Second { who, i } => dem!(signed(who), second { proposal: i }),
        Op::Vote { who, r, aye, x } => dem!(signed(who), vote { ref_index: r, vote: democracy::Vote { aye, balance: x } }),
        Op::Unvote { who, r } => dem!(signed(who), remove_vote { index: r }),
        Op::FastTrack { root, i, delay } => dem!(gov(root), fast_track { prop_index: i, delay }),
        Op::Table { root, i, delay } => dem!(gov(root), table_proposal { prop_index: i, delay }),
        Op::Hurry { root, r } => dem!(gov(root), fast_track_referendum { ref_index: r }),
        Op::CancelRef { root, r } => dem!(gov(root), cancel_referendum { ref_index: r }),
        Op::Clear { root } => dem!(gov(root), clear_public_proposals {}),
        Op::CancelProp { who, i } => dem!(who.map_or(RawOrigin::Root.into(), signed), cancel_proposal { prop_index: i }),
        Op::Spend { root, x, to } => dem!(gov(root), spend_from_treasury { value: x, beneficiary: account(to as usize) }),
        Op::Invulnerables { root, v } => col!(gov(root), set_invulnerables { new: v.iter().map(|a| account(*a as usize)).collect() }),
        Op::Desired { root, x } => col!(gov(root), set_desired_candidates { max: x }),
        Op::Bond { root, x } => col!(gov(root), set_candidacy_bond { bond: x }),
        Op::Register { who } => col!(signed(who), register_as_candidate {}),
        Op::Leave { who } => col!(signed(who), leave_intent {}),
        Op::Pause { root, pallet, call } | Op::Unpause { root, pallet, call } => {
            let name = (pallet.try_into().unwrap(), call.map(|c| c.try_into().unwrap()));
            if matches!(op, Op::Pause { .. }) {
                go("tx-pause", tx_pause::Call::<Rt>::pause { full_name: name }, gov(root))
            } else {
                go("tx-pause", tx_pause::Call::<Rt>::unpause { full_name: name }, gov(root))
            }
        }
        Op::Release { root, pending, name, rel } => {
            let (client_name, release) = (name_bytes(name).try_into().unwrap(), release(rel));
            if pending {
                go("clients", clients_info::Call::<Rt>::set_pending_client_release { client_name, release }, gov(root))
            } else {
                go("clients", clients_info::Call::<Rt>::set_current_client_release { client_name, release }, gov(root))
            }
        }
        Op::Upgrade => {
            Clients::on_runtime_upgrade();
            Ok(())
        }
        Op::Pay { from, to, c, x } => {
            filtered(&signed(from), "tokens", "transfer")?;
            sim_node::extrinsic::<Rt, _>(|| {
                <Tokens as MultiCurrency<Acc>>::transfer(CUR[c as usize], &account(from as usize), &account(to as usize), x)
            })
        }
        Op::Wrap { who, x } => {
            Tokens::sim_set_free(&account(who as usize), WRAPPED, x);
            Ok(())
        }
    }
}

impl Sim {
    fn submit(&mut self, src: &mut Src, ctx: &mut Ctx, op: Op) {
        ctx.note(|| format!("sent: {op:?}"));
        if src.chance(self.loss, 12) {
            ctx.fault("call lost on its way");
            return;
        }
        if src.chance(1, 12) {
            ctx.fault("call repeated on its way");
            self.pool.push(op.clone());
        }
        self.pool.push(op);
    }

    // ------------------------------------------------------------ what people do

    fn locks(&self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let who = src.usize(P) as u8;
        let a = who as usize;
        let max = params().max;
        let end = |src: &mut Src| match src.below(6) {
            0 => w.n + max,
            1 => w.lock[a].1 + src.below(3) as u32 * params().span,
            2 => w.n + src.below(params().span as u64 + 2) as u32,
            3 => w.n + max + src.below(params().span as u64 * 2) as u32,
            _ => w.n + 1 + src.below(max as u64) as u32,
        };
        let has: Vec<u8> = (0..P as u8).filter(|a| w.lock[*a as usize].0 > 0).collect();
        let one = |src: &mut Src| if has.is_empty() || src.chance(1, 12) { who } else { *src.pick(&has) };
        match src.below(16) {
            0..=4 => {
                let l = [w.lockable(a), w.free[a][0] / 4, w.free[a][0] / 2, max as u128];
                Op::Create { who, x: amount(src, &l, self.scale), end: end(src) }
            }
            5 | 6 => {
                let who = one(src);
                let a = who as usize;
                let r = w.lockable(a).saturating_sub(w.lock[a].0);
                Op::Increase { who, x: amount(src, &[r, r, r / 4, 1], self.scale) }
            }
            7..=9 => {
                let who = one(src);
                let a = who as usize;
                let end = match src.below(4) {
                    0 => w.n + max,
                    1 => w.n + max + src.below(params().span as u64 * 2) as u32,
                    _ => w.lock[a].1 + src.below(params().span as u64 * 3 + 1) as u32,
                };
                Op::Extend { who, end }
            }
            10..=12 => {
                // often as soon as it can be
                let done: Vec<u8> = has.iter().copied().filter(|a| w.lock[*a as usize].1 <= w.n + 1).collect();
                Op::Withdraw { who: if done.is_empty() { one(src) } else { *src.pick(&done) } }
            }
            13 | 14 => Op::Refresh { who, target: one(src) },
            _ => match src.below(6) {
                0 if src.chance(1, 4) => Op::Block { root: src.chance(7, 8), who },
                _ => {
                    let s = w.n.saturating_sub(src.below(100) as u32);
                    Op::Limit { root: src.chance(7, 8), who, s, e: s + src.below(120) as u32 }
                }
            },
        }
    }
    fn pay(&self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let from = src.usize(P) as u8;
        let c = *src.pick(&[0u8, 0, 0, 1, 2, 3, 4]);
        let to = match src.below(4) {
            0 if c < 3 => *src.pick(&[POT, FARM, FARM + 1, ESC, TREASURY]) as u8,
            _ => src.usize(P) as u8,
        };
        let f = w.free[from as usize][c as usize];
        let spare = if c == 0 { f.saturating_sub(w.frozen[from as usize]) } else { f };
        Op::Pay { from, to, c, x: amount(src, &[spare, spare / 4, f, 1], f) }
    }
    fn inner(&mut self, src: &mut Src) -> Inner {
        if !self.known.is_empty() && src.chance(1, 4) {
            return src.pick(&self.known).clone();
        }
        let op = match src.below(8) {
            0 | 1 => self.emissions(src, true),
            2 => self.farm_gov(src, true),
            3 => self.collator_gov(src, true),
            4 => self.pauses(src, true),
            5 => Op::Spend { root: true, x: amount(src, &[self.m.w.free[TREASURY][0] / 10], self.scale), to: src.usize(P) as u8 },
            6 => self.referee(src, true),
            _ => {
                let s = self.m.w.n;
                Op::Limit { root: true, who: src.usize(P) as u8, s, e: s + src.below(20) as u32 }
            }
        };
        self.nonce += 1;
        self.known.push((self.nonce, Box::new(op)));
        self.known.last().unwrap().clone()
    }
    fn proposals(&mut self, src: &mut Src) -> Op {
        let w = self.m.w.clone();
        let who = src.usize(P) as u8;
        let a = who as usize;
        let strong: Vec<u8> = (0..P as u8).filter(|a| w.spare(*a as usize) > 0).collect();
        let who = if strong.is_empty() || src.chance(1, 12) { who } else { *src.pick(&strong) };
        let there: Vec<u32> = w.props.keys().copied().collect();
        let one = |src: &mut Src| if there.is_empty() || src.chance(1, 12) { src.below(w.prop_count as u64 + 2) as u32 } else { *src.pick(&there) };
        match src.below(16) {
            0..=5 => {
                let inner = self.inner(src);
                let noted = w.holds.contains_key(&hash_of(&inner));
                let lookup = if noted { src.chance(3, 4) } else { src.chance(1, 4) };
                let l = [params().deposit, params().deposit, w.spare(a), w.spare(who as usize) / 4];
                let x = if src.chance(1, 3) { params().deposit } else { amount(src, &l, self.scale) };
                Op::Propose { who, lookup, inner, x }
            }
            6 | 7 => Op::Note { inner: self.inner(src) },
            8 => Op::Unnote { inner: self.inner(src) },
            9..=12 => Op::Second { who, i: one(src) },
            13 if src.chance(1, 3) => Op::Clear { root: src.chance(3, 4) },
            _ => {
                let i = one(src);
                let by = w.props.get(&i).map(|p| p.1);
                let who = match src.below(4) {
                    0 => None,
                    1 => Some(who),
                    _ => by,
                };
                Op::CancelProp { who, i }
            }
        }
    }
    /// What governance does about proposals and referenda.
    fn referee(&self, src: &mut Src, root: bool) -> Op {
        let w = &self.m.w;
        let props: Vec<u32> = w.props.keys().copied().collect();
        let going: Vec<u32> = w.refs.iter().filter(|r| matches!(r.1, Ref::Ongoing { .. })).map(|r| *r.0).collect();
        let i = if props.is_empty() || src.chance(1, 12) { src.below(w.prop_count as u64 + 2) as u32 } else { *src.pick(&props) };
        let r = if going.is_empty() || src.chance(1, 12) { src.below(w.ref_count as u64 + 2) as u32 } else { *src.pick(&going) };
        let delay = src.below(6) as u32;
        match src.below(8) {
            0 | 1 => Op::FastTrack { root, i, delay },
            2..=4 => Op::Table { root, i, delay },
            5 | 6 => Op::Hurry { root, r },
            _ => Op::CancelRef { root, r },
        }
    }
    fn referenda(&self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let going: Vec<u32> = w.refs.iter().filter(|r| matches!(r.1, Ref::Ongoing { .. })).map(|r| *r.0).collect();
        let strong: Vec<u8> = (0..P as u8).filter(|a| w.spare(*a as usize) > 0).collect();
        let who = if strong.is_empty() || src.chance(1, 12) { src.usize(P) as u8 } else { *src.pick(&strong) };
        match src.below(16) {
            0..=9 => {
                let r = if going.is_empty() || src.chance(1, 16) { src.below(w.ref_count as u64 + 2) as u32 } else { *src.pick(&going) };
                let s = w.spare(who as usize);
                Op::Vote { who, r, aye: src.chance(2, 3), x: amount(src, &[s, s, s / 2, w.power(who as usize, w.n)], s) }
            }
            10..=12 => {
                let v: Vec<(u8, u32)> = (0..P).flat_map(|a| w.votes[a].keys().map(move |r| (a as u8, *r))).collect();
                let (who, r) = if v.is_empty() || src.chance(1, 12) { (who, src.below(w.ref_count as u64 + 2) as u32) } else { *src.pick(&v) };
                Op::Unvote { who, r }
            }
            13 => Op::Spend { root: src.bool(), x: amount(src, &[w.free[TREASURY][0]], self.scale), to: src.usize(P) as u8 },
            _ => {
                let root = src.chance(7, 8);
                self.referee(src, root)
            }
        }
    }
    fn emissions(&self, src: &mut Src, root: bool) -> Op {
        let w = &self.m.w;
        let inst = src.below(2) as u8;
        match src.below(6) {
            0 | 1 => Op::Emission { inst, root },
            2 | 3 => Op::PerWrapped { inst, root, x: *src.pick(&[0, 1, 10, 1000, self.scale]) },
            _ => {
                let start = (w.n + src.below(12) as u32).saturating_sub(1);
                let one = 1_000_000_000_000_000_000u128;
                Op::Inflation { root, start, rate: *src.pick(&[one / 50, one / 10, 0, one, one / 3]) }
            }
        }
    }
    fn annuities(&mut self, src: &mut Src) -> Op {
        match src.below(12) {
            0..=5 => {
                let owed: Vec<u8> = (0..P as u8).filter(|a| self.m.e[*a as usize] >= 1.0).collect();
                let who = if owed.is_empty() || src.chance(1, 6) { src.usize(P) as u8 } else { *src.pick(&owed) };
                Op::Rewards { inst: if src.chance(1, 12) { 1 } else { 0 }, who }
            }
            6 | 7 => Op::Wrap { who: src.usize(P) as u8, x: src.magnitude(self.scale) },
            8 => {
                let from = src.usize(P) as u8;
                let f = self.m.w.free[from as usize][0];
                Op::Pay { from, to: *src.pick(&[ESC, VLT]) as u8, c: 0, x: amount(src, &[f / 10], f) }
            }
            _ => {
                let root = src.chance(7, 8);
                self.emissions(src, root)
            }
        }
    }
    fn farm_gov(&self, src: &mut Src, root: bool) -> Op {
        let w = &self.m.w;
        let (p, c, flip) = (src.below(2) as u8, src.below(NR as u64) as u8, src.chance(1, 3));
        if src.chance(1, 4) {
            return Op::Unschedule { root, p, c, flip };
        }
        let t = w.free[TREASURY][c as usize];
        Op::Schedule { root, p, c, count: src.below(12) as u32, x: amount(src, &[t / 20, t / 100, 1, 7], t), flip }
    }
    fn farms(&self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let (who, p, flip) = (src.usize(P) as u8, src.below(2) as u8, src.chance(1, 3));
        let n = w.rewards[p as usize];
        let len = if src.chance(1, 16) { src.below(4) as u32 } else { n + src.below(2) as u32 };
        match src.below(16) {
            0..=3 => Op::Farm { who, p, len, flip },
            4..=7 => {
                let f: Vec<(u8, u8)> = (0..P).flat_map(|a| (0..2).map(move |p| (a, p))).filter(|x| w.farmed[x.0][x.1] > 0).map(|x| (x.0 as u8, x.1 as u8)).collect();
                let (who, p) = if f.is_empty() || src.chance(1, 12) { (who, p) } else { *src.pick(&f) };
                let x = w.farmed[who as usize][p as usize];
                let n = w.rewards[p as usize];
                Op::Unfarm { who, p, x: amount(src, &[x, x, x / 2, 1], x), len: if src.chance(1, 16) { src.below(4) as u32 } else { n }, flip }
            }
            8..=12 => {
                let owed: Vec<(u8, u8, u8)> = (0..2u8)
                    .flat_map(|p| (0..NR as u8).flat_map(move |c| (0..P as u8).map(move |a| (p, c, a))))
                    .filter(|x| self.m.f[x.0 as usize][x.1 as usize][x.2 as usize] >= 1.0)
                    .collect();
                let (p, c, who) = if owed.is_empty() || src.chance(1, 8) { (p, src.below(NR as u64) as u8, who) } else { *src.pick(&owed) };
                Op::Harvest { who, p, c, flip }
            }
            _ => {
                let root = src.chance(7, 8);
                self.farm_gov(src, root)
            }
        }
    }
    fn collator_gov(&self, src: &mut Src, root: bool) -> Op {
        let w = &self.m.w;
        match src.below(3) {
            0 => {
                let mut v = vec![];
                for a in 0..P as u8 {
                    if src.chance(1, 3) && (params().keys >> a & 1 == 1 || src.chance(1, 12)) {
                        v.push(a)
                    }
                }
                Op::Invulnerables { root, v }
            }
            1 => Op::Desired { root, x: src.below(7) as u32 },
            _ => {
                let s = w.spare(src.usize(P));
                Op::Bond { root, x: amount(src, &[s, s / 2, s / 10, 0], s) }
            }
        }
    }
    fn collators(&self, src: &mut Src) -> Op {
        let w = &self.m.w;
        let who = src.usize(P) as u8;
        match src.below(8) {
            0..=3 => {
                let can: Vec<u8> = (0..P as u8).filter(|a| params().keys >> a & 1 == 1 && w.spare(*a as usize) >= w.bond && !w.cand.iter().any(|c| c.0 == *a)).collect();
                Op::Register { who: if can.is_empty() || src.chance(1, 8) { who } else { *src.pick(&can) } }
            }
            4 | 5 => Op::Leave { who: if w.cand.is_empty() || src.chance(1, 8) { who } else { src.pick(&w.cand).0 } },
            _ => {
                let root = src.chance(7, 8);
                self.collator_gov(src, root)
            }
        }
    }
    fn pauses(&self, src: &mut Src, root: bool) -> Op {
        let w = &self.m.w;
        let (p, c) = match src.below(24) {
            0 => ("nothing".to_string(), Some("at_all".to_string())),
            _ => {
                let short: Vec<usize> = (0..CALLS.len()).filter(|i| CALLS[*i].1.len() <= MAX_NAME).collect();
                let (p, c) = CALLS[*src.pick(&short)];
                (p.to_string(), if src.chance(1, 4) { None } else { Some(c.to_string()) })
            }
        };
        let bytes = |x: (String, Option<String>)| (x.0.into_bytes(), x.1.map(|c| c.into_bytes()));
        let on: Vec<(String, Option<String>)> = w.paused.iter().cloned().collect();
        match src.below(8) {
            0..=2 => {
                let (pallet, call) = bytes((p, c));
                Op::Pause { root, pallet, call }
            }
            3..=5 => {
                let (pallet, call) = bytes(if on.is_empty() || src.chance(1, 12) { (p, c) } else { src.pick(&on).clone() });
                Op::Unpause { root, pallet, call }
            }
            _ => Op::Release { root, pending: src.bool(), name: src.below(NAMES as u64) as u8, rel: src.below(6) as u8 },
        }
    }
    fn make(&mut self, src: &mut Src, ctx: &mut Ctx) -> Op {
        let k = src.weighted(&self.weights);
        let op = match k {
            0 => self.locks(src),
            1 => self.proposals(src),
            2 => self.referenda(src),
            3 => self.annuities(src),
            4 => self.farms(src),
            5 => self.collators(src),
            6 if src.chance(1, 8) => Op::Upgrade,
            6 => {
                let root = src.chance(7, 8);
                self.pauses(src, root)
            }
            _ => self.pay(src),
        };
        match &op {
            Op::Pay { to, .. } if *to as usize >= P => ctx.fault("funds donated"),
            Op::Unnote { .. } => ctx.fault("preimage taken back"),
            Op::Wrap { .. } => ctx.fault("wrapped supply changes"),
            _ => {}
        }
        op
    }

    // ------------------------------------------------------------ blocks

    fn begin(&mut self, src: &mut Src, ctx: &mut Ctx, step: u64) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let n = self.m.w.n + 1;
        System::set_block_number(n);
        System::reset_events();
        self.m.w.n = n;
        // what referenda have decided
        let mut tasks: Vec<((u32, u32), Task)> = Agenda::iter().filter(|x| x.0 .0 <= n).collect();
        tasks.sort_by_key(|x| x.0);
        for (k, t) in tasks {
            ctx.check("G04", "a decision's time is past", k.0 == n, || format!("referendum {} at {}, now {n}", k.1, k.0))?;
            Agenda::remove(k);
            let bytes = call_bytes(&t.call);
            <SimPreimages as frame_support::traits::QueryPreimage>::drop(&t.call);
            let key = self.m.w.agenda.remove(&k);
            if let Some(key) = &key {
                self.m.w.unhold(key);
            }
            let inner: Option<Inner> = bytes.and_then(|b| Decode::decode(&mut &b[..]).ok());
            ctx.check("G04", "the call of a decision is gone", inner.is_some(), || format!("referendum {} at {}", k.1, k.0))?;
            ctx.check("G04", "a decision is not enacted by governance", t.root, || format!("referendum {} at {}", k.1, k.0))?;
            if let Some((_, op)) = inner {
                ctx.probe("decision enacted");
                self.apply(ctx, &op)?;
            }
        }
        let mut exp = self.m.w.clone();
        Supply::on_initialize(n);
        EscrowAnnuity::on_initialize(n);
        VaultAnnuity::on_initialize(n);
        Farming::on_initialize(n);
        System::reset_events();
        Democracy::on_initialize(n);
        let tabled: Vec<u32> = System::take_events()
            .into_iter()
            .filter_map(|e| match e {
                Ev::Democracy(democracy::Event::Tabled { proposal_index, .. }) => Some(proposal_index),
                _ => None,
            })
            .collect();
        let esc = exp.free[ESC][0];
        if exp.supply_block() {
            ctx.probe("supply inflated");
            ctx.nontrivial |= ctx.is("G05");
        }
        self.m.funded += exp.free[ESC][0] - esc;
        let r = exp.annuity_block();
        self.m.promised += r;
        let all: u128 = exp.stake.iter().sum();
        for a in 0..P {
            if r > 0 {
                self.m.e[a] += r as f64 * (exp.stake[a] as f64 / all as f64);
            }
        }
        for (p, c, x) in exp.farming_block() {
            ctx.probe("farming reward distributed");
            let (p, c) = (p as usize, c as usize);
            let all: u128 = exp.farmed.iter().map(|f| f[p]).sum();
            self.m.given[p][c] += x;
            for a in 0..P {
                if all > 0 {
                    self.m.f[p][c][a] += x as f64 * (exp.farmed[a][p] as f64 / all as f64);
                }
            }
        }
        match exp.democracy_block(&tabled) {
            Ok(v) => {
                for (_, approved) in v {
                    ctx.probe(if approved { "referendum approved" } else { "referendum rejected" });
                }
                if !tabled.is_empty() {
                    ctx.probe("proposals tabled");
                }
            }
            Err(e) => {
                self.m.w = World::read(&exp);
                ctx.check("G04", e, false, || format!("tabled {tabled:?}, proposals {:?}, deposits {:?}", exp.props, exp.deps))?;
                exp = self.m.w.clone();
            }
        }
        // who makes it
        let author = if self.m.session.is_empty() || src.chance(1, 8) {
            ctx.fault("block without an author");
            None
        } else {
            Some(*src.pick(&self.m.session))
        };
        if let Some(a) = author {
            <Collators as EventHandler<Acc, u32>>::note_author(account(a as usize));
            exp.author_block(a);
            self.m.authored += 1;
        }
        if n % self.period == 0 {
            let before = exp.cand.len();
            let want = exp.session();
            if exp.cand.len() < before {
                ctx.probe("candidate kicked");
            }
            let got = <Collators as SessionManager<Acc>>::new_session(n).unwrap_or_default();
            let mut got: Vec<u8> = got.iter().map(|a| (0..P as u8).find(|x| account(*x as usize) == *a).unwrap_or(99)).collect();
            got.sort();
            self.m.session = want.clone();
            let twice = got.windows(2).any(|w| w[0] == w[1]);
            ctx.check("G07", "a collator is in the session twice", !twice, || format!("{got:?}"))?;
            got.dedup();
            ctx.check("G07", "the session's collators differ", got == want, || format!("{got:?}, by the rules {want:?}"))?;
        }
        self.m.w = World::read(&exp);
        for (p, what, d) in differ(&exp, &self.m.w, "") {
            ctx.check(p, &format!("block: {what} differs"), false, || format!("block {n}: {d}"))?;
        }
        self.powers(ctx)?;
        self.m.now += step;
        Timestamp::set_timestamp(self.m.now);
        self.m.w.t = self.m.now / 1000;
        Ok(())
    }
    fn powers(&self, ctx: &mut Ctx) -> Res {
        let n = self.m.w.n;
        let p = params();
        let far = (0..P).map(|a| self.m.w.lock[a].1).max().unwrap_or(0).max(n);
        if let Some((what, d)) = powers(&self.m.w, &[n, n + 1, n + p.span, n + p.max, far.saturating_sub(1).max(n)]) {
            ctx.check("G01", &format!("{what} differs"), false, || d)?;
        }
        // which counts as a check
        ctx.check("G01", "", true, String::new)
    }

    fn apply(&mut self, ctx: &mut Ctx, op: &Op) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let prop = prop_of(op);
        let name = op_name(op);
        let old = self.m.w.clone();
        let mut exp = old.spec(op);
        let before = state::hash();
        let r = dispatch(op);
        ctx.event(hash_str(&format!("{name}{:?}", r.is_ok())));
        ctx.note(|| format!("  {op:?}: {:?}, rule {:?}", r.as_ref().map_err(why), exp.as_ref().map(|_| ())));
        ctx.nontrivial |= r.is_ok() && (ctx.is(prop) || ctx.is("G01") && prop == "G02");
        ctx.probe(match (op, r.is_ok()) {
            (Op::Create { .. }, true) => "locked",
            (Op::Increase { .. }, true) => "lock increased",
            (Op::Extend { .. }, true) => "lock extended",
            (Op::Withdraw { .. }, true) => "lock withdrawn",
            (Op::Refresh { .. }, true) => "stake refreshed",
            (Op::Propose { lookup: true, .. }, true) => "proposed by preimage",
            (Op::Propose { .. }, true) => "proposed",
            (Op::Second { .. }, true) => "seconded",
            (Op::Vote { .. }, true) => "voted",
            (Op::Unvote { .. }, true) => "vote removed",
            (Op::FastTrack { .. } | Op::Table { .. }, true) => "proposal tabled by governance",
            (Op::Clear { .. } | Op::CancelProp { .. }, true) => "proposals cancelled",
            (Op::Rewards { .. }, true) => "annuity rewards claimed",
            (Op::Farm { .. }, true) => "farmed",
            (Op::Unfarm { .. }, true) => "unfarmed",
            (Op::Harvest { .. }, true) => "farming rewards claimed",
            (Op::Schedule { .. }, true) => "farming scheduled",
            (Op::Register { .. }, true) => "candidate registered",
            (Op::Leave { .. }, true) => "candidate left",
            (Op::Pause { .. }, true) => "call paused",
            (Op::Unpause { .. }, true) => "call unpaused",
            (_, true) => "other call accepted",
            (_, false) => "call refused",
        });
        // what claims pay
        let mut refused = false;
        let claim = match op {
            Op::Rewards { inst: 0, who } => Some((*who as usize, ESC, 0, &mut self.m.e[*who as usize])),
            Op::Harvest { who, p, c, .. } => {
                Some((*who as usize, FARM + *p as usize, *c as usize, &mut self.m.f[*p as usize][*c as usize][*who as usize]))
            }
            _ => None,
        };
        if let (Some((who, from, c, earned)), Ok(x)) = (claim, &mut exp) {
            if r.is_ok() {
                let act = World::read(&old);
                let paid = old.free[from][c].saturating_sub(act.free[from][c]);
                let (p, e) = (paid as f64, *earned);
                *earned = 0.0;
                if paid > 0 {
                    ctx.probe("rewards paid");
                }
                let tol = e * 1e-9 + 0.01;
                ctx.check(prop, "claim pays too little", p >= e - 1.0 - tol, || format!("{op:?}: {paid}, earned {e}"))?;
                ctx.check(prop, "claim pays too much", p <= e + tol, || format!("{op:?}: {paid}, earned {e}"))?;
                x.free[from][c] -= paid;
                x.free[who][c] += paid;
            } else {
                refused = true;
                let short = from == ESC && self.m.promised > self.m.funded;
                let class = if short { "annuity promises more than there is".to_string() } else { format!("{name} refused: {}", why(&r.clone().unwrap_err())) };
                ctx.probe("claim refused");
                ctx.check(prop, &class, false, || {
                    format!("{op:?}: {} is refused, {} there, {} given to the stakers so far of {}", *earned, old.free[from][c], self.m.promised, self.m.funded)
                })?;
            }
        }
        if let (Op::Pay { to, x, c: 0, .. }, true) = (op, r.is_ok()) {
            if *to as usize == ESC {
                self.m.funded += x;
            }
        }
        if let (Ok(_), Err(DispatchError::Arithmetic(_))) = (&exp, &r) {
            // a reward per token times the tokens has to stay below 1.7e20
            let most = self.m.given.iter().flatten().copied().max().unwrap_or(0).max(self.m.promised);
            let held = (0..P).flat_map(|a| [old.free[a][0], old.free[a][3], old.free[a][4], old.res[a][3], old.res[a][4]]).max().unwrap_or(0);
            if most as f64 * held as f64 > 1e19 {
                ctx.probe("beyond the reward pools' domain");
                self.m.dead = true;
                return Ok(());
            }
        }
        match (exp, r) {
            (Ok(_), Err(_)) if refused => {}
            (Ok(_), Err(e)) => {
                ctx.check(prop, &format!("{name} refused: {}", why(&e)), false, || format!("{op:?} is refused by the chain but not by the rules"))?;
            }
            (Err(e), Ok(())) => {
                self.m.w = World::read(&old);
                let p = if e == "paused" { "G08" } else { prop };
                ctx.check(p, &format!("{name} accepted: {e}"), false, || format!("{op:?} is accepted by the chain but not by the rules"))?;
            }
            (Err(_), Err(_)) => {
                ctx.check(prop, "refused call changes the state", state::hash() == before, || format!("{op:?}"))?;
            }
            (Ok(exp), Ok(())) => {
                self.m.w = World::read(&exp);
                for (p, what, d) in differ(&exp, &self.m.w, prop) {
                    ctx.check(p, &format!("{name}: {what} differs"), false, || format!("{op:?}: {d}"))?;
                }
                if prop == "G02" {
                    self.powers(ctx)?;
                }
            }
        }
        Ok(())
    }

    fn invariants(&self, ctx: &mut Ctx) -> Res {
        if self.m.dead {
            return Ok(());
        }
        let w = &self.m.w;
        for c in 0..NC {
            let all: u128 = (0..NA).map(|a| w.free[a][c] + w.res[a][c]).sum();
            ctx.check("G05", "tokens are not all somewhere", all == w.iss[c], || format!("currency {c}: {all} held, {} issued", w.iss[c]))?;
        }
        for a in 0..P {
            let d: u128 = w.deps.values().map(|(v, x)| v.iter().filter(|b| **b as usize == a).count() as u128 * x).sum();
            let b: u128 = w.cand.iter().filter(|c| c.0 as usize == a).map(|c| c.1).sum();
            ctx.check("G03", "reserved power is not what deposits and bonds are", d + b == w.reserved[a], || {
                format!("account {a}: {d} of deposits, {b} of bonds, {} reserved", w.reserved[a])
            })?;
            ctx.check("G02", "more locked than owned", w.frozen[a] <= w.free[a][0], || format!("account {a}: {} of {}", w.frozen[a], w.free[a][0]))?;
            for p in 0..2 {
                ctx.check("G06", "farmed is not what is held back", w.farmed[a][p] == w.res[a][3 + p], || {
                    format!("account {a} farm {p}: {} and {}", w.farmed[a][p], w.res[a][3 + p])
                })?;
            }
        }
        for (i, _) in &w.props {
            ctx.check("G03", "proposal without deposits", w.deps.contains_key(i), || format!("{i}"))?;
        }
        for (i, _) in &w.deps {
            ctx.check("G03", "deposits without a proposal", w.props.contains_key(i), || format!("{i}"))?;
        }
        for (h, (_, k)) in &w.holds {
            let n = w.props.values().filter(|p| p.0 == (*h, true)).count()
                + w.refs.values().filter(|r| matches!(r, Ref::Ongoing { prop, .. } if *prop == (*h, true))).count()
                + w.agenda.values().filter(|p| **p == (*h, true)).count();
            ctx.check("G03", "preimage held by nothing or not held", n as u32 == *k, || format!("{h:?}: held {k} times, by {n}"))?;
        }
        for (i, r) in &w.refs {
            if let Ref::Ongoing { ayes, nays, turnout, .. } = r {
                let v: Vec<&(bool, u128)> = w.votes.iter().filter_map(|v| v.get(i)).collect();
                let (y, n): (u128, u128) = (v.iter().filter(|x| x.0).map(|x| x.1).sum(), v.iter().filter(|x| !x.0).map(|x| x.1).sum());
                ctx.check("G04", "tally is not what was voted", (y, n, y + n) == (*ayes, *nays, *turnout), || {
                    format!("referendum {i}: {y} and {n} voted, tally {ayes}, {nays}, {turnout}")
                })?;
            }
        }
        for (p, c) in CALLS {
            let on = tx_pause::Pallet::<Rt>::is_paused_unbound(p.as_bytes().to_vec(), c.as_bytes().to_vec());
            ctx.check("G08", "paused is not what was paused", on == w.is_paused(p, c), || format!("{p} {c}: {on}, paused: {:?}", w.paused))?;
        }
        for p in 0..2usize {
            for c in 0..NR {
                let due: f64 = self.m.f[p][c].iter().sum();
                let later = w.sched.get(&(p as u8, c as u8)).map_or(0, |s| s.0 as u128 * s.1) as f64;
                let there = w.free[FARM + p][c] as f64;
                ctx.check("G06", "farm does not hold what it owes", there >= (due + later) * (1.0 - 1e-9) - 1.0, || {
                    format!("farm {p} currency {c}: {due} earned, {later} scheduled, {there} there")
                })?;
            }
        }
        Ok(())
    }

    fn produce(&mut self, src: &mut Src, ctx: &mut Ctx, all: bool) -> Res {
        let saved = self.m.clone();
        let mut body = vec![];
        let n = if all { self.pool.len() } else { src.usize(7).min(self.pool.len()) };
        for _ in 0..n {
            let i = if src.chance(1, 8) {
                ctx.fault("calls reordered");
                src.usize(self.pool.len())
            } else {
                0
            };
            body.push(Some(self.pool.remove(i)));
        }
        // and somebody who sees the block before it is made
        for _ in 0..src.usize(3) {
            body.push(None);
        }
        let step = if src.chance(1, 24) {
            ctx.fault("clock jump");
            src.magnitude(31_536_000_000) as u64 + 1000
        } else {
            self.step + src.below(self.step)
        };
        let mut crash = if src.chance(1, 16) { Some(src.usize(body.len() + 1)) } else { None };
        loop {
            let mut r = Ok(());
            let out = sim_node::block::<Rt, _>(None, || {
                r = self.begin(src, ctx, step);
                for i in 0..body.len() {
                    if crash == Some(i) {
                        std::panic::panic_any(state::SimCrash);
                    }
                    if body[i].is_none() {
                        body[i] = Some(self.make(src, ctx));
                    }
                    if r.is_ok() {
                        r = self.apply(ctx, body[i].as_ref().unwrap());
                    }
                }
                if crash == Some(body.len()) {
                    std::panic::panic_any(state::SimCrash);
                }
            });
            r?;
            if out.is_ok() {
                break;
            }
            ctx.fault("crash inside a block");
            self.m = saved.clone();
            crash = None;
        }
        ctx.sim_time += step / 1000;
        self.invariants(ctx)
    }
    /// A block without anything that goes wrong, with `ops` in it.
    fn quiet(&mut self, src: &mut Src, ctx: &mut Ctx, step: u64, ops: &[Op]) -> Res {
        let mut r = Ok(());
        let _ = sim_node::block::<Rt, _>(None, || {
            r = self.begin(src, ctx, step);
            for op in ops {
                if r.is_ok() {
                    r = self.apply(ctx, op);
                }
            }
        });
        r?;
        ctx.sim_time += step / 1000;
        Ok(())
    }
    /// Everything has an end and everybody gets what is theirs.
    fn end(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let all: Vec<(String, Option<String>)> = self.m.w.paused.iter().cloned().collect();
        let off: Vec<Op> =
            all.into_iter().map(|(p, c)| Op::Unpause { root: true, pallet: p.into_bytes(), call: c.map(|c| c.into_bytes()) }).collect();
        self.quiet(src, ctx, 6000, &off)?;
        let mut blocks = 0;
        loop {
            if self.m.dead {
                return Ok(());
            }
            let w = &self.m.w;
            let done = (0..P).all(|a| w.lock[a].1 <= w.n + 1)
                && w.props.is_empty()
                && w.agenda.is_empty()
                && w.refs.values().all(|r| matches!(r, Ref::Finished { .. }))
                && w.paused.is_empty();
            if done {
                break;
            }
            blocks += 1;
            // every launch period decides on two proposals, which may bring about others' tabling
            let bound = params().max + 40 + MAX_PROPOSALS * (params().voting + params().enact + 20);
            let late = w.refs.values().filter(|r| matches!(r, Ref::Ongoing { .. })).count();
            ctx.check("G04", "not everything comes to an end", blocks < bound, || {
                format!("after {blocks} blocks: proposals {:?}, {late} referenda going on, agenda {:?}, paused {:?}", w.props, w.agenda, w.paused)
            })?;
            if blocks >= bound {
                return Ok(());
            }
            // what a decision has paused since
            let off: Vec<Op> = w
                .paused
                .iter()
                .map(|(p, c)| Op::Unpause { root: true, pallet: p.clone().into_bytes(), call: c.clone().map(|c| c.into_bytes()) })
                .collect();
            let step = params().launch * 1000 + 6000;
            self.quiet(src, ctx, step, &off)?;
        }
        let mut ops = vec![Op::Bond { root: true, x: 0 }];
        for a in 0..P as u8 {
            ops.push(Op::Withdraw { who: a });
            for p in 0..2 {
                let x = self.m.w.farmed[a as usize][p as usize];
                ops.push(Op::Unfarm { who: a, p, x, len: 9, flip: false });
                for c in 0..NR as u8 {
                    ops.push(Op::Harvest { who: a, p, c, flip: false });
                }
            }
            ops.push(Op::Rewards { inst: 0, who: a });
        }
        self.quiet(src, ctx, 6000, &ops)?;
        if self.m.dead {
            return Ok(());
        }
        let w = &self.m.w;
        for a in 0..P {
            ctx.check("G02", "still locked when all locks are over", w.frozen[a] == 0 && w.lock[a].0 == 0, || {
                format!("account {a}: {} frozen, lock {:?}", w.frozen[a], w.lock[a])
            })?;
            ctx.check("G06", "still farmed when all have left", w.res[a][3] + w.res[a][4] == 0, || format!("account {a}"))?;
        }
        Ok(())
    }
}

impl Scenario for Sim {
    const NAME: &'static str = "gov";
    fn real() -> &'static [&'static str] {
        &["escrow", "democracy", "annuity", "supply", "farming", "collator-selection", "tx-pause", "clients-info", "reward"]
    }
    fn stubs() -> &'static [&'static str] {
        &["frame-system, frame-support, pallet-timestamp, pallet-session, pallet-authorship, orml-tokens", "scheduler and preimage store", "the runtime's DealWithRewards and reward providers"]
    }
    fn new(src: &mut Src, ctx: &mut Ctx) -> Self {
        state::disarm_crash();
        state::unwind_to(0);
        state::reset();
        System::reset_events();
        let (span, max) = *src.pick(&[(7u32, 98u32), (5, 60), (10, 100), (1, 10), (3, 20)]);
        let scale = *src.pick(&[1_000_000u128, 10_000, 100_000_000, 100_000_000]);
        set_params(Params {
            span,
            max,
            voting: src.range(3, 14) as u32,
            fast: src.range(1, 5) as u32,
            enact: src.below(6) as u32,
            launch: *src.pick(&[60, 600, 86_400]),
            deposit: scale / *src.pick(&[1000, 100, 10_000]),
            emission: src.range(4, 40) as u32,
            inflation: src.range(4, 60) as u32,
            reward: src.range(1, 6) as u32,
            kick: src.range(2, 16) as u32,
            min_cand: src.below(3) as u32,
            keys: *src.pick(&[0b111111, 0b111111, 0b110111, 0b011111, 0b000111]),
            too_long: src.bool(),
        });
        supply::GenesisConfig::<Rt> {
            initial_supply: scale * 10,
            start_height: src.below(12) as u32,
            inflation: FixedU128::from_inner(*src.pick(&[20_000_000_000_000_000, 100_000_000_000_000_000])),
        }
        .build();
        let few: Vec<Acc> = (0..P).filter(|a| params().keys >> a & 1 == 1).take(src.usize(3)).map(account).collect();
        collator_selection::GenesisConfig::<Rt> {
            invulnerables: few,
            candidacy_bond: scale / *src.pick(&[100, 1000, 10]),
            desired_candidates: src.below(5) as u32,
        }
        .build();
        democracy::GenesisConfig::<Rt>::default().build();
        for a in 0..P {
            for c in 0..NC {
                let x = scale / 100 * src.range(0, 300) as u128 + src.below(10) as u128;
                Tokens::sim_set_free(&account(a), CUR[c], x);
            }
        }
        for c in 0..NR {
            Tokens::sim_set_free(&account(TREASURY), CUR[c], scale * src.below(5) as u128 + src.below(1000) as u128);
        }
        System::set_block_number(1);
        let now = 1_700_000_000_000 + src.below(100_000_000);
        Timestamp::set_timestamp(now);
        state::start_transaction();
        let mut w = World::read(&World { t: now / 1000, ..Default::default() });
        w.n = 1;
        let weights = match ctx.property.as_str() {
            //           lock prop ref ann farm col pause pay
            "G01" => vec![14, 2, 2, 1, 1, 2, 1, 2],
            "G02" => vec![12, 3, 2, 1, 1, 3, 1, 6],
            "G03" => vec![5, 12, 4, 1, 1, 2, 1, 1],
            "G04" => vec![5, 6, 12, 1, 1, 1, 1, 1],
            "G05" => vec![6, 2, 2, 12, 1, 1, 1, 2],
            "G06" => vec![1, 1, 1, 1, 14, 1, 1, 2],
            "G07" => vec![6, 2, 1, 1, 1, 12, 1, 2],
            "G08" => vec![2, 2, 2, 2, 2, 2, 12, 1],
            _ => vec![4, 4, 4, 4, 4, 4, 4, 4],
        };
        let m = Model {
            w,
            e: [0.0; P],
            f: [[[0.0; P]; NR]; 2],
            promised: 0,
            funded: 0,
            given: [[0; NR]; 2],
            now,
            session: vec![],
            authored: 0,
            dead: false,
        };
        Sim {
            m,
            pool: vec![],
            known: vec![],
            nonce: 0,
            steps: 40 + src.usize(160),
            weights,
            loss: src.below(3),
            period: src.range(2, 9) as u32,
            step: *src.pick(&[6_000, 12_000, 600_000, 40_000_000]),
            scale,
        }
    }
    fn steps(&self) -> usize {
        self.steps
    }
    fn panic_property(&self) -> Option<&'static str> {
        Some("G02")
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if self.m.dead {
            return Ok(());
        }
        match src.below(8) {
            0..=2 => self.produce(src, ctx, false),
            3 if src.chance(1, 4) => {
                for _ in 0..src.range(2, 12) {
                    self.produce(src, ctx, true)?;
                }
                Ok(())
            }
            _ => {
                let op = self.make(src, ctx);
                self.submit(src, ctx, op);
                Ok(())
            }
        }
    }
    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        self.loss = 0;
        self.produce(src, ctx, true)?;
        if self.m.dead {
            return Ok(());
        }
        // the faults stop
        self.end(src, ctx)?;
        self.invariants(ctx)
    }
}
