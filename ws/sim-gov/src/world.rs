//! What governance's and the emissions' state is, and the rules of each call and each block.
use crate::rt::*;
use codec::{Decode, Encode};
use democracy::ReferendumInfo;
use frame_support::traits::{Bounded, Currency};
use orml_traits::MultiCurrency;
use primitives::CurrencyId;
use scale_info::TypeInfo;
use sp_core::H256;
use std::collections::{BTreeMap, BTreeSet};

pub type R<T> = Result<T, &'static str>;
pub type Ix = u8;

pub const CUR: [CurrencyId; 5] = [NATIVE, WRAPPED, OTHER, LP[0], LP[1]];
pub const NC: usize = 5;
/// currencies farms may pay
pub const NR: usize = 3;
pub const P: usize = 6;
pub const TREASURY: usize = 6;
pub const SUPPLY: usize = 7;
pub const ESC: usize = 8;
pub const VLT: usize = 9;
pub const FEE: usize = 10;
pub const FARM: usize = 11;
pub const POT: usize = 13;
pub const NA: usize = 14;

pub fn account(a: usize) -> Acc {
    use frame_support::traits::Get;
    match a {
        TREASURY => Treasury::get(),
        SUPPLY => Supply::account_id(),
        ESC => EscrowAnnuity::account_id(),
        VLT => VaultAnnuity::account_id(),
        FEE => Fees::get(),
        11 | 12 => Farming::pool_account_id(&LP[a - FARM]),
        POT => Collators::account_id(),
        a => a as u128 + 1,
    }
}
fn who(a: Acc) -> u8 {
    (0..NA).find(|x| account(*x) == a).unwrap_or(99) as u8
}

/// A proposal's call: what distinguishes it from others like it, and what it does.
pub type Inner = (u32, Box<Op>);
pub fn hash_of(i: &Inner) -> H256 {
    sp_core::hashing::blake2_256(&i.encode()).into()
}

#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, TypeInfo)]
pub enum Op {
    Create { who: Ix, x: u128, end: u32 },
    Increase { who: Ix, x: u128 },
    Extend { who: Ix, end: u32 },
    Withdraw { who: Ix },
    Limit { root: bool, who: Ix, s: u32, e: u32 },
    Block { root: bool, who: Ix },
    Refresh { who: Ix, target: Ix },
    Rewards { inst: Ix, who: Ix },
    Emission { inst: Ix, root: bool },
    PerWrapped { inst: Ix, root: bool, x: u128 },
    Inflation { root: bool, start: u32, rate: u128 },
    Schedule { root: bool, p: Ix, c: Ix, count: u32, x: u128, flip: bool },
    Unschedule { root: bool, p: Ix, c: Ix, flip: bool },
    Farm { who: Ix, p: Ix, len: u32, flip: bool },
    Unfarm { who: Ix, p: Ix, x: u128, len: u32, flip: bool },
    Harvest { who: Ix, p: Ix, c: Ix, flip: bool },
    Note { inner: Inner },
    Unnote { inner: Inner },
    Propose { who: Ix, lookup: bool, inner: Inner, x: u128 },
    Second { who: Ix, i: u32 },
    Vote { who: Ix, r: u32, aye: bool, x: u128 },
    Unvote { who: Ix, r: u32 },
    FastTrack { root: bool, i: u32, delay: u32 },
    Table { root: bool, i: u32, delay: u32 },
    Hurry { root: bool, r: u32 },
    CancelRef { root: bool, r: u32 },
    Clear { root: bool },
    CancelProp { who: Option<Ix>, i: u32 },
    Spend { root: bool, x: u128, to: Ix },
    Invulnerables { root: bool, v: Vec<Ix> },
    Desired { root: bool, x: u32 },
    Bond { root: bool, x: u128 },
    Register { who: Ix },
    Leave { who: Ix },
    Pause { root: bool, pallet: Vec<u8>, call: Option<Vec<u8>> },
    Unpause { root: bool, pallet: Vec<u8>, call: Option<Vec<u8>> },
    Release { root: bool, pending: bool, name: Ix, rel: Ix },
    Upgrade,
    Pay { from: Ix, to: Ix, c: Ix, x: u128 },
    Wrap { who: Ix, x: u128 },
}
pub fn prop_of(op: &Op) -> &'static str {
    use Op::*;
    match op {
        Create { .. } | Increase { .. } | Extend { .. } | Withdraw { .. } | Limit { .. } | Block { .. } | Refresh { .. } | Pay { .. } => "G02",
        Note { .. } | Unnote { .. } | Propose { .. } | Second { .. } | Clear { .. } | CancelProp { .. } => "G03",
        Vote { .. } | Unvote { .. } | FastTrack { .. } | Table { .. } | Hurry { .. } | CancelRef { .. } | Spend { .. } => "G04",
        Rewards { .. } | Emission { .. } | PerWrapped { .. } | Inflation { .. } | Wrap { .. } => "G05",
        Schedule { .. } | Unschedule { .. } | Farm { .. } | Unfarm { .. } | Harvest { .. } => "G06",
        Invulnerables { .. } | Desired { .. } | Bond { .. } | Register { .. } | Leave { .. } => "G07",
        Pause { .. } | Unpause { .. } | Release { .. } | Upgrade => "G08",
    }
}
pub fn op_name(op: &Op) -> String {
    let d = format!("{op:?}");
    d[..d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len())].to_string()
}
/// Who sends it: an account, or governance; and which call it is.
pub fn sender(op: &Op) -> (Option<u8>, &'static str, &'static str) {
    use Op::*;
    let gov = |root: &bool| if *root { None } else { Some(0) };
    let annuity = |i: &u8| if *i == 0 { "escrow-annuity" } else { "vault-annuity" };
    match op {
        Create { who, .. } => (Some(*who), "escrow", "create_lock"),
        Increase { who, .. } => (Some(*who), "escrow", "increase_amount"),
        Extend { who, .. } => (Some(*who), "escrow", "increase_unlock_height"),
        Withdraw { who } => (Some(*who), "escrow", "withdraw"),
        Limit { root, .. } => (gov(root), "escrow", "set_account_limit"),
        Block { root, .. } => (gov(root), "escrow", "set_account_block"),
        Refresh { who, .. } => (Some(*who), "escrow", "update_user_stake"),
        Rewards { inst, who } => (Some(*who), annuity(inst), "withdraw_rewards"),
        Emission { inst, root } => (gov(root), annuity(inst), "update_rewards"),
        PerWrapped { inst, root, .. } => (gov(root), annuity(inst), "set_reward_per_wrapped"),
        Inflation { root, .. } => (gov(root), "supply", "set_start_height_and_inflation"),
        Schedule { root, .. } => (gov(root), "farming", "update_reward_schedule"),
        Unschedule { root, .. } => (gov(root), "farming", "remove_reward_schedule"),
        Farm { who, .. } => (Some(*who), "farming", "deposit"),
        Unfarm { who, .. } => (Some(*who), "farming", "withdraw"),
        Harvest { who, .. } => (Some(*who), "farming", "claim"),
        Propose { who, .. } => (Some(*who), "democracy", "propose"),
        Second { who, .. } => (Some(*who), "democracy", "second"),
        Vote { who, .. } => (Some(*who), "democracy", "vote"),
        Unvote { who, .. } => (Some(*who), "democracy", "remove_vote"),
        FastTrack { root, .. } => (gov(root), "democracy", "fast_track"),
        Table { root, .. } => (gov(root), "democracy", "table_proposal"),
        Hurry { root, .. } => (gov(root), "democracy", "fast_track_referendum"),
        CancelRef { root, .. } => (gov(root), "democracy", "cancel_referendum"),
        Clear { root } => (gov(root), "democracy", "clear_public_proposals"),
        CancelProp { who, .. } => (*who, "democracy", "cancel_proposal"),
        Spend { root, .. } => (gov(root), "democracy", "spend_from_treasury"),
        Invulnerables { root, .. } => (gov(root), "collators", "set_invulnerables"),
        Desired { root, .. } => (gov(root), "collators", "set_desired_candidates"),
        Bond { root, .. } => (gov(root), "collators", "set_candidacy_bond"),
        Register { who } => (Some(*who), "collators", "register_as_candidate"),
        Leave { who } => (Some(*who), "collators", "leave_intent"),
        Pause { root, .. } => (gov(root), "tx-pause", "pause"),
        Unpause { root, .. } => (gov(root), "tx-pause", "unpause"),
        Release { root, pending: false, .. } => (gov(root), "clients", "set_current_client_release"),
        Release { root, .. } => (gov(root), "clients", "set_pending_client_release"),
        Pay { from, .. } => (Some(*from), "tokens", "transfer"),
        Note { .. } | Unnote { .. } | Upgrade | Wrap { .. } => (None, "", ""),
    }
}
fn root_only(op: &Op) -> bool {
    use Op::*;
    matches!(
        op,
        Limit { .. } | Block { .. } | Emission { .. } | PerWrapped { .. } | Inflation { .. } | Schedule { .. } | Unschedule { .. } | FastTrack { .. }
            | Table { .. } | Hurry { .. } | CancelRef { .. } | Clear { .. } | Spend { .. } | Invulnerables { .. } | Desired { .. } | Bond { .. }
            | Pause { .. } | Unpause { .. } | Release { .. }
    )
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ref {
    Ongoing { end: u32, prop: (H256, bool), delay: u32, ayes: u128, nays: u128, turnout: u128 },
    Finished { end: u32, approved: bool },
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct World {
    pub n: u32,
    /// the timestamp in seconds
    pub t: u64,
    pub free: [[u128; NC]; NA],
    pub res: [[u128; NC]; NA],
    pub frozen: [u128; NA],
    pub iss: [u128; NC],
    pub lock: [(u128, u32); P],
    pub limits: BTreeMap<u8, (u32, u32)>,
    pub blocks: BTreeSet<u8>,
    pub reserved: [u128; P],
    pub stake: [u128; P],
    pub props: BTreeMap<u32, ((H256, bool), u8)>,
    pub deps: BTreeMap<u32, (Vec<u8>, u128)>,
    pub prop_count: u32,
    pub refs: BTreeMap<u32, Ref>,
    pub ref_count: u32,
    pub votes: [BTreeMap<u32, (bool, u128)>; P],
    pub next: u64,
    pub holds: BTreeMap<H256, (bool, u32)>,
    pub agenda: BTreeMap<(u32, u32), (H256, bool)>,
    pub rpb: [u128; 2],
    pub rpw: [Option<u128>; 2],
    pub start: u32,
    pub rate: u128,
    pub last: u128,
    pub sched: BTreeMap<(u8, u8), (u32, u128)>,
    pub farmed: [[u128; 2]; P],
    pub rewards: [u32; 2],
    pub invul: Vec<u8>,
    pub cand: Vec<(u8, u128)>,
    pub authored: BTreeMap<u8, u32>,
    pub desired: u32,
    pub bond: u128,
    pub paused: BTreeSet<(String, Option<String>)>,
    pub current: BTreeMap<u8, u8>,
    pub pending: BTreeMap<u8, u8>,
}

pub fn name_bytes(i: u8) -> Vec<u8> {
    format!("client{i}").into_bytes()
}
pub fn release(i: u8) -> clients_info::ClientRelease<frame_support::BoundedVec<u8, frame_support::traits::ConstU32<16>>, H256> {
    clients_info::ClientRelease { uri: format!("uri{i}").into_bytes().try_into().unwrap(), checksum: H256::repeat_byte(i) }
}
/// How many names releases are given to.
pub const NAMES: u8 = 3;

fn key(b: &Bounded<RuntimeCall>) -> (H256, bool) {
    (b.hash(), b.lookup_needed())
}
fn isqrt(x: u128) -> u128 {
    let mut r = (x as f64).sqrt() as u128;
    while r * r > x {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= x {
        r += 1;
    }
    r
}
pub fn full(pallet: &[u8], call: &Option<Vec<u8>>) -> (String, Option<String>) {
    let s = |b: &[u8]| String::from_utf8_lossy(b).to_string();
    (s(pallet), call.as_ref().map(|c| s(c)))
}

impl World {
    pub fn read(old: &World) -> World {
        let mut w = World { n: System::block_number(), t: old.t, ..Default::default() };
        for a in 0..NA {
            for c in 0..NC {
                let x = Tokens::accounts(account(a), CUR[c]);
                w.free[a][c] = x.free;
                w.res[a][c] = x.reserved;
                if c == 0 {
                    w.frozen[a] = x.frozen;
                }
            }
        }
        for c in 0..NC {
            w.iss[c] = <Tokens as MultiCurrency<Acc>>::total_issuance(CUR[c]);
        }
        for a in 0..P {
            let id = account(a);
            w.lock[a] = Decode::decode(&mut &Escrow::locked_balance(id).encode()[..]).unwrap();
            w.reserved[a] = escrow::Pallet::<Rt>::reserved_balance(id);
            w.stake[a] = inner(EscrowRewards::stake(&(), &id));
            for p in 0..2 {
                w.farmed[a][p] = inner(FarmingRewards::stake(&LP[p], &id));
            }
            let v: Vec<(u32, (bool, u128))> = Decode::decode(&mut &democracy::VotingOf::<Rt>::get(id).encode()[..]).unwrap();
            w.votes[a] = v.into_iter().collect();
        }
        w.limits = escrow::Limits::<Rt>::iter().map(|(a, x)| (who(a), x)).collect();
        w.blocks = escrow::Blocks::<Rt>::iter().filter(|x| x.1).map(|(a, _)| who(a)).collect();
        w.props = Democracy::public_props().iter().map(|(i, b, a)| (*i, (key(b), who(*a)))).collect();
        w.deps = democracy::DepositOf::<Rt>::iter().map(|(i, (v, x))| (i, (v.iter().map(|a| who(*a)).collect(), x))).collect();
        w.prop_count = Democracy::public_prop_count();
        w.ref_count = Democracy::referendum_count();
        w.refs = democracy::ReferendumInfoOf::<Rt>::iter()
            .map(|(i, r)| {
                let r = match r {
                    ReferendumInfo::Ongoing(s) => Ref::Ongoing {
                        end: s.end,
                        prop: key(&s.proposal),
                        delay: s.delay,
                        ayes: s.tally.ayes,
                        nays: s.tally.nays,
                        turnout: s.tally.turnout,
                    },
                    ReferendumInfo::Finished { end, approved } => Ref::Finished { end, approved },
                };
                (i, r)
            })
            .collect();
        w.next = democracy::NextLaunchTimestamp::<Rt>::get();
        w.holds = Preimages::iter().map(|(h, n)| (h, (n.owned, n.holds))).collect();
        w.agenda = Agenda::iter().map(|(k, t)| (k, if t.root { key(&t.call) } else { (H256::zero(), false) })).collect();
        w.rpb = [EscrowAnnuity::reward_per_block(), VaultAnnuity::reward_per_block()];
        w.rpw = [EscrowAnnuity::reward_per_wrapped(), VaultAnnuity::reward_per_wrapped()];
        w.start = Supply::start_height().unwrap_or(u32::MAX);
        w.rate = Supply::inflation().into_inner();
        w.last = Supply::last_emission();
        for p in 0..2u8 {
            for c in 0..NR as u8 {
                let s = Farming::reward_schedules(LP[p as usize], CUR[c as usize]);
                if s.period_count > 0 {
                    w.sched.insert((p, c), (s.period_count, s.per_period));
                }
            }
            w.rewards[p as usize] =
                <FarmingRewards as reward::RewardsApi<CurrencyId, Acc, u128>>::reward_currencies_len(&LP[p as usize]);
        }
        w.invul = Collators::invulnerables().iter().map(|a| who(*a)).collect();
        w.cand = Collators::candidates().iter().map(|c| (who(c.who), c.deposit)).collect();
        w.authored = collator_selection::LastAuthoredBlock::<Rt>::iter().map(|(a, n)| (who(a), n)).collect();
        w.desired = Collators::desired_candidates();
        w.bond = Collators::candidacy_bond();
        w.paused = tx_pause::PausedCalls::<Rt>::iter()
            .map(|((p, c), _)| full(&p, &c.map(|c| c.to_vec())))
            .collect();
        for i in 0..NAMES {
            let name: frame_support::BoundedVec<u8, frame_support::traits::ConstU32<8>> = name_bytes(i).try_into().unwrap();
            let id = |r: Option<_>| r.map(|r| (0..=255u8).find(|x| release(*x) == r).unwrap_or(255));
            if let Some(x) = id(Clients::current_client_release(name.clone())) {
                w.current.insert(i, x);
            }
            if let Some(x) = id(Clients::pending_client_release(name)) {
                w.pending.insert(i, x);
            }
        }
        w
    }

    // ------------------------------------------------------------ derived

    pub fn power(&self, a: usize, h: u32) -> u128 {
        let (x, end) = self.lock[a];
        x / params().max as u128 * end.saturating_sub(h) as u128
    }
    pub fn total(&self, h: u32) -> u128 {
        (0..P).map(|a| self.power(a, h)).sum()
    }
    /// Voting power not reserved.
    pub fn spare(&self, a: usize) -> u128 {
        self.power(a, self.n).saturating_sub(self.reserved[a])
    }
    /// What can be locked altogether.
    pub fn lockable(&self, a: usize) -> u128 {
        let f = self.free[a][0];
        if self.blocks.contains(&(a as u8)) {
            return 0;
        }
        let Some((s, e)) = self.limits.get(&(a as u8)) else { return f };
        let whole = e.saturating_sub(*s) as u128;
        let slope = if whole == 0 { 0 } else { f / whole };
        (slope * whole).saturating_sub(slope * e.saturating_sub(self.n) as u128)
    }
    pub fn round(&self, h: u32) -> u32 {
        h / params().span * params().span
    }
    pub fn is_paused(&self, p: &str, c: &str) -> bool {
        if p.len() > MAX_NAME || c.len() > MAX_NAME {
            return params().too_long;
        }
        if (p, c) == WHITE {
            return false;
        }
        self.paused.contains(&(p.to_string(), None)) || self.paused.contains(&(p.to_string(), Some(c.to_string())))
    }
    pub fn backing(&self, i: u32) -> u128 {
        self.deps.get(&i).map_or(0, |(v, x)| x * v.len() as u128)
    }
    pub fn per_block(&self, i: usize) -> u128 {
        self.rpb[i].min(self.rpw[i].map_or(u128::MAX, |x| x.saturating_mul(self.iss[1])))
    }

    // ------------------------------------------------------------ steps

    pub fn mv(&mut self, from: usize, to: usize, c: usize, x: u128) -> R<()> {
        if x == 0 || from == to {
            return Ok(());
        }
        if self.free[from][c] < x {
            return Err("not enough");
        }
        if c == 0 && self.free[from][c] - x < self.frozen[from] {
            return Err("locked");
        }
        self.free[from][c] -= x;
        self.free[to][c] += x;
        Ok(())
    }
    fn deposit(&mut self, a: usize, x: u128, end: u32) -> R<()> {
        let new = (self.lock[a].0 + x, if end > 0 { end } else { self.lock[a].1 });
        if new.0 < params().max as u128 {
            return Err("lock too small");
        }
        if self.lockable(a) < new.0 {
            return Err("not enough to lock");
        }
        self.lock[a] = new;
        self.frozen[a] = new.0;
        self.stake[a] = self.power(a, self.n);
        Ok(())
    }
    fn hold(&mut self, k: &(H256, bool)) {
        if k.1 {
            self.holds.entry(k.0).or_default().1 += 1;
        }
    }
    pub fn unhold(&mut self, k: &(H256, bool)) {
        if k.1 {
            let e = self.holds.entry(k.0).or_default();
            e.1 = e.1.saturating_sub(1);
            if *e == (false, 0) {
                self.holds.remove(&k.0);
            }
        }
    }
    fn refund(&mut self, i: u32) {
        if let Some((v, x)) = self.deps.remove(&i) {
            for a in v {
                self.reserved[a as usize] -= x;
            }
        }
    }
    fn inject(&mut self, end: u32, prop: (H256, bool), delay: u32) {
        self.refs.insert(self.ref_count, Ref::Ongoing { end, prop, delay, ayes: 0, nays: 0, turnout: 0 });
        self.ref_count += 1;
    }
    fn table(&mut self, i: u32, delay: u32, period: u32) -> R<()> {
        let (k, _) = self.props.remove(&i).ok_or("no such proposal")?;
        self.refund(i);
        self.inject(self.n + period, k, delay);
        Ok(())
    }
    fn tally(&mut self, a: usize, r: u32, add: bool) {
        let (aye, x) = self.votes[a][&r];
        if let Some(Ref::Ongoing { ayes, nays, turnout, .. }) = self.refs.get_mut(&r) {
            let side = if aye { ayes } else { nays };
            if add {
                *side += x;
                *turnout += x;
            } else {
                *side -= x;
                *turnout -= x;
            }
        }
    }
    fn emission(&mut self, i: usize) {
        self.rpb[i] = self.free[ESC + i][0] / params().emission as u128;
    }

    // ------------------------------------------------------------ calls

    pub fn spec(&self, op: &Op) -> R<World> {
        let (by, p, c) = sender(op);
        if by.is_some() && self.is_paused(p, c) {
            return Err("paused");
        }
        if by.is_some() && root_only(op) {
            return Err("not governance");
        }
        let mut w = self.clone();
        let n = self.n;
        let max = params().max;
        match op {
            Op::Create { who, x, end } => {
                let (a, end) = (*who as usize, self.round(*end));
                if *x == 0 || w.lock[a].0 > 0 {
                    return Err("nothing or locked already");
                }
                if end <= n || end > n + max {
                    return Err("end out of range");
                }
                w.deposit(a, *x, end)?;
            }
            Op::Increase { who, x } => {
                let a = *who as usize;
                if *x == 0 || w.lock[a].0 == 0 || w.lock[a].1 <= n {
                    return Err("nothing or no lock");
                }
                w.deposit(a, *x, 0)?;
            }
            Op::Extend { who, end } => {
                let (a, end) = (*who as usize, self.round(*end));
                if w.lock[a].0 == 0 || w.lock[a].1 <= n {
                    return Err("no lock");
                }
                if end <= w.lock[a].1 || end > n + max {
                    return Err("end out of range");
                }
                w.deposit(a, 0, end)?;
            }
            Op::Withdraw { who } => {
                let a = *who as usize;
                if n < w.lock[a].1 {
                    return Err("locked");
                }
                w.lock[a] = (0, 0);
                w.frozen[a] = 0;
                w.stake[a] = 0;
            }
            Op::Limit { who, s, e, .. } => {
                w.limits.insert(*who, (*s, *e));
            }
            Op::Block { who, .. } => {
                w.blocks.insert(*who);
            }
            Op::Refresh { target, .. } => w.deposit(*target as usize, 0, 0)?,
            Op::Rewards { inst: 0, .. } => {}
            Op::Rewards { .. } => return Err("not supported"),
            Op::Emission { inst, .. } => w.emission(*inst as usize),
            Op::PerWrapped { inst, x, .. } => w.rpw[*inst as usize] = Some(*x),
            Op::Inflation { start, rate, .. } => {
                w.start = *start;
                w.rate = *rate;
            }
            Op::Schedule { p, c, count, x, .. } => {
                w.mv(TREASURY, FARM + *p as usize, *c as usize, *x)?;
                let (k, per) = w.sched.get(&(*p, *c)).copied().unwrap_or_default();
                let all = k.checked_add(*count).ok_or("overflow")?;
                let per = (per * k as u128 + x).checked_div(all as u128).unwrap_or(0);
                if all > 0 {
                    w.sched.insert((*p, *c), (all, per));
                }
            }
            Op::Unschedule { p, c, .. } => {
                let (k, per) = w.sched.remove(&(*p, *c)).unwrap_or_default();
                w.mv(FARM + *p as usize, TREASURY, *c as usize, per * k as u128)?;
            }
            Op::Farm { who, p, len, .. } => {
                let (a, p) = (*who as usize, *p as usize);
                if *len < w.rewards[p] {
                    return Err("too many rewards");
                }
                let x = std::mem::take(&mut w.free[a][3 + p]);
                w.res[a][3 + p] += x;
                w.farmed[a][p] += x;
            }
            Op::Unfarm { who, p, x, len, .. } => {
                let (a, p) = (*who as usize, *p as usize);
                if *len < w.rewards[p] {
                    return Err("too many rewards");
                }
                if w.farmed[a][p] < *x {
                    return Err("not so much farmed");
                }
                w.res[a][3 + p] -= x;
                w.free[a][3 + p] += x;
                w.farmed[a][p] -= x;
            }
            Op::Harvest { .. } => {}
            Op::Note { inner } => w.holds.entry(hash_of(inner)).or_default().0 = true,
            Op::Unnote { inner } => {
                let h = hash_of(inner);
                match w.holds.get_mut(&h) {
                    Some((true, 0)) => {
                        w.holds.remove(&h);
                    }
                    Some((o @ true, _)) => *o = false,
                    _ => return Err("not noted"),
                }
            }
            Op::Propose { who, lookup, inner, x } => {
                let a = *who as usize;
                let k = (hash_of(inner), *lookup);
                if *x < params().deposit {
                    return Err("deposit too small");
                }
                if w.props.len() >= MAX_PROPOSALS as usize {
                    return Err("too many proposals");
                }
                if *lookup && !w.holds.contains_key(&k.0) {
                    return Err("no preimage");
                }
                if w.spare(a) < *x {
                    return Err("not enough power");
                }
                w.hold(&k);
                w.reserved[a] += x;
                w.props.insert(w.prop_count, (k, *who));
                w.deps.insert(w.prop_count, (vec![*who], *x));
                w.prop_count += 1;
            }
            Op::Second { who, i } => {
                let a = *who as usize;
                let (v, x) = w.deps.get(i).cloned().ok_or("no such proposal")?;
                if v.len() >= MAX_DEPOSITS as usize {
                    return Err("too many seconds");
                }
                if w.spare(a) < x {
                    return Err("not enough power");
                }
                w.reserved[a] += x;
                w.deps.get_mut(i).unwrap().0.push(*who);
            }
            Op::Vote { who, r, aye, x } => {
                let a = *who as usize;
                if !matches!(w.refs.get(r), Some(Ref::Ongoing { .. })) {
                    return Err("no such referendum");
                }
                if *x > w.spare(a) {
                    return Err("not enough power");
                }
                if w.votes[a].contains_key(r) {
                    w.tally(a, *r, false);
                } else if w.votes[a].len() >= MAX_VOTES as usize {
                    return Err("too many votes");
                }
                w.votes[a].insert(*r, (*aye, *x));
                w.tally(a, *r, true);
            }
            Op::Unvote { who, r } => {
                let a = *who as usize;
                if !w.votes[a].contains_key(r) {
                    return Err("no vote");
                }
                w.tally(a, *r, false);
                w.votes[a].remove(r);
            }
            Op::FastTrack { i, delay, .. } => w.table(*i, *delay, params().fast)?,
            Op::Table { i, delay, .. } => w.table(*i, *delay, params().voting)?,
            Op::Hurry { r, .. } => match w.refs.get_mut(r) {
                Some(Ref::Ongoing { end, .. }) if *end > n + params().fast => *end = n + params().fast,
                _ => return Err("no such referendum or ends soon"),
            },
            Op::CancelRef { r, .. } => {
                if let Some(Ref::Ongoing { prop, .. }) = w.refs.remove(r) {
                    w.unhold(&prop);
                }
            }
            Op::Clear { .. } => {
                for (i, (k, _)) in std::mem::take(&mut w.props) {
                    w.unhold(&k);
                    w.refund(i);
                }
            }
            Op::CancelProp { who, i } => {
                let (k, by) = w.props.remove(i).ok_or("no such proposal")?;
                if who.map_or(false, |a| a != by) {
                    return Err("not the proposer");
                }
                w.unhold(&k);
                w.refund(*i);
            }
            Op::Spend { x, to, .. } => w.mv(TREASURY, *to as usize, 0, *x)?,
            Op::Invulnerables { v, .. } => {
                if v.len() > MAX_INVULNERABLES as usize || v.iter().any(|a| params().keys >> a & 1 == 0) {
                    return Err("too many or no keys");
                }
                w.invul = v.clone();
            }
            Op::Desired { x, .. } => w.desired = *x,
            Op::Bond { x, .. } => w.bond = *x,
            Op::Register { who } => {
                let a = *who as usize;
                if w.cand.len() >= w.desired.min(MAX_CANDIDATES) as usize {
                    return Err("too many candidates");
                }
                if w.invul.contains(who) || w.cand.iter().any(|c| c.0 == *who) {
                    return Err("collates already");
                }
                if params().keys >> a & 1 == 0 {
                    return Err("no keys");
                }
                if w.spare(a) < w.bond {
                    return Err("not enough power");
                }
                w.reserved[a] += w.bond;
                w.cand.push((*who, w.bond));
                w.authored.insert(*who, n + params().kick);
            }
            Op::Leave { who } => {
                if w.cand.len() <= params().min_cand as usize {
                    return Err("too few candidates");
                }
                w.remove_candidate(*who)?;
            }
            Op::Pause { pallet, call, .. } => {
                let f = full(pallet, call);
                if f.0 == "tx-pause" {
                    return Err("can not be paused");
                }
                if w.stopped(&f) {
                    return Err("paused already");
                }
                if f.0 == WHITE.0 && f.1.as_deref() == Some(WHITE.1) {
                    return Err("can not be paused");
                }
                w.paused.insert(f);
            }
            Op::Unpause { pallet, call, .. } => {
                let f = full(pallet, call);
                if !w.stopped(&f) {
                    return Err("not paused");
                }
                w.paused.remove(&f);
            }
            Op::Release { pending, name, rel, .. } => {
                if *pending {
                    w.pending.insert(*name, *rel);
                } else {
                    w.current.insert(*name, *rel);
                }
            }
            Op::Upgrade => {
                for (k, v) in std::mem::take(&mut w.pending) {
                    w.current.insert(k, v);
                }
            }
            Op::Pay { from, to, c, x } => w.mv(*from as usize, *to as usize, *c as usize, *x)?,
            Op::Wrap { who, x } => {
                let f = &mut w.free[*who as usize][1];
                w.iss[1] = w.iss[1] - *f + x;
                *f = *x;
            }
        }
        Ok(w)
    }
    fn stopped(&self, f: &(String, Option<String>)) -> bool {
        if f.0 == WHITE.0 && f.1.as_deref() == Some(WHITE.1) {
            return false;
        }
        self.paused.contains(&(f.0.clone(), None)) || self.paused.contains(f)
    }
    fn remove_candidate(&mut self, a: u8) -> R<()> {
        let i = self.cand.iter().position(|c| c.0 == a).ok_or("not a candidate")?;
        let (_, x) = self.cand.remove(i);
        self.reserved[a as usize] -= x;
        self.authored.remove(&a);
        Ok(())
    }

    // ------------------------------------------------------------ blocks

    pub fn supply_block(&mut self) -> bool {
        if self.n != self.start {
            return false;
        }
        self.start += params().inflation;
        let one = 1_000_000_000_000_000_000u128;
        let x = self.rate / one * self.iss[0] + self.rate % one * self.iss[0] / one;
        self.last = x;
        self.iss[0] += x;
        let (v, e) = (x * VAULT_PERCENT / 100, x * ESCROW_PERCENT / 100);
        self.free[VLT][0] += v;
        self.emission(1);
        self.free[ESC][0] += e;
        self.emission(0);
        self.free[TREASURY][0] += x - v - e;
        true
    }
    /// What the block gives to the stakers of the escrow.
    pub fn annuity_block(&mut self) -> u128 {
        let v = self.per_block(1);
        let _ = self.mv(VLT, FEE, 0, v);
        if self.stake.iter().any(|x| *x > 0) {
            self.per_block(0)
        } else {
            0
        }
    }
    /// What the block gives to which farm.
    pub fn farming_block(&mut self) -> Vec<(u8, u8, u128)> {
        let mut out = vec![];
        if self.n % params().reward == 0 {
            let keys: Vec<(u8, u8)> = self.sched.keys().copied().collect();
            for (p, c) in keys {
                let (k, x) = self.sched[&(p, c)];
                if x == 0 || self.farmed.iter().any(|f| f[p as usize] > 0) {
                    self.sched.insert((p, c), (k - 1, x));
                    if k == 1 {
                        self.sched.remove(&(p, c));
                    }
                    if x > 0 {
                        out.push((p, c, x));
                    }
                }
            }
        }
        out
    }
    /// The proposals whose turn it is, as far as the rules decide it: `tabled` chooses between equals.
    pub fn democracy_block(&mut self, tabled: &[u32]) -> R<Vec<(u32, bool)>> {
        let ripe: Vec<u32> = self.refs.iter().filter(|(_, r)| matches!(r, Ref::Ongoing { end, .. } if *end == self.n)).map(|x| *x.0).collect();
        let mut turn = 0;
        if self.t >= self.next {
            let p = params().launch;
            self.next += ((self.t - self.next) / p + 1) * p;
            turn = self.props.len().min(2);
        }
        if tabled.len() != turn {
            return Err("wrong number of proposals tabled");
        }
        for i in tabled {
            if !self.props.contains_key(i) {
                return Err("tabled what is not proposed");
            }
            if self.props.keys().any(|j| self.backing(*j) > self.backing(*i)) {
                return Err("tabled not the best backed");
            }
            self.table(*i, params().enact, params().voting)?;
        }
        let mut out = vec![];
        for i in ripe {
            let Ref::Ongoing { prop, delay, ayes, nays, turnout, .. } = self.refs[&i].clone() else { continue };
            let (v, e) = (isqrt(turnout), isqrt(self.total(self.n).max(turnout)));
            let approved = v > 0 && e > 0 && nays * e < ayes * v;
            if approved {
                self.agenda.insert((self.n + delay.max(1), i), prop);
            } else {
                self.unhold(&prop);
            }
            self.refs.insert(i, Ref::Finished { end: self.n, approved });
            out.push((i, approved));
        }
        Ok(out)
    }
    pub fn author_block(&mut self, a: u8) {
        let x = self.free[POT][0] / 2;
        let _ = self.mv(POT, a as usize, 0, x);
        self.authored.insert(a, self.n);
    }
    pub fn session(&mut self) -> Vec<u8> {
        let mut all = self.invul.clone();
        for (a, _) in self.cand.clone() {
            let since = self.n.saturating_sub(self.authored.get(&a).copied().unwrap_or(0));
            let good = since < params().kick && self.power(a as usize, self.n) >= self.bond;
            if good || self.cand.len() <= params().min_cand as usize {
                all.push(a);
            } else {
                let _ = self.remove_candidate(a);
            }
        }
        all.sort();
        all.dedup();
        all
    }
}
fn inner(x: sp_runtime::FixedI128) -> u128 {
    (x.into_inner() / 1_000_000_000_000_000_000) as u128
}

/// Where two states differ: which property, what, and how.
pub fn differ(exp: &World, act: &World, prop: &'static str) -> Vec<(&'static str, &'static str, String)> {
    let mut out: Vec<(&'static str, &'static str, String)> = vec![];
    macro_rules! cmp {
        ($p:expr, $what:expr, $f:ident) => {
            if exp.$f != act.$f {
                out.push(($p, $what, format!("is {:?}, by the rules {:?}", act.$f, exp.$f)));
            }
        };
    }
    cmp!("G02", "locks", lock);
    cmp!("G02", "frozen funds", frozen);
    cmp!("G02", "stake", stake);
    cmp!("G02", "limits", limits);
    cmp!("G02", "blocked accounts", blocks);
    cmp!("G03", "proposals", props);
    cmp!("G03", "deposits", deps);
    cmp!("G03", "proposal count", prop_count);
    cmp!("G03", "preimages", holds);
    cmp!(if matches!(prop, "G07") { "G07" } else { "G03" }, "reserved power", reserved);
    cmp!("G04", "referenda", refs);
    cmp!("G04", "referendum count", ref_count);
    cmp!("G04", "votes", votes);
    cmp!("G04", "next launch", next);
    cmp!("G04", "agenda", agenda);
    cmp!("G05", "reward per block", rpb);
    cmp!("G05", "reward per wrapped", rpw);
    cmp!("G05", "start of inflation", start);
    cmp!("G05", "inflation rate", rate);
    cmp!("G05", "last emission", last);
    cmp!("G06", "schedules", sched);
    cmp!("G06", "farmed tokens", farmed);
    cmp!("G07", "invulnerables", invul);
    cmp!("G07", "candidates", cand);
    cmp!("G07", "last authored blocks", authored);
    cmp!("G07", "desired candidates", desired);
    cmp!("G07", "candidacy bond", bond);
    cmp!("G08", "paused calls", paused);
    cmp!("G08", "current releases", current);
    cmp!("G08", "pending releases", pending);
    for a in 0..NA {
        for c in 0..NC {
            for (what, e, x) in [("free balances", exp.free[a][c], act.free[a][c]), ("reserved balances", exp.res[a][c], act.res[a][c])] {
                if e != x {
                    let p = match (prop, a) {
                        ("", POT) => "G07",
                        ("", 11 | 12) => "G06",
                        ("", _) => "G05",
                        (p, _) => p,
                    };
                    if !out.iter().any(|o| o.0 == p && o.1 == what) {
                        out.push((p, what, format!("account {a} currency {c}: is {x}, by the rules {e}")));
                    }
                }
            }
        }
    }
    cmp!(if prop.is_empty() { "G05" } else { prop }, "issuance", iss);
    out
}
/// Voting power is what the locks say, and its total what all have.
pub fn powers(w: &World, heights: &[u32]) -> Option<(&'static str, String)> {
    for h in heights {
        let mut sum = 0;
        for a in 0..P {
            let (x, y) = (Escrow::balance_at(&account(a), Some(*h)), w.power(a, *h));
            sum += x;
            if x != y {
                return Some(("voting power", format!("account {a} at {h} (now {}): {x}, by the rules {y}; lock {:?}", w.n, w.lock[a])));
            }
        }
        let t = Escrow::total_supply(Some(*h));
        if t != sum {
            return Some(("total voting power", format!("at {h} (now {}): {t}, all have {sum}; locks {:?}", w.n, w.lock)));
        }
    }
    for a in 0..P {
        let f = <Escrow as Currency<Acc>>::free_balance(&account(a));
        if f != w.spare(a) {
            return Some(("free voting power", format!("account {a}: {f}, by the rules {}", w.spare(a))));
        }
    }
    None
}
