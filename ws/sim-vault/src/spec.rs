//! The rules of the bridge: what each call does to the state, or why it is refused.
use crate::{num::*, world::*};
use bitcoin::{types::FullTransactionProof, Address};
use primitives::{
    issue::IssueRequestStatus, redeem::RedeemRequestStatus, replace::ReplaceRequestStatus,
};
use sp_core::H256;
use sp_runtime::FixedU128;
use std::rc::Rc;
use vault_registry::VaultStatus;

/// A proof of a payment: what it shows, and the bytes.
#[derive(Clone)]
pub struct Proof {
    pub blk: usize,
    pub outs: Vec<Out>,
    pub forged: bool,
    pub data: Rc<FullTransactionProof>,
}
impl std::fmt::Debug for Proof {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "block #{} {:?} forged: {}", self.blk, self.outs, self.forged)
    }
}

#[derive(Clone, Debug)]
pub enum Param {
    Min(usize, u128),
    Ceiling(usize, u128),
    Secure(usize, u128),
    Premium(usize, u128),
    Liq(usize, u128),
    IssuePeriod(u32),
    RedeemPeriod(u32),
    ReplacePeriod(u32),
    IssueFee(u128),
    IssueGrief(u128),
    RedeemFee(u128),
    PremiumFee(u128),
    PunishFee(u128),
    ReplaceGrief(u128),
    Nomination(bool),
    AddOracle(u64),
    RemoveOracle(u64),
}

#[derive(Clone, Debug)]
pub enum Op {
    Key(u64),
    Register { v: usize, col: u128 },
    Accept { v: usize, b: bool },
    Custom { v: usize, thr: Option<u128> },
    Deposit { who: u64, v: usize, x: u128 },
    Withdraw { who: u64, v: usize, x: Option<u128>, idx: Option<u32> },
    OptIn { v: usize },
    OptOut { v: usize },
    Limit { v: usize, x: u128 },
    Commission { v: usize, rate: u128 },
    RequestIssue { who: u64, v: usize, x: u128, gc: usize },
    ExecuteIssue { who: u64, id: H256, proof: Proof },
    CancelIssue { who: u64, id: H256 },
    RequestRedeem { who: u64, v: usize, x: u128, to: Address },
    ExecuteRedeem { who: u64, id: H256, proof: Proof },
    CancelRedeem { who: u64, id: H256, reimburse: bool },
    MintReimbursed { v: usize, id: H256 },
    LiquidationRedeem { who: u64, c: usize, x: u128 },
    SelfRedeem { v: usize, x: u128 },
    RequestReplace { v: usize, x: u128 },
    WithdrawReplace { v: usize, x: u128 },
    AcceptReplace { old: usize, new: usize, x: u128, col: u128, to: Address },
    ExecuteReplace { who: u64, id: H256, proof: Proof },
    CancelReplace { who: u64, id: H256 },
    Report { who: u64, v: usize },
    Recover { v: usize },
    WithdrawRewards { who: u64, v: usize, idx: Option<u32> },
    Feed { oracle: u64, vals: Vec<(usize, u128)> },
    Param { root: bool, p: Param },
    Header(usize),
}

pub fn prop_of(op: &Op) -> &'static str {
    use Op::*;
    match op {
        RequestIssue { .. } | ExecuteIssue { .. } | CancelIssue { .. } => "V03",
        RequestRedeem { .. } | ExecuteRedeem { .. } | CancelRedeem { .. } | MintReimbursed { .. } | LiquidationRedeem { .. } | SelfRedeem { .. } => "V04",
        RequestReplace { .. } | WithdrawReplace { .. } | AcceptReplace { .. } | ExecuteReplace { .. } | CancelReplace { .. } => "V05",
        Deposit { .. } | Withdraw { .. } | OptIn { .. } | OptOut { .. } | Limit { .. } | Commission { .. } => "V07",
        Feed { .. } => "V08",
        Param { p, .. } => match p {
            self::Param::AddOracle(_) | self::Param::RemoveOracle(_) => "V08",
            self::Param::IssuePeriod(_) | self::Param::IssueFee(_) | self::Param::IssueGrief(_) => "V03",
            self::Param::RedeemPeriod(_) | self::Param::RedeemFee(_) | self::Param::PremiumFee(_) | self::Param::PunishFee(_) => "V04",
            self::Param::ReplacePeriod(_) | self::Param::ReplaceGrief(_) => "V05",
            self::Param::Nomination(_) => "V07",
            _ => "V06",
        },
        WithdrawRewards { .. } => "V09",
        _ => "V06",
    }
}

fn pct(x: u128, r: u128) -> R<u128> {
    nearest(x, r, ONE).ok_or("overflow")
}
fn floor(x: u128, a: u128, b: u128) -> R<u128> {
    muldiv(x, a, b).ok_or("overflow")
}

impl World {
    /// May the vault give up collateral down to `new`?
    fn may_withdraw(&self, v: usize, x: Option<u128>) -> R<bool> {
        let new = match x {
            Some(x) => self.total(v).checked_sub(x).ok_or("not that much collateral")?,
            None => 0,
        };
        if new != 0 && new < self.p.min[v % 3] {
            return Err("below the minimum");
        }
        Ok(!self.below(new, v, self.thr(v)?, self.backed(v)?)?)
    }
    fn below(&self, col: u128, v: usize, thr: u128, tokens: u128) -> R<bool> {
        Ok(floor(self.c2w(col, v % 3)?, ONE, thr)? < tokens)
    }
    fn issue_done(&mut self, v: usize, x: u128) -> R<()> {
        if self.liquidated(v)? {
            let l = &mut self.liq[v % 3];
            l.tbi = l.tbi.checked_sub(x).ok_or("tbi underflow")?;
            l.issued += x;
        } else {
            let a = self.vm(v)?;
            a.to_be_issued_tokens = a.to_be_issued_tokens.checked_sub(x).ok_or("tbi underflow")?;
            a.issued_tokens += x;
        }
        Ok(())
    }
    fn issue_undone(&mut self, v: usize, x: u128) -> R<()> {
        let t = if self.liquidated(v)? { &mut self.liq[v % 3].tbi } else { &mut self.vm(v)?.to_be_issued_tokens };
        *t = t.checked_sub(x).ok_or("tbi underflow")?;
        Ok(())
    }
    /// The vault owes x less: Bitcoin paid, or tokens burned at its expense.
    fn redeem_done(&mut self, v: usize, x: u128) -> R<()> {
        let dead = self.liquidated(v)?;
        let a = self.vm(v)?;
        a.to_be_redeemed_tokens = a.to_be_redeemed_tokens.checked_sub(x).ok_or("tbr underflow")?;
        if dead {
            let l = &mut self.liq[v % 3];
            l.tbr = l.tbr.checked_sub(x).ok_or("tbr underflow")?;
            l.issued = l.issued.checked_sub(x).ok_or("issued underflow")?;
        } else {
            a.issued_tokens = a.issued_tokens.checked_sub(x).ok_or("issued underflow")?;
        }
        Ok(())
    }
    fn redeem_undone(&mut self, v: usize, x: u128) -> R<()> {
        let dead = self.liquidated(v)?;
        let a = self.vm(v)?;
        a.to_be_redeemed_tokens = a.to_be_redeemed_tokens.checked_sub(x).ok_or("tbr underflow")?;
        if dead {
            let l = &mut self.liq[v % 3];
            l.tbr = l.tbr.checked_sub(x).ok_or("tbr underflow")?;
        }
        Ok(())
    }
    /// The part of a liquidated vault's collateral held for x of its tokens.
    fn held_for(&mut self, v: usize, x: u128) -> R<u128> {
        let a = self.vm(v)?;
        let part = muldiv(a.liquidated_collateral, x, a.to_be_redeemed_tokens).unwrap_or(a.liquidated_collateral);
        a.liquidated_collateral = a.liquidated_collateral.checked_sub(part).ok_or("liquidated collateral underflow")?;
        Ok(part)
    }
    fn set_issue(&self, r: &mut Iss, total: u128) -> R<()> {
        r.fee = pct(total, self.p.issue_fee)?;
        r.amount = total.checked_sub(r.fee).ok_or("fee above amount")?;
        Ok(())
    }

    /// `included`: whether the block a proof is about counts as included.
    pub fn spec(&self, op: &Op, included: impl Fn(usize) -> bool) -> R<World> {
        let mut w = self.clone();
        w.any_stake.clear();
        w.paid_out = None;
        w.commission.clear();
        w.apply(op, &included)?;
        Ok(w)
    }

    fn apply(&mut self, op: &Op, included: &dyn Fn(usize) -> bool) -> R<()> {
        use Op::*;
        let fx = |x: u128| FixedU128::from_inner(x);
        let shown = |p: &Proof| -> R<()> {
            if p.forged || !included(p.blk) {
                Err("no proof of the payment")
            } else {
                Ok(())
            }
        };
        match op {
            Header(_) | Feed { .. } => {}
            Key(a) => {
                if !self.keys.insert(*a) {
                    return Err("has a key");
                }
            }
            Register { v, col } => {
                let (v, c) = (*v, *v % 3);
                if !self.keys.contains(&op_of(v)) {
                    return Err("no key");
                }
                if *col < self.p.min[c] {
                    return Err("below the minimum");
                }
                if self.v.contains_key(&v) {
                    return Err("exists");
                }
                self.v.insert(
                    v,
                    Vault {
                        id: vid(v),
                        status: VaultStatus::Active(true),
                        banned_until: None,
                        secure_collateral_threshold: None,
                        to_be_issued_tokens: 0,
                        issued_tokens: 0,
                        to_be_redeemed_tokens: 0,
                        to_be_replaced_tokens: 0,
                        replace_collateral: 0,
                        active_replace_collateral: 0,
                        liquidated_collateral: 0,
                    },
                );
                self.deposit(v, op_of(v), *col)?;
            }
            Accept { v, b } => {
                self.active(*v)?;
                self.vm(*v)?.status = VaultStatus::Active(*b);
                self.settle(*v);
                self.weigh(*v)?;
            }
            Custom { v, thr } => {
                self.vault(*v)?;
                if thr.map_or(false, |t| t <= self.p.secure[*v % 3]) {
                    return Err("not above the threshold of all");
                }
                self.vm(*v)?.secure_collateral_threshold = thr.map(fx);
                self.settle(*v);
                self.weigh(*v)?;
            }
            Deposit { who, v, x } => {
                let (v, c) = (*v, *v % 3);
                self.vault(v)?;
                if *who != op_of(v) {
                    self.nominators_allowed(v)?;
                    if self.total(v).checked_sub(self.own(v)).ok_or("underflow")? + x > self.limit[v] {
                        return Err("above the nomination limit");
                    }
                    self.take(*who, c, *x)?;
                    self.give(op_of(v), c, *x);
                }
                self.deposit(v, *who, *x)?;
            }
            Withdraw { who, v, x, idx } => {
                let (v, c) = (*v, *v % 3);
                self.vault(v)?;
                let nonce = self.nonce[v];
                let n = idx.unwrap_or(0).min(nonce);
                if n == nonce && *who != op_of(v) {
                    self.nominators_allowed(v)?;
                }
                if n == nonce && !self.may_withdraw(v, *x)? {
                    return Err("collateral in use");
                }
                let have = self.stake(v, n, *who);
                let x = x.unwrap_or(have);
                self.settle(v);
                self.stake_sub(v, n, *who, x)?;
                self.weigh(v)?;
                if n == nonce {
                    self.sub_tc(c, x)?;
                }
                self.unlock(op_of(v), c, x)?;
                if *who != op_of(v) {
                    self.take(op_of(v), c, x)?;
                    self.give(*who, c, x);
                }
            }
            OptIn { v } => {
                if !self.nom_on {
                    return Err("nomination disabled");
                }
                self.vault(*v)?;
                if !self.opted.insert(*v) {
                    return Err("opted in");
                }
            }
            OptOut { v } => {
                let v = *v;
                self.vault(v)?;
                let own = self.own(v);
                let nominated = self.total(v).checked_sub(own).ok_or("underflow")?;
                if !self.may_withdraw(v, Some(nominated))? {
                    return Err("collateral in use");
                }
                if !self.opted.remove(&v) {
                    return Err("not opted in");
                }
                self.settle(v);
                let n = self.nonce[v];
                self.stake_sub(v, n, op_of(v), own)?;
                self.nonce[v] += 1;
                self.stake_add(v, op_of(v), own);
                self.weigh(v)?;
                self.sub_tc(v % 3, nominated)?;
            }
            Limit { v, x } => self.limit[*v] = *x,
            Commission { v, rate } => {
                if !self.opted.contains(v) {
                    return Err("not opted in");
                }
                if *rate > ONE {
                    return Err("above all");
                }
                self.p.comm.insert(*v, *rate);
            }

            // -------------------------------------------------------- issue
            RequestIssue { who, v, x, gc } => {
                if !self.ready {
                    return Err("relay not ready");
                }
                let v = *v;
                if !self.accepting(v)? {
                    return Err("not accepting issues");
                }
                if self.banned(v)? {
                    return Err("banned");
                }
                let in_gc = if *gc == W { *x } else { self.w2c(*x, *gc)? };
                let g = pct(in_gc, self.p.issue_grief)?;
                self.lock(*who, *gc, g)?;
                if *x < self.p.issue_dust {
                    return Err("dust");
                }
                self.reserve_issue(v, *x)?;
                let fee = pct(*x, self.p.issue_fee)?;
                self.issues.insert(
                    H256::zero(),
                    Iss {
                        vault: vid(v),
                        opentime: self.active,
                        period: self.p.issue_period,
                        griefing_collateral: g,
                        griefing_currency: CURS[*gc],
                        amount: x.checked_sub(fee).ok_or("fee above amount")?,
                        fee,
                        requester: *who,
                        btc_address: Default::default(),
                        btc_public_key: Default::default(),
                        btc_height: self.best,
                        status: IssueRequestStatus::Pending,
                    },
                );
            }
            ExecuteIssue { who, id, proof } => {
                let mut r = self.issues.get(id).ok_or("no such issue")?.clone();
                shown(proof)?;
                let paid = paid_to(&proof.outs, &r.btc_address).ok_or("not paid")?;
                let paid = u128::try_from(paid).map_err(|_| "negative")?;
                let v = index_of(&r.vault);
                let want = r.amount + r.fee;
                let gc = cur(r.griefing_currency);
                match r.status {
                    IssueRequestStatus::Completed => return Err("completed"),
                    IssueRequestStatus::Cancelled => {
                        if !self.accepting(v)? {
                            return Err("not accepting issues");
                        }
                        self.reserve_issue(v, paid)?;
                        if paid < want && r.requester != *who {
                            return Err("not the requester");
                        }
                        if paid != want {
                            self.set_issue(&mut r, paid)?;
                        }
                    }
                    IssueRequestStatus::Pending => {
                        let mut back = r.griefing_collateral;
                        if paid < want {
                            if r.requester != *who {
                                return Err("not the requester");
                            }
                            self.issue_undone(v, want - paid)?;
                            back = floor(back, paid, want)?;
                            let cut = r.griefing_collateral - back;
                            self.take_res(r.requester, gc, cut)?;
                            self.give(TREASURY, gc, cut);
                            self.set_issue(&mut r, paid)?;
                        } else if paid > want && !self.liquidated(v)? {
                            // the surplus counts as far as the vault can back it
                            let more = if self.accepting(v)? { (paid - want).min(self.issuable(v)?) } else { 0 };
                            if self.reserve_issue(v, more).is_ok() {
                                self.set_issue(&mut r, want + more)?;
                            }
                        }
                        self.unlock(r.requester, gc, back)?;
                    }
                }
                let total = r.amount + r.fee;
                self.issue_done(v, total)?;
                self.mint(r.requester, r.amount);
                self.iss[W] += r.fee;
                self.fee(r.fee);
                r.status = IssueRequestStatus::Completed;
                self.issues.insert(*id, r);
            }
            CancelIssue { who, id } => {
                let mut r = self.issues.get(id).ok_or("no such issue")?.clone();
                if r.status != IssueRequestStatus::Pending {
                    return Err("not pending");
                }
                let v = index_of(&r.vault);
                let gc = cur(r.griefing_currency);
                let g = r.griefing_collateral;
                let period = self.p.issue_period.max(r.period);
                let cut = if self.expired(r.opentime, r.btc_height, period) {
                    g
                } else if r.requester == *who {
                    let gone = self.active.saturating_sub(r.opentime) as u128;
                    let cut = if period == 0 { g } else { floor(g, gone, period as u128)?.min(g) };
                    self.unlock(*who, gc, g - cut)?;
                    cut
                } else {
                    return Err("not expired");
                };
                if self.liquidated(v)? {
                    self.unlock(r.requester, gc, cut)?;
                } else {
                    self.take_res(r.requester, gc, cut)?;
                    self.give(TREASURY, gc, cut);
                }
                self.issue_undone(v, r.amount + r.fee)?;
                r.status = IssueRequestStatus::Cancelled;
                self.issues.insert(*id, r);
            }

            // -------------------------------------------------------- redeem
            RequestRedeem { who, v, x, to } => {
                let (v, c) = (*v, *v % 3);
                if self.free(*who, W) < *x {
                    return Err("balance too low");
                }
                if to.is_zero() {
                    return Err("no address");
                }
                let fee = if *who == op_of(v) { 0 } else { pct(*x, self.p.redeem_fee)? };
                let incl = floor(self.price(2)?, self.p.redeem_size as u128, ONE)?;
                let burned = x.checked_sub(fee).ok_or("fee above amount")?;
                let btc = burned.checked_sub(incl).ok_or("dust")?;
                if self.banned(v)? {
                    return Err("banned");
                }
                if btc < self.p.redeem_dust {
                    return Err("dust");
                }
                let a = self.vault(v)?;
                let rest = self.backed(v)?.checked_sub(a.to_be_redeemed_tokens).ok_or("underflow")?;
                let secure = self.p.secure[c];
                let need = self.w2c(up(rest, secure, ONE).ok_or("overflow")?, c)?;
                let miss = need.saturating_sub(self.total(v));
                let rate = self.p.premium_fee;
                let factor = floor(rate, ONE, secure.checked_sub(rate).ok_or("underflow")?)?;
                let premium = floor(miss, factor, ONE)?.min(floor(self.w2c(btc, c)?, rate, ONE)?);
                self.reserve_redeem(v, burned)?;
                self.lock(*who, W, *x)?;
                self.release_replace_to_owner(v, burned)?;
                self.redeems.insert(
                    H256::zero(),
                    Red {
                        vault: vid(v),
                        opentime: self.active,
                        period: self.p.redeem_period,
                        fee,
                        transfer_fee_btc: incl,
                        amount_btc: btc,
                        premium,
                        redeemer: *who,
                        btc_address: *to,
                        btc_height: self.best,
                        status: RedeemRequestStatus::Pending,
                    },
                );
            }
            ExecuteRedeem { id, proof, .. } => {
                let mut r = self.redeems.get(id).ok_or("no such redeem")?.clone();
                if r.status != RedeemRequestStatus::Pending {
                    return Err("not pending");
                }
                shown(proof)?;
                if !paid_for(&proof.outs, &r.btc_address, r.amount_btc, id) {
                    return Err("not paid");
                }
                let (v, c) = (index_of(&r.vault), cur(r.vault.currencies.collateral));
                let x = r.amount_btc + r.transfer_fee_btc;
                self.burn_res(r.redeemer, x)?;
                self.take_res(r.redeemer, W, r.fee)?;
                self.fee(r.fee);
                if self.liquidated(v)? {
                    let back = self.held_for(v, x)?;
                    self.sub_tc(c, back)?;
                    self.unlock(op_of(v), c, back)?;
                    self.redeem_done(v, x)?;
                } else {
                    self.redeem_done(v, x)?;
                    if r.premium > 0 {
                        let p = r.premium.min(self.total(v));
                        self.slash(v, p)?;
                        self.take(op_of(v), c, p)?;
                        self.give(r.redeemer, c, p);
                    }
                }
                r.status = RedeemRequestStatus::Completed;
                self.redeems.insert(*id, r);
            }
            CancelRedeem { who, id, reimburse } => {
                let mut r = self.redeems.get(id).ok_or("no such redeem")?.clone();
                if r.status != RedeemRequestStatus::Pending {
                    return Err("not pending");
                }
                if r.redeemer != *who {
                    return Err("not the redeemer");
                }
                let period = self.p.redeem_period.max(r.period);
                if !self.expired(r.opentime, r.btc_height, period) {
                    return Err("not expired");
                }
                let (v, c) = (index_of(&r.vault), cur(r.vault.currencies.collateral));
                let x = r.amount_btc + r.transfer_fee_btc;
                let in_col = self.w2c(x, c)?;
                let dead = self.liquidated(v)?;
                if dead {
                    let part = self.held_for(v, x)?;
                    self.take_res(op_of(v), c, part)?;
                    if *reimburse {
                        self.sub_tc(c, part)?;
                        self.give(*who, c, part);
                    } else {
                        self.give_res(LIQ, c, part);
                        self.liq[c].col += part;
                    }
                } else {
                    let fine = pct(in_col, self.p.punish_fee)?;
                    let cut = (if *reimburse { in_col + fine } else { fine }).min(self.total(v));
                    self.slash(v, cut)?;
                    self.take(op_of(v), c, cut)?;
                    self.give(*who, c, cut);
                    let until = self.active + self.p.punish_delay;
                    self.vm(v)?.banned_until = Some(until);
                }
                if *reimburse {
                    self.take_res(*who, W, r.fee)?;
                    self.fee(r.fee);
                    if dead {
                        self.burn_res(*who, x)?;
                        self.redeem_done(v, x)?;
                        r.status = RedeemRequestStatus::Reimbursed(true);
                    } else if self.below(self.total(v), v, self.thr(v)?, self.vault(v)?.issued_tokens)? {
                        self.burn_res(*who, x)?;
                        self.redeem_done(v, x)?;
                        r.status = RedeemRequestStatus::Reimbursed(false);
                    } else {
                        self.take_res(*who, W, x)?;
                        self.give(op_of(v), W, x);
                        self.redeem_undone(v, x)?;
                        r.status = RedeemRequestStatus::Reimbursed(true);
                    }
                } else {
                    self.unlock(*who, W, x + r.fee)?;
                    self.redeem_undone(v, x)?;
                    r.status = RedeemRequestStatus::Retried;
                }
                self.redeems.insert(*id, r);
            }
            MintReimbursed { v, id } => {
                let mut r = self.redeems.get(id).ok_or("no such redeem")?.clone();
                if r.status != RedeemRequestStatus::Reimbursed(false) {
                    return Err("nothing to mint");
                }
                if r.vault != vid(*v) {
                    return Err("not the vault");
                }
                let x = r.amount_btc + r.transfer_fee_btc;
                self.reserve_issue(*v, x)?;
                self.issue_done(*v, x)?;
                self.mint(op_of(*v), x);
                r.status = RedeemRequestStatus::Reimbursed(true);
                self.redeems.insert(*id, r);
            }
            LiquidationRedeem { who, c, x } => {
                if *x == 0 {
                    return Err("nothing to redeem");
                }
                if self.free(*who, W) < *x {
                    return Err("balance too low");
                }
                let l = self.liq[*c].clone();
                if l.issued.checked_sub(l.tbr).ok_or("underflow")? < *x {
                    return Err("not enough issued");
                }
                let to = floor(l.col, *x, l.issued + l.tbi - l.tbr)?;
                self.take(*who, W, *x)?;
                self.iss[W] -= *x;
                self.liq[*c].issued -= *x;
                self.liq[*c].col -= to;
                self.take_res(LIQ, *c, to)?;
                self.sub_tc(*c, to)?;
                self.give(*who, *c, to);
            }
            SelfRedeem { v, x } => {
                let v = *v;
                if self.banned(v)? {
                    return Err("banned");
                }
                self.active(v)?;
                if *x == 0 {
                    return Err("nothing to redeem");
                }
                let a = self.vault(v)?.clone();
                let fee = if *x == a.issued_tokens.checked_sub(a.to_be_redeemed_tokens).ok_or("underflow")? { 0 } else { pct(*x, self.p.redeem_fee)? };
                let x = x.checked_sub(fee).ok_or("fee above amount")?;
                self.take(op_of(v), W, x)?;
                self.iss[W] -= x;
                self.take(op_of(v), W, fee)?;
                self.fee(fee);
                self.reserve_redeem(v, x)?;
                self.redeem_done(v, x)?;
                self.release_replace_to_owner(v, x)?;
            }

            // -------------------------------------------------------- replace
            RequestReplace { v, x } => {
                let v = *v;
                if self.banned(v)? {
                    return Err("banned");
                }
                if self.opted.contains(&v) {
                    return Err("has nominators");
                }
                self.active(v)?;
                let a = self.vault(v)?.clone();
                let room = a
                    .issued_tokens
                    .checked_sub(a.to_be_replaced_tokens)
                    .and_then(|y| y.checked_sub(a.to_be_redeemed_tokens))
                    .ok_or("underflow")?;
                let x = (*x).min(room);
                if x == 0 {
                    return Err("nothing to replace");
                }
                if a.to_be_replaced_tokens + x < self.p.replace_dust {
                    return Err("dust");
                }
                let g = pct(self.w2c(x, INTR)?, self.p.replace_grief)?;
                self.lock(op_of(v), INTR, g)?;
                let a = self.vm(v)?;
                a.to_be_replaced_tokens += x;
                a.replace_collateral += g;
            }
            WithdrawReplace { v, x } => {
                self.active(*v)?;
                if self.release_replace_to_owner(*v, *x)? == 0 {
                    return Err("nothing to withdraw");
                }
            }
            AcceptReplace { old, new, x, col, to } => {
                let (old, new) = (*old, *new);
                if old == new {
                    return Err("same vault");
                }
                self.vault(old)?;
                self.vault(new)?;
                if self.banned(new)? {
                    return Err("banned");
                }
                let (used, g) = self.release_replace(old, *x)?;
                if used < self.p.replace_dust {
                    return Err("dust");
                }
                let put = floor(*col, used, *x)?;
                self.deposit(new, op_of(new), put)?;
                self.reserve_redeem(old, used)?;
                self.reserve_issue(new, used)?;
                let o = self.vm(old)?;
                o.replace_collateral -= g;
                o.active_replace_collateral += g;
                self.replaces.insert(
                    H256::zero(),
                    Rep {
                        old_vault: vid(old),
                        new_vault: vid(new),
                        amount: used,
                        griefing_collateral: g,
                        collateral: put,
                        accept_time: self.active,
                        period: self.p.replace_period,
                        btc_address: *to,
                        btc_height: self.best,
                        status: ReplaceRequestStatus::Pending,
                    },
                );
            }
            ExecuteReplace { id, proof, .. } => {
                let mut r = self.replaces.get(id).ok_or("no such replace")?.clone();
                if r.status == ReplaceRequestStatus::Completed {
                    return Err("completed");
                }
                shown(proof)?;
                if !paid_for(&proof.outs, &r.btc_address, r.amount, id) {
                    return Err("not paid");
                }
                let (old, new) = (index_of(&r.old_vault), index_of(&r.new_vault));
                if r.status == ReplaceRequestStatus::Cancelled {
                    self.reserve_redeem(old, r.amount)?;
                    self.reserve_issue(new, r.amount)?;
                } else {
                    self.unlock(op_of(old), INTR, r.griefing_collateral)?;
                    let o = self.vm(old)?;
                    o.active_replace_collateral =
                        o.active_replace_collateral.checked_sub(r.griefing_collateral).ok_or("griefing underflow")?;
                }
                if self.liquidated(old)? {
                    // its collateral held for these tokens is its own again
                    let part = self.held_for(old, r.amount)?;
                    self.settle(old);
                    self.stake_add(old, op_of(old), part);
                    self.weigh(old)?;
                }
                self.redeem_done(old, r.amount)?;
                self.issue_done(new, r.amount)?;
                r.status = ReplaceRequestStatus::Completed;
                self.replaces.insert(*id, r);
            }
            CancelReplace { id, .. } => {
                let mut r = self.replaces.get(id).ok_or("no such replace")?.clone();
                if r.status != ReplaceRequestStatus::Pending {
                    return Err("not pending");
                }
                let period = self.p.replace_period.max(r.period);
                if !self.expired(r.accept_time, r.btc_height, period) {
                    return Err("not expired");
                }
                let (old, new) = (index_of(&r.old_vault), index_of(&r.new_vault));
                if self.liquidated(old)? {
                    let c = old % 3;
                    let part = self.held_for(old, r.amount)?;
                    self.take_res(op_of(old), c, part)?;
                    self.give_res(LIQ, c, part);
                    self.liq[c].col += part;
                }
                self.redeem_undone(old, r.amount)?;
                self.issue_undone(new, r.amount)?;
                let g = r.griefing_collateral;
                self.take_res(op_of(old), INTR, g)?;
                self.give(op_of(new), INTR, g);
                let o = self.vm(old)?;
                o.active_replace_collateral = o.active_replace_collateral.checked_sub(g).ok_or("griefing underflow")?;
                if !self.liquidated(new)? && self.may_withdraw(new, Some(r.collateral)).unwrap_or(false) && self.own(new) >= r.collateral {
                    let (n, c) = (self.nonce[new], new % 3);
                    self.settle(new);
                    self.stake_sub(new, n, op_of(new), r.collateral)?;
                    self.weigh(new)?;
                    self.sub_tc(c, r.collateral)?;
                    self.unlock(op_of(new), c, r.collateral)?;
                }
                r.status = ReplaceRequestStatus::Cancelled;
                self.replaces.insert(*id, r);
            }

            // -------------------------------------------------------- limits
            Report { v, .. } => {
                let (v, c) = (*v, *v % 3);
                self.vault(v)?;
                if !self.below(self.total(v), v, self.p.liq[c], self.vault(v)?.issued_tokens)? {
                    return Err("above the threshold");
                }
                self.active(v)?;
                self.liquidate(v)?;
            }
            Recover { v } => {
                let v = *v;
                if !self.liquidated(v)? || self.vault(v)?.to_be_redeemed_tokens != 0 {
                    return Err("not recoverable");
                }
                if self.issues.values().any(|r| r.vault == vid(v) && r.status == IssueRequestStatus::Pending)
                    || self.replaces.values().any(|r| r.new_vault == vid(v) && r.status == ReplaceRequestStatus::Pending)
                {
                    return Err("requests open");
                }
                self.vm(v)?.status = VaultStatus::Active(true);
                self.settle(v);
                self.weigh(v)?;
            }
            WithdrawRewards { who, v, idx } => {
                // a pool nobody ever joined pays nothing
                self.settle(*v);
                let n = idx.unwrap_or(self.nonce[*v]);
                let own = self.rew.own.insert((*v, n, *who), 0.0).unwrap_or(0.0);
                let tol = 4.0 + self.rew.cuts[*v % 3] + own * 1e-6;
                if self.rew.taint.contains(v) || self.rew.lost {
                    self.paid_out = Some((*who, *v, -1.0, tol));
                } else {
                    self.paid_out = Some((*who, *v, own, tol));
                }
            }
            Param { root, p } => {
                if !root {
                    return Err("not root");
                }
                let most = 1_000_000 * ONE;
                let rate = |x: &u128| if *x > most { Err("above the maximum") } else { Ok(*x) };
                match p {
                    self::Param::Min(c, x) => self.p.min[*c] = *x,
                    self::Param::Ceiling(c, x) => self.p.ceiling[*c] = *x,
                    self::Param::Secure(c, x) => self.p.secure[*c] = *x,
                    self::Param::Premium(c, x) => self.p.premium[*c] = *x,
                    self::Param::Liq(c, x) => self.p.liq[*c] = *x,
                    self::Param::IssuePeriod(x) => self.p.issue_period = *x,
                    self::Param::RedeemPeriod(x) => self.p.redeem_period = *x,
                    self::Param::ReplacePeriod(x) => self.p.replace_period = *x,
                    self::Param::IssueFee(x) => self.p.issue_fee = rate(x)?,
                    self::Param::IssueGrief(x) => self.p.issue_grief = rate(x)?,
                    self::Param::RedeemFee(x) => self.p.redeem_fee = rate(x)?,
                    self::Param::PremiumFee(x) => self.p.premium_fee = rate(x)?,
                    self::Param::PunishFee(x) => self.p.punish_fee = rate(x)?,
                    self::Param::ReplaceGrief(x) => self.p.replace_grief = rate(x)?,
                    self::Param::Nomination(b) => self.nom_on = *b,
                    self::Param::AddOracle(_) | self::Param::RemoveOracle(_) => {}
                }
            }
        }
        Ok(())
    }

    fn nominators_allowed(&self, v: usize) -> R<()> {
        if !self.nom_on {
            return Err("nomination disabled");
        }
        if !self.opted.contains(&v) {
            return Err("not opted in");
        }
        Ok(())
    }

    fn liquidate(&mut self, v: usize) -> R<()> {
        let c = v % 3;
        let used = self.used(v, self.p.liq[c])?;
        let open = self.vault(v)?.to_be_replaced_tokens;
        self.release_replace_to_owner(v, open)?;
        let a = self.vault(v)?.clone();
        let backed = a.issued_tokens + a.to_be_issued_tokens;
        let excl = if backed == 0 { used } else { floor(used, backed.checked_sub(a.to_be_redeemed_tokens).ok_or("underflow")?, backed)? };
        let n = self.nonce[v];
        let op = op_of(v);
        // what stands for the tokens being redeemed stays with the operator, aside
        let x = (used - excl).min(self.own(v));
        self.settle(v);
        self.stake_sub(v, n, op, x)?;
        self.weigh(v)?;
        self.vm(v)?.liquidated_collateral += x;
        // the rest goes to the liquidation vault, the operator's own first
        let first = excl.min(self.own(v));
        self.stake_sub(v, n, op, first)?;
        self.slash_stake(v, excl - first)?;
        self.take_res(op, c, excl)?;
        self.give_res(LIQ, c, excl);
        let l = &mut self.liq[c];
        l.col += excl;
        l.issued += a.issued_tokens;
        l.tbi += a.to_be_issued_tokens;
        l.tbr += a.to_be_redeemed_tokens;
        let z = self.vm(v)?;
        z.issued_tokens = 0;
        z.to_be_issued_tokens = 0;
        z.status = VaultStatus::Liquidated;
        self.rw[v] = 0;
        self.weigh_currency(c)
    }
}
