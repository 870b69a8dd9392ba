//! What the bridge's state is, read from the chain, and the steps the rules are written in.
use crate::{num::*, rt::*};
use bitcoin::Address;
use codec::Decode;
use frame_support::state;
use orml_traits::{MultiCurrency, MultiReservableCurrency};
use primitives::{
    issue::IssueRequest, oracle::Key as OracleKey, redeem::RedeemRequest, replace::ReplaceRequest, CurrencyId, VaultId,
};
use sp_core::H256;
use staking::{RewardsApi, StakingApi};
use std::collections::{BTreeMap, BTreeSet};
use vault_registry::VaultStatus;

pub type R<T> = Result<T, &'static str>;
pub type Vault = vault_registry::types::DefaultVault<Rt>;
pub type Iss = IssueRequest<Acc, u32, u128, CurrencyId>;
pub type Red = RedeemRequest<Acc, u32, u128, CurrencyId>;
pub type Rep = ReplaceRequest<Acc, u32, u128, CurrencyId>;

pub const COLS: [CurrencyId; 3] = [DOT, NATIVE, LEND];
pub const CURS: [CurrencyId; 4] = [DOT, NATIVE, LEND, WRAPPED];
pub const DOT_: usize = 0;
pub const INTR: usize = 1;
pub const LEND_: usize = 2;
pub const W: usize = 3;

/// accounts 1..=3 run vaults, 4..=6 are users
pub const PEOPLE: u64 = 6;
pub const FEE: u64 = 7;
pub const TREASURY: u64 = 8;
pub const LIQ: u64 = 9;
pub fn account(i: u64) -> Acc {
    match i {
        FEE => fee_account(),
        TREASURY => treasury(),
        LIQ => liquidation_account(),
        i => i,
    }
}
pub const NV: usize = 9;
pub fn pair(c: usize) -> Pair {
    Pair { collateral: COLS[c], wrapped: WRAPPED }
}
pub fn op_of(v: usize) -> u64 {
    (v / 3) as u64 + 1
}
pub fn vid(v: usize) -> Vid {
    VaultId::new(op_of(v), COLS[v % 3], WRAPPED)
}
pub fn index_of(id: &Vid) -> usize {
    let c = COLS.iter().position(|c| *c == id.currencies.collateral).unwrap();
    (id.account_id as usize - 1) * 3 + c
}
pub fn cur(c: CurrencyId) -> usize {
    CURS.iter().position(|x| *x == c).unwrap()
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Liq {
    pub tbi: u128,
    pub issued: u128,
    pub tbr: u128,
    pub col: u128,
}

/// What governance has set; follows the calls that did.
#[derive(Clone, Debug, Default)]
pub struct Params {
    pub min: [u128; 3],
    pub ceiling: [u128; 3],
    pub secure: [u128; 3],
    pub premium: [u128; 3],
    pub liq: [u128; 3],
    pub punish_delay: u32,
    pub issue_period: u32,
    pub issue_dust: u128,
    pub redeem_period: u32,
    pub redeem_dust: u128,
    pub redeem_size: u32,
    pub replace_period: u32,
    pub replace_dust: u128,
    pub issue_fee: u128,
    pub issue_grief: u128,
    pub redeem_fee: u128,
    pub premium_fee: u128,
    pub punish_fee: u128,
    pub replace_grief: u128,
    pub lend_rate: u128,
    pub comm: BTreeMap<usize, u128>,
}

/// Who has earned what part of the fees, in real numbers.
#[derive(Clone, Debug, Default)]
pub struct Rewards_ {
    /// earned by a vault, not yet shared among its stakers
    pub pend: Vec<f64>,
    pub own: BTreeMap<(usize, u32, u64), f64>,
    /// roundings so far, per collateral currency
    pub cuts: [f64; 3],
    /// vaults whose shares are not judged (see F02)
    pub taint: BTreeSet<usize>,
    pub lost: bool,
}

#[derive(Clone, Debug, Default)]
pub struct World {
    pub p: Params,
    pub rew: Rewards_,
    pub active: u32,
    pub best: u32,
    pub ready: bool,
    pub price: [Option<u128>; 3], // DOT, INTR, bitcoin fee
    pub free: BTreeMap<(u64, usize), u128>,
    pub res: BTreeMap<(u64, usize), u128>,
    pub iss: [u128; 4],
    pub v: BTreeMap<usize, Vault>,
    pub keys: BTreeSet<u64>,
    pub nonce: [u32; NV],
    pub s: BTreeMap<(usize, u32, u64), u128>,
    pub t: BTreeMap<(usize, u32), u128>,
    pub liq: [Liq; 3],
    pub tc: [u128; 3],
    pub rw: [u128; NV],
    pub cap: [u128; 3],
    pub nom_on: bool,
    pub opted: BTreeSet<usize>,
    pub limit: [u128; NV],
    pub issues: BTreeMap<H256, Iss>,
    pub redeems: BTreeMap<H256, Red>,
    pub replaces: BTreeMap<H256, Rep>,
    // what a step of the rules leaves open
    pub any_stake: BTreeSet<usize>,
    pub paid_out: Option<(u64, usize, f64, f64)>,
    /// vault, what its operator is paid, how exactly that is known
    pub commission: Vec<(usize, f64, f64)>,
}

/// Every entry of a storage map, with the last bytes of its key.
fn scan<V: Decode>(pallet: &str, item: &str, tail: usize, mut f: impl FnMut(&[u8], V)) {
    let p = [pallet.as_bytes(), b"//", item.as_bytes(), &[0]].concat();
    let mut from = p.clone();
    let mut first = true;
    while let Some((k, v)) = state::next(&from, first, &p) {
        first = false;
        if k.len() == p.len() + 16 + tail {
            if let Ok(x) = V::decode(&mut &v[..]) {
                f(&k[k.len() - tail..], x);
            }
        }
        from = k;
    }
}

pub fn oracle_key(i: usize) -> OracleKey {
    match i {
        0 => OracleKey::ExchangeRate(DOT),
        1 => OracleKey::ExchangeRate(NATIVE),
        _ => OracleKey::FeeEstimation,
    }
}

impl World {
    /// The state on the chain; what is not on it is carried over from `old`.
    pub fn read(old: &World) -> World {
        let mut w = World { p: old.p.clone(), rew: old.rew.clone(), best: old.best, ready: old.ready, ..Default::default() };
        w.active = Security::active_block_number();
        for i in 0..3 {
            w.price[i] = Oracle::get_price(oracle_key(i)).ok().map(|p| p.into_inner());
        }
        for a in 1..=LIQ {
            for (i, c) in CURS.iter().enumerate() {
                w.free.insert((a, i), <Tokens as MultiCurrency<Acc>>::free_balance(*c, &account(a)));
                w.res.insert((a, i), <Tokens as MultiReservableCurrency<Acc>>::reserved_balance(*c, &account(a)));
            }
        }
        for (i, c) in CURS.iter().enumerate() {
            w.iss[i] = <Tokens as MultiCurrency<Acc>>::total_issuance(*c);
        }
        for a in 1..=PEOPLE {
            if Vaults::get_bitcoin_public_key(&a).is_ok() {
                w.keys.insert(a);
            }
        }
        w.nom_on = Nomination::is_nomination_enabled();
        for v in 0..NV {
            let id = vid(v);
            if Nomination::is_opted_in(&id) {
                w.opted.insert(v);
            }
            w.limit[v] = Nomination::get_nomination_limit(&id).amount();
            if let Ok(x) = Vaults::get_vault_from_id(&id) {
                w.v.insert(v, x);
            } else {
                continue;
            }
            w.nonce[v] = <Staking as StakingApi<Vid, u32, u128>>::nonce(&id);
            for n in 0..=w.nonce[v] {
                for a in 1..=PEOPLE {
                    let s: u128 = <Staking as RewardsApi<(Option<u32>, Vid), Acc, u128>>::get_stake(&(Some(n), id.clone()), &a).unwrap_or(u128::MAX);
                    if s != 0 {
                        w.s.insert((v, n, a), s);
                    }
                }
            }
            let n = w.nonce[v];
            w.t.insert((v, n), <Staking as RewardsApi<(Option<u32>, Vid), Acc, u128>>::get_total_stake(&(None, id.clone())).unwrap_or(u128::MAX));
            for m in 0..n {
                let raw = staking::TotalCurrentStake::<Rt>::get(m, &id).into_inner();
                w.t.insert((v, m), raw as u128 / ONE);
            }
            w.rw[v] = <Rewards as RewardsApi<CurrencyId, Vid, u128>>::get_stake(&COLS[v % 3], &id).unwrap_or(u128::MAX);
        }
        for c in 0..3 {
            let l = Vaults::get_liquidation_vault(&pair(c));
            w.liq[c] = Liq { tbi: l.to_be_issued_tokens, issued: l.issued_tokens, tbr: l.to_be_redeemed_tokens, col: l.collateral };
            w.cap[c] = <Capacity as RewardsApi<(), CurrencyId, u128>>::get_stake(&(), &COLS[c]).unwrap_or(u128::MAX);
        }
        use codec::Encode;
        let mut tc = [0; 3];
        for c in 0..3 {
            let key = pair(c).encode();
            scan::<u128>("vault-registry", "TotalUserVaultCollateral", key.len(), |k, x| {
                if k == &key[..] {
                    tc[c] = x;
                }
            });
        }
        w.tc = tc;
        scan::<Iss>("issue", "IssueRequests", 32, |k, x| {
            w.issues.insert(H256::from_slice(k), x);
        });
        scan::<Red>("redeem", "RedeemRequests", 32, |k, x| {
            w.redeems.insert(H256::from_slice(k), x);
        });
        scan::<Rep>("replace", "ReplaceRequests", 32, |k, x| {
            w.replaces.insert(H256::from_slice(k), x);
        });
        w
    }

    // ------------------------------------------------------------ balances

    pub fn free(&self, a: u64, c: usize) -> u128 {
        *self.free.get(&(a, c)).unwrap_or(&0)
    }
    pub fn take(&mut self, a: u64, c: usize, x: u128) -> R<()> {
        let f = self.free.get_mut(&(a, c)).ok_or("account")?;
        *f = f.checked_sub(x).ok_or("balance too low")?;
        Ok(())
    }
    pub fn give(&mut self, a: u64, c: usize, x: u128) {
        *self.free.get_mut(&(a, c)).unwrap() += x;
    }
    pub fn take_res(&mut self, a: u64, c: usize, x: u128) -> R<()> {
        let f = self.res.get_mut(&(a, c)).ok_or("account")?;
        *f = f.checked_sub(x).ok_or("reserve too low")?;
        Ok(())
    }
    pub fn give_res(&mut self, a: u64, c: usize, x: u128) {
        *self.res.get_mut(&(a, c)).unwrap() += x;
    }
    pub fn lock(&mut self, a: u64, c: usize, x: u128) -> R<()> {
        self.take(a, c, x)?;
        self.give_res(a, c, x);
        Ok(())
    }
    pub fn unlock(&mut self, a: u64, c: usize, x: u128) -> R<()> {
        self.take_res(a, c, x)?;
        self.give(a, c, x);
        Ok(())
    }
    pub fn mint(&mut self, a: u64, x: u128) {
        self.iss[W] += x;
        self.give(a, W, x);
    }
    pub fn burn_res(&mut self, a: u64, x: u128) -> R<()> {
        self.take_res(a, W, x)?;
        self.iss[W] -= x;
        Ok(())
    }
    /// A fee in wrapped tokens to the vaults, or to the treasury when there is nobody to earn it.
    pub fn fee(&mut self, x: u128) {
        if x == 0 {
            return;
        }
        let all: u128 = self.cap.iter().sum();
        if all == 0 {
            self.give(TREASURY, W, x);
            return;
        }
        self.give(FEE, W, x);
        for c in 0..3 {
            let part = x as f64 * self.cap[c] as f64 / all as f64;
            let rw: u128 = (0..NV).filter(|v| v % 3 == c).map(|v| self.rw[v]).sum();
            self.rew.cuts[c] += 3.0;
            if rw == 0 {
                continue;
            }
            for v in (0..NV).filter(|v| v % 3 == c) {
                self.rew.pend[v] += part * self.rw[v] as f64 / rw as f64;
            }
        }
    }

    // ------------------------------------------------------------ prices

    pub fn price(&self, i: usize) -> R<u128> {
        self.price[i].ok_or("no price")
    }
    /// wrapped to collateral
    pub fn w2c(&self, x: u128, c: usize) -> R<u128> {
        if c == LEND_ {
            return muldiv(muldiv(x, self.price(DOT_)?, ONE).ok_or("overflow")?, ONE, self.p.lend_rate).ok_or("overflow");
        }
        muldiv(x, self.price(c)?, ONE).ok_or("overflow")
    }
    pub fn c2w(&self, x: u128, c: usize) -> R<u128> {
        let (x, c) = if c == LEND_ { (muldiv(x, self.p.lend_rate, ONE).ok_or("overflow")?, DOT_) } else { (x, c) };
        let p = self.price(c)?;
        if x == 0 {
            return Ok(0);
        }
        muldiv(x, ONE, p).ok_or("overflow")
    }

    // ------------------------------------------------------------ vaults

    pub fn vault(&self, v: usize) -> R<&Vault> {
        self.v.get(&v).ok_or("no such vault")
    }
    pub fn vm(&mut self, v: usize) -> R<&mut Vault> {
        self.v.get_mut(&v).ok_or("no such vault")
    }
    pub fn liquidated(&self, v: usize) -> R<bool> {
        Ok(self.vault(v)?.status == VaultStatus::Liquidated)
    }
    pub fn accepting(&self, v: usize) -> R<bool> {
        Ok(self.vault(v)?.status == VaultStatus::Active(true))
    }
    pub fn active(&self, v: usize) -> R<()> {
        if self.liquidated(v)? {
            Err("liquidated")
        } else {
            Ok(())
        }
    }
    pub fn banned(&self, v: usize) -> R<bool> {
        Ok(self.vault(v)?.banned_until.map_or(false, |b| self.active <= b))
    }
    pub fn stake(&self, v: usize, n: u32, a: u64) -> u128 {
        *self.s.get(&(v, n, a)).unwrap_or(&0)
    }
    pub fn own(&self, v: usize) -> u128 {
        self.stake(v, self.nonce[v], op_of(v))
    }
    pub fn total(&self, v: usize) -> u128 {
        *self.t.get(&(v, self.nonce[v])).unwrap_or(&0)
    }
    pub fn stakers(&self, v: usize) -> usize {
        let n = self.nonce[v];
        (1..=PEOPLE).filter(|a| self.stake(v, n, *a) > 0).count()
    }
    pub fn backed(&self, v: usize) -> R<u128> {
        let x = self.vault(v)?;
        Ok(x.issued_tokens + x.to_be_issued_tokens)
    }
    pub fn thr(&self, v: usize) -> R<u128> {
        let own = self.vault(v)?.secure_collateral_threshold.map_or(0, |x| x.into_inner());
        Ok(own.max(self.p.secure[v % 3]))
    }
    pub fn used(&self, v: usize, thr: u128) -> R<u128> {
        let x = muldiv(self.w2c(self.backed(v)?, v % 3)?, thr, ONE).ok_or("overflow")?;
        Ok(x.min(self.total(v)))
    }
    pub fn issuable(&self, v: usize) -> R<u128> {
        if self.banned(v)? {
            return Ok(0);
        }
        let thr = self.thr(v)?;
        let free = self.total(v) - self.used(v, thr)?;
        muldiv(self.c2w(free, v % 3)?, ONE, thr).ok_or("overflow")
    }
    pub fn reserve_issue(&mut self, v: usize, x: u128) -> R<()> {
        self.active(v)?;
        if self.issuable(v)? < x {
            return Err("not enough collateral");
        }
        self.vm(v)?.to_be_issued_tokens += x;
        Ok(())
    }
    pub fn reserve_redeem(&mut self, v: usize, x: u128) -> R<()> {
        self.active(v)?;
        let a = self.vault(v)?;
        if a.issued_tokens.checked_sub(a.to_be_redeemed_tokens).ok_or("underflow")? < x {
            return Err("not enough issued");
        }
        self.vm(v)?.to_be_redeemed_tokens += x;
        Ok(())
    }

    // ------------------------------------------------------------ the pools

    /// Shares what the vault has earned among its stakers.
    pub fn settle(&mut self, v: usize) {
        let c = v % 3;
        let x = std::mem::take(&mut self.rew.pend[v]);
        self.rew.cuts[c] += 3.0;
        let k = *self.p.comm.get(&v).unwrap_or(&0) as f64 / ONE as f64;
        if k > 0.0 {
            self.commission.push((v, x * k, 3.0 + self.rew.cuts[c] * k + x * 1e-6));
        }
        let t = self.total(v) as f64;
        if t == 0.0 {
            return;
        }
        let n = self.nonce[v];
        for a in 1..=PEOPLE {
            let s = self.stake(v, n, a) as f64;
            if s > 0.0 {
                *self.rew.own.entry((v, n, a)).or_default() += x * (1.0 - k) * s / t;
            }
        }
    }
    /// The vault's weight in the rewards follows its collateral.
    pub fn weigh(&mut self, v: usize) -> R<()> {
        self.rw[v] = if self.accepting(v)? { muldiv(self.total(v), ONE, self.thr(v)?).ok_or("overflow")? } else { 0 };
        self.weigh_currency(v % 3)
    }
    pub fn weigh_currency(&mut self, c: usize) -> R<()> {
        let all: u128 = (0..NV).filter(|v| v % 3 == c).map(|v| self.rw[v]).sum();
        self.cap[c] = self.c2w(all, c)?;
        Ok(())
    }
    pub fn add_tc(&mut self, c: usize, x: u128) -> R<()> {
        if self.tc[c] + x > self.p.ceiling[c] {
            return Err("above the ceiling");
        }
        self.tc[c] += x;
        Ok(())
    }
    pub fn sub_tc(&mut self, c: usize, x: u128) -> R<()> {
        self.tc[c] = self.tc[c].checked_sub(x).ok_or("total collateral underflow")?;
        Ok(())
    }
    pub fn stake_add(&mut self, v: usize, a: u64, x: u128) {
        let n = self.nonce[v];
        *self.s.entry((v, n, a)).or_default() += x;
        *self.t.entry((v, n)).or_default() += x;
    }
    pub fn stake_sub(&mut self, v: usize, n: u32, a: u64, x: u128) -> R<()> {
        let s = self.s.entry((v, n, a)).or_default();
        *s = s.checked_sub(x).ok_or("stake too low")?;
        let t = self.t.entry((v, n)).or_default();
        *t = t.checked_sub(x).ok_or("total stake too low")?;
        Ok(())
    }
    /// Free balance of the operator into the vault's collateral.
    pub fn deposit(&mut self, v: usize, who: u64, x: u128) -> R<()> {
        self.vault(v)?;
        let c = v % 3;
        self.lock(op_of(v), c, x)?;
        self.add_tc(c, x)?;
        self.settle(v);
        self.stake_add(v, who, x);
        self.weigh(v)
    }
    /// Collateral of all stakers into the operator's free balance.
    pub fn slash(&mut self, v: usize, x: u128) -> R<()> {
        let c = v % 3;
        self.unlock(op_of(v), c, x)?;
        self.sub_tc(c, x)?;
        self.slash_stake(v, x)
    }
    pub fn slash_stake(&mut self, v: usize, x: u128) -> R<()> {
        self.settle(v);
        let n = self.nonce[v];
        let t = self.total(v);
        if x > 0 {
            if x > t {
                return Err("slash above stake");
            }
            if self.stakers(v) >= 2 {
                self.any_stake.insert(v);
                self.rew.taint.insert(v);
            }
            for a in 1..=PEOPLE {
                let s = self.stake(v, n, a);
                if s > 0 {
                    self.s.insert((v, n, a), s - muldiv(s, x, t).unwrap_or(s).min(s));
                }
            }
            self.t.insert((v, n), t - x);
            if t - x <= t / 1_000_000 {
                // who loses the whole stake loses the unclaimed rewards with it
                self.rew.taint.insert(v);
            }
        }
        self.weigh(v)
    }

    // ------------------------------------------------------------ requests

    pub fn expired(&self, open: u32, btc_open: u32, period: u32) -> bool {
        self.active > open + period && self.best > btc_open + (period + PER_BTC_BLOCK - 1) / PER_BTC_BLOCK
    }
    /// Gives back requests to be replaced, as far as there are any, and their griefing collateral.
    pub fn release_replace(&mut self, v: usize, x: u128) -> R<(u128, u128)> {
        let a = self.vault(v)?.clone();
        let used = x.min(a.to_be_replaced_tokens);
        let col = muldiv(a.replace_collateral, used, a.to_be_replaced_tokens).unwrap_or(a.replace_collateral).min(a.replace_collateral);
        self.vm(v)?.to_be_replaced_tokens -= used;
        Ok((used, col))
    }
    pub fn release_replace_to_owner(&mut self, v: usize, x: u128) -> R<u128> {
        let (used, col) = self.release_replace(v, x)?;
        self.vm(v)?.replace_collateral -= col;
        self.unlock(op_of(v), INTR, col)?;
        Ok(used)
    }
}

/// The outputs of a Bitcoin payment.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    To(Address, i64),
    Data(Vec<u8>, i64),
}

pub fn paid_to(outs: &[Out], to: &Address) -> Option<i64> {
    outs.iter().find_map(|o| match o {
        Out::To(a, v) if a == to => Some(*v),
        _ => None,
    })
}
/// A payment a vault makes: this amount, to this address, in the name of this request, with at
/// most the change besides.
pub fn paid_for(outs: &[Out], to: &Address, amount: u128, id: &H256) -> bool {
    let pays: Vec<_> = outs.iter().filter_map(|o| if let Out::To(a, v) = o { Some((*a, *v)) } else { None }).collect();
    let data: Vec<_> = outs.iter().filter_map(|o| if let Out::Data(d, v) = o { Some((d, *v)) } else { None }).collect();
    outs.len() <= 3
        && data.len() == 1
        && data[0].1 == 0
        && data[0].0 == id.as_bytes()
        && (pays.len() == 1 || pays.len() == 2 && pays[0].0 != pays[1].0)
        && pays.iter().find(|p| p.0 == *to).map_or(false, |p| p.1 as i128 == amount as i128)
}
