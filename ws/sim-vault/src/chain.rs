//! Calls as clients send them, and the comparison of what they did with the rules.
use crate::{rt::*, spec::*, world::*};
use bitcoin::PublicKey;
use frame_support::{traits::ConstU32, BoundedVec};
use frame_system::RawOrigin;
use primitives::CurrencyId;
use sp_core::H256;
use sp_runtime::{DispatchError, FixedU128};

/// Points of the curve, as vaults' keys have to be.
pub fn public_key(a: u64) -> PublicKey {
    let hex = [
        "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
        "02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5",
        "02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9",
    ][(a % 3) as usize];
    let mut k = [0; 33];
    for i in 0..33 {
        k[i] = u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap();
    }
    PublicKey(k)
}
fn fx(x: u128) -> FixedU128 {
    FixedU128::from_inner(x)
}
pub fn name(s: &str) -> BoundedVec<u8, ConstU32<255>> {
    BoundedVec::try_from(s.as_bytes().to_vec()).unwrap()
}

pub fn dispatch(op: &Op, header: impl Fn(usize) -> bitcoin::types::BlockHeader) -> Result<(), DispatchError> {
    use Op::*;
    let by = |a: u64| RawOrigin::Signed(a).into();
    macro_rules! call {
        ($p:ident, $who:expr, $($t:tt)*) => { sim_node::dispatch::<Rt, _>($p::Call::<Rt>::$($t)*, $who) };
    }
    match op.clone() {
        Key(a) => call!(vault_registry, by(a), register_public_key { public_key: public_key(a) }),
        Register { v, col } => call!(vault_registry, by(op_of(v)), register_vault { currency_pair: pair(v % 3), collateral: col }),
        Accept { v, b } => call!(vault_registry, by(op_of(v)), accept_new_issues { currency_pair: pair(v % 3), accept_new_issues: b }),
        Custom { v, thr } => call!(vault_registry, by(op_of(v)), set_custom_secure_threshold { currency_pair: pair(v % 3), custom_threshold: thr.map(fx) }),
        Deposit { who, v, x } => call!(nomination, by(who), deposit_collateral { vault_id: vid(v), amount: x }),
        Withdraw { who, v, x, idx } => call!(nomination, by(who), withdraw_collateral { vault_id: vid(v), amount: x, index: idx }),
        OptIn { v } => call!(nomination, by(op_of(v)), opt_in_to_nomination { currency_pair: pair(v % 3) }),
        OptOut { v } => call!(nomination, by(op_of(v)), opt_out_of_nomination { currency_pair: pair(v % 3) }),
        Limit { v, x } => call!(nomination, by(op_of(v)), set_nomination_limit { currency_pair: pair(v % 3), limit: x }),
        Commission { v, rate } => call!(fee, by(op_of(v)), set_commission { currencies: pair(v % 3), commission: fx(rate) }),
        RequestIssue { who, v, x, gc } => call!(issue, by(who), request_issue { amount: x, vault_id: vid(v), griefing_currency: CURS[gc] }),
        ExecuteIssue { who, id, proof } => call!(issue, by(who), execute_issue { issue_id: id, unchecked_transaction: (*proof.data).clone() }),
        CancelIssue { who, id } => call!(issue, by(who), cancel_issue { issue_id: id }),
        RequestRedeem { who, v, x, to } => call!(redeem, by(who), request_redeem { amount_wrapped: x, btc_address: to, vault_id: vid(v) }),
        ExecuteRedeem { who, id, proof } => call!(redeem, by(who), execute_redeem { redeem_id: id, unchecked_transaction: (*proof.data).clone() }),
        CancelRedeem { who, id, reimburse } => call!(redeem, by(who), cancel_redeem { redeem_id: id, reimburse }),
        MintReimbursed { v, id } => call!(redeem, by(op_of(v)), mint_tokens_for_reimbursed_redeem { currency_pair: pair(v % 3), redeem_id: id }),
        LiquidationRedeem { who, c, x } => call!(redeem, by(who), liquidation_redeem { currencies: pair(c), amount_wrapped: x }),
        SelfRedeem { v, x } => call!(redeem, by(op_of(v)), self_redeem { currency_pair: pair(v % 3), amount_wrapped: x }),
        RequestReplace { v, x } => call!(replace, by(op_of(v)), request_replace { currency_pair: pair(v % 3), amount: x }),
        WithdrawReplace { v, x } => call!(replace, by(op_of(v)), withdraw_replace { currency_pair: pair(v % 3), amount: x }),
        AcceptReplace { old, new, x, col, to } => call!(
            replace,
            by(op_of(new)),
            accept_replace { currency_pair: pair(new % 3), old_vault: vid(old), amount_btc: x, collateral: col, btc_address: to }
        ),
        ExecuteReplace { who, id, proof } => call!(replace, by(who), execute_replace { replace_id: id, unchecked_transaction: (*proof.data).clone() }),
        CancelReplace { who, id } => call!(replace, by(who), cancel_replace { replace_id: id }),
        Report { who, v } => call!(vault_registry, by(who), report_undercollateralized_vault { vault_id: vid(v) }),
        Recover { v } => call!(vault_registry, by(op_of(v)), recover_vault_id { currency_pair: pair(v % 3) }),
        WithdrawRewards { who, v, idx } => call!(fee, by(who), withdraw_rewards { vault_id: vid(v), index: idx }),
        Feed { oracle, vals } => {
            call!(oracle, by(oracle), feed_values { values: vals.iter().map(|(k, x)| (oracle_key(*k), fx(*x))).collect() })
        }
        Header(i) => call!(btc_relay, by(6), store_block_header { block_header: header(i), fork_bound: 1000 }),
        Op::Param { root, p } => {
            let o: frame_system::RawOrigin<Acc> = if root { RawOrigin::Root } else { RawOrigin::Signed(4) };
            let o = o.into();
            use crate::spec::Param::*;
            match p {
                Min(c, x) => call!(vault_registry, o, set_minimum_collateral { currency_id: COLS[c], minimum: x }),
                Ceiling(c, x) => call!(vault_registry, o, set_system_collateral_ceiling { currency_pair: pair(c), ceiling: x }),
                Secure(c, x) => call!(vault_registry, o, set_secure_collateral_threshold { currency_pair: pair(c), threshold: fx(x) }),
                Premium(c, x) => call!(vault_registry, o, set_premium_redeem_threshold { currency_pair: pair(c), threshold: fx(x) }),
                Liq(c, x) => call!(vault_registry, o, set_liquidation_collateral_threshold { currency_pair: pair(c), threshold: fx(x) }),
                IssuePeriod(period) => call!(issue, o, set_issue_period { period }),
                RedeemPeriod(period) => call!(redeem, o, set_redeem_period { period }),
                ReplacePeriod(period) => call!(replace, o, set_replace_period { period }),
                IssueFee(x) => call!(fee, o, set_issue_fee { fee: fx(x) }),
                IssueGrief(x) => call!(fee, o, set_issue_griefing_collateral { griefing_collateral: fx(x) }),
                RedeemFee(x) => call!(fee, o, set_redeem_fee { fee: fx(x) }),
                PremiumFee(x) => call!(fee, o, set_premium_redeem_fee { fee: fx(x) }),
                PunishFee(x) => call!(fee, o, set_punishment_fee { fee: fx(x) }),
                ReplaceGrief(x) => call!(fee, o, set_replace_griefing_collateral { griefing_collateral: fx(x) }),
                Nomination(enabled) => call!(nomination, o, set_nomination_enabled { enabled }),
                AddOracle(a) => call!(oracle, o, insert_authorized_oracle { account_id: a, name: name("o") }),
                RemoveOracle(a) => call!(oracle, o, remove_authorized_oracle { account_id: a }),
            }
        }
    }
}

pub fn op_name(op: &Op) -> &'static str {
    use Op::*;
    match op {
        Key(_) => "register key",
        Register { .. } => "register vault",
        Accept { .. } => "accept new issues",
        Custom { .. } => "set threshold",
        Deposit { .. } => "deposit collateral",
        Withdraw { .. } => "withdraw collateral",
        OptIn { .. } => "opt in",
        OptOut { .. } => "opt out",
        Limit { .. } => "set limit",
        Commission { .. } => "set commission",
        RequestIssue { .. } => "request issue",
        ExecuteIssue { .. } => "execute issue",
        CancelIssue { .. } => "cancel issue",
        RequestRedeem { .. } => "request redeem",
        ExecuteRedeem { .. } => "execute redeem",
        CancelRedeem { .. } => "cancel redeem",
        MintReimbursed { .. } => "mint reimbursed",
        LiquidationRedeem { .. } => "liquidation redeem",
        SelfRedeem { .. } => "self redeem",
        RequestReplace { .. } => "request replace",
        WithdrawReplace { .. } => "withdraw replace",
        AcceptReplace { .. } => "accept replace",
        ExecuteReplace { .. } => "execute replace",
        CancelReplace { .. } => "cancel replace",
        Report { .. } => "report vault",
        Recover { .. } => "recover vault",
        WithdrawRewards { .. } => "withdraw rewards",
        Feed { .. } => "feed",
        Param { .. } => "governance",
        Header(_) => "header",
    }
}

pub fn why(e: &DispatchError) -> String {
    match e {
        DispatchError::Module(m) => m.message.unwrap_or("?").to_string(),
        e => format!("{e:?}"),
    }
}

fn near(a: u128, b: u128, d: u128) -> bool {
    a.abs_diff(b) <= d
}

/// Puts the identity the chain gave to a new request in place of the rules' blank.
pub fn name_new(exp: &mut World, act: &World, before: &World) -> Result<(), String> {
    let z = H256::zero();
    if let Some(mut x) = exp.issues.remove(&z) {
        let ids: Vec<_> = act.issues.keys().filter(|k| !before.issues.contains_key(k)).collect();
        if ids.len() != 1 {
            return Err(format!("{} new issues", ids.len()));
        }
        let a = &act.issues[ids[0]];
        if before.issues.values().any(|b| b.btc_address == a.btc_address) {
            return Err("address given out before".into());
        }
        if a.btc_public_key != public_key(x.vault.account_id) {
            return Err("another key than the vault's".into());
        }
        x.btc_address = a.btc_address;
        x.btc_public_key = a.btc_public_key.clone();
        exp.issues.insert(*ids[0], x);
    }
    if let Some(x) = exp.redeems.remove(&z) {
        let ids: Vec<_> = act.redeems.keys().filter(|k| !before.redeems.contains_key(k)).collect();
        if ids.len() != 1 {
            return Err(format!("{} new redeems", ids.len()));
        }
        exp.redeems.insert(*ids[0], x);
    }
    if let Some(x) = exp.replaces.remove(&z) {
        let ids: Vec<_> = act.replaces.keys().filter(|k| !before.replaces.contains_key(k)).collect();
        if ids.len() != 1 {
            return Err(format!("{} new replaces", ids.len()));
        }
        exp.replaces.insert(*ids[0], x);
    }
    Ok(())
}

/// The first difference between what the rules say and what the chain did.
pub fn differ(exp: &World, act: &World, before: &World, slashed: bool) -> Option<(&'static str, String)> {
    macro_rules! same {
        ($what:expr, $e:expr, $a:expr) => {
            if $e != $a {
                return Some(($what, format!("{:?} instead of {:?}", $a, $e)));
            }
        };
    }
    macro_rules! maps {
        ($what:expr, $f:ident) => {
            if exp.$f != act.$f {
                for k in exp.$f.keys().chain(act.$f.keys()) {
                    if exp.$f.get(k) != act.$f.get(k) {
                        return Some(($what, format!("{k:?}: {:?} instead of {:?}", act.$f.get(k), exp.$f.get(k))));
                    }
                }
            }
        };
    }
    same!("issuance", exp.iss, act.iss);
    maps!("vault", v);
    maps!("issue", issues);
    maps!("redeem", redeems);
    maps!("replace", replaces);
    same!("liquidation vault", exp.liq, act.liq);
    maps!("reserved balance", res);
    for c in 0..3 {
        for a in 1..=LIQ {
            let (e, x) = (exp.free(a, c), act.free(a, c));
            if e != x {
                return Some(("balance", format!("account {a} {:?}: {x} instead of {e}, before {}", CURS[c], before.free(a, c))));
            }
        }
    }
    let d = slashed as u128;
    for c in 0..3 {
        if !near(exp.tc[c], act.tc[c], d) {
            return Some(("total collateral", format!("{:?}: {} instead of {}", COLS[c], act.tc[c], exp.tc[c])));
        }
        if !near(exp.cap[c], act.cap[c], 9 * d) {
            return Some(("capacity", format!("{:?}: {} instead of {}", COLS[c], act.cap[c], exp.cap[c])));
        }
    }
    for v in 0..NV {
        same!("nonce", exp.nonce[v], act.nonce[v]);
        same!("nomination limit", exp.limit[v], act.limit[v]);
        if !near(exp.rw[v], act.rw[v], d) {
            return Some(("reward weight", format!("vault {v}: {} instead of {}", act.rw[v], exp.rw[v])));
        }
        for n in 0..=act.nonce[v] {
            let (e, a) = (exp.t.get(&(v, n)).copied().unwrap_or(0), act.t.get(&(v, n)).copied().unwrap_or(0));
            if !near(e, a, d) {
                return Some(("collateral of the vault", format!("vault {v} pool {n}: {a} instead of {e}")));
            }
            if exp.any_stake.contains(&v) || exp.rew.taint.contains(&v) && slashed && exp.t != before.t {
                continue;
            }
            for p in 1..=PEOPLE {
                let (e, a) = (exp.stake(v, n, p), act.stake(v, n, p));
                // slashes are shared out with 18 decimals
                if !near(e, a, (2 + exp.iss[v % 3] / (crate::num::ONE / 2)) * d) {
                    return Some(("stake", format!("vault {v} pool {n} account {p}: {a} instead of {e}")));
                }
            }
        }
    }
    same!("keys", exp.keys, act.keys);
    same!("nomination", exp.nom_on, act.nom_on);
    same!("nomination", exp.opted, act.opted);
    same!("price", exp.price, act.price);
    same!("active blocks", exp.active, act.active);
    None
}

/// Wrapped tokens: what is paid out of the fee pool leaves it, and nothing else moves.
pub fn differ_wrapped(exp: &World, act: &World, before: &World) -> Option<(&'static str, String)> {
    let sum = |w: &World| w.free.iter().filter(|(k, _)| k.1 == W).map(|x| *x.1).sum::<u128>();
    if sum(exp) != sum(act) {
        return Some(("tokens", format!("{} free in all instead of {}", sum(act), sum(exp))));
    }
    let moved = (exp.cap.iter().sum::<u128>() == 0) != (before.cap.iter().sum::<u128>() == 0);
    for a in (1..=PEOPLE).chain([LIQ, TREASURY]) {
        let (e, x) = (exp.free(a, W), act.free(a, W));
        if a == TREASURY && moved {
            continue;
        }
        if x < e {
            return Some(("tokens", format!("account {a} has {x} instead of {e}")));
        }
        let got = (x - e) as f64;
        let (mut lo, mut hi) = (0.0, 0.0);
        for (v, k, tol) in &exp.commission {
            if op_of(*v) == a {
                lo += k - tol;
                hi += k + tol;
            }
        }
        if let Some((who, _, own, tol)) = exp.paid_out {
            if who == a {
                if own < 0.0 {
                    continue;
                }
                lo += own - tol;
                hi += own + tol;
            }
        }
        if got < lo - 0.5 || got > hi + 0.5 {
            return Some(("pay-out", format!("account {a} was paid {got} instead of {:.3}±{:.3}", (lo + hi) / 2.0, (hi - lo) / 2.0)));
        }
    }
    None
}

pub fn currency(i: usize) -> CurrencyId {
    CURS[i]
}
