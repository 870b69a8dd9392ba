//! Nodes that write request records to a failing disk, restart, and serve them to clients over a
//! failing link; clients that name currencies and pools in their own ways.
use btc::{Address, PublicKey};
use codec::{Decode, Encode, MaxEncodedLen};
use primitive_types::{H160, H256};
use prim::{issue::*, oracle::Key, redeem::*, replace::*, *};
use serde_json::{json, Value};
use sim_core::*;

type Acc = [u8; 32];

#[derive(Clone, PartialEq, Debug)]
enum Rec {
    Issue(IssueRequest<Acc, u32, u128, CurrencyId>),
    Redeem(RedeemRequest<Acc, u32, u128, CurrencyId>),
    Replace(ReplaceRequest<Acc, u32, u128, CurrencyId>),
    Vault(VaultId<Acc, CurrencyId>),
    Currency(CurrencyId),
    Key(Key),
    Meta(CustomMetadata),
}

// The formats, written down independently of the code under test.
const SYMBOLS: &[(TokenSymbol, u8, &str, &str, u32)] = &[
    (TokenSymbol::DOT, 0, "DOT", "Polkadot", 10),
    (TokenSymbol::IBTC, 1, "IBTC", "interBTC", 8),
    (TokenSymbol::INTR, 2, "INTR", "Interlay", 10),
    (TokenSymbol::KSM, 10, "KSM", "Kusama", 12),
    (TokenSymbol::KBTC, 11, "KBTC", "kBTC", 8),
    (TokenSymbol::KINT, 12, "KINT", "Kintsugi", 12),
];

fn sym(t: TokenSymbol) -> &'static (TokenSymbol, u8, &'static str, &'static str, u32) {
    SYMBOLS.iter().find(|x| x.0 == t).unwrap()
}

trait Ref {
    fn bytes(&self, o: &mut Vec<u8>);
    fn json(&self) -> Value;
}
impl Ref for u32 {
    fn bytes(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_le_bytes())
    }
    fn json(&self) -> Value {
        json!(self)
    }
}
impl Ref for u128 {
    fn bytes(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.to_le_bytes())
    }
    fn json(&self) -> Value {
        json!(decimal(*self))
    }
}
fn decimal(mut v: u128) -> String {
    let mut d = vec![];
    loop {
        d.push(b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}
impl Ref for Acc {
    fn bytes(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(self)
    }
    fn json(&self) -> Value {
        Value::Array(self.iter().map(|b| json!(b)).collect())
    }
}
impl Ref for LpToken {
    fn bytes(&self, o: &mut Vec<u8>) {
        match self {
            LpToken::Token(t) => o.extend_from_slice(&[0, sym(*t).1]),
            LpToken::ForeignAsset(i) => {
                o.push(1);
                i.bytes(o)
            }
            LpToken::StableLpToken(i) => {
                o.push(2);
                i.bytes(o)
            }
        }
    }
    fn json(&self) -> Value {
        match self {
            LpToken::Token(t) => json!({"token": sym(*t).2}),
            LpToken::ForeignAsset(i) => json!({ "foreignAsset": i }),
            LpToken::StableLpToken(i) => json!({ "stableLpToken": i }),
        }
    }
}
impl Ref for CurrencyId {
    fn bytes(&self, o: &mut Vec<u8>) {
        match self {
            CurrencyId::Token(t) => o.extend_from_slice(&[0, sym(*t).1]),
            CurrencyId::ForeignAsset(i) => {
                o.push(1);
                i.bytes(o)
            }
            CurrencyId::LendToken(i) => {
                o.push(2);
                i.bytes(o)
            }
            CurrencyId::LpToken(a, b) => {
                o.push(3);
                a.bytes(o);
                b.bytes(o)
            }
            CurrencyId::StableLpToken(i) => {
                o.push(4);
                i.bytes(o)
            }
        }
    }
    fn json(&self) -> Value {
        match self {
            CurrencyId::Token(t) => json!({"token": sym(*t).2}),
            CurrencyId::ForeignAsset(i) => json!({ "foreignAsset": i }),
            CurrencyId::LendToken(i) => json!({ "lendToken": i }),
            CurrencyId::LpToken(a, b) => json!({"lpToken": [a.json(), b.json()]}),
            CurrencyId::StableLpToken(i) => json!({ "stableLpToken": i }),
        }
    }
}
impl Ref for VaultId<Acc, CurrencyId> {
    fn bytes(&self, o: &mut Vec<u8>) {
        self.account_id.bytes(o);
        self.currencies.collateral.bytes(o);
        self.currencies.wrapped.bytes(o);
    }
    fn json(&self) -> Value {
        json!({"account_id": self.account_id.json(), "currencies": {"collateral": self.currencies.collateral.json(), "wrapped": self.currencies.wrapped.json()}})
    }
}
impl Ref for Address {
    fn bytes(&self, o: &mut Vec<u8>) {
        match self {
            Address::P2PKH(h) => {
                o.push(0);
                o.extend_from_slice(&h.0)
            }
            Address::P2SH(h) => {
                o.push(1);
                o.extend_from_slice(&h.0)
            }
            Address::P2WPKHv0(h) => {
                o.push(2);
                o.extend_from_slice(&h.0)
            }
            Address::P2WSHv0(h) => {
                o.push(3);
                o.extend_from_slice(&h.0)
            }
        }
    }
    fn json(&self) -> Value {
        let hex = |b: &[u8]| format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
        match self {
            Address::P2PKH(h) => json!({"P2PKH": hex(&h.0)}),
            Address::P2SH(h) => json!({"P2SH": hex(&h.0)}),
            Address::P2WPKHv0(h) => json!({"P2WPKHv0": hex(&h.0)}),
            Address::P2WSHv0(h) => json!({"P2WSHv0": hex(&h.0)}),
        }
    }
}
fn issue_status(s: &IssueRequestStatus) -> (Vec<u8>, Value) {
    match s {
        IssueRequestStatus::Pending => (vec![0], json!("pending")),
        IssueRequestStatus::Completed => (vec![1], json!("completed")),
        IssueRequestStatus::Cancelled => (vec![2], json!("cancelled")),
    }
}
fn redeem_status(s: &RedeemRequestStatus) -> (Vec<u8>, Value) {
    match s {
        RedeemRequestStatus::Pending => (vec![0], json!("pending")),
        RedeemRequestStatus::Completed => (vec![1], json!("completed")),
        RedeemRequestStatus::Reimbursed(b) => (vec![2, *b as u8], json!({ "reimbursed": b })),
        RedeemRequestStatus::Retried => (vec![3], json!("retried")),
    }
}
fn replace_status(s: &ReplaceRequestStatus) -> (Vec<u8>, Value) {
    match s {
        ReplaceRequestStatus::Pending => (vec![0], json!("pending")),
        ReplaceRequestStatus::Completed => (vec![1], json!("completed")),
        ReplaceRequestStatus::Cancelled => (vec![2], json!("cancelled")),
    }
}

impl Rec {
    fn reference(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            Rec::Issue(r) => {
                r.vault.bytes(&mut o);
                r.opentime.bytes(&mut o);
                r.period.bytes(&mut o);
                r.griefing_collateral.bytes(&mut o);
                r.griefing_currency.bytes(&mut o);
                r.amount.bytes(&mut o);
                r.fee.bytes(&mut o);
                r.requester.bytes(&mut o);
                r.btc_address.bytes(&mut o);
                o.extend_from_slice(&r.btc_public_key.0);
                r.btc_height.bytes(&mut o);
                o.extend(issue_status(&r.status).0);
            }
            Rec::Redeem(r) => {
                r.vault.bytes(&mut o);
                r.opentime.bytes(&mut o);
                r.period.bytes(&mut o);
                r.fee.bytes(&mut o);
                r.transfer_fee_btc.bytes(&mut o);
                r.amount_btc.bytes(&mut o);
                r.premium.bytes(&mut o);
                r.redeemer.bytes(&mut o);
                r.btc_address.bytes(&mut o);
                r.btc_height.bytes(&mut o);
                o.extend(redeem_status(&r.status).0);
            }
            Rec::Replace(r) => {
                r.old_vault.bytes(&mut o);
                r.new_vault.bytes(&mut o);
                r.amount.bytes(&mut o);
                r.griefing_collateral.bytes(&mut o);
                r.collateral.bytes(&mut o);
                r.accept_time.bytes(&mut o);
                r.period.bytes(&mut o);
                r.btc_address.bytes(&mut o);
                r.btc_height.bytes(&mut o);
                o.extend(replace_status(&r.status).0);
            }
            Rec::Vault(v) => v.bytes(&mut o),
            Rec::Currency(c) => c.bytes(&mut o),
            Rec::Key(Key::ExchangeRate(c)) => {
                o.push(0);
                c.bytes(&mut o)
            }
            Rec::Key(Key::FeeEstimation) => o.push(1),
            Rec::Meta(m) => {
                m.fee_per_second.bytes(&mut o);
                // compact length
                let n = m.coingecko_id.len() as u32;
                if n < 64 {
                    o.push((n << 2) as u8);
                } else {
                    o.extend_from_slice(&(((n << 2) | 1) as u16).to_le_bytes());
                }
                o.extend_from_slice(&m.coingecko_id);
            }
        }
        o
    }
    fn encoded(&self) -> Vec<u8> {
        match self {
            Rec::Issue(r) => r.encode(),
            Rec::Redeem(r) => r.encode(),
            Rec::Replace(r) => r.encode(),
            Rec::Vault(r) => r.encode(),
            Rec::Currency(r) => r.encode(),
            Rec::Key(r) => r.encode(),
            Rec::Meta(r) => r.encode(),
        }
    }
    /// The size the node reserves for such a record.
    fn room(&self) -> usize {
        fn of<T: MaxEncodedLen>(_: &T) -> usize {
            T::max_encoded_len()
        }
        match self {
            Rec::Issue(r) => of(r),
            Rec::Redeem(r) => of(r),
            Rec::Replace(r) => of(r),
            Rec::Vault(r) => of(r),
            Rec::Currency(r) => of(r),
            Rec::Key(r) => of(r),
            Rec::Meta(_) => usize::MAX,
        }
    }
    /// Decodes a record of the same kind; returns it with the number of bytes consumed.
    fn decode(kind: usize, b: &[u8]) -> Option<(Rec, usize)> {
        let mut s = b;
        let r = match kind {
            0 => Rec::Issue(Decode::decode(&mut s).ok()?),
            1 => Rec::Redeem(Decode::decode(&mut s).ok()?),
            2 => Rec::Replace(Decode::decode(&mut s).ok()?),
            3 => Rec::Vault(Decode::decode(&mut s).ok()?),
            4 => Rec::Currency(Decode::decode(&mut s).ok()?),
            5 => Rec::Key(Decode::decode(&mut s).ok()?),
            _ => Rec::Meta(Decode::decode(&mut s).ok()?),
        };
        Some((r, b.len() - s.len()))
    }
    fn kind(&self) -> usize {
        match self {
            Rec::Issue(_) => 0,
            Rec::Redeem(_) => 1,
            Rec::Replace(_) => 2,
            Rec::Vault(_) => 3,
            Rec::Currency(_) => 4,
            Rec::Key(_) => 5,
            Rec::Meta(_) => 6,
        }
    }
    /// What a client is told, in the fields' documented names; None where it is not served.
    fn ref_json(&self) -> Option<Value> {
        Some(match self {
            Rec::Issue(r) => json!({
                "vault": r.vault.json(), "opentime": r.opentime, "period": r.period,
                "griefing_collateral": r.griefing_collateral.json(), "griefing_currency": r.griefing_currency.json(),
                "amount": r.amount.json(), "fee": r.fee.json(), "requester": r.requester.json(),
                "btc_address": r.btc_address.json(), "btc_public_key": serde_json::to_value(&r.btc_public_key).ok()?,
                "btc_height": r.btc_height, "status": issue_status(&r.status).1}),
            Rec::Redeem(r) => json!({
                "vault": r.vault.json(), "opentime": r.opentime, "period": r.period, "fee": r.fee.json(),
                "transfer_fee_btc": r.transfer_fee_btc.json(), "amount_btc": r.amount_btc.json(), "premium": r.premium.json(),
                "redeemer": r.redeemer.json(), "btc_address": r.btc_address.json(), "btc_height": r.btc_height,
                "status": redeem_status(&r.status).1}),
            Rec::Replace(r) => json!({
                "old_vault": r.old_vault.json(), "new_vault": r.new_vault.json(), "amount": r.amount.json(),
                "griefing_collateral": r.griefing_collateral.json(), "collateral": r.collateral.json(),
                "accept_time": r.accept_time, "period": r.period, "btc_address": r.btc_address.json(),
                "btc_height": r.btc_height, "status": replace_status(&r.status).1}),
            Rec::Vault(v) => v.json(),
            Rec::Currency(c) => c.json(),
            Rec::Key(Key::ExchangeRate(c)) => json!({"exchangeRate": c.json()}),
            Rec::Key(Key::FeeEstimation) => json!("feeEstimation"),
            Rec::Meta(_) => return None,
        })
    }
    fn to_json(&self) -> Option<String> {
        match self {
            Rec::Issue(r) => serde_json::to_string(r).ok(),
            Rec::Redeem(r) => serde_json::to_string(r).ok(),
            Rec::Replace(r) => serde_json::to_string(r).ok(),
            Rec::Vault(r) => serde_json::to_string(r).ok(),
            Rec::Currency(r) => serde_json::to_string(r).ok(),
            Rec::Key(r) => serde_json::to_string(r).ok(),
            Rec::Meta(_) => None,
        }
    }
    fn from_json(kind: usize, s: &str) -> Option<Rec> {
        Some(match kind {
            0 => Rec::Issue(serde_json::from_str(s).ok()?),
            1 => Rec::Redeem(serde_json::from_str(s).ok()?),
            2 => Rec::Replace(serde_json::from_str(s).ok()?),
            3 => Rec::Vault(serde_json::from_str(s).ok()?),
            4 => Rec::Currency(serde_json::from_str(s).ok()?),
            _ => Rec::Key(serde_json::from_str(s).ok()?),
        })
    }
}

fn lp(src: &mut Src) -> LpToken {
    match src.below(3) {
        0 => LpToken::Token(src.pick(SYMBOLS).0),
        1 => LpToken::ForeignAsset(id(src)),
        _ => LpToken::StableLpToken(id(src)),
    }
}
fn id(src: &mut Src) -> u32 {
    if src.bool() {
        src.below(4) as u32
    } else {
        src.magnitude(u32::MAX as u128) as u32
    }
}
fn currency(src: &mut Src) -> CurrencyId {
    match src.below(5) {
        0 => CurrencyId::Token(src.pick(SYMBOLS).0),
        1 => CurrencyId::ForeignAsset(id(src)),
        2 => CurrencyId::LendToken(id(src)),
        3 => CurrencyId::LpToken(lp(src), lp(src)),
        _ => CurrencyId::StableLpToken(id(src)),
    }
}
fn vault(src: &mut Src) -> VaultId<Acc, CurrencyId> {
    VaultId { account_id: src.array(), currencies: VaultCurrencyPair { collateral: currency(src), wrapped: currency(src) } }
}
fn address(src: &mut Src) -> Address {
    match src.below(4) {
        0 => Address::P2PKH(H160(src.array())),
        1 => Address::P2SH(H160(src.array())),
        2 => Address::P2WPKHv0(H160(src.array())),
        _ => Address::P2WSHv0(H256(src.array())),
    }
}
fn amt(src: &mut Src) -> u128 {
    src.magnitude(u128::MAX)
}
fn num(src: &mut Src) -> u32 {
    src.magnitude(u32::MAX as u128) as u32
}
fn record(src: &mut Src) -> Rec {
    match src.below(7) {
        0 => Rec::Issue(IssueRequest {
            vault: vault(src),
            opentime: num(src),
            period: num(src),
            griefing_collateral: amt(src),
            griefing_currency: currency(src),
            amount: amt(src),
            fee: amt(src),
            requester: src.array(),
            btc_address: address(src),
            btc_public_key: PublicKey(src.array()),
            btc_height: num(src),
            status: src.pick(&[IssueRequestStatus::Pending, IssueRequestStatus::Completed, IssueRequestStatus::Cancelled]).clone(),
        }),
        1 => Rec::Redeem(RedeemRequest {
            vault: vault(src),
            opentime: num(src),
            period: num(src),
            fee: amt(src),
            transfer_fee_btc: amt(src),
            amount_btc: amt(src),
            premium: amt(src),
            redeemer: src.array(),
            btc_address: address(src),
            btc_height: num(src),
            status: src
                .pick(&[
                    RedeemRequestStatus::Pending,
                    RedeemRequestStatus::Completed,
                    RedeemRequestStatus::Reimbursed(false),
                    RedeemRequestStatus::Reimbursed(true),
                    RedeemRequestStatus::Retried,
                ])
                .clone(),
        }),
        2 => Rec::Replace(ReplaceRequest {
            old_vault: vault(src),
            new_vault: vault(src),
            amount: amt(src),
            griefing_collateral: amt(src),
            collateral: amt(src),
            accept_time: num(src),
            period: num(src),
            btc_address: address(src),
            btc_height: num(src),
            status: src.pick(&[ReplaceRequestStatus::Pending, ReplaceRequestStatus::Completed, ReplaceRequestStatus::Cancelled]).clone(),
        }),
        3 => Rec::Vault(vault(src)),
        4 => Rec::Currency(currency(src)),
        5 => Rec::Key(if src.bool() { Key::ExchangeRate(currency(src)) } else { Key::FeeEstimation }),
        _ => {
            let n = *src.pick(&[0usize, 1, 7, 63, 64, 200]);
            Rec::Meta(CustomMetadata { fee_per_second: amt(src), coingecko_id: src.bytes(n) })
        }
    }
}

pub struct Records {
    /// Bytes that reached the disk, and the records they stand for with their ends.
    disk: Vec<u8>,
    index: Vec<(Rec, usize)>,
    /// Responses on the way to a client.
    link: Vec<(Rec, String)>,
    /// Pools known by their canonical names: unordered pair of members -> name.
    pools: Vec<((LpToken, LpToken), CurrencyId)>,
    n: usize,
}

impl Records {
    fn restart(&mut self, ctx: &mut Ctx) -> Res {
        let mut at = 0;
        let mut seen = 0;
        for (r, end) in &self.index {
            match Rec::decode(r.kind(), &self.disk[at..]) {
                Some((got, used)) => {
                    ctx.check("P01", "stored record changed", got == *r && at + used == *end, || {
                        format!("stored {r:?} read back as {got:?}, {used} bytes of {}", end - at)
                    })?;
                    at = *end;
                    seen += 1;
                    ctx.nontrivial = true;
                }
                None => break,
            }
        }
        ctx.check("P01", "stored record lost", seen == self.index.len(), || format!("{} of {} stored records are readable", seen, self.index.len()))
    }
    fn name(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        const P: &str = "P02";
        let (a, b) = if src.chance(1, 3) && !self.pools.is_empty() {
            let i = src.usize(self.pools.len());
            ctx.probe("a known pool named again");
            self.pools[i].0
        } else {
            (lp(src), lp(src))
        };
        let (a, b) = if src.bool() { (a, b) } else { (b, a) };
        let (ca, cb): (CurrencyId, CurrencyId) = (a.into(), b.into());
        let same = |c: &CurrencyId, l: &LpToken| match (c, l) {
            (CurrencyId::Token(x), LpToken::Token(y)) => x == y,
            (CurrencyId::ForeignAsset(x), LpToken::ForeignAsset(y)) => x == y,
            (CurrencyId::StableLpToken(x), LpToken::StableLpToken(y)) => x == y,
            _ => false,
        };
        ctx.nontrivial = true;
        ctx.event(hash_str(&format!("{a:?}{b:?}")));
        ctx.check(P, "member currency differs", same(&ca, &a) && same(&cb, &b), || format!("{a:?} -> {ca:?}, {b:?} -> {cb:?}"))?;
        ctx.check(P, "member refused", ca.is_lp_token() && cb.is_lp_token(), || format!("{ca:?} {cb:?}"))?;
        let joined = CurrencyId::join_lp_token(ca, cb);
        ctx.check(P, "pool name", joined == Some(CurrencyId::LpToken(a, b)), || format!("{ca:?} + {cb:?} = {joined:?}"))?;
        let mut name = joined.unwrap_or(CurrencyId::LpToken(a, b));
        name.sort();
        let mut again = name;
        again.sort();
        ctx.check(P, "canonical name not stable", again == name, || format!("{name:?} sorts to {again:?}"))?;
        let mut rev = CurrencyId::LpToken(b, a);
        rev.sort();
        ctx.check(P, "order of members matters", rev == name, || format!("{name:?} and {rev:?} name the same pool"))?;
        let members = match name {
            CurrencyId::LpToken(x, y) => (x == a && y == b) || (x == b && y == a),
            _ => false,
        };
        ctx.check(P, "canonical name has other members", members, || format!("({a:?},{b:?}) is named {name:?}"))?;
        for ((x, y), n) in &self.pools {
            let eq = (*x == a && *y == b) || (*x == b && *y == a);
            ctx.check(P, "pools confused", (*n == name) == eq, || format!("({x:?},{y:?}) is {n:?}, ({a:?},{b:?}) is {name:?}"))?;
        }
        // the order that canonical names follow: by kind, then by number
        let rank = |l: &LpToken| match l {
            LpToken::Token(t) => (0, sym(*t).1 as u32),
            LpToken::ForeignAsset(i) => (1, *i),
            LpToken::StableLpToken(i) => (2, *i),
        };
        if let CurrencyId::LpToken(x, y) = name {
            ctx.check(P, "canonical order", rank(&x) <= rank(&y), || format!("{name:?}"))?;
        }
        self.pools.push(((a, b), name));
        // anything else
        let c = currency(src);
        let d = if src.bool() { ca } else { currency(src) };
        let member = |c: &CurrencyId| matches!(c, CurrencyId::Token(_) | CurrencyId::ForeignAsset(_) | CurrencyId::StableLpToken(_));
        ctx.check(P, "membership", c.is_lp_token() == member(&c), || format!("{c:?}"))?;
        ctx.check(P, "lend token test", c.is_lend_token() == matches!(c, CurrencyId::LendToken(_)), || format!("{c:?}"))?;
        let (j1, j2) = (CurrencyId::join_lp_token(c, d), CurrencyId::join_lp_token(d, c));
        ctx.check(P, "pool of what cannot be pooled", j1.is_some() == (member(&c) && member(&d)) && j2.is_some() == j1.is_some(), || {
            format!("{c:?} + {d:?} = {j1:?}, reversed {j2:?}")
        })?;
        let mut s = c;
        s.sort();
        if !matches!(c, CurrencyId::LpToken(..)) {
            ctx.check(P, "sorting changes a plain currency", s == c, || format!("{c:?} -> {s:?}"))?;
        }
        Ok(())
    }
    fn token(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        const P: &str = "P02";
        ctx.nontrivial = true;
        let v = src.u8();
        let v = if src.bool() { v % 14 } else { v };
        let want = SYMBOLS.iter().find(|x| x.1 == v).map(|x| x.0);
        ctx.event(v as u64);
        let got = TokenSymbol::try_from(v).ok();
        ctx.check(P, "token number", got == want, || format!("{v} is {got:?}, expected {want:?}"))?;
        let (t, n, s, name, dec) = *src.pick(SYMBOLS);
        let back: u8 = t.into();
        ctx.check(P, "token number", back == n && t as u8 == n, || format!("{t:?} is numbered {back}, expected {n}"))?;
        let info = <TokenSymbol as CurrencyInfo>::decimals(&t) as u32 == dec
            && CurrencyInfo::symbol(&t) == s
            && CurrencyInfo::name(&t) == name
            && t.one() == 10u128.pow(dec)
            && TokenSymbol::get_info().iter().filter(|x| x.0 == s && x.1 == dec).count() == 1
            && TokenSymbol::get_info().len() == SYMBOLS.len();
        ctx.check(P, "token facts", info, || format!("{t:?}: {} {} {} {}", CurrencyInfo::name(&t), CurrencyInfo::symbol(&t), CurrencyInfo::decimals(&t), t.one()))?;
        // a symbol as a client may write it
        let mut w = s.as_bytes().to_vec();
        match src.below(6) {
            1 => {
                w.pop();
            }
            2 => w.push(*src.pick(b"ST ")),
            3 => w = w.to_ascii_lowercase(),
            4 => {
                let i = src.usize(w.len());
                w[i] = src.u8()
            }
            5 => w.clear(),
            _ => {}
        }
        let want = SYMBOLS.iter().find(|x| x.2.as_bytes() == &w[..]).map(|x| x.0);
        let got = TokenSymbol::try_from(w.clone()).ok();
        ctx.check(P, "token symbol", got == want, || format!("{:?} is {got:?}, expected {want:?}", String::from_utf8_lossy(&w)))?;
        // vault identities
        let v = vault(src);
        let (a, c, wr) = (v.account_id, v.currencies.collateral, v.currencies.wrapped);
        let ways = [VaultId::new(a, c, wr), VaultId::from_pair(a, v.currencies.clone()), VaultId::from((a, v.currencies.clone()))];
        ctx.check(P, "vault identity", ways.iter().all(|x| *x == v) && v.collateral_currency() == c && v.wrapped_currency() == wr, || {
            format!("{v:?} is built as {ways:?}, collateral {:?}, wrapped {:?}", v.collateral_currency(), v.wrapped_currency())
        })
    }
}

impl Scenario for Records {
    const NAME: &'static str = "records";
    fn real() -> &'static [&'static str] {
        &["primitives (records, currency and vault identities, their SCALE and JSON forms)", "bitcoin::Address, PublicKey"]
    }
    fn stubs() -> &'static [&'static str] {
        &["disk", "client link", "the node around the records"]
    }
    fn new(src: &mut Src, _ctx: &mut Ctx) -> Self {
        Records { disk: vec![], index: vec![], link: vec![], pools: vec![], n: 4 + src.usize(12) }
    }
    fn steps(&self) -> usize {
        self.n
    }
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        ctx.sim_time += 1;
        let w: &[u32] = if ctx.is("P02") { &[1, 1, 0, 0, 0, 8, 6] } else { &[8, 4, 4, 4, 3, 0, 0] };
        match src.weighted(w) {
            0 => {
                // write some records, perhaps losing power in the middle
                let k = 1 + src.usize(3);
                for _ in 0..k {
                    let r = record(src);
                    let b = r.encoded();
                    let want = r.reference();
                    ctx.note(|| format!("write {r:?}"));
                    ctx.event(hash_str(&format!("{b:?}")));
                    ctx.check("P01", "stored form differs", b == want, || format!("{r:?} is stored as {b:02x?}, the chain has it as {want:02x?}"))?;
                    ctx.check("P01", "record larger than its room", b.len() <= r.room(), || format!("{r:?} takes {} bytes of {}", b.len(), r.room()))?;
                    self.disk.extend_from_slice(&b);
                    self.index.push((r, self.disk.len()));
                }
                if src.chance(1, 3) {
                    ctx.fault("torn write");
                    let last = if self.index.len() > k { self.index[self.index.len() - k - 1].1 } else { 0 };
                    let keep = last + src.usize(self.disk.len() - last + 1);
                    self.disk.truncate(keep);
                    // the record cut in two must be recognised as damaged
                    let cut = self.index.iter().find(|x| x.1 > keep).cloned();
                    self.index.retain(|x| x.1 <= keep);
                    let start = self.index.last().map(|x| x.1).unwrap_or(0);
                    if let Some((r, _)) = cut {
                        let got = Rec::decode(r.kind(), &self.disk[start..]);
                        ctx.nontrivial = true;
                        ctx.check("P01", "torn record accepted", got.is_none(), || format!("{} bytes of {r:?} read as {got:?}", keep - start))?;
                    }
                    self.disk.truncate(start);
                }
                Ok(())
            }
            1 => {
                ctx.fault("restart");
                self.restart(ctx)
            }
            2 => {
                // bytes written by the network's software so far
                let r = record(src);
                let b = r.reference();
                let got = Rec::decode(r.kind(), &b);
                ctx.nontrivial = true;
                ctx.event(hash_str(&format!("{b:?}")));
                ctx.probe("record written by an earlier version");
                ctx.check("P01", "earlier record misread", got == Some((r.clone(), b.len())), || format!("{r:?} stored as {b:02x?} reads as {got:?}"))?;
                // damage on the disk
                let mut d = b.clone();
                ctx.fault("disk corruption");
                for _ in 0..1 + src.usize(2) {
                    let i = src.usize(d.len());
                    d[i] = if src.bool() { d[i] ^ (1 << src.below(8)) } else { src.u8() };
                }
                if let Some((x, used)) = Rec::decode(r.kind(), &d) {
                    let back = x.reference();
                    ctx.check("P01", "damaged record read as another one", back == d[..used], || {
                        format!("bytes {d:02x?} read as {x:?}, which is stored as {back:02x?}")
                    })?;
                }
                Ok(())
            }
            3 => {
                // serve one
                let r = if !self.index.is_empty() && src.bool() { self.index[src.usize(self.index.len())].0.clone() } else { record(src) };
                let Some(want) = r.ref_json() else { return Ok(()) };
                let s = r.to_json();
                ctx.nontrivial = true;
                ctx.event(hash_str(&want.to_string()));
                let got: Option<Value> = s.as_ref().and_then(|s| serde_json::from_str(s).ok());
                ctx.check("P01", "served form differs", got.as_ref() == Some(&want), || format!("{r:?} is served as {s:?}, expected {want}"))?;
                if let Some(s) = s {
                    self.link.push((r, s));
                }
                let a = amt(src);
                let w = BalanceWrapper { amount: a };
                let s = serde_json::to_value(&w).ok();
                let want = json!({ "amount": decimal(a) });
                ctx.check("P01", "served amount differs", s.as_ref() == Some(&want), || format!("{a} is served as {s:?}"))?;
                let back: Option<BalanceWrapper<u128>> = serde_json::from_value(want).ok();
                ctx.check("P01", "amount misread", back.map(|b| b.amount) == Some(a), || format!("{a} is lost on its way to the client"))?;
                if src.bool() {
                    let bad = src.pick(&["", "-1", "1.5", "340282366920938463463374607431768211456", "0x10", "1e3", " 1", "1 "]).to_string();
                    let back: Option<BalanceWrapper<u128>> = serde_json::from_value(json!({ "amount": bad })).ok();
                    ctx.check("P01", "not an amount, yet read", back.is_none(), || format!("{bad:?} read as {}", back.as_ref().unwrap().amount))?;
                }
                Ok(())
            }
            4 => {
                // a client receives
                if self.link.is_empty() {
                    return Ok(());
                }
                let i = src.usize(self.link.len());
                let (r, s) = self.link[i].clone();
                match src.below(4) {
                    0 => {
                        ctx.fault("duplicated response");
                    }
                    1 if s.len() > 2 => {
                        ctx.fault("truncated response");
                        let cut = src.usize(s.len() - 1).max(1);
                        if s.is_char_boundary(cut) {
                            let got = Rec::from_json(r.kind(), &s[..cut]);
                            ctx.check("P01", "truncated response accepted", got.is_none(), || format!("{:?} read as {got:?}", &s[..cut]))?;
                        }
                    }
                    2 => {
                        ctx.fault("lost response");
                        self.link.swap_remove(i);
                        return Ok(());
                    }
                    _ => {
                        self.link.swap_remove(i);
                    }
                }
                let got = Rec::from_json(r.kind(), &s);
                ctx.nontrivial = true;
                ctx.check("P01", "record changed on its way", got.as_ref() == Some(&r), || format!("{r:?} arrives as {got:?}"))
            }
            5 => self.name(src, ctx),
            _ => self.token(src, ctx),
        }
    }
    fn finish(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        while !self.link.is_empty() {
            let (r, s) = self.link.pop().unwrap();
            let got = Rec::from_json(r.kind(), &s);
            ctx.check("P01", "record changed on its way", got.as_ref() == Some(&r), || format!("{r:?} arrives as {got:?}"))?;
        }
        self.restart(ctx)?;
        if ctx.is("P02") {
            self.name(src, ctx)?;
            self.token(src, ctx)?;
        }
        Ok(())
    }
}
