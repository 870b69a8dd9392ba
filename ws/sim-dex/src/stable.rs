//! The rules of the stable pools. What a call gives follows from the curve through the pool's
//! balances; the chain computes that with whole numbers, so that the rules give bounds, and a state
//! which lies between them everywhere.
use crate::{num::*, world::*};
use primitive_types::U512;

const FEES: u128 = 10_000_000_000;
const ONE: u128 = 1_000_000_000_000_000_000;
/// how old the base pool's price may be, in seconds
const PRICE_AGE: u64 = 600;
/// how far off the chain's whole numbers may be
const TOL: u128 = 4;

pub enum Verdict {
    Refuse(&'static str),
    /// where computing is beyond the chain's numbers
    Unknown,
    /// the state after the call, if it is accepted; and whether it may be refused
    Accept { exp: Result<World, String>, may_refuse: bool },
}
use Verdict::*;

/// A pool as the curve sees it.
struct Curve {
    q: usize,
    x: Vec<u128>,
    amp: u128,
    vp: u128,
    total: u128,
    lp: usize,
    acct: usize,
    /// a new price is bounded only
    loose: bool,
}
struct Iv(Fx, Fx);

fn fx(x: &[u128]) -> Vec<Fx> {
    x.iter().map(|x| Fx::of(*x)).collect()
}
fn log(x: f64) -> f64 {
    x.max(1.0).log2()
}
/// Whether the chain's numbers may not do for these balances.
pub fn wild(x: &[u128]) -> bool {
    let n = x.len() as f64;
    let s: f64 = x.iter().map(|x| *x as f64).sum();
    let p = (n + 1.0) * log(s) - n * n.log2() - x.iter().map(|x| log(*x as f64)).sum::<f64>();
    log(s) > 124.0 || p.max(log(s)) + log(s) > 215.0
}
thread_local! {
    /// Whether a pool so uneven was met that the chain's numbers may not settle: its Newton steps
    /// round by as much as the whole is of the least balance, and can go round in a circle.
    static UNEVEN: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
fn slack(x: &[Fx], without: usize) -> Fx {
    let it = || x.iter().enumerate().filter(|(i, _)| *i != without).map(|x| *x.1);
    let (Some(lo), Some(hi)) = (it().min(), it().max()) else { return Fx::of(TOL) };
    if lo == ZERO {
        return Fx::of(TOL);
    }
    let r = (hi.0 / lo.0).min(U512::from(u64::MAX)).as_u128();
    let n = it().count() as u64;
    let mean = it().fold(0.0, |a, x| a + x.f()) / n as f64;
    if it().map(|x| (mean / x.f()).max(1.0)).product::<f64>() > 10.0 {
        UNEVEN.with(|u| u.set(true));
    }
    Fx::of(TOL + r)
}
fn bounds(x: &[u128], amp: u128) -> Option<Iv> {
    let d = curve(&fx(x), amp)?;
    let t = slack(&fx(x), usize::MAX);
    Some(Iv(d.minus(t), d.plus(t)))
}
fn get_y(x: &[Fx], j: usize, amp: u128, d: &Iv) -> Option<Iv> {
    let a = on_curve(x, j, amp, d.0)?;
    let b = on_curve(x, j, amp, d.1)?;
    let t = slack(x, j);
    Some(Iv(a.minus(t), b.plus(t)))
}
/// d1 / d0 of x, at least and at most
fn part(x: u128, d1: &Iv, d0: &Iv) -> Option<(u128, u128)> {
    if d0.0 == ZERO {
        return None;
    }
    let f = Fx::of(x);
    Some((f.mul_div(d1.0, d0.1).floor(), f.mul_div(d1.1, d0.0).floor() + 1))
}
fn apart(x: u128, lo: u128, hi: u128) -> (u128, u128) {
    let d = |a: u128, b: u128| if a > b { a - b } else { b - a };
    let least = if x >= lo && x <= hi { 0 } else { d(x, lo).min(d(x, hi)) };
    (least, d(x, lo).max(d(x, hi)))
}
fn within(what: &str, x: u128, lo: u128, hi: u128) -> Result<(), String> {
    if x >= lo && x <= hi {
        Ok(())
    } else {
        Err(format!("{what} is {x}, by the rules {lo} to {hi}"))
    }
}
macro_rules! or_unknown {
    ($x:expr) => {
        match $x {
            Some(x) => x,
            None => return Unknown,
        }
    };
}
macro_rules! or_refuse {
    ($x:expr, $e:expr) => {
        match $x {
            Some(x) => x,
            None => return Refuse($e),
        }
    };
}

impl World {
    pub fn amp(&self, q: usize) -> u128 {
        let p = &self.pool[q];
        let now = self.now as u128;
        if now >= p.fat {
            return p.fa;
        }
        let (t, all) = (now - p.iat, p.fat - p.iat);
        if p.fa > p.ia {
            p.ia + (p.fa - p.ia) * t / all
        } else {
            p.ia - (p.ia - p.fa) * t / all
        }
    }
    /// The balances as the curve sees them, with the base pool's shares at this price.
    fn scaled(&self, q: usize, bal: &[u128], vp: u128) -> Option<Vec<u128>> {
        let p = &self.pool[q];
        let mut x = vec![];
        for (b, m) in bal.iter().zip(&p.mult) {
            x.push(b.checked_mul(*m)?);
        }
        if p.meta.is_some() {
            let l = x.last_mut()?;
            *l = muldiv(*l, vp, ONE)?;
        }
        Some(x)
    }
    /// Whether the price of the base pool's shares has to be taken anew.
    pub fn old_price(&self, q: usize) -> bool {
        self.pool[q].meta.map_or(false, |(_, _, at)| self.now > at + PRICE_AGE)
    }
    /// The price which the meta pool counts its base's shares at.
    fn base_price(&self, q: usize) -> Option<(u128, u128)> {
        match self.pool[q].meta {
            None => Some((ONE, ONE)),
            Some((b, _, _)) if self.old_price(q) => self.price(b),
            Some((_, v, _)) => Some((v, v)),
        }
    }
    /// What a pool's share is worth, at least and at most.
    pub fn price(&self, q: usize) -> Option<(u128, u128)> {
        let total = self.iss[S0 + q];
        if total == 0 {
            return None;
        }
        let v = self.base_price(q)?;
        let f = |v: u128, up: bool| -> Option<u128> {
            let x = self.scaled(q, &self.pool[q].bal, v)?;
            let d = bounds(&x, self.amp(q))?;
            let r = (if up { d.1 } else { d.0 }).0 * U512::from(ONE) / U512::from(total) >> 64;
            u128::try_from(r).ok()
        };
        Some((f(v.0, false)?, f(v.1, true)?))
    }

    /// The pool with the price it uses now, and w with that price.
    fn look(&self, q: usize, act: &World, accepted: bool, w: &mut World) -> Result<Result<Curve, Verdict>, String> {
        let p = &self.pool[q];
        let mut vp = ONE;
        let mut loose = false;
        if let Some((b, v, at)) = p.meta {
            vp = v;
            if self.old_price(q) {
                if self.iss[S0 + b] == 0 {
                    return Ok(Err(Refuse("the base pool has no price")));
                }
                let Some((lo, hi)) = self.price(b) else { return Ok(Err(Unknown)) };
                loose = true;
                vp = lo / 2 + hi / 2;
                let mut t = at;
                if accepted {
                    let (_, v, a) = act.pool[q].meta.ok_or("not a meta pool any more")?;
                    vp = v;
                    t = a;
                    within("the base's price", v, lo, hi)?;
                    if t != self.now {
                        return Err(format!("the base's price is of {t}, now is {}", self.now));
                    }
                }
                w.pool[q].meta = Some((b, vp, t));
            }
        }
        let Some(x) = self.scaled(q, &p.bal, vp) else { return Ok(Err(Unknown)) };
        Ok(Ok(Curve { q, x, amp: self.amp(q), vp, total: self.iss[S0 + q], lp: S0 + q, acct: POOL0 + q, loose }))
    }

    pub fn stable(&self, op: &Op, act: &World, ok: bool) -> Verdict {
        UNEVEN.with(|u| u.set(false));
        match self.verdict(op, act, ok) {
            Accept { exp, may_refuse } => Accept { exp, may_refuse: may_refuse || UNEVEN.with(|u| u.get()) },
            v => v,
        }
    }
    fn verdict(&self, op: &Op, act: &World, ok: bool) -> Verdict {
        let dl = match op {
            Op::AddL { dl, .. } | Op::Swap { dl, .. } | Op::RemoveL { dl, .. } | Op::RemoveOne { dl, .. } | Op::RemoveSome { dl, .. } => *dl,
            _ => self.block + 1,
        };
        if dl <= self.block {
            return Refuse("too late");
        }
        if let Op::Swap { i, j, .. } = op {
            if i == j {
                return Refuse("same currency");
            }
        }
        let q = match op {
            Op::AddL { q, .. } | Op::Swap { q, .. } | Op::RemoveL { q, .. } | Op::RemoveOne { q, .. } | Op::RemoveSome { q, .. } => *q,
            _ => return self.manage(op, act, ok),
        };
        if q >= self.pool.len() {
            return Refuse("no such pool");
        }
        let mut w = self.clone();
        if let Op::RemoveL { who, l, min, to, .. } = op {
            return match self.remove_all(&mut w, q, *who, *l, min, *to) {
                Ok(()) => Accept { exp: Ok(w), may_refuse: false },
                Err(e) => Refuse(e),
            };
        }
        let n = self.pool[q].cur.len();
        match op {
            Op::AddL { x, .. } | Op::RemoveSome { x, .. } if x.len() != n => return Refuse("other currencies"),
            Op::RemoveOne { l: 0, .. } => return Refuse("nothing removed"),
            Op::RemoveOne { i, .. } if *i >= n => return Refuse("no such currency"),
            Op::Swap { i, j, .. } if *i >= n || *j >= n => return Refuse("no such currency"),
            _ => {}
        }
        let c = match self.look(q, act, ok, &mut w) {
            Ok(Ok(c)) => c,
            Ok(Err(v)) => return v,
            Err(e) => return Accept { exp: Err(e), may_refuse: false },
        };
        let v = match op {
            Op::Swap { who, i, j, x, min, to, .. } => self.trade(&mut w, &c, act, ok, *who, *i, *j, *x, *min, *to),
            Op::AddL { who, x, min, to, .. } => self.fill(&mut w, &c, act, ok, *who, x, *min, *to),
            Op::RemoveOne { who, l, i, min, to, .. } => self.take_one(&mut w, &c, act, ok, *who, *l, *i, *min, *to),
            Op::RemoveSome { who, x, max, to, .. } => self.take(&mut w, &c, act, ok, *who, x, *max, *to),
            _ => unreachable!(),
        };
        match v {
            // where a price of the base pool is hardly known
            Accept { exp, may_refuse } if c.loose => {
                let small = c.x.iter().any(|x| *x < 1_000_000) || c.total < 1_000_000;
                Accept { exp, may_refuse: may_refuse || small }
            }
            Refuse(_) if c.loose && c.total < 1_000_000 => Unknown,
            v => v,
        }
    }

    fn remove_all(&self, w: &mut World, q: usize, who: usize, l: u128, min: &[u128], to: usize) -> R<()> {
        let total = self.iss[S0 + q];
        if l == 0 {
            return Err("nothing removed");
        }
        if total < l {
            return Err("more than there is");
        }
        let n = self.pool[q].cur.len();
        if min.len() != n {
            return Err("other currencies");
        }
        for i in 0..n {
            let x = muldiv(self.pool[q].bal[i], l, total).ok_or("too much")?;
            if x < min[i] {
                return Err("less than asked for");
            }
            w.pool[q].bal[i] -= x;
            w.mv(self.pool[q].cur[i], POOL0 + q, to, x)?;
        }
        w.burn(S0 + q, who, l)
    }

    fn trade(&self, w: &mut World, c: &Curve, act: &World, ok: bool, who: usize, i: usize, j: usize, dx: u128, min: u128, to: usize) -> Verdict {
        let p = &self.pool[c.q];
        let last = p.cur.len() - 1;
        let (ci, cj) = (p.cur[i], p.cur[j]);
        if who != c.acct && self.free[who][ci] < dx {
            return Refuse("not enough tokens");
        }
        if c.x.iter().enumerate().any(|(k, x)| *x == 0 && k != i && k != j) || c.x[j] == 0 {
            return Refuse("the pool is empty");
        }
        let mut x = c.x.clone();
        let mut more = or_unknown!(dx.checked_mul(p.mult[i]));
        if p.meta.is_some() && i == last {
            more = or_unknown!(muldiv(more, c.vp, ONE));
        }
        x[i] = or_unknown!(x[i].checked_add(more));
        if x[i] == 0 || c.x[i] == 0 {
            return Refuse("the pool is empty");
        }
        if wild(&c.x) || wild(&x) {
            return Unknown;
        }
        let d = or_unknown!(bounds(&c.x, c.amp));
        let y = or_unknown!(get_y(&fx(&x), j, c.amp, &d));
        let gross = |y: Fx, up: bool| -> Option<u128> {
            let y = y.floor();
            let g = c.x[j].checked_sub(if up { y } else { y + 1 })?.checked_sub(1)?;
            if p.meta.is_some() && j == last { muldiv(g, ONE, c.vp) } else { Some(g) }
        };
        let net = |g: u128| -> Option<(u128, u128)> {
            let f = muldiv(g, p.fee, FEES)?;
            Some(((g - f) / p.mult[j], muldiv(f, p.adm, FEES)? / p.mult[j]))
        };
        let Some(hi) = gross(y.0, true) else { return Refuse("nothing to give") };
        let lo = gross(y.1, false);
        let (dy_hi, adm_hi) = or_unknown!(net(hi));
        let (dy_lo, adm_lo) = or_unknown!(net(lo.unwrap_or(0)));
        if dy_hi < min {
            return Refuse("less than asked for");
        }
        let may_refuse = lo.is_none() || dy_lo < min;
        if !ok {
            return Accept { exp: Ok(self.clone()), may_refuse };
        }
        let dy = self.free[c.acct][cj].wrapping_sub(act.free[c.acct][cj]);
        let adm = p.bal[j].wrapping_sub(act.pool[c.q].bal[j]).wrapping_sub(dy);
        let exp = (|| {
            within("what is given", dy, dy_lo.max(min), dy_hi)?;
            within("the admin's fee", adm, adm_lo, adm_hi)?;
            w.mv(ci, who, c.acct, dx)?;
            w.mv(cj, c.acct, to, dy)?;
            let b = &mut w.pool[c.q].bal;
            b[i] += dx;
            b[j] = b[j].checked_sub(dy).and_then(|b| b.checked_sub(adm)).ok_or("more than the pool has")?;
            Ok(w.clone())
        })();
        Accept { exp, may_refuse }
    }

    fn fee_part(&self, q: usize) -> u128 {
        let n = self.pool[q].cur.len() as u128;
        self.pool[q].fee * n / (4 * (n - 1))
    }
    /// What the pool keeps of each currency for not being in proportion, and of that the admin's part:
    /// (at least, at most)
    fn fees(&self, q: usize, new: &[u128], d1: &Iv, d0: &Iv) -> Option<Vec<[(u128, u128); 2]>> {
        let p = &self.pool[q];
        let mut r = vec![];
        for i in 0..new.len() {
            let (lo, hi) = part(p.bal[i], d1, d0)?;
            let (lo, hi) = apart(new[i], lo, hi);
            let f = self.fee_part(q);
            let (lo, hi) = (muldiv(lo, f, FEES)?, muldiv(hi, f, FEES)?);
            r.push([(lo, hi), (muldiv(lo, p.adm, FEES)?, muldiv(hi, p.adm, FEES)?)]);
        }
        Some(r)
    }
    /// Bounds of the curve after the fees.
    fn after(&self, q: usize, new: &[u128], fees: &[[(u128, u128); 2]], c: &Curve) -> Option<Option<Iv>> {
        let mut x = [vec![], vec![]];
        for (i, n) in new.iter().enumerate() {
            let Some(least) = n.checked_sub(fees[i][0].1) else { return Some(None) };
            x[0].push(least);
            x[1].push(n - fees[i][0].0);
        }
        let a = self.scaled(q, &x[0], c.vp)?;
        let b = self.scaled(q, &x[1], c.vp)?;
        if a.contains(&0) {
            return Some(None);
        }
        if wild(&a) || wild(&b) {
            return None;
        }
        Some(Some(Iv(bounds(&a, c.amp)?.0, bounds(&b, c.amp)?.1)))
    }
    fn admins(&self, w: &mut World, q: usize, act: &World, new: &[u128], fees: &[[(u128, u128); 2]]) -> Result<(), String> {
        for i in 0..new.len() {
            let adm = new[i].wrapping_sub(act.pool[q].bal[i]);
            within(&format!("the admin's fee of currency {i}"), adm, fees[i][1].0, fees[i][1].1)?;
            w.pool[q].bal[i] = act.pool[q].bal[i];
        }
        Ok(())
    }

    fn fill(&self, w: &mut World, c: &Curve, act: &World, ok: bool, who: usize, x: &[u128], min: u128, to: usize) -> Verdict {
        let p = &self.pool[c.q];
        if c.total == 0 && x.contains(&0) {
            return Refuse("not all currencies");
        }
        for i in 0..x.len() {
            if who != c.acct {
                if let Err(e) = w.mv(p.cur[i], who, c.acct, x[i]) {
                    return Refuse(e);
                }
            }
        }
        if x.iter().all(|x| *x == 0) {
            return Refuse("nothing added");
        }
        let mut new = vec![];
        for i in 0..x.len() {
            new.push(or_unknown!(p.bal[i].checked_add(x[i])));
        }
        let nx = or_unknown!(self.scaled(c.q, &new, c.vp));
        if nx.contains(&0) {
            return Refuse("an empty balance");
        }
        if c.total > 0 && c.x.contains(&0) {
            return Refuse("the pool is empty");
        }
        if wild(&nx) || c.total > 0 && wild(&c.x) {
            return Unknown;
        }
        let d1 = or_unknown!(bounds(&nx, c.amp));
        let mut may_refuse = false;
        let (lo, hi, fees);
        if c.total == 0 {
            (lo, hi) = (d1.0.floor(), d1.1.floor());
            fees = vec![[(0, 0); 2]; x.len()];
        } else {
            let d0 = or_unknown!(bounds(&c.x, c.amp));
            if d1.1 <= d0.0 {
                return Refuse("the pool does not grow");
            }
            may_refuse |= d1.0 <= d0.1;
            fees = or_unknown!(self.fees(c.q, &new, &d1, &d0));
            let d2 = match or_unknown!(self.after(c.q, &new, &fees, c)) {
                Some(d) => d,
                None => return Unknown,
            };
            may_refuse |= d2.0 < d0.1;
            let m = |d2: Fx, d0: Fx| -> Option<u128> { u128::try_from(d2.minus(d0).0 * U512::from(c.total) / d0.0).ok() };
            if d2.1 < d0.0 || d0.0 == ZERO {
                return Unknown;
            }
            lo = or_unknown!(m(d2.0, d0.1)).saturating_sub(1);
            hi = or_unknown!(m(d2.1, d0.0)) + 1;
        }
        if hi < min {
            return Refuse("less than asked for");
        }
        may_refuse |= lo < min;
        if !ok {
            return Accept { exp: Ok(self.clone()), may_refuse };
        }
        let got = act.iss[c.lp].wrapping_sub(self.iss[c.lp]);
        let exp = (|| {
            within("what is minted", got, lo.max(min), hi)?;
            self.admins(w, c.q, act, &new, &fees)?;
            w.mint(c.lp, to, got);
            Ok(w.clone())
        })();
        Accept { exp, may_refuse }
    }

    fn take_one(&self, w: &mut World, c: &Curve, act: &World, ok: bool, who: usize, l: u128, j: usize, min: u128, to: usize) -> Verdict {
        let p = &self.pool[c.q];
        let last = p.cur.len() - 1;
        if l > c.total || self.free[who][c.lp] < l {
            return Refuse("not enough shares");
        }
        if c.x.contains(&0) {
            return Refuse("the pool is empty");
        }
        if wild(&c.x) {
            return Unknown;
        }
        let d0 = or_unknown!(bounds(&c.x, c.amp));
        let cut = |d: Fx| d.minus(d.times(l, c.total));
        let d1 = Iv(cut(d0.0).minus(Fx::of(1)), cut(d0.1).plus(Fx::of(1)));
        let d1 = if l == c.total { Iv(ZERO, ZERO) } else { d1 };
        let ny = or_unknown!(get_y(&fx(&c.x), j, c.amp, &d1));
        let f = self.fee_part(c.q);
        let mut red = [vec![], vec![]];
        let mut may_refuse = false;
        for (i, x) in c.x.iter().enumerate() {
            let (plo, phi) = or_unknown!(part(*x, &d1, &d0));
            let (lo, hi) = if i == j {
                may_refuse |= plo < ny.1.floor() + 1;
                (plo.saturating_sub(ny.1.floor() + 1), phi.saturating_sub(ny.0.floor()))
            } else {
                (x.saturating_sub(phi), x.saturating_sub(plo))
            };
            red[0].push(x - or_unknown!(muldiv(hi, f, FEES)));
            red[1].push(x - or_unknown!(muldiv(lo, f, FEES)));
        }
        if wild(&red[0]) {
            return Unknown;
        }
        // the most remains of the others: the least is needed of this
        let y_lo = or_unknown!(get_y(&fx(&red[1]), j, c.amp, &d1)).0.floor();
        let y_hi = or_unknown!(get_y(&fx(&red[0]), j, c.amp, &d1)).1.floor() + 1;
        let base = |g: u128| if p.meta.is_some() && j == last { muldiv(g, ONE, c.vp) } else { Some(g) };
        let out = |r: u128, y: u128| -> Option<Option<u128>> {
            let Some(g) = r.checked_sub(y) else { return Some(None) };
            Some(base(g)?.checked_sub(1).map(|g| g / p.mult[j]))
        };
        let Some(hi) = or_unknown!(out(red[1][j], y_lo)) else { return Refuse("nothing to give") };
        let lo = or_unknown!(out(red[0][j], y_hi));
        if hi < min {
            return Refuse("less than asked for");
        }
        let (x, y) = (or_unknown!(base(c.x[j])), [or_unknown!(base(ny.0.floor())), or_unknown!(base(ny.1.floor() + 1))]);
        let all = [x.saturating_sub(y[1]) / p.mult[j], x.saturating_sub(y[0]) / p.mult[j]];
        may_refuse |= lo.map_or(true, |lo| lo < min) || all[0] < hi;
        if !ok {
            return Accept { exp: Ok(self.clone()), may_refuse };
        }
        let cj = p.cur[j];
        let dy = self.free[c.acct][cj].wrapping_sub(act.free[c.acct][cj]);
        let adm = p.bal[j].wrapping_sub(act.pool[c.q].bal[j]).wrapping_sub(dy);
        let exp = (|| {
            within("what is given", dy, lo.unwrap_or(0).max(min), hi)?;
            let fee = |a: u128| muldiv(a.saturating_sub(dy), p.adm, FEES).unwrap_or(0);
            within("the admin's fee", adm, fee(all[0]), fee(all[1]))?;
            w.burn(c.lp, who, l)?;
            w.mv(cj, c.acct, to, dy)?;
            let b = &mut w.pool[c.q].bal[j];
            *b = b.checked_sub(dy).and_then(|b| b.checked_sub(adm)).ok_or("more than the pool has")?;
            Ok(w.clone())
        })();
        Accept { exp, may_refuse }
    }

    fn take(&self, w: &mut World, c: &Curve, act: &World, ok: bool, who: usize, x: &[u128], max: u128, to: usize) -> Verdict {
        let p = &self.pool[c.q];
        if c.total == 0 {
            return Refuse("the pool is empty");
        }
        if c.x.contains(&0) {
            return Refuse("the pool is empty");
        }
        let mut new = vec![];
        for i in 0..x.len() {
            new.push(or_refuse!(p.bal[i].checked_sub(x[i]), "more than the pool has"));
            if let Err(e) = w.mv(p.cur[i], c.acct, to, x[i]) {
                return Refuse(e);
            }
        }
        let nx = or_unknown!(self.scaled(c.q, &new, c.vp));
        if nx.contains(&0) {
            // nothing or everything
            return if nx.iter().all(|x| *x == 0) { Unknown } else { Refuse("an empty balance") };
        }
        if wild(&c.x) || wild(&nx) {
            return Unknown;
        }
        let d0 = or_unknown!(bounds(&c.x, c.amp));
        let d1 = or_unknown!(bounds(&nx, c.amp));
        let fees = or_unknown!(self.fees(c.q, &new, &d1, &d0));
        let d2 = match or_unknown!(self.after(c.q, &new, &fees, c)) {
            Some(d) => d,
            None => return Unknown,
        };
        if d0.0 == ZERO {
            return Unknown;
        }
        let m = |d2: Fx, d0: Fx, by: Fx| -> Option<u128> { u128::try_from(d0.minus(d2).0 * U512::from(c.total) / by.0).ok() };
        let lo = or_unknown!(m(d2.1, d0.0, d0.1)).saturating_sub(1);
        let hi = or_unknown!(m(d2.0, d0.1, d0.0)) + 1;
        if hi == 0 {
            return Refuse("nothing removed");
        }
        if lo + 1 > max {
            return Refuse("more than offered");
        }
        if lo + 1 > self.free[who][c.lp] {
            return Refuse("not enough shares");
        }
        let may_refuse = lo == 0 || d0.0 <= d2.1 || hi + 1 > max || hi + 1 > self.free[who][c.lp];
        if !ok {
            return Accept { exp: Ok(self.clone()), may_refuse };
        }
        let got = self.iss[c.lp].wrapping_sub(act.iss[c.lp]);
        let exp = (|| {
            within("what is burnt", got, lo.max(1) + 1, (hi + 1).min(max))?;
            self.admins(w, c.q, act, &new, &fees)?;
            w.burn(c.lp, who, got)?;
            Ok(w.clone())
        })();
        Accept { exp, may_refuse }
    }

    /// What governance does with the pools, and the admin's fees.
    fn manage(&self, op: &Op, act: &World, ok: bool) -> Verdict {
        let mut w = self.clone();
        let r = (|| -> R<()> {
            let root = match op {
                Op::NewPool { root, .. } | Op::Receiver { root, .. } | Op::SwapFee { root, .. } | Op::AdminFee { root, .. } | Op::Ramp { root, .. } | Op::StopRamp { root, .. } => *root,
                _ => true,
            };
            if !root {
                return Err("not governance");
            }
            let there = |q: &usize| if *q < self.pool.len() { Ok(*q) } else { Err("no such pool") };
            let now = self.now as u128;
            match op {
                Op::NewPool { cur, dec, a, fee, adm, recv, meta, .. } => {
                    let base = match (meta, cur.last()) {
                        (false, _) => None,
                        (true, Some(c)) if *c >= S0 && *c < S0 + self.pool.len() => Some(c - S0),
                        _ => return Err("no base pool"),
                    };
                    if cur.len() != dec.len() {
                        return Err("other currencies");
                    }
                    if *a == 0 || *a >= 1_000_000 {
                        return Err("A out of its limits");
                    }
                    if *fee > 100_000_000 || *adm > FEES {
                        return Err("fee too high");
                    }
                    if dec.iter().any(|d| *d > 18) {
                        return Err("too many decimals");
                    }
                    let meta = match base {
                        None => None,
                        Some(b) => {
                            if self.iss[S0 + b] == 0 {
                                return Err("the base pool has no price");
                            }
                            let v = if ok { act.pool.last().and_then(|p| p.meta).map_or(0, |m| m.1) } else { 0 };
                            Some((b, v, self.now))
                        }
                    };
                    w.pool.push(Pool {
                        cur: cur.clone(),
                        mult: dec.iter().map(|d| 10u128.pow(18 - d)).collect(),
                        bal: vec![0; cur.len()],
                        fee: *fee,
                        adm: *adm,
                        ia: a * 100,
                        fa: a * 100,
                        iat: 0,
                        fat: 0,
                        recv: *recv,
                        meta,
                    });
                }
                Op::Receiver { q, to, .. } => w.pool[there(q)?].recv = *to,
                Op::SwapFee { q, x, .. } => {
                    let q = there(q)?;
                    if *x > 100_000_000 {
                        return Err("fee too high");
                    }
                    w.pool[q].fee = *x;
                }
                Op::AdminFee { q, x, .. } => {
                    let q = there(q)?;
                    if *x > FEES {
                        return Err("fee too high");
                    }
                    w.pool[q].adm = *x;
                }
                Op::Ramp { q, a, t, .. } => {
                    let q = there(q)?;
                    if now < self.pool[q].iat + 86_400 {
                        return Err("too soon after the last");
                    }
                    if *t < now + 86_400 {
                        return Err("too fast");
                    }
                    if *a == 0 || *a >= 1_000_000 {
                        return Err("A out of its limits");
                    }
                    let (from, to) = (self.amp(q), a * 100);
                    if to * 10 < from || to > from * 10 {
                        return Err("too much");
                    }
                    let p = &mut w.pool[q];
                    (p.ia, p.fa, p.iat, p.fat) = (from, to, now, *t);
                }
                Op::StopRamp { q, .. } => {
                    let q = there(q)?;
                    if self.pool[q].fat <= now {
                        return Err("no ramp");
                    }
                    let a = self.amp(q);
                    let p = &mut w.pool[q];
                    (p.ia, p.fa, p.iat, p.fat) = (a, a, now, now);
                }
                Op::AdminWithdraw { q, .. } => {
                    let q = there(q)?;
                    let p = &self.pool[q];
                    for (i, c) in p.cur.iter().enumerate() {
                        let x = self.free[POOL0 + q][*c].checked_sub(p.bal[i]).ok_or("less than the pool's balance is held")?;
                        w.mv(*c, POOL0 + q, p.recv, x)?;
                    }
                }
                _ => unreachable!("{op:?}"),
            }
            Ok(())
        })();
        if let Err(e) = r {
            return Refuse(e);
        }
        if let (Op::NewPool { meta: true, .. }, Some((b, v, _))) = (op, w.pool.last().and_then(|p| p.meta)) {
            let Some((lo, hi)) = self.price(b) else { return Unknown };
            if ok {
                if let Err(e) = within("the base's price", v, lo, hi) {
                    return Accept { exp: Err(e), may_refuse: false };
                }
            }
        }
        Accept { exp: Ok(w), may_refuse: false }
    }
}
