//! The arithmetic of the rules: whole numbers for the pairs, and the stable pools' curve computed
//! with 64 binary places more than the chain's.
use primitive_types::{U256, U512};

pub fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    u128::try_from(U256::from(a) * U256::from(b) / U256::from(c)).ok()
}
pub fn sqrt(x: U256) -> U256 {
    if x.is_zero() {
        return x;
    }
    let mut r = U256::one() << ((x.bits() + 1) / 2);
    loop {
        let n = (r + x / r) >> 1;
        if n >= r {
            return r;
        }
        r = n;
    }
}

/// A number with 64 binary places.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Fx(pub U512);
impl Fx {
    pub fn of(x: u128) -> Fx {
        Fx(U512::from(x) << 64)
    }
    pub fn ratio(x: u128, n: u128, d: u128) -> Fx {
        Fx((U512::from(x) << 64) * U512::from(n) / U512::from(d))
    }
    pub fn plus(self, o: Fx) -> Fx {
        Fx(self.0 + o.0)
    }
    pub fn minus(self, o: Fx) -> Fx {
        Fx(self.0.saturating_sub(o.0))
    }
    /// times n/d
    pub fn times(self, n: u128, d: u128) -> Fx {
        Fx(self.0 * U512::from(n) / U512::from(d))
    }
    pub fn mul_div(self, a: Fx, b: Fx) -> Fx {
        Fx(self.0 * a.0 / b.0)
    }
    pub fn floor(self) -> u128 {
        u128::try_from(self.0 >> 64).unwrap_or(u128::MAX)
    }
    pub fn dist(self, o: Fx) -> Fx {
        if self > o { self.minus(o) } else { o.minus(self) }
    }
    pub fn f(self) -> f64 {
        let b = self.0.bits();
        if b <= 100 {
            self.0.as_u128() as f64 / 18446744073709551616.0
        } else {
            (self.0 >> (b - 100)).as_u128() as f64 * 2f64.powi(b as i32 - 100 - 64)
        }
    }
}
pub const ZERO: Fx = Fx(U512::zero());

/// D of the curve through these balances; None where there is none or it is beyond what is computed.
/// amp has two decimal places.
pub fn curve(x: &[Fx], amp: u128) -> Option<Fx> {
    let n = x.len() as u128;
    let s = x.iter().fold(ZERO, |a, b| a.plus(*b));
    if s == ZERO {
        return Some(ZERO);
    }
    if x.iter().any(|x| *x == ZERO) || s.0.bits() > 64 + 126 {
        return None;
    }
    let ann = amp * n;
    let mut d = s;
    for _ in 0..400 {
        let mut p = d;
        for b in x {
            if p.0.bits() + d.0.bits() > 500 {
                return None;
            }
            p = Fx(p.0 * d.0 / (b.0 * U512::from(n)));
        }
        // (ann*s + n*p) * d / ((ann - 1)*d + (n + 1)*p), with ann in hundredths
        let num = s.0 * U512::from(ann) + p.0 * U512::from(n * 100);
        let den = d.0 * U512::from(ann - 100) + p.0 * U512::from((n + 1) * 100);
        if num.bits() + d.0.bits() > 508 {
            return None;
        }
        let e = Fx(num * d.0 / den);
        if e.dist(d).0 <= U512::from(4) {
            return Some(e);
        }
        d = e;
    }
    None
}

/// The balance of `j` which makes the curve of x what d is.
pub fn on_curve(x: &[Fx], j: usize, amp: u128, d: Fx) -> Option<Fx> {
    let n = x.len() as u128;
    if d == ZERO {
        return Some(ZERO);
    }
    let ann = amp * n;
    let mut c = d;
    let mut s = ZERO;
    for (i, b) in x.iter().enumerate() {
        if i == j {
            continue;
        }
        if *b == ZERO || c.0.bits() + d.0.bits() > 500 {
            return None;
        }
        s = s.plus(*b);
        c = Fx(c.0 * d.0 / (b.0 * U512::from(n)));
    }
    if c.0.bits() + d.0.bits() > 490 {
        return None;
    }
    // y^2 + (s + 100 d/ann - d) y = 100 c d/(ann n)
    let c = c.0 * d.0 / U512::from(n) * U512::from(100u32) / U512::from(ann);
    let b = s.0 + d.0 * U512::from(100u32) / U512::from(ann);
    let mut y = d.0;
    for _ in 0..400 {
        if y.bits() > 250 {
            return None;
        }
        let e = (y * y + c) / (y * 2u32 + b - d.0);
        if (if e > y { e - y } else { y - e }) <= U512::from(4) {
            return Some(Fx(e));
        }
        y = e;
    }
    None
}
