//! Numbers with 60 decimal places: the references' reals.
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{Signed, ToPrimitive, Zero};
use std::fmt;

const PLACES: u32 = 60;

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Num(BigInt);

fn one() -> BigInt {
    thread_local! { static ONE: BigInt = BigInt::from(10u8).pow(PLACES); }
    ONE.with(|x| x.clone())
}
impl Num {
    pub fn zero() -> Self {
        Num(BigInt::zero())
    }
    pub fn int(x: u128) -> Self {
        Num(BigInt::from(x) * one())
    }
    pub fn from_f64(x: f64) -> Self {
        // for tolerances: 12 significant digits below a unit are enough
        let whole = x.floor().max(0.0);
        let frac = ((x - whole).max(0.0) * 1e18) as u128;
        Num(BigInt::from(whole as u128) * one() + BigInt::from(frac) * one() / BigInt::from(10u8).pow(18))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    pub fn is_neg(&self) -> bool {
        self.0.is_negative()
    }
    pub fn mul(&self, o: &Num) -> Num {
        Num((&self.0 * &o.0).div_floor(&one()))
    }
    pub fn div(&self, o: &Num) -> Num {
        Num((&self.0 * one()).div_floor(&o.0))
    }
    pub fn add(&self, o: &Num) -> Num {
        Num(&self.0 + &o.0)
    }
    pub fn sub(&self, o: &Num) -> Num {
        Num(&self.0 - &o.0)
    }
    pub fn abs(&self) -> Num {
        Num(self.0.abs())
    }
    /// floor, at least 0
    pub fn floor(&self) -> u128 {
        self.0.div_floor(&one()).to_u128().unwrap_or(if self.is_neg() { 0 } else { u128::MAX })
    }
    pub fn f(&self) -> f64 {
        self.0.to_f64().unwrap_or(f64::INFINITY) / 1e60
    }
    pub fn max0(self) -> Num {
        if self.is_neg() {
            Num::zero()
        } else {
            self
        }
    }
}
impl fmt::Display for Num {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:.6}", self.f())
    }
}
impl fmt::Debug for Num {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
