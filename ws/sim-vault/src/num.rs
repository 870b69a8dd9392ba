//! The arithmetic of the rules, on whole numbers.
use primitive_types::U256;

pub const ONE: u128 = 1_000_000_000_000_000_000;

fn down(x: U256) -> Option<u128> {
    u128::try_from(x).ok()
}
/// a*b/c, rounded down
pub fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    down(U256::from(a) * U256::from(b) / U256::from(c))
}
/// a*b/c, rounded to nearest, halves up
pub fn nearest(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    down((U256::from(a) * U256::from(b) * U256::from(2) + U256::from(c)) / (U256::from(c) * U256::from(2)))
}
pub fn up(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    down((U256::from(a) * U256::from(b) + U256::from(c - 1)) / U256::from(c))
}
