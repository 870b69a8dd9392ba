//! Stand-in for `sp-staking`.
pub type SessionIndex = u32;
