//! The simulated runtime: two reward pallets' worth of pools and the vaults' staking pools.
use frame_support::parameter_types;
use primitives::{CurrencyId, CurrencyId::Token, TokenSymbol, VaultId};
use sp_runtime::FixedI128;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rt;

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Reward(reward::Event<Rt>),
    Staking(staking::Event<Rt>),
}
impl From<reward::Event<Rt>> for Ev {
    fn from(e: reward::Event<Rt>) -> Self {
        Ev::Reward(e)
    }
}
impl From<staking::Event<Rt>> for Ev {
    fn from(e: staking::Event<Rt>) -> Self {
        Ev::Staking(e)
    }
}
impl From<Ev> for () {
    fn from(_: Ev) {}
}

sim_node::system_config!(Rt, u64, Ev);

pub const NATIVE: CurrencyId = Token(TokenSymbol::INTR);
pub const WRAPPED: CurrencyId = Token(TokenSymbol::IBTC);
parameter_types! {
    pub const Native: CurrencyId = NATIVE;
    pub const MaxCurrencies: u32 = 3;
}

impl reward::Config for Rt {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = VaultId<u64, CurrencyId>;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = MaxCurrencies;
}
impl staking::Config for Rt {
    type RuntimeEvent = Ev;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type CurrencyId = CurrencyId;
    type GetNativeCurrencyId = Native;
}

pub type Reward = reward::Pallet<Rt>;
pub type Staking = staking::Pallet<Rt>;
