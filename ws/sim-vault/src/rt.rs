//! The simulated runtime: the bridge's pallets wired as in the Interlay runtime.
use currency::Amount;
use frame_support::{
    parameter_types,
    traits::{ConstU32, ConstU64},
    PalletId,
};
use primitives::{CurrencyId, CurrencyId::*, TokenSymbol, VaultCurrencyPair, VaultId};
use sp_runtime::{
    traits::{AccountIdConversion, Convert},
    DispatchError, FixedI128, FixedU128,
};

pub type Acc = u64;
pub type Vid = VaultId<Acc, CurrencyId>;
pub type Pair = VaultCurrencyPair<CurrencyId>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rt;

pub enum Instance1 {}
pub enum Instance2 {}

macro_rules! events {
    ($($n:ident($t:ty)),*) => {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Ev { $($n($t)),* }
        $(impl From<$t> for Ev { fn from(e: $t) -> Self { Ev::$n(e) } })*
        impl From<Ev> for () { fn from(_: Ev) {} }
    };
}
events!(
    Relay(btc_relay::Event<Rt>),
    Security(security::Event<Rt>),
    Tokens(orml_tokens::Event<Rt>),
    Oracle(oracle::Event<Rt>),
    Capacity(reward::Event<Rt, Instance1>),
    Rewards(reward::Event<Rt, Instance2>),
    Staking(staking::Event<Rt>),
    Vaults(vault_registry::Event<Rt>),
    Issue(issue::Event<Rt>),
    Redeem(redeem::Event<Rt>),
    Replace(replace::Event<Rt>),
    Nomination(nomination::Event<Rt>)
);

sim_node::system_config!(Rt, Acc, Ev);

pub const WRAPPED: CurrencyId = Token(TokenSymbol::IBTC);
pub const NATIVE: CurrencyId = Token(TokenSymbol::INTR);
pub const DOT: CurrencyId = Token(TokenSymbol::DOT);
pub const LEND: CurrencyId = LendToken(1);

parameter_types! {
    pub const Native: CurrencyId = NATIVE;
    pub const Relaychain: CurrencyId = DOT;
    pub const Wrapped: CurrencyId = WRAPPED;
    pub const FeeId: PalletId = PalletId(*b"feesmod/");
    pub const TreasuryId: PalletId = PalletId(*b"trsymod/");
    pub const VaultsId: PalletId = PalletId(*b"vregmod/");
    pub Treasury: Acc = TreasuryId::get().into_account_truncating();
    pub MaxExpected: FixedU128 = FixedU128::from_u32(1_000_000);
}
pub fn fee_account() -> Acc {
    FeeId::get().into_account_truncating()
}
pub fn treasury() -> Acc {
    Treasury::get()
}
pub fn liquidation_account() -> Acc {
    VaultsId::get().into_account_truncating()
}

impl pallet_timestamp::Config for Rt {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<1>;
    type WeightInfo = ();
}
impl security::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
impl btc_relay::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type ParachainBlocksPerBitcoinBlock = ConstU32<PER_BTC_BLOCK>;
}
pub const PER_BTC_BLOCK: u32 = 5;

impl orml_tokens::Config for Rt {
    type RuntimeEvent = Ev;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ();
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<10>;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
    type DustRemovalWhitelist = ();
}

/// Lending markets in place of the loans pallet: one lend token at a rate set per run.
pub struct Lending;
thread_local! {
    pub static LEND_RATE: std::cell::Cell<u128> = std::cell::Cell::new(1_000_000_000_000_000_000);
}
const ONE: u128 = 1_000_000_000_000_000_000;
fn no() -> DispatchError {
    DispatchError::Other("not a lending market")
}
impl traits::LoansApi<CurrencyId, Acc, Amount<Rt>> for Lending {
    fn do_mint(_: &Acc, _: &Amount<Rt>) -> Result<(), DispatchError> {
        Err(no())
    }
    fn do_borrow(_: &Acc, _: &Amount<Rt>) -> Result<(), DispatchError> {
        Err(no())
    }
    fn do_deposit_collateral(_: &Acc, _: &Amount<Rt>) -> Result<(), DispatchError> {
        Err(no())
    }
    fn do_withdraw_collateral(_: &Acc, _: &Amount<Rt>) -> Result<(), DispatchError> {
        Err(no())
    }
    fn do_repay_borrow(_: &Acc, _: &Amount<Rt>) -> Result<(), DispatchError> {
        Err(no())
    }
    fn do_redeem(_: &Acc, _: &Amount<Rt>, _: &Amount<Rt>) -> Result<(), DispatchError> {
        Err(no())
    }
    fn recompute_underlying_amount(a: &Amount<Rt>) -> Result<Amount<Rt>, DispatchError> {
        let r = LEND_RATE.with(|r| r.get());
        Ok(Amount::new(crate::num::muldiv(a.amount(), r, ONE).ok_or_else(no)?, DOT))
    }
    fn underlying_id(c: CurrencyId) -> Result<CurrencyId, DispatchError> {
        if c == LEND {
            Ok(DOT)
        } else {
            Err(no())
        }
    }
    fn recompute_collateral_amount(a: &Amount<Rt>) -> Result<Amount<Rt>, DispatchError> {
        let r = LEND_RATE.with(|r| r.get());
        Ok(Amount::new(crate::num::muldiv(a.amount(), ONE, r).ok_or_else(no)?, LEND))
    }
}

impl currency::Config for Rt {
    type UnsignedFixedPoint = FixedU128;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type Balance = u128;
    type GetNativeCurrencyId = Native;
    type GetRelayChainCurrencyId = Relaychain;
    type GetWrappedCurrencyId = Wrapped;
    type CurrencyConversion = currency::CurrencyConvert<Rt, oracle::Pallet<Rt>, Lending>;
}
impl oracle::Config for Rt {
    type RuntimeEvent = Ev;
    type OnExchangeRateChange = vault_registry::PoolManager<Rt>;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl reward::Config<Instance1> for Rt {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = ();
    type StakeId = CurrencyId;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl reward::Config<Instance2> for Rt {
    type RuntimeEvent = Ev;
    type SignedFixedPoint = FixedI128;
    type PoolId = CurrencyId;
    type StakeId = Vid;
    type CurrencyId = CurrencyId;
    type MaxRewardCurrencies = ConstU32<10>;
}
impl staking::Config for Rt {
    type RuntimeEvent = Ev;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type CurrencyId = CurrencyId;
    type GetNativeCurrencyId = Native;
}
impl fee::Config for Rt {
    type FeePalletId = FeeId;
    type WeightInfo = ();
    type SignedFixedPoint = FixedI128;
    type SignedInner = i128;
    type CapacityRewards = Capacity;
    type VaultRewards = Rewards;
    type VaultStaking = Staking;
    type OnSweep = currency::SweepFunds<Rt, Treasury>;
    type MaxExpectedValue = MaxExpected;
    type NominationApi = Nomination;
}
impl<C: 'static> frame_system::offchain::SendTransactionTypes<C> for Rt {
    type Extrinsic = sp_runtime::OpaqueExtrinsic;
    type OverarchingCall = C;
}
impl vault_registry::Config for Rt {
    type PalletId = VaultsId;
    type RuntimeEvent = Ev;
    type WeightInfo = ();
    type GetGriefingCollateralCurrencyId = Native;
}
pub struct Blocks;
impl Convert<u32, u128> for Blocks {
    fn convert(n: u32) -> u128 {
        n as u128
    }
}
impl issue::Config for Rt {
    type TreasuryPalletId = TreasuryId;
    type RuntimeEvent = Ev;
    type BlockNumberToBalance = Blocks;
    type WeightInfo = ();
}
impl redeem::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
impl replace::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}
impl nomination::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}

pub type System = frame_system::Pallet<Rt>;
pub type Timestamp = pallet_timestamp::Pallet<Rt>;
pub type Security = security::Pallet<Rt>;
pub type Relay = btc_relay::Pallet<Rt>;
pub type Tokens = orml_tokens::Pallet<Rt>;
pub type Oracle = oracle::Pallet<Rt>;
pub type Capacity = reward::Pallet<Rt, Instance1>;
pub type Rewards = reward::Pallet<Rt, Instance2>;
pub type Staking = staking::Pallet<Rt>;
pub type Fee = fee::Pallet<Rt>;
pub type Vaults = vault_registry::Pallet<Rt>;
pub type Issue = issue::Pallet<Rt>;
pub type Redeem = redeem::Pallet<Rt>;
pub type Replace = replace::Pallet<Rt>;
pub type Nomination = nomination::Pallet<Rt>;
