//! The simulated runtime: lending markets over real tokens hooks, currency and oracle pallets,
//! wired as in the Interlay runtime.
use frame_support::{
    parameter_types,
    traits::{ConstU32, ConstU64},
    PalletId,
};
use loans::{OnSlashHook, PostDeposit, PostTransfer, PreDeposit, PreTransfer};
use orml_traits::currency::MutationHooks;
use primitives::{CurrencyId, CurrencyId::*, TokenSymbol};
use sp_runtime::{FixedI128, FixedU128};

pub type Acc = u128;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rt;

macro_rules! events {
    ($($n:ident($t:ty)),*) => {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Ev { $($n($t)),* }
        $(impl From<$t> for Ev { fn from(e: $t) -> Self { Ev::$n(e) } })*
        impl From<Ev> for () { fn from(_: Ev) {} }
    };
}
events!(Security(security::Event<Rt>), Tokens(orml_tokens::Event<Rt>), Oracle(oracle::Event<Rt>), Loans(loans::Event<Rt>));

sim_node::system_config!(Rt, Acc, Ev);

pub const WRAPPED: CurrencyId = Token(TokenSymbol::IBTC);
pub const NATIVE: CurrencyId = Token(TokenSymbol::INTR);
pub const DOT: CurrencyId = Token(TokenSymbol::DOT);

parameter_types! {
    pub const Native: CurrencyId = NATIVE;
    pub const Relaychain: CurrencyId = DOT;
    pub const Wrapped: CurrencyId = WRAPPED;
    pub const LoansId: PalletId = PalletId(*b"mod/loan");
}

impl pallet_timestamp::Config for Rt {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<1>;
    type WeightInfo = ();
}
impl security::Config for Rt {
    type RuntimeEvent = Ev;
    type WeightInfo = ();
}

pub struct TokenHooks;
impl MutationHooks<Acc, CurrencyId, u128> for TokenHooks {
    type OnDust = ();
    type OnSlash = OnSlashHook<Rt>;
    type PreDeposit = PreDeposit<Rt>;
    type PostDeposit = PostDeposit<Rt>;
    type PreTransfer = PreTransfer<Rt>;
    type PostTransfer = PostTransfer<Rt>;
    type OnNewTokenAccount = ();
    type OnKilledTokenAccount = ();
}
impl orml_tokens::Config for Rt {
    type RuntimeEvent = Ev;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ();
    type CurrencyHooks = TokenHooks;
    type MaxLocks = ConstU32<10>;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
    type DustRemovalWhitelist = ();
}
impl currency::Config for Rt {
    type UnsignedFixedPoint = FixedU128;
    type SignedInner = i128;
    type SignedFixedPoint = FixedI128;
    type Balance = u128;
    type GetNativeCurrencyId = Native;
    type GetRelayChainCurrencyId = Relaychain;
    type GetWrappedCurrencyId = Wrapped;
    type CurrencyConversion = currency::CurrencyConvert<Rt, oracle::Pallet<Rt>, loans::Pallet<Rt>>;
}
impl oracle::Config for Rt {
    type RuntimeEvent = Ev;
    type OnExchangeRateChange = loans::Pallet<Rt>;
    type WeightInfo = ();
    type MaxNameLength = ConstU32<255>;
}
impl loans::Config for Rt {
    type RuntimeEvent = Ev;
    type PalletId = LoansId;
    type ReserveOrigin = frame_system::EnsureRoot<Acc>;
    type UpdateOrigin = frame_system::EnsureRoot<Acc>;
    type WeightInfo = ();
    type UnixTime = Timestamp;
    type RewardAssetId = Native;
    type ReferenceAssetId = Wrapped;
    type OnExchangeRateChange = ();
}

pub type System = frame_system::Pallet<Rt>;
pub type Timestamp = pallet_timestamp::Pallet<Rt>;
pub type Security = security::Pallet<Rt>;
pub type Tokens = orml_tokens::Pallet<Rt>;
pub type Oracle = oracle::Pallet<Rt>;
pub type Loans = loans::Pallet<Rt>;
