//! The simulated runtime: the two exchange pallets and the router over real tokens, wired as in the
//! Interlay and Kintsugi runtimes.
use frame_support::{parameter_types, traits::{ConstU32, ConstU64}, PalletId};
use primitives::{CurrencyId, StablePoolId};

pub type Acc = u128;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rt;

macro_rules! events {
    ($($n:ident($t:ty)),*) => {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Ev { $($n($t)),* }
        $(impl From<$t> for Ev { fn from(e: $t) -> Self { Ev::$n(e) } })*
        impl From<Ev> for () { fn from(_: Ev) {} }
    };
}
events!(Tokens(orml_tokens::Event<Rt>), General(dex_general::Event<Rt>), Stable(dex_stable::Event<Rt>), Router(dex_swap_router::Event<Rt>));

sim_node::system_config!(Rt, Acc, Ev);

parameter_types! {
    pub const GeneralId: PalletId = PalletId(*b"dex/genr");
    pub const StableId: PalletId = PalletId(*b"dex/stbl");
}

impl pallet_timestamp::Config for Rt {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = ConstU64<1>;
    type WeightInfo = ();
}
impl orml_tokens::Config for Rt {
    type RuntimeEvent = Ev;
    type Balance = u128;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ();
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<10>;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
    type DustRemovalWhitelist = ();
}

pub struct PairLpIdentity;
impl dex_general::GenerateLpAssetId<CurrencyId> for PairLpIdentity {
    fn generate_lp_asset_id(asset_0: CurrencyId, asset_1: CurrencyId) -> Option<CurrencyId> {
        CurrencyId::join_lp_token(asset_0, asset_1)
    }
}
pub struct VerifyPairAsset;
impl dex_general::ValidateAsset<CurrencyId> for VerifyPairAsset {
    fn validate_asset(currency_id: &CurrencyId) -> bool {
        currency_id.is_lp_token()
    }
}
impl dex_general::Config for Rt {
    type RuntimeEvent = Ev;
    type MultiCurrency = Tokens;
    type PalletId = GeneralId;
    type AssetId = CurrencyId;
    type EnsurePairAsset = VerifyPairAsset;
    type LpGenerate = PairLpIdentity;
    type WeightInfo = ();
    type MaxBootstrapRewards = ConstU32<1000>;
    type MaxBootstrapLimits = ConstU32<1000>;
}

pub struct PoolLpGenerate;
impl dex_stable::traits::StablePoolLpCurrencyIdGenerate<CurrencyId, StablePoolId> for PoolLpGenerate {
    fn generate_by_pool_id(pool_id: StablePoolId) -> CurrencyId {
        CurrencyId::StableLpToken(pool_id)
    }
}
pub struct VerifyPoolAsset;
impl dex_stable::traits::ValidateCurrency<CurrencyId> for VerifyPoolAsset {
    fn validate_pooled_currency(_: &[CurrencyId]) -> bool {
        true
    }
    fn validate_pool_lp_currency(currency_id: CurrencyId) -> bool {
        <Tokens as orml_traits::MultiCurrency<Acc>>::total_issuance(currency_id) == 0
    }
}
impl dex_stable::Config for Rt {
    type RuntimeEvent = Ev;
    type CurrencyId = CurrencyId;
    type MultiCurrency = Tokens;
    type PoolId = StablePoolId;
    type TimeProvider = Timestamp;
    type EnsurePoolAsset = VerifyPoolAsset;
    type LpGenerate = PoolLpGenerate;
    type PoolCurrencyLimit = ConstU32<10>;
    type PoolCurrencySymbolLimit = ConstU32<50>;
    type PalletId = StableId;
    type WeightInfo = ();
}
impl dex_swap_router::Config for Rt {
    type RuntimeEvent = Ev;
    type StablePoolId = StablePoolId;
    type Balance = u128;
    type CurrencyId = CurrencyId;
    type GeneralAmm = General;
    type StableAmm = Stable;
    type GeneralWeightInfo = ();
    type StableWeightInfo = ();
    type WeightInfo = ();
}

pub type System = frame_system::Pallet<Rt>;
pub type Timestamp = pallet_timestamp::Pallet<Rt>;
pub type Tokens = orml_tokens::Pallet<Rt>;
pub type General = dex_general::Pallet<Rt>;
pub type Stable = dex_stable::Pallet<Rt>;
