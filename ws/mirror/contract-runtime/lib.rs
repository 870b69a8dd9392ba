//! The part of the Kintsugi runtime that contracts reach: native currency, the relay and the
//! chain extension (`src/contracts.rs`, taken from the repository).
use frame_support::{parameter_types, traits::ConstU32};
use primitives::{AccountId, Balance, CurrencyId};

#[path = "src/contracts.rs"]
pub mod contracts;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Runtime;
pub type RuntimeCall = ();
pub type Weight = frame_support::weights::Weight;
pub type Timestamp = pallet_timestamp::Pallet<Runtime>;

#[derive(Clone, PartialEq, Debug)]
pub enum RuntimeEvent {
    Relay(btc_relay::Event<Runtime>),
    Security(security::Event<Runtime>),
    Tokens(orml_tokens::Event<Runtime>),
}
impl From<btc_relay::Event<Runtime>> for RuntimeEvent {
    fn from(e: btc_relay::Event<Runtime>) -> Self {
        RuntimeEvent::Relay(e)
    }
}
impl From<security::Event<Runtime>> for RuntimeEvent {
    fn from(e: security::Event<Runtime>) -> Self {
        RuntimeEvent::Security(e)
    }
}
impl From<orml_tokens::Event<Runtime>> for RuntimeEvent {
    fn from(e: orml_tokens::Event<Runtime>) -> Self {
        RuntimeEvent::Tokens(e)
    }
}
impl From<RuntimeEvent> for () {
    fn from(_: RuntimeEvent) {}
}

sim_node::system_config!(Runtime, AccountId, RuntimeEvent);

impl pallet_timestamp::Config for Runtime {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = frame_support::traits::ConstU64<1>;
    type WeightInfo = ();
}
impl security::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}
impl btc_relay::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
    type ParachainBlocksPerBitcoinBlock = ConstU32<50>;
}
impl orml_tokens::Config for Runtime {
    type RuntimeEvent = RuntimeEvent;
    type Balance = Balance;
    type Amount = i128;
    type CurrencyId = CurrencyId;
    type WeightInfo = ();
    type ExistentialDeposits = ();
    type CurrencyHooks = ();
    type MaxLocks = ConstU32<10>;
    type MaxReserves = ConstU32<0>;
    type ReserveIdentifier = ();
    type DustRemovalWhitelist = ();
}
parameter_types! {
    pub const GetNativeCurrencyId: CurrencyId = CurrencyId::Token(primitives::KINT);
}
pub type NativeCurrency = orml_tokens::CurrencyAdapter<Runtime, GetNativeCurrencyId>;
pub type Relay = btc_relay::Pallet<Runtime>;
pub type Security = security::Pallet<Runtime>;
pub type System = frame_system::Pallet<Runtime>;

/// A contract's call of the chain extension: status and output, or the error that ends the call.
pub fn extension(func_id: u32, input: &[u8]) -> Result<(u32, Vec<u8>), sp_runtime::DispatchError> {
    use pallet_contracts::chain_extension::*;
    let mut out = None;
    let env = Environment::<SimExt<Runtime>, InitState>::new(func_id, input, &mut out);
    let mut ext = <<Runtime as pallet_contracts::Config>::ChainExtension as Default>::default();
    match ext.call::<SimExt<Runtime>>(env)? {
        RetVal::Converging(s) => Ok((s, out.unwrap_or_default())),
        RetVal::Diverging { .. } => Err(sp_runtime::DispatchError::Other("diverging")),
    }
}
