//! What the simulated parachain nodes share: extrinsic dispatch, block layers, crashes.
use frame_support::state;
use frame_support::traits::UnfilteredDispatchable;
use frame_system::Config;
use sp_runtime::DispatchError;

/// Runs `f` as an extrinsic: on error neither storage changes nor events remain.
pub fn extrinsic<T: Config, R>(f: impl FnOnce() -> Result<R, DispatchError>) -> Result<R, DispatchError> {
    let n = frame_system::Pallet::<T>::events_len();
    let r = state::with_transaction(|r: &Result<R, DispatchError>| r.is_ok(), f);
    if r.is_err() {
        frame_system::Pallet::<T>::truncate_events(n);
    }
    r
}

/// Dispatches a call the way the executive does. The call itself is responsible for its own
/// atomicity (FRAME wraps every call in a storage layer, as the shim's expansion does).
pub fn dispatch<T: Config, C>(call: C, origin: T::RuntimeOrigin) -> Result<(), DispatchError>
where
    C: UnfilteredDispatchable<RuntimeOrigin = T::RuntimeOrigin>,
{
    let n = frame_system::Pallet::<T>::events_len();
    let r = call.dispatch_bypass_filter(origin);
    if r.is_err() {
        frame_system::Pallet::<T>::truncate_events(n);
    }
    r.map(|_| ()).map_err(|e| e.error)
}

/// Starts a run on the thread's prepared state; `end_run` takes everything since back.
pub fn begin_run() {
    state::disarm_crash();
    state::unwind_to(0);
    state::start_transaction();
}
pub fn end_run() {
    state::disarm_crash();
    state::unwind_to(0);
}

pub struct Crashed;

/// Executes a block's body on top of durable state. If the armed crash fires, everything the
/// block wrote is lost and `Crashed` is returned.
pub fn block<T: Config, R>(crash_at_write: Option<u64>, f: impl FnOnce() -> R) -> Result<R, Crashed> {
    let d = state::depth();
    let ev = frame_system::Pallet::<T>::events_len();
    state::start_transaction();
    if let Some(n) = crash_at_write {
        state::arm_crash(n);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    state::disarm_crash();
    match r {
        Ok(r) => {
            state::commit_to(d);
            Ok(r)
        }
        Err(e) => {
            state::unwind_to(d);
            frame_system::Pallet::<T>::truncate_events(ev);
            if e.is::<state::SimCrash>() {
                Err(Crashed)
            } else {
                std::panic::resume_unwind(e)
            }
        }
    }
}

/// Implements `frame_system::Config` for a simulated runtime.
#[macro_export]
macro_rules! system_config {
    ($rt:ident, $acc:ty, $ev:ident) => {
        impl frame_system::Config for $rt {
            type BaseCallFilter = ();
            type RuntimeOrigin = frame_system::SimOrigin<$acc>;
            type RuntimeCall = ();
            type Nonce = u32;
            type Hash = sp_core::H256;
            type Hashing = sp_runtime::traits::BlakeTwo256;
            type AccountId = $acc;
            type Lookup = sp_runtime::traits::IdentityLookup<$acc>;
            type BlockNumber = u32;
            type Block = sp_runtime::generic::Block<
                sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>,
                sp_runtime::OpaqueExtrinsic,
            >;
            type RuntimeEvent = $ev;
            type BlockHashCount = frame_support::traits::ConstU32<250>;
            type DbWeight = ();
            type BlockWeights = ();
            type BlockLength = ();
            type Version = ();
            type PalletInfo = ();
            type AccountData = ();
            type OnNewAccount = ();
            type OnKilledAccount = ();
            type SystemWeightInfo = ();
            type SS58Prefix = ();
            type OnSetCode = ();
            type MaxConsumers = ();
        }
    };
}
