//! Stand-in for `pallet-timestamp`: the block's timestamp, set by the simulated collator.
use codec::{Codec, MaxEncodedLen};
use frame_support::storage::types::{StorageInstance, StorageValue, ValueQuery};
use frame_support::traits::{Get, Time, UnixTime};
use scale_info::StaticTypeInfo;
use sp_runtime::traits::{AtLeast32Bit, SaturatedConversion, Scale};

pub trait OnTimestampSet<M> {
    fn on_timestamp_set(moment: M);
}
impl<M> OnTimestampSet<M> for () {
    fn on_timestamp_set(_: M) {}
}
pub trait Config: frame_system::Config {
    type Moment: frame_support::Parameter
        + Default
        + AtLeast32Bit
        + Scale<frame_system::pallet_prelude::BlockNumberFor<Self>, Output = Self::Moment>
        + Copy
        + MaxEncodedLen
        + StaticTypeInfo
        + Codec;
    type OnTimestampSet: OnTimestampSet<Self::Moment>;
    type MinimumPeriod: Get<Self::Moment>;
    type WeightInfo;
}
struct P;
impl StorageInstance for P {
    fn pallet_prefix() -> &'static str {
        "timestamp"
    }
    fn instance_prefix() -> &'static str {
        ""
    }
    const STORAGE_PREFIX: &'static str = "Now";
}
pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
    pub fn get() -> T::Moment {
        StorageValue::<P, T::Moment, ValueQuery>::get()
    }
    pub fn now() -> T::Moment {
        Self::get()
    }
    pub fn set_timestamp(now: T::Moment) {
        StorageValue::<P, T::Moment, ValueQuery>::put(now);
        <T::OnTimestampSet as OnTimestampSet<_>>::on_timestamp_set(now);
    }
}
impl<T: Config> Time for Pallet<T>
where
    T::Moment: sp_runtime::traits::AtLeast32BitUnsigned,
{
    type Moment = T::Moment;
    fn now() -> T::Moment {
        Self::get()
    }
}
impl<T: Config> UnixTime for Pallet<T> {
    fn now() -> core::time::Duration {
        core::time::Duration::from_millis(Self::get().saturated_into::<u64>())
    }
}
