pub use sp_core::bounded::{BoundedBTreeMap, BoundedVec};
pub use sp_core::{
    ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get,
    TypedGet, TryCollect, GetDefault as SpGetDefault,
};
pub use crate::storage::types::GetDefault;
use codec::{Codec, Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_arithmetic::traits::{AtLeast32BitUnsigned, Zero};
use sp_runtime::traits::{BadOrigin, MaybeSerializeDeserialize, Member};
use sp_runtime::{DispatchError, DispatchResult, RuntimeDebug};
use sp_std::fmt::Debug;
use sp_weights::Weight;
pub use sp_runtime::traits::{ConstBool as _CB, Lookup, StaticLookup};

pub mod tokens;
pub use tokens::currency::*;
pub use tokens::{fungible, fungibles};
pub use tokens::{BalanceStatus, ExistenceRequirement, WithdrawReasons};

// ---------------------------------------------------------------- hooks, genesis, versions
pub trait Hooks<BlockNumber> {
    fn on_finalize(_n: BlockNumber) {}
    fn on_idle(_n: BlockNumber, _remaining: Weight) -> Weight {
        Weight::zero()
    }
    fn on_initialize(_n: BlockNumber) -> Weight {
        Weight::zero()
    }
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
    fn try_state(_n: BlockNumber) -> Result<(), sp_runtime::TryRuntimeError> {
        Ok(())
    }
    fn offchain_worker(_n: BlockNumber) {}
    fn integrity_test() {}
}
pub trait OnRuntimeUpgrade {
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
}
pub trait BuildGenesisConfig {
    fn build(&self);
}
pub use BuildGenesisConfig as GenesisBuild;

#[derive(RuntimeDebug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default)]
pub struct StorageVersion(u16);
impl StorageVersion {
    pub const fn new(v: u16) -> Self {
        Self(v)
    }
    pub fn put<P>(&self) {}
    pub fn get<P>() -> Self {
        Self(0)
    }
}
impl PartialEq<u16> for StorageVersion {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
impl PartialOrd<u16> for StorageVersion {
    fn partial_cmp(&self, o: &u16) -> Option<sp_std::cmp::Ordering> {
        Some(self.0.cmp(o))
    }
}
pub trait GetStorageVersion {
    fn current_storage_version() -> StorageVersion;
    fn on_chain_storage_version() -> StorageVersion;
}
pub trait PalletInfoAccess {
    fn index() -> usize;
    fn name() -> &'static str;
    fn module_name() -> &'static str;
}
pub trait StorageInfoTrait {}

// ---------------------------------------------------------------- membership
pub trait Contains<T> {
    fn contains(t: &T) -> bool;
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
    fn contains(_: &T) -> bool {
        true
    }
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
    fn contains(_: &T) -> bool {
        false
    }
}
pub trait SortedMembers<T: Ord> {
    fn sorted_members() -> Vec<T>;
}
pub trait ContainsPair<A, B> {
    fn contains(a: &A, b: &B) -> bool;
}

// ---------------------------------------------------------------- origins and calls
pub trait EnsureOrigin<OuterOrigin> {
    type Success;
    fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
        Self::try_origin(o).map_err(|_| BadOrigin)
    }
    fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait OriginTrait: Sized {
    type AccountId;
    fn signed(by: Self::AccountId) -> Self;
    fn root() -> Self;
    fn none() -> Self;
    fn into_signer(self) -> Option<Self::AccountId>;
    fn as_signer(&self) -> Option<&Self::AccountId>;
    fn as_signed(self) -> Option<Self::AccountId> {
        self.into_signer()
    }
}
pub trait IsType<T>: Into<T> + From<T> {
    fn from_ref(t: &T) -> &Self;
    fn into_ref(&self) -> &T;
    fn from_mut(t: &mut T) -> &mut Self;
    fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
    fn from_ref(t: &T) -> &Self {
        t
    }
    fn into_ref(&self) -> &T {
        self
    }
    fn from_mut(t: &mut T) -> &mut Self {
        t
    }
    fn into_mut(&mut self) -> &mut T {
        self
    }
}
pub trait IsSubType<T> {
    fn is_sub_type(&self) -> Option<&T>;
}
pub trait UnfilteredDispatchable {
    type RuntimeOrigin;
    fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::dispatch::DispatchResultWithPostInfo;
}
pub trait GetCallName {
    fn get_call_names() -> &'static [&'static str];
    fn get_call_name(&self) -> &'static str;
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, TypeInfo)]
pub struct CallMetadata {
    pub function_name: &'static str,
    pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
    fn get_module_names() -> &'static [&'static str];
    fn get_call_names(module: &str) -> &'static [&'static str];
    fn get_call_metadata(&self) -> CallMetadata;
}

// ---------------------------------------------------------------- time, validators, misc
pub trait UnixTime {
    fn now() -> core::time::Duration;
}
pub trait Time {
    type Moment: AtLeast32BitUnsigned + codec::Codec + Default + Clone + Copy + Debug;
    fn now() -> Self::Moment;
}
pub trait ValidatorRegistration<ValidatorId> {
    fn is_registered(id: &ValidatorId) -> bool;
}
pub trait ValidatorSet<AccountId> {
    type ValidatorId;
}
pub trait FindAuthor<Author> {
    fn find_author<'a, I>(digests: I) -> Option<Author>
    where
        I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>;
}
pub trait OnUnbalanced<I> {
    fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>)
    where
        I: Imbalance<B>,
    {
        Self::on_unbalanced(amounts.fold(I::zero(), |i, x| x.merge(i)))
    }
    fn on_unbalanced(amount: I) {
        Self::on_nonzero_unbalanced(amount)
    }
    fn on_nonzero_unbalanced(amount: I) {
        drop(amount);
    }
}
impl<I> OnUnbalanced<I> for () {}
pub trait HandleLifetime<T> {}
pub trait OnKilledAccount<A> {
    fn on_killed_account(_who: &A) {}
}
impl<A> OnKilledAccount<A> for () {}
pub trait OnNewAccount<A> {
    fn on_new_account(_who: &A) {}
}
impl<A> OnNewAccount<A> for () {}
pub trait OffchainWorker<N> {}
pub trait Instance: 'static {}

pub trait Defensive<T> {
    fn defensive(self) -> Self;
    fn defensive_unwrap_or(self, o: T) -> T;
}
impl<T> Defensive<T> for Option<T> {
    fn defensive(self) -> Self {
        self
    }
    fn defensive_unwrap_or(self, o: T) -> T {
        self.unwrap_or(o)
    }
}
impl<T, E> Defensive<T> for Result<T, E> {
    fn defensive(self) -> Self {
        self
    }
    fn defensive_unwrap_or(self, o: T) -> T {
        self.unwrap_or(o)
    }
}
pub trait DefensiveSaturating {
    fn defensive_saturating_add(self, o: Self) -> Self;
    fn defensive_saturating_sub(self, o: Self) -> Self;
}
impl<T: sp_runtime::traits::Saturating> DefensiveSaturating for T {
    fn defensive_saturating_add(self, o: Self) -> Self {
        self.saturating_add(o)
    }
    fn defensive_saturating_sub(self, o: Self) -> Self {
        self.saturating_sub(o)
    }
}

// ---------------------------------------------------------------- preimages and scheduling
pub mod schedule;
pub mod preimages;
pub use preimages::{Bounded, QueryPreimage, StorePreimage};

#[allow(unused)]
fn _unused<T: Codec + FullCodec + MaxEncodedLen + Member + MaybeSerializeDeserialize + Zero + Decode>(
    _: T,
) -> Result<DispatchResult, DispatchError> {
    unimplemented!()
}

pub trait Randomness<Output, BlockNumber> {
    fn random(subject: &[u8]) -> (Output, BlockNumber);
    fn random_seed() -> (Output, BlockNumber) {
        Self::random(&[][..])
    }
}
