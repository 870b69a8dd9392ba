//! Stand-in for `frame-system`: origins, block number and hashes, and the event log.
#![allow(non_camel_case_types)]
use codec::{Decode, Encode, FullCodec};
use frame_support::dispatch::Parameter;
use frame_support::pallet_prelude::{StorageMap, StorageValue, Twox64Concat, ValueQuery};
use frame_support::storage::types::StorageInstance;
use frame_support::traits::{EnsureOrigin, Get, OriginTrait, SortedMembers};
pub use frame_support::dispatch::RawOrigin;
use sp_runtime::traits::{BadOrigin, Block as BlockT, MaybeDisplay, MaybeSerializeDeserialize, Member, Zero};
use sp_std::fmt::Debug;
use sp_std::marker::PhantomData;
use std::cell::RefCell;

pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
    pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
    pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
    pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
}
pub use pallet_prelude::BlockNumberFor as _BlockNumberFor;
use pallet_prelude::BlockNumberFor;

pub trait Config: 'static + Eq + Clone {
    type BaseCallFilter;
    type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
        + From<RawOrigin<Self::AccountId>>
        + Clone
        + OriginTrait<AccountId = Self::AccountId>;
    type RuntimeCall: Clone + PartialEq + Eq + Debug;
    type Nonce: Parameter + Member + Default + MaybeDisplay + sp_runtime::traits::AtLeast32Bit + Copy;
    type Hash: Parameter
        + Member
        + MaybeSerializeDeserialize
        + Debug
        + MaybeDisplay
        + sp_runtime::traits::SimpleBitOps
        + Ord
        + Default
        + Copy
        + sp_runtime::traits::CheckEqual
        + sp_std::hash::Hash
        + AsRef<[u8]>
        + AsMut<[u8]>
        + codec::MaxEncodedLen;
    type Hashing: sp_runtime::traits::Hash<Output = Self::Hash>;
    type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + codec::MaxEncodedLen;
    type Lookup: sp_runtime::traits::StaticLookup<Target = Self::AccountId>;
    /// In FRAME this is the number type of the block's header.
    type BlockNumber: Parameter
        + Member
        + MaybeSerializeDeserialize
        + sp_runtime::traits::MaybeFromStr
        + Debug
        + sp_std::hash::Hash
        + Copy
        + MaybeDisplay
        + sp_runtime::traits::AtLeast32BitUnsigned
        + Into<sp_core::U256>
        + TryFrom<sp_core::U256>
        + Default
        + codec::MaxEncodedLen;
    type Block: BlockT<Hash = Self::Hash>;
    type RuntimeEvent: Clone + PartialEq + Debug + 'static;
    type BlockHashCount: Get<BlockNumberFor<Self>>;
    type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
    type BlockWeights: Get<limits::BlockWeights>;
    type BlockLength;
    type Version;
    type PalletInfo;
    type AccountData: Member + FullCodec + Clone + Default;
    type OnNewAccount;
    type OnKilledAccount;
    type SystemWeightInfo;
    type SS58Prefix;
    type OnSetCode;
    type MaxConsumers;
}

pub struct Pallet<T>(PhantomData<T>);

pub mod limits {
    #[derive(Clone, Debug)]
    pub struct BlockWeights {
        pub max_block: frame_support::weights::Weight,
    }
    impl Default for BlockWeights {
        fn default() -> Self {
            Self { max_block: frame_support::weights::Weight::from_parts(1_000_000_000_000, 5_242_880) }
        }
    }
}
/// The calls of this stand-in: only `remark`.
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
pub enum Call<T> {
    remark { remark: Vec<u8> },
    #[codec(skip)]
    __Ignore(PhantomData<T>),
}

struct PNumber;
impl StorageInstance for PNumber {
    fn pallet_prefix() -> &'static str {
        "system"
    }
    fn instance_prefix() -> &'static str {
        ""
    }
    const STORAGE_PREFIX: &'static str = "Number";
}
struct PHash;
impl StorageInstance for PHash {
    fn pallet_prefix() -> &'static str {
        "system"
    }
    fn instance_prefix() -> &'static str {
        ""
    }
    const STORAGE_PREFIX: &'static str = "BlockHash";
}
struct PParent;
impl StorageInstance for PParent {
    fn pallet_prefix() -> &'static str {
        "system"
    }
    fn instance_prefix() -> &'static str {
        ""
    }
    const STORAGE_PREFIX: &'static str = "ParentHash";
}
struct PExt;
impl StorageInstance for PExt {
    fn pallet_prefix() -> &'static str {
        "system"
    }
    fn instance_prefix() -> &'static str {
        ""
    }
    const STORAGE_PREFIX: &'static str = "ExtrinsicIndex";
}
type Number<T> = StorageValue<PNumber, BlockNumberFor<T>, ValueQuery>;
type ParentHash<T> = StorageValue<PParent, <T as Config>::Hash, ValueQuery>;
type BlockHash<T> = StorageMap<PHash, Twox64Concat, BlockNumberFor<T>, <T as Config>::Hash, ValueQuery>;

thread_local! {
    // events carry their storage-transaction depth so that rolled back ones disappear
    static EVENTS: RefCell<Vec<Box<dyn std::any::Any>>> = RefCell::new(vec![]);
    static LOG: std::cell::Cell<bool> = std::cell::Cell::new(true);
}

pub enum Event<T: Config> {
    ExtrinsicSuccess(PhantomData<T>),
}

impl<T: Config> Pallet<T> {
    pub fn block_number() -> BlockNumberFor<T> {
        Number::<T>::get()
    }
    pub fn set_block_number(n: BlockNumberFor<T>) {
        Number::<T>::put(n)
    }
    pub fn parent_hash() -> T::Hash {
        ParentHash::<T>::get()
    }
    pub fn set_parent_hash(h: T::Hash) {
        ParentHash::<T>::put(h)
    }
    pub fn block_hash(n: BlockNumberFor<T>) -> T::Hash {
        BlockHash::<T>::get(n)
    }
    pub fn note_block_hash(n: BlockNumberFor<T>, h: T::Hash) {
        BlockHash::<T>::insert(n, h)
    }
    pub fn extrinsic_index() -> Option<u32> {
        StorageValue::<PExt, u32>::get()
    }
    pub fn set_extrinsic_index(i: u32) {
        StorageValue::<PExt, u32>::put(i)
    }
    pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
        if LOG.with(|l| l.get()) {
            let e: T::RuntimeEvent = event.into();
            EVENTS.with(|x| x.borrow_mut().push(Box::new(e)));
        }
    }
    /// Takes all events deposited so far (including those of rolled-back calls: the simulator
    /// drops the events of a failed dispatch itself).
    pub fn take_events() -> Vec<T::RuntimeEvent> {
        EVENTS.with(|x| {
            x.borrow_mut()
                .drain(..)
                .filter_map(|e| e.downcast::<T::RuntimeEvent>().ok().map(|b| *b))
                .collect()
        })
    }
    pub fn events_len() -> usize {
        EVENTS.with(|x| x.borrow().len())
    }
    pub fn truncate_events(n: usize) {
        EVENTS.with(|x| x.borrow_mut().truncate(n))
    }
    pub fn reset_events() {
        EVENTS.with(|x| x.borrow_mut().clear())
    }
    pub fn inc_providers(_who: &T::AccountId) {}
    pub fn dec_providers(_who: &T::AccountId) -> Result<(), sp_runtime::DispatchError> {
        Ok(())
    }
    pub fn inc_consumers(_who: &T::AccountId) -> Result<(), sp_runtime::DispatchError> {
        Ok(())
    }
    pub fn dec_consumers(_who: &T::AccountId) {}
    pub fn account_nonce(_who: impl codec::EncodeLike<T::AccountId>) -> T::Nonce {
        Zero::zero()
    }
    pub fn register_extra_weight_unchecked(_w: frame_support::weights::Weight, _c: frame_support::dispatch::DispatchClass) {}
}

pub mod offchain {
    pub trait SendTransactionTypes<LocalCall> {
        type Extrinsic: sp_runtime::traits::Extrinsic + codec::Encode;
        type OverarchingCall: From<LocalCall> + 'static;
    }
    pub struct SubmitTransaction<T, C>(core::marker::PhantomData<(T, C)>);
    impl<T: SendTransactionTypes<C>, C> SubmitTransaction<T, C> {
        pub fn submit_unsigned_transaction(call: C) -> Result<(), ()> {
            let c: T::OverarchingCall = call.into();
            super::UNSIGNED.with(|u| u.borrow_mut().push(Box::new(c)));
            Ok(())
        }
    }
}
thread_local! {
    pub(crate) static UNSIGNED: RefCell<Vec<Box<dyn std::any::Any>>> = RefCell::new(vec![]);
}
/// Takes the unsigned transactions submitted by offchain workers.
pub fn take_unsigned<C: 'static>() -> Vec<C> {
    UNSIGNED.with(|u| u.borrow_mut().drain(..).filter_map(|b| b.downcast::<C>().ok().map(|b| *b)).collect())
}

/// The origin of the simulated runtimes.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SimOrigin<A>(pub RawOrigin<A>);
impl<A> From<RawOrigin<A>> for SimOrigin<A> {
    fn from(r: RawOrigin<A>) -> Self {
        SimOrigin(r)
    }
}
impl<A> From<Option<A>> for SimOrigin<A> {
    fn from(r: Option<A>) -> Self {
        SimOrigin(r.into())
    }
}
impl<A> Into<Result<RawOrigin<A>, SimOrigin<A>>> for SimOrigin<A> {
    fn into(self) -> Result<RawOrigin<A>, SimOrigin<A>> {
        Ok(self.0)
    }
}
impl<A> OriginTrait for SimOrigin<A> {
    type AccountId = A;
    fn signed(by: A) -> Self {
        SimOrigin(RawOrigin::Signed(by))
    }
    fn root() -> Self {
        SimOrigin(RawOrigin::Root)
    }
    fn none() -> Self {
        SimOrigin(RawOrigin::None)
    }
    fn into_signer(self) -> Option<A> {
        match self.0 {
            RawOrigin::Signed(a) => Some(a),
            _ => None,
        }
    }
    fn as_signer(&self) -> Option<&A> {
        match &self.0 {
            RawOrigin::Signed(a) => Some(a),
            _ => None,
        }
    }
}

pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(None),
        Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::None) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> {
        o.into().and_then(|o| match o {
            RawOrigin::Root => Ok(()),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(a) => Ok(a),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: Ord> EnsureOrigin<O>
    for EnsureSignedBy<W, A>
{
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(ref a) if W::sorted_members().binary_search(a).is_ok() => match o {
                RawOrigin::Signed(a) => Ok(a),
                _ => unreachable!(),
            },
            r => Err(O::from(r)),
        })
    }
}
#[derive(Debug)]
pub enum Error<T> {
    CallFiltered,
    __Ignore(PhantomData<T>),
}
