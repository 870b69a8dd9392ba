use codec::{Decode, Encode};
use scale_info::TypeInfo;
use sp_runtime::RuntimeDebug;
pub use codec::{Codec, EncodeLike};
pub use sp_runtime::traits::{Dispatchable, DispatchInfoOf, PostDispatchInfoOf};
pub use sp_runtime::{DispatchError, DispatchResult};
pub use sp_weights::Weight;
pub use crate::traits::{CallMetadata, GetCallMetadata, GetCallName, UnfilteredDispatchable};
pub use sp_std::{fmt, result};
pub use sp_std::prelude::{Clone, Eq, PartialEq, Vec};
pub use crate::traits::GetStorageVersion;

pub trait Parameter: codec::Codec + codec::EncodeLike + Clone + Eq + fmt::Debug + scale_info::StaticTypeInfo {}
impl<T> Parameter for T where T: codec::Codec + codec::EncodeLike + Clone + Eq + fmt::Debug + scale_info::StaticTypeInfo {}

pub trait Callable<T> {
    type RuntimeCall: crate::traits::UnfilteredDispatchable;
}
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;

pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;

#[derive(Clone, Copy, Default, Eq, PartialEq, RuntimeDebug, Encode, Decode, TypeInfo)]
pub enum Pays {
    #[default]
    Yes,
    No,
}
impl From<Pays> for PostDispatchInfo {
    fn from(p: Pays) -> Self {
        Self { actual_weight: None, pays_fee: p }
    }
}
#[derive(Clone, Copy, Default, Eq, PartialEq, RuntimeDebug, Encode, Decode, TypeInfo)]
pub enum DispatchClass {
    #[default]
    Normal,
    Operational,
    Mandatory,
}
#[derive(Clone, Copy, Default, Eq, PartialEq, RuntimeDebug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
    pub weight: Weight,
    pub class: DispatchClass,
    pub pays_fee: Pays,
}
pub trait GetDispatchInfo {
    fn get_dispatch_info(&self) -> DispatchInfo;
}
#[derive(Clone, Copy, Default, Eq, PartialEq, RuntimeDebug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
    pub actual_weight: Option<Weight>,
    pub pays_fee: Pays,
}
impl PostDispatchInfo {
    pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
        self.actual_weight.unwrap_or(info.weight)
    }
}
impl From<()> for PostDispatchInfo {
    fn from(_: ()) -> Self {
        Default::default()
    }
}
impl From<Option<Weight>> for PostDispatchInfo {
    fn from(actual_weight: Option<Weight>) -> Self {
        Self { actual_weight, pays_fee: Default::default() }
    }
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
    fn from(x: (Option<Weight>, Pays)) -> Self {
        Self { actual_weight: x.0, pays_fee: x.1 }
    }
}
impl sp_runtime::traits::Printable for PostDispatchInfo {
    fn print(&self) {}
}
pub trait ClassifyDispatch<T> {}
pub trait PaysFee<T> {}
pub trait WeighData<T> {}
pub trait WithPostDispatchInfo {
    fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchErrorWithPostInfo>> WithPostDispatchInfo for T {
    fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
        let mut e = self.into();
        e.post_info.actual_weight = Some(w);
        e
    }
}

#[derive(Eq, PartialEq, Clone, RuntimeDebug, Encode, Decode, TypeInfo)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
    fn from(s: Option<A>) -> Self {
        match s {
            Some(w) => RawOrigin::Signed(w),
            None => RawOrigin::None,
        }
    }
}
impl<A> RawOrigin<A> {
    pub fn as_signed(&self) -> Option<&A> {
        match &self {
            RawOrigin::Signed(x) => Some(x),
            _ => None,
        }
    }
}
