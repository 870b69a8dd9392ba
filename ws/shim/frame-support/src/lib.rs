//! Stand-in for `frame-support` (polkadot-v1.0 API): just enough of it to compile the
//! repository's pallets unchanged and run them on a deterministic in-memory state.
#![allow(clippy::all)]

extern crate self as frame_support;

pub mod dispatch;
pub mod hash;
pub mod migration;
pub mod state;
pub mod storage;
pub mod traits;
pub mod weights;

pub use codec;
pub use frame_support_procedural::{
    pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound,
    PalletError, PartialEqNoBound, RuntimeDebugNoBound,
};
pub use hash::*;
pub use log;
pub use scale_info;
pub use serde;
pub use sp_core::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use sp_core::{defer, parameter_types as __pt};
pub use sp_io::{self, hashing};
pub use sp_runtime::{
    self, bounded_btree_map, bounded_vec, print, traits::Printable, ConsensusEngineId, MAX_MODULE_ERROR_ENCODED_SIZE,
};
pub use sp_std;
pub use sp_std::fmt::Debug;
pub use storage::types::*;
pub use sp_debug_derive::RuntimeDebug;
pub use dispatch::Parameter;
pub use sp_runtime::DispatchError;

pub mod unsigned {
    pub use sp_runtime::traits::ValidateUnsigned;
    pub use sp_runtime::transaction_validity::{
        InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction,
    };
}

/// A type that cannot be instantiated.
#[derive(Debug, PartialEq, Eq, Clone, Copy, scale_info::TypeInfo)]
pub enum Never {}
impl codec::Encode for Never {}
impl codec::Decode for Never {
    fn decode<I: codec::Input>(_: &mut I) -> Result<Self, codec::Error> {
        Err("never".into())
    }
}

#[derive(
    Clone,
    Copy,
    Eq,
    PartialEq,
    codec::Encode,
    codec::Decode,
    RuntimeDebug,
    scale_info::TypeInfo,
    codec::MaxEncodedLen,
    serde::Serialize,
    serde::Deserialize,
)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::TypeId for PalletId {
    const TYPE_ID: [u8; 4] = *b"modl";
}

/// A stable number for a pallet, from its crate name.
pub fn pkg_index(name: &str) -> u8 {
    let mut h: u32 = 7;
    for b in name.bytes() {
        h = h.wrapping_mul(31).wrapping_add(b as u32);
    }
    (h ^ (h >> 8) ^ (h >> 16)) as u8
}

#[macro_export]
macro_rules! ensure {
    ( $x:expr, $y:expr $(,)? ) => {{
        if !$x {
            return Err($y.into());
        }
    }};
}
#[macro_export]
macro_rules! fail {
    ( $y:expr ) => {{
        return Err($y.into());
    }};
}
#[macro_export]
macro_rules! runtime_print {
    ($($arg:tt)+) => {{ let _ = || { let _ = format!($($arg)+); }; }};
}
#[macro_export]
macro_rules! debug {
    ($($arg:tt)+) => {{}};
}
#[macro_export]
macro_rules! assert_ok {
    ( $x:expr $(,)? ) => {
        let is = $x;
        match is {
            Ok(_) => (),
            _ => assert!(false, "Expected Ok(_). Got {:#?}", is),
        }
    };
    ( $x:expr, $y:expr $(,)? ) => {
        assert_eq!($x, Ok($y));
    };
}
#[macro_export]
macro_rules! assert_err {
    ( $x:expr , $y:expr $(,)? ) => {
        assert_eq!($x, Err($y.into()));
    };
}
#[macro_export]
macro_rules! assert_noop {
    ( $x:expr , $y:expr $(,)? ) => {
        assert_eq!($x, Err($y.into()));
    };
}
#[macro_export]
macro_rules! defensive {
    ( $($x:tt)* ) => {{}};
}

/// `parameter_types!`: constants (`const`), computed values and thread-local variables (`static`).
#[macro_export]
macro_rules! parameter_types {
    ( $( #[ $a:meta ] )* $vis:vis const $name:ident: $t:ty = $v:expr; $( $rest:tt )* ) => {
        $( #[ $a ] )*
        $vis struct $name;
        impl $name { #[allow(dead_code)] pub fn get() -> $t { $v } }
        impl<__I: From<$t>> $crate::traits::Get<__I> for $name { fn get() -> __I { __I::from($v) } }
        $crate::parameter_types!( $( $rest )* );
    };
    ( $( #[ $a:meta ] )* $vis:vis $name:ident: $t:ty = $v:expr; $( $rest:tt )* ) => {
        $( #[ $a ] )*
        $vis struct $name;
        impl $name { #[allow(dead_code)] pub fn get() -> $t { $v } }
        impl<__I: From<$t>> $crate::traits::Get<__I> for $name { fn get() -> __I { __I::from($v) } }
        $crate::parameter_types!( $( $rest )* );
    };
    ( $( #[ $a:meta ] )* $vis:vis storage $name:ident: $t:ty = $v:expr; $( $rest:tt )* ) => {
        $crate::parameter_types!( $( #[ $a ] )* $vis static $name: $t = $v; $( $rest )* );
    };
    ( $( #[ $a:meta ] )* $vis:vis static $name:ident: $t:ty = $v:expr; $( $rest:tt )* ) => {
        $( #[ $a ] )*
        $vis struct $name;
        impl $name {
            #[allow(dead_code)] fn __cell<R>(f: impl FnOnce(&std::cell::RefCell<$t>) -> R) -> R {
                thread_local! { static C: std::cell::RefCell<$t> = std::cell::RefCell::new($v); }
                C.with(f)
            }
            #[allow(dead_code)] pub fn get() -> $t { Self::__cell(|c| c.borrow().clone()) }
            #[allow(dead_code)] pub fn set(t: $t) { Self::__cell(|c| *c.borrow_mut() = t) }
        }
        impl<__I: From<$t>> $crate::traits::Get<__I> for $name { fn get() -> __I { __I::from(Self::get()) } }
        $crate::parameter_types!( $( $rest )* );
    };
    () => {};
}

pub mod genesis_builder_helper {}

pub mod pallet_prelude {
    pub use crate::{
        dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays},
        ensure,
        hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, Twox128, Twox256, Twox64Concat},
        storage,
        storage::types::{
            CountedStorageMap, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery,
        },
        traits::{
            BuildGenesisConfig, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, ConstBool, EnsureOrigin, Get, GetDefault,
            GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet,
        },
        BoundedVec, CloneNoBound, Debug, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound,
        RuntimeDebug, RuntimeDebugNoBound, Twox64Concat as _Twox64Concat,
    };
    pub use codec::{Decode, Encode, MaxEncodedLen};
    pub use frame_support_procedural::{require_transactional, storage_alias};
    pub use scale_info::TypeInfo;
    pub use sp_runtime::{
        traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned},
        transaction_validity::{
            InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag,
            TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction,
        },
        DispatchError, MAX_MODULE_ERROR_ENCODED_SIZE,
    };
    pub use sp_std::marker::PhantomData;
    pub use sp_weights::Weight;
}
