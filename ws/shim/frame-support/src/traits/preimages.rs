//! Preimage interface: calls are carried inline.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::{bounded::BoundedVec, ConstU32, H256};
use sp_runtime::{DispatchError, RuntimeDebug};
use sp_std::borrow::Cow;

pub type Hash = H256;
pub type BoundedInline = BoundedVec<u8, ConstU32<4096>>;

#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Clone, Eq, PartialEq, RuntimeDebug)]
#[codec(mel_bound())]
#[scale_info(skip_type_params(T))]
pub enum Bounded<T> {
    Legacy { hash: Hash, dummy: sp_std::marker::PhantomData<T> },
    Inline(BoundedInline),
    Lookup { hash: Hash, len: u32 },
}
impl<T> Bounded<T> {
    pub fn from_legacy_hash(hash: impl Into<Hash>) -> Self {
        Bounded::Legacy { hash: hash.into(), dummy: Default::default() }
    }
    pub fn hash(&self) -> Hash {
        match self {
            Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => *hash,
            Bounded::Inline(x) => sp_core::hashing::blake2_256(x.as_ref()).into(),
        }
    }
    pub fn len(&self) -> Option<u32> {
        match self {
            Bounded::Legacy { .. } => None,
            Bounded::Inline(i) => Some(i.len() as u32),
            Bounded::Lookup { len, .. } => Some(*len),
        }
    }
    pub fn lookup_needed(&self) -> bool {
        !matches!(self, Bounded::Inline(_))
    }
    pub fn lookup_len(&self) -> Option<u32> {
        None
    }
    pub fn transmute<S: Encode>(self) -> Bounded<S> {
        match self {
            Bounded::Legacy { hash, .. } => Bounded::Legacy { hash, dummy: Default::default() },
            Bounded::Inline(x) => Bounded::Inline(x),
            Bounded::Lookup { hash, len } => Bounded::Lookup { hash, len },
        }
    }
}
pub trait QueryPreimage {
    fn len(hash: &Hash) -> Option<u32>;
    fn fetch(hash: &Hash, len: Option<u32>) -> Result<Cow<'static, [u8]>, DispatchError>;
    fn is_requested(hash: &Hash) -> bool;
    fn request(hash: &Hash);
    fn unrequest(hash: &Hash);
    fn hold<T>(b: &Bounded<T>) {
        let _ = b;
    }
    fn drop<T>(b: &Bounded<T>) {
        let _ = b;
    }
    fn have<T>(b: &Bounded<T>) -> bool {
        !b.lookup_needed()
    }
    fn peek<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        match b {
            Bounded::Inline(d) => T::decode(&mut &d[..]).map(|t| (t, None)).map_err(|_| DispatchError::Corruption),
            _ => Err(DispatchError::Unavailable),
        }
    }
    fn realize<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        let r = Self::peek(b)?;
        Self::drop(b);
        Ok(r)
    }
    fn pick<T: Encode + Decode>(hash: Hash, len: u32) -> Bounded<T> {
        Bounded::Lookup { hash, len }
    }
}
pub trait StorePreimage: QueryPreimage {
    const MAX_LENGTH: usize = 4096;
    fn note(bytes: Cow<[u8]>) -> Result<Hash, DispatchError>;
    fn unnote(hash: &Hash) {
        Self::unrequest(hash)
    }
    fn bound<T: Encode>(t: T) -> Result<Bounded<T>, DispatchError> {
        BoundedInline::try_from(t.encode()).map(Bounded::Inline).map_err(|_| DispatchError::Exhausted)
    }
}
impl QueryPreimage for () {
    fn len(_: &Hash) -> Option<u32> {
        None
    }
    fn fetch(_: &Hash, _: Option<u32>) -> Result<Cow<'static, [u8]>, DispatchError> {
        Err(DispatchError::Unavailable)
    }
    fn is_requested(_: &Hash) -> bool {
        false
    }
    fn request(_: &Hash) {}
    fn unrequest(_: &Hash) {}
}
impl StorePreimage for () {
    fn note(_: Cow<[u8]>) -> Result<Hash, DispatchError> {
        Err(DispatchError::Exhausted)
    }
}
