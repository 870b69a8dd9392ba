//! Storage items over an in-memory, journalled, per-thread key-value state.

use crate::state;
use codec::{Decode, Encode, EncodeLike, FullCodec};
use sp_runtime::{DispatchError, TransactionOutcome};

pub use crate::state::with_transaction as raw_with_transaction;
pub use sp_core::bounded::{bounded_btree_map, bounded_btree_set, bounded_vec};

/// FRAME's `with_transaction`.
pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
where
    E: From<DispatchError>,
    F: FnOnce() -> TransactionOutcome<Result<T, E>>,
{
    state::start_transaction();
    match f() {
        TransactionOutcome::Commit(res) => {
            state::commit_transaction();
            res
        }
        TransactionOutcome::Rollback(res) => {
            state::rollback_transaction();
            res
        }
    }
}
pub fn with_transaction_unchecked<R, F>(f: F) -> R
where
    F: FnOnce() -> TransactionOutcome<R>,
{
    state::start_transaction();
    match f() {
        TransactionOutcome::Commit(res) => {
            state::commit_transaction();
            res
        }
        TransactionOutcome::Rollback(res) => {
            state::rollback_transaction();
            res
        }
    }
}

pub fn with_storage_layer<T, E, F>(f: F) -> Result<T, E>
where
    E: From<DispatchError>,
    F: FnOnce() -> Result<T, E>,
{
    with_transaction(|| {
        let r = f();
        if r.is_ok() {
            TransactionOutcome::Commit(r)
        } else {
            TransactionOutcome::Rollback(r)
        }
    })
}

pub fn in_storage_layer<T, E, F>(f: F) -> Result<T, E>
where
    E: From<DispatchError>,
    F: FnOnce() -> Result<T, E>,
{
    if transactional::is_transactional() {
        f()
    } else {
        with_storage_layer(f)
    }
}

pub mod transactional {
    pub use super::{in_storage_layer, with_storage_layer, with_transaction, with_transaction_unchecked};
    pub fn is_transactional() -> bool {
        crate::state::depth() > 0
    }
}

pub mod unhashed {
    use super::*;
    pub fn get<T: Decode>(key: &[u8]) -> Option<T> {
        state::get(key).and_then(|v| T::decode(&mut &v[..]).ok())
    }
    pub fn get_raw(key: &[u8]) -> Option<Vec<u8>> {
        state::get(key)
    }
    pub fn put<T: Encode + ?Sized>(key: &[u8], v: &T) {
        state::put(key.to_vec(), v.encode())
    }
    pub fn put_raw(key: &[u8], v: &[u8]) {
        state::put(key.to_vec(), v.to_vec())
    }
    pub fn kill(key: &[u8]) {
        state::del(key)
    }
    pub fn exists(key: &[u8]) -> bool {
        state::get(key).is_some()
    }
}

pub struct MultiRemovalResults {
    pub backend: u32,
    pub unique: u32,
    pub loops: u32,
    pub maybe_cursor: Option<Vec<u8>>,
}

pub mod types {
    use super::*;
    use crate::hash::StorageHasher;
    use crate::traits::Get;
    use core::marker::PhantomData;

    pub trait StorageInstance {
        fn pallet_prefix() -> &'static str;
        fn instance_prefix() -> &'static str;
        const STORAGE_PREFIX: &'static str;
        fn prefix() -> Vec<u8> {
            let mut p = Vec::with_capacity(96);
            p.extend_from_slice(Self::pallet_prefix().as_bytes());
            p.push(b'/');
            p.extend_from_slice(Self::instance_prefix().as_bytes());
            p.push(b'/');
            p.extend_from_slice(Self::STORAGE_PREFIX.as_bytes());
            p.push(0);
            p
        }
    }

    pub trait QueryKindTrait<Value, OnEmpty> {
        type Query;
        fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
        fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
    }
    pub struct OptionQuery;
    pub struct ValueQuery;
    pub struct ResultQuery<E>(PhantomData<E>);
    pub struct GetDefault;
    impl<T: Default> Get<T> for GetDefault {
        fn get() -> T {
            T::default()
        }
    }
    impl<Value: 'static, OnEmpty: Get<Option<Value>> + 'static> QueryKindTrait<Value, OnEmpty> for OptionQuery {
        type Query = Option<Value>;
        fn from_optional_value_to_query(v: Option<Value>) -> Option<Value> {
            v.or_else(|| OnEmpty::get())
        }
        fn from_query_to_optional_value(v: Option<Value>) -> Option<Value> {
            v
        }
    }
    impl<Value: 'static, OnEmpty: Get<Value> + 'static> QueryKindTrait<Value, OnEmpty> for ValueQuery {
        type Query = Value;
        fn from_optional_value_to_query(v: Option<Value>) -> Value {
            v.unwrap_or_else(|| OnEmpty::get())
        }
        fn from_query_to_optional_value(v: Value) -> Option<Value> {
            Some(v)
        }
    }

    pub trait StorageMeta {
        type Key1;
        type Key2;
        type Value;
        type Query;
    }

    fn decode_value<V: Decode>(k: &[u8]) -> Option<V> {
        state::get(k).and_then(|v| V::decode(&mut &v[..]).ok())
    }

    // ------------------------------------------------------------ value
    pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(
        PhantomData<(Prefix, Value, QueryKind, OnEmpty)>,
    );
    impl<P, V, Q: QueryKindTrait<V, O>, O> StorageMeta for StorageValue<P, V, Q, O> {
        type Key1 = ();
        type Key2 = ();
        type Value = V;
        type Query = Q::Query;
    }
    impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O> StorageValue<P, V, Q, O> {
        pub fn hashed_key() -> Vec<u8> {
            P::prefix()
        }
        pub fn exists() -> bool {
            state::get(&P::prefix()).is_some()
        }
        pub fn get() -> Q::Query {
            Q::from_optional_value_to_query(decode_value(&P::prefix()))
        }
        pub fn try_get() -> Result<V, ()> {
            decode_value(&P::prefix()).ok_or(())
        }
        pub fn translate<Old: Decode, F: FnOnce(Option<Old>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
            let k = P::prefix();
            let old = decode_value::<Old>(&k);
            let new = f(old);
            match &new {
                Some(v) => state::put(k, v.encode()),
                None => state::del(&k),
            }
            Ok(new)
        }
        pub fn put<Arg: EncodeLike<V>>(v: Arg) {
            state::put(P::prefix(), v.encode())
        }
        pub fn set(v: Q::Query) {
            match Q::from_query_to_optional_value(v) {
                Some(v) => Self::put(v),
                None => Self::kill(),
            }
        }
        pub fn kill() {
            state::del(&P::prefix())
        }
        pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
            Self::try_mutate(|v| Ok::<R, core::convert::Infallible>(f(v))).unwrap_or_else(|e| match e {})
        }
        pub fn mutate_extant<R: Default, F: FnOnce(&mut V) -> R>(f: F) -> R {
            Self::mutate_exists(|v| v.as_mut().map(f)).unwrap_or_default()
        }
        pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
            let mut q = Self::get();
            let r = f(&mut q);
            if r.is_ok() {
                Self::set(q)
            }
            r
        }
        pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
            Self::try_mutate_exists(|v| Ok::<R, core::convert::Infallible>(f(v))).unwrap_or_else(|e| match e {})
        }
        pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> {
            let k = P::prefix();
            let mut o: Option<V> = decode_value(&k);
            let r = f(&mut o);
            if r.is_ok() {
                match o {
                    Some(v) => state::put(k, v.encode()),
                    None => state::del(&k),
                }
            }
            r
        }
        pub fn take() -> Q::Query {
            let k = P::prefix();
            let v = decode_value(&k);
            if v.is_some() {
                state::del(&k);
            }
            Q::from_optional_value_to_query(v)
        }
        pub fn append<Item, EncodeLikeItem>(item: EncodeLikeItem)
        where
            Item: Encode,
            EncodeLikeItem: EncodeLike<Item>,
            V: codec::EncodeAppend<Item = Item>,
        {
            let k = P::prefix();
            let cur = state::get(&k).unwrap_or_default();
            let new = V::append_or_new(cur, core::iter::once(item)).expect("append");
            state::put(k, new);
        }
        pub fn try_append<Item, EncodeLikeItem>(item: EncodeLikeItem) -> Result<(), ()>
        where
            Item: Encode + Decode,
            EncodeLikeItem: EncodeLike<Item> + Encode,
            V: TryAppend<Item>,
        {
            let k = P::prefix();
            let cur: Vec<Item> = match state::get(&k) {
                Some(v) => Decode::decode(&mut &v[..]).map_err(|_| ())?,
                None => vec![],
            };
            if cur.len() >= V::bound() {
                return Err(());
            }
            let mut cur = cur;
            cur.push(Item::decode(&mut &item.encode()[..]).map_err(|_| ())?);
            state::put(k, cur.encode());
            Ok(())
        }
        pub fn decode_len() -> Option<usize> {
            let v = state::get(&P::prefix())?;
            codec::Compact::<u32>::decode(&mut &v[..]).ok().map(|x| x.0 as usize)
        }
    }
    pub trait TryAppend<Item> {
        fn bound() -> usize;
    }
    impl<T, S: Get<u32>> TryAppend<T> for sp_core::bounded::BoundedVec<T, S> {
        fn bound() -> usize {
            S::get() as usize
        }
    }

    // ------------------------------------------------------------ iteration
    /// Lazily walks the keys below a prefix, as FRAME's `PrefixIterator` does: items inserted or
    /// removed while iterating are seen or not depending on their place in key order.
    pub struct KeyIter {
        prefix: Vec<u8>,
        prev: Vec<u8>,
        started: bool,
        drain: bool,
    }
    impl KeyIter {
        pub(crate) fn new(prefix: Vec<u8>, drain: bool) -> Self {
            Self {
                prev: prefix.clone(),
                prefix,
                started: false,
                drain,
            }
        }
    }
    impl Iterator for KeyIter {
        type Item = (Vec<u8>, Vec<u8>);
        fn next(&mut self) -> Option<Self::Item> {
            let r = state::next(&self.prev, !self.started, &self.prefix)?;
            self.started = true;
            self.prev = r.0.clone();
            if self.drain {
                state::del(&r.0);
            }
            Some(r)
        }
    }
    pub struct PrefixIterator<T> {
        inner: KeyIter,
        f: Box<dyn Fn(&[u8], &[u8]) -> Option<T>>,
    }
    impl<T> Iterator for PrefixIterator<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            loop {
                let (k, v) = self.inner.next()?;
                if let Some(t) = (self.f)(&k[self.inner.prefix.len()..], &v) {
                    return Some(t);
                }
            }
        }
    }
    impl<T> PrefixIterator<T> {
        fn mk(prefix: Vec<u8>, drain: bool, f: impl Fn(&[u8], &[u8]) -> Option<T> + 'static) -> Self {
            Self {
                inner: KeyIter::new(prefix, drain),
                f: Box::new(f),
            }
        }
        pub fn drain(mut self) -> Self {
            self.inner.drain = true;
            self
        }
    }

    fn clear(prefix: &[u8], limit: u32) -> MultiRemovalResults {
        let mut n = 0;
        let mut cursor = None;
        loop {
            match state::next(prefix, true, prefix) {
                None => break,
                Some((k, _)) => {
                    if n >= limit {
                        cursor = Some(k);
                        break;
                    }
                    state::del(&k);
                    n += 1;
                }
            }
        }
        MultiRemovalResults {
            backend: n,
            unique: n,
            loops: n,
            maybe_cursor: cursor,
        }
    }

    // ------------------------------------------------------------ map
    pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(
        PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty)>,
    );
    pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault> = StorageMap<P, H, K, V, Q, O>;
    impl<P, H, K, V, Q: QueryKindTrait<V, O>, O> StorageMeta for StorageMap<P, H, K, V, Q, O> {
        type Key1 = K;
        type Key2 = ();
        type Value = V;
        type Query = Q::Query;
    }
    impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O>
        StorageMap<P, H, K, V, Q, O>
    {
        pub fn hashed_key_for<KArg: EncodeLike<K>>(key: KArg) -> Vec<u8> {
            let mut p = P::prefix();
            p.extend_from_slice(&H::hash_vec(&key.encode()));
            p
        }
        pub fn contains_key<KArg: EncodeLike<K>>(key: KArg) -> bool {
            state::get(&Self::hashed_key_for(key)).is_some()
        }
        pub fn get<KArg: EncodeLike<K>>(key: KArg) -> Q::Query {
            Q::from_optional_value_to_query(decode_value(&Self::hashed_key_for(key)))
        }
        pub fn try_get<KArg: EncodeLike<K>>(key: KArg) -> Result<V, ()> {
            decode_value(&Self::hashed_key_for(key)).ok_or(())
        }
        pub fn swap<KA1: EncodeLike<K>, KA2: EncodeLike<K>>(a: KA1, b: KA2) {
            let (ka, kb) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
            let (va, vb) = (state::get(&ka), state::get(&kb));
            match vb {
                Some(v) => state::put(ka, v),
                None => state::del(&ka),
            }
            match va {
                Some(v) => state::put(kb, v),
                None => state::del(&kb),
            }
        }
        pub fn set<KArg: EncodeLike<K>>(key: KArg, q: Q::Query) {
            match Q::from_query_to_optional_value(q) {
                Some(v) => Self::insert(key, v),
                None => Self::remove(key),
            }
        }
        pub fn insert<KArg: EncodeLike<K>, VArg: EncodeLike<V>>(key: KArg, v: VArg) {
            state::put(Self::hashed_key_for(key), v.encode())
        }
        pub fn remove<KArg: EncodeLike<K>>(key: KArg) {
            state::del(&Self::hashed_key_for(key))
        }
        pub fn mutate<KArg: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(key: KArg, f: F) -> R {
            Self::try_mutate(key, |v| Ok::<R, core::convert::Infallible>(f(v))).unwrap_or_else(|e| match e {})
        }
        pub fn mutate_extant<KArg: EncodeLike<K>, R: Default, F: FnOnce(&mut V) -> R>(key: KArg, f: F) -> R {
            Self::mutate_exists(key, |v| v.as_mut().map(f)).unwrap_or_default()
        }
        pub fn try_mutate<KArg: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(
            key: KArg,
            f: F,
        ) -> Result<R, E> {
            let k = Self::hashed_key_for(key);
            let mut q = Q::from_optional_value_to_query(decode_value(&k));
            let r = f(&mut q);
            if r.is_ok() {
                match Q::from_query_to_optional_value(q) {
                    Some(v) => state::put(k, v.encode()),
                    None => state::del(&k),
                }
            }
            r
        }
        pub fn mutate_exists<KArg: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(key: KArg, f: F) -> R {
            Self::try_mutate_exists(key, |v| Ok::<R, core::convert::Infallible>(f(v))).unwrap_or_else(|e| match e {})
        }
        pub fn try_mutate_exists<KArg: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(
            key: KArg,
            f: F,
        ) -> Result<R, E> {
            let k = Self::hashed_key_for(key);
            let mut o: Option<V> = decode_value(&k);
            let r = f(&mut o);
            if r.is_ok() {
                match o {
                    Some(v) => state::put(k, v.encode()),
                    None => state::del(&k),
                }
            }
            r
        }
        pub fn take<KArg: EncodeLike<K>>(key: KArg) -> Q::Query {
            let k = Self::hashed_key_for(key);
            let v = decode_value(&k);
            if v.is_some() {
                state::del(&k);
            }
            Q::from_optional_value_to_query(v)
        }
        pub fn append<Item, EncodeLikeItem, EncodeLikeKey>(key: EncodeLikeKey, item: EncodeLikeItem)
        where
            EncodeLikeKey: EncodeLike<K>,
            Item: Encode,
            EncodeLikeItem: EncodeLike<Item>,
            V: codec::EncodeAppend<Item = Item>,
        {
            let k = Self::hashed_key_for(key);
            let cur = state::get(&k).unwrap_or_default();
            let new = V::append_or_new(cur, core::iter::once(item)).expect("append");
            state::put(k, new);
        }
        pub fn try_append<KArg, Item, EncodeLikeItem>(key: KArg, item: EncodeLikeItem) -> Result<(), ()>
        where
            KArg: EncodeLike<K>,
            Item: Encode + Decode,
            EncodeLikeItem: EncodeLike<Item> + Encode,
            V: TryAppend<Item>,
        {
            let k = Self::hashed_key_for(key);
            let mut cur: Vec<Item> = match state::get(&k) {
                Some(v) => Decode::decode(&mut &v[..]).map_err(|_| ())?,
                None => vec![],
            };
            if cur.len() >= V::bound() {
                return Err(());
            }
            cur.push(Item::decode(&mut &item.encode()[..]).map_err(|_| ())?);
            state::put(k, cur.encode());
            Ok(())
        }
        pub fn decode_len<KArg: EncodeLike<K>>(key: KArg) -> Option<usize> {
            let v = state::get(&Self::hashed_key_for(key))?;
            codec::Compact::<u32>::decode(&mut &v[..]).ok().map(|x| x.0 as usize)
        }
        pub fn iter_values() -> PrefixIterator<V>
        where
            V: 'static,
        {
            PrefixIterator::mk(P::prefix(), false, |_, mut v| V::decode(&mut v).ok())
        }
        pub fn iter() -> PrefixIterator<(K, V)>
        where
            K: 'static,
            V: 'static,
            H: 'static,
        {
            PrefixIterator::mk(P::prefix(), false, |k, mut v| {
                Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut v).ok()?))
            })
        }
        pub fn iter_keys() -> PrefixIterator<K>
        where
            K: 'static,
            H: 'static,
        {
            PrefixIterator::mk(P::prefix(), false, |k, _| K::decode(&mut H::reverse(k)).ok())
        }
        pub fn drain() -> PrefixIterator<(K, V)>
        where
            K: 'static,
            V: 'static,
            H: 'static,
        {
            Self::iter().drain()
        }
        pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
            clear(&P::prefix(), limit)
        }
        pub fn remove_all(limit: Option<u32>) -> MultiRemovalResults {
            clear(&P::prefix(), limit.unwrap_or(u32::MAX))
        }
        pub fn count() -> u32 {
            KeyIter::new(P::prefix(), false).count() as u32
        }
        pub fn translate<Old: Decode, F: FnMut(K, Old) -> Option<V>>(mut f: F) {
            let all: Vec<_> = KeyIter::new(P::prefix(), false).collect();
            let pl = P::prefix().len();
            for (k, v) in all {
                if let (Ok(key), Ok(old)) = (K::decode(&mut H::reverse(&k[pl..])), Old::decode(&mut &v[..])) {
                    match f(key, old) {
                        Some(n) => state::put(k, n.encode()),
                        None => state::del(&k),
                    }
                }
            }
        }
        pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(mut f: F) {
            let all: Vec<_> = KeyIter::new(P::prefix(), false).collect();
            for (k, v) in all {
                if let Ok(old) = Old::decode(&mut &v[..]) {
                    match f(old) {
                        Some(n) => state::put(k, n.encode()),
                        None => state::del(&k),
                    }
                }
            }
        }
        pub fn migrate_key<OldHasher: StorageHasher, KeyArg: EncodeLike<K>>(_k: KeyArg) -> Option<V> {
            None
        }
    }

    // ------------------------------------------------------------ double map
    pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(
        PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty)>,
    );
    impl<P, H1, K1, H2, K2, V, Q: QueryKindTrait<V, O>, O> StorageMeta for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O> {
        type Key1 = K1;
        type Key2 = K2;
        type Value = V;
        type Query = Q::Query;
    }
    impl<
            P: StorageInstance,
            H1: StorageHasher,
            K1: FullCodec,
            H2: StorageHasher,
            K2: FullCodec,
            V: FullCodec,
            Q: QueryKindTrait<V, O>,
            O,
        > StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O>
    {
        pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
            let mut p = Self::prefix_for(a);
            p.extend_from_slice(&H2::hash_vec(&b.encode()));
            p
        }
        fn prefix_for<A: EncodeLike<K1>>(a: A) -> Vec<u8> {
            let mut p = P::prefix();
            p.extend_from_slice(&H1::hash_vec(&a.encode()));
            p
        }
        pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
            state::get(&Self::hashed_key_for(a, b)).is_some()
        }
        pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
            Q::from_optional_value_to_query(decode_value(&Self::hashed_key_for(a, b)))
        }
        pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
            decode_value(&Self::hashed_key_for(a, b)).ok_or(())
        }
        pub fn swap<A1: EncodeLike<K1>, B1: EncodeLike<K2>, A2: EncodeLike<K1>, B2: EncodeLike<K2>>(
            a1: A1,
            b1: B1,
            a2: A2,
            b2: B2,
        ) {
            let (ka, kb) = (Self::hashed_key_for(a1, b1), Self::hashed_key_for(a2, b2));
            let (va, vb) = (state::get(&ka), state::get(&kb));
            match vb {
                Some(v) => state::put(ka, v),
                None => state::del(&ka),
            }
            match va {
                Some(v) => state::put(kb, v),
                None => state::del(&kb),
            }
        }
        pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
            let k = Self::hashed_key_for(a, b);
            let v = decode_value(&k);
            if v.is_some() {
                state::del(&k);
            }
            Q::from_optional_value_to_query(v)
        }
        pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
            match Q::from_query_to_optional_value(q) {
                Some(v) => Self::insert(a, b, v),
                None => Self::remove(a, b),
            }
        }
        pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, VA: EncodeLike<V>>(a: A, b: B, v: VA) {
            state::put(Self::hashed_key_for(a, b), v.encode())
        }
        pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
            state::del(&Self::hashed_key_for(a, b))
        }
        pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
            Self::try_mutate(a, b, |v| Ok::<R, core::convert::Infallible>(f(v))).unwrap_or_else(|e| match e {})
        }
        pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(
            a: A,
            b: B,
            f: F,
        ) -> Result<R, E> {
            let k = Self::hashed_key_for(a, b);
            let mut q = Q::from_optional_value_to_query(decode_value(&k));
            let r = f(&mut q);
            if r.is_ok() {
                match Q::from_query_to_optional_value(q) {
                    Some(v) => state::put(k, v.encode()),
                    None => state::del(&k),
                }
            }
            r
        }
        pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
            Self::try_mutate_exists(a, b, |v| Ok::<R, core::convert::Infallible>(f(v))).unwrap_or_else(|e| match e {})
        }
        pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(
            a: A,
            b: B,
            f: F,
        ) -> Result<R, E> {
            let k = Self::hashed_key_for(a, b);
            let mut o: Option<V> = decode_value(&k);
            let r = f(&mut o);
            if r.is_ok() {
                match o {
                    Some(v) => state::put(k, v.encode()),
                    None => state::del(&k),
                }
            }
            r
        }
        pub fn clear_prefix<A: EncodeLike<K1>>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
            clear(&Self::prefix_for(a), limit)
        }
        pub fn remove_prefix<A: EncodeLike<K1>>(a: A, limit: Option<u32>) -> MultiRemovalResults {
            clear(&Self::prefix_for(a), limit.unwrap_or(u32::MAX))
        }
        pub fn remove_all(limit: Option<u32>) -> MultiRemovalResults {
            clear(&P::prefix(), limit.unwrap_or(u32::MAX))
        }
        pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
            clear(&P::prefix(), limit)
        }
        pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> PrefixIterator<V>
        where
            V: 'static,
        {
            PrefixIterator::mk(Self::prefix_for(a), false, |_, mut v| V::decode(&mut v).ok())
        }
        pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)>
        where
            K2: 'static,
            V: 'static,
            H2: 'static,
        {
            PrefixIterator::mk(Self::prefix_for(a), false, |k, mut v| {
                Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut v).ok()?))
            })
        }
        pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<K2>
        where
            K2: 'static,
            H2: 'static,
        {
            PrefixIterator::mk(Self::prefix_for(a), false, |k, _| K2::decode(&mut H2::reverse(k)).ok())
        }
        pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)>
        where
            K2: 'static,
            V: 'static,
            H2: 'static,
        {
            Self::iter_prefix(a).drain()
        }
        pub fn iter() -> PrefixIterator<(K1, K2, V)>
        where
            K1: 'static,
            K2: 'static,
            V: 'static,
            H1: 'static,
            H2: 'static,
        {
            PrefixIterator::mk(P::prefix(), false, |k, mut v| {
                let mut r = H1::reverse(k);
                let k1 = K1::decode(&mut r).ok()?;
                let mut r2 = H2::reverse(r);
                let k2 = K2::decode(&mut r2).ok()?;
                Some((k1, k2, V::decode(&mut v).ok()?))
            })
        }
        pub fn iter_keys() -> PrefixIterator<(K1, K2)>
        where
            K1: 'static,
            K2: 'static,
            H1: 'static,
            H2: 'static,
        {
            PrefixIterator::mk(P::prefix(), false, |k, _| {
                let mut r = H1::reverse(k);
                let k1 = K1::decode(&mut r).ok()?;
                let mut r2 = H2::reverse(r);
                let k2 = K2::decode(&mut r2).ok()?;
                Some((k1, k2))
            })
        }
        pub fn iter_values() -> PrefixIterator<V>
        where
            V: 'static,
        {
            PrefixIterator::mk(P::prefix(), false, |_, mut v| V::decode(&mut v).ok())
        }
        pub fn drain() -> PrefixIterator<(K1, K2, V)>
        where
            K1: 'static,
            K2: 'static,
            V: 'static,
            H1: 'static,
            H2: 'static,
        {
            Self::iter().drain()
        }
        pub fn decode_len<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Option<usize> {
            let v = state::get(&Self::hashed_key_for(a, b))?;
            codec::Compact::<u32>::decode(&mut &v[..]).ok().map(|x| x.0 as usize)
        }
        pub fn append<Item, EncodeLikeItem, A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, item: EncodeLikeItem)
        where
            Item: Encode,
            EncodeLikeItem: EncodeLike<Item>,
            V: codec::EncodeAppend<Item = Item>,
        {
            let k = Self::hashed_key_for(a, b);
            let cur = state::get(&k).unwrap_or_default();
            let new = V::append_or_new(cur, core::iter::once(item)).expect("append");
            state::put(k, new);
        }
    }
}
pub use types::*;
