use super::*;
use crate::traits::{Get, GetDefault, StorageInstance};
use alloc::{boxed::Box, vec::Vec};
use core::marker::PhantomData;
use parity_scale_codec::{Decode, SimFrom};
use crate::alloc;
pub struct OptionQuery; pub struct ValueQuery; pub struct ResultQuery<E>(PhantomData<E>);
pub trait QueryKind<V, OE> { type Query; fn to_query(v: Option<V>) -> Self::Query; fn from_query(q: Self::Query) -> Option<V>; }
impl<V, OE> QueryKind<V, OE> for OptionQuery { type Query = Option<V>; fn to_query(v: Option<V>) -> Option<V> { v } fn from_query(q: Option<V>) -> Option<V> { q } }
impl<V, OE: Get<V>> QueryKind<V, OE> for ValueQuery { type Query = V; fn to_query(v: Option<V>) -> V { match v { Some(v) => v, None => OE::get() } } fn from_query(q: V) -> Option<V> { Some(q) } }
pub struct Key<H, K>(PhantomData<(H, K)>);
fn tab<'a, P: StorageInstance, K: 'a, V: 'a>() -> &'a mut Vec<(K, V)> { unsafe { let s = P::sim_slot(); if (*s).is_null() { *s = Box::into_raw(Box::new(Vec::<(K, V)>::new())) as *mut (); } &mut *(*s as *mut Vec<(K, V)>) } }
fn find<K: PartialEq, V>(t: &[(K, V)], k: &K) -> Option<usize> { let mut i = 0; while i < t.len() { if t[i].0 == *k { return Some(i) } i += 1; } None }
fn load<P: StorageInstance, K: PartialEq, V: Decode>(k: &K) -> Option<V> { let t = tab::<P, K, V>(); find(t, k).map(|i| t[i].1.sim_dup()) }
fn store<P: StorageInstance, K: PartialEq, V>(k: K, v: V) { let t = tab::<P, K, V>(); match find(t, &k) { Some(i) => t[i].1 = v, None => t.push((k, v)) } }
fn erase<P: StorageInstance, K: PartialEq, V>(k: &K) -> Option<V> { let t = tab::<P, K, V>(); find(t, k).map(|i| t.remove(i).1) }
fn put_opt<P: StorageInstance, K: PartialEq, V>(k: K, v: Option<V>) { match v { Some(v) => store::<P, K, V>(k, v), None => { erase::<P, K, V>(&k); } } }

pub struct StorageValue<P, V, QK = OptionQuery, OE = GetDefault>(PhantomData<(P, V, QK, OE)>);
impl<P: StorageInstance, V: Decode, QK: QueryKind<V, OE>, OE> SimValue for StorageValue<P, V, QK, OE> { type Query = QK::Query; }
impl<P: StorageInstance, V: Decode, QK: QueryKind<V, OE>, OE> StorageValue<P, V, QK, OE> {
    pub fn get() -> QK::Query { QK::to_query(load::<P, (), V>(&())) }
    pub fn try_get() -> Result<V, ()> { load::<P, (), V>(&()).ok_or(()) }
    pub fn exists() -> bool { !tab::<P, (), V>().is_empty() }
    pub fn put<A: Into<V>>(v: A) { store::<P, (), V>((), v.into()) }
    pub fn set(q: QK::Query) { put_opt::<P, (), V>((), QK::from_query(q)) }
    pub fn kill() { tab::<P, (), V>().clear() }
    pub fn take() -> QK::Query { QK::to_query(erase::<P, (), V>(&())) }
    pub fn mutate<R>(f: impl FnOnce(&mut QK::Query) -> R) -> R { let mut q = Self::get(); let r = f(&mut q); Self::set(q); r }
    pub fn try_mutate<R, E>(f: impl FnOnce(&mut QK::Query) -> Result<R, E>) -> Result<R, E> { let mut q = Self::get(); let r = f(&mut q); if r.is_ok() { Self::set(q) } r }
    pub fn mutate_exists<R>(f: impl FnOnce(&mut Option<V>) -> R) -> R { let mut q = load::<P, (), V>(&()); let r = f(&mut q); put_opt::<P, (), V>((), q); r }
    pub fn try_mutate_exists<R, E>(f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> { let mut q = load::<P, (), V>(&()); let r = f(&mut q); if r.is_ok() { put_opt::<P, (), V>((), q) } r }
    pub fn mutate_extant<R: Default>(f: impl FnOnce(&mut V) -> R) -> R { match load::<P, (), V>(&()) { Some(mut v) => { let r = f(&mut v); store::<P, (), V>((), v); r } None => R::default() } }
    pub fn try_append<I>(item: I) -> Result<(), ()> where V: parity_scale_codec::SimAppend<I> + Default { let mut v = load::<P, (), V>(&()).unwrap_or_default(); v.sim_try_append(item)?; store::<P, (), V>((), v); Ok(()) }
    pub fn append<I>(item: I) where V: parity_scale_codec::SimAppend<I> + Default { let _ = Self::try_append(item); }
    pub fn decode_len() -> Option<usize> where V: SimLen { load::<P, (), V>(&()).map(|v| v.sim_len()) }
    pub fn translate<O: Clone, F: FnOnce(Option<O>) -> Option<V>>(_f: F) -> Result<Option<V>, ()> { unimplemented!() }
}
macro_rules! map_impl { ($n:ident) => {
pub struct $n<P, H, K, V, QK = OptionQuery, OE = GetDefault, MV = GetDefault>(PhantomData<(P, H, K, V, QK, OE, MV)>);
impl<P: StorageInstance, H, K: Clone + PartialEq, V: Decode, QK: QueryKind<V, OE>, OE, MV> SimMap for $n<P, H, K, V, QK, OE, MV> { type Key = K; type Query = QK::Query; }
impl<P: StorageInstance, H, K: Clone + PartialEq, V: Decode, QK: QueryKind<V, OE>, OE, MV> $n<P, H, K, V, QK, OE, MV> {
    pub fn sim_all<'a>() -> &'a mut Vec<(K, V)> where K: 'a, V: 'a { tab::<P, K, V>() }
    pub fn get<A>(k: A) -> QK::Query where K: SimFrom<A> { QK::to_query(load::<P, K, V>(&K::sim_from(k))) }
    pub fn try_get<A>(k: A) -> Result<V, ()> where K: SimFrom<A> { load::<P, K, V>(&K::sim_from(k)).ok_or(()) }
    pub fn contains_key<A>(k: A) -> bool where K: SimFrom<A> { find(tab::<P, K, V>(), &K::sim_from(k)).is_some() }
    pub fn insert<A, B>(k: A, v: B) where K: SimFrom<A>, V: SimFrom<B> { store::<P, K, V>(K::sim_from(k), V::sim_from(v)) }
    pub fn set<A>(k: A, q: QK::Query) where K: SimFrom<A> { put_opt::<P, K, V>(K::sim_from(k), QK::from_query(q)) }
    pub fn remove<A>(k: A) where K: SimFrom<A> { erase::<P, K, V>(&K::sim_from(k)); }
    pub fn take<A>(k: A) -> QK::Query where K: SimFrom<A> { QK::to_query(erase::<P, K, V>(&K::sim_from(k))) }
    pub fn mutate<A, R>(k: A, f: impl FnOnce(&mut QK::Query) -> R) -> R where K: SimFrom<A> { let k = K::sim_from(k); let mut q = QK::to_query(load::<P, K, V>(&k)); let r = f(&mut q); put_opt::<P, K, V>(k, QK::from_query(q)); r }
    pub fn try_mutate<A, R, E>(k: A, f: impl FnOnce(&mut QK::Query) -> Result<R, E>) -> Result<R, E> where K: SimFrom<A> { let k = K::sim_from(k); let mut q = QK::to_query(load::<P, K, V>(&k)); let r = f(&mut q); if r.is_ok() { put_opt::<P, K, V>(k, QK::from_query(q)) } r }
    pub fn mutate_exists<A, R>(k: A, f: impl FnOnce(&mut Option<V>) -> R) -> R where K: SimFrom<A> { let k = K::sim_from(k); let mut q = load::<P, K, V>(&k); let r = f(&mut q); put_opt::<P, K, V>(k, q); r }
    pub fn try_mutate_exists<A, R, E>(k: A, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> where K: SimFrom<A> { let k = K::sim_from(k); let mut q = load::<P, K, V>(&k); let r = f(&mut q); if r.is_ok() { put_opt::<P, K, V>(k, q) } r }
    pub fn try_append<A, I>(k: A, item: I) -> Result<(), ()> where K: SimFrom<A>, V: parity_scale_codec::SimAppend<I> + Default { let k = K::sim_from(k); let mut v = load::<P, K, V>(&k).unwrap_or_default(); v.sim_try_append(item)?; store::<P, K, V>(k, v); Ok(()) }
    pub fn append<A, I>(k: A, item: I) where K: SimFrom<A>, V: parity_scale_codec::SimAppend<I> + Default { let _ = Self::try_append(k, item); }
    pub fn mutate_extant<A, R: Default>(k: A, f: impl FnOnce(&mut V) -> R) -> R where K: SimFrom<A> { let k = K::sim_from(k); match load::<P, K, V>(&k) { Some(mut v) => { let r = f(&mut v); store::<P, K, V>(k, v); r } None => R::default() } }
    pub fn swap<A, B>(a: A, b: B) where K: SimFrom<A> + SimFrom<B> { let (a, b) = (<K as SimFrom<A>>::sim_from(a), <K as SimFrom<B>>::sim_from(b)); let (x, y) = (load::<P, K, V>(&a), load::<P, K, V>(&b)); put_opt::<P, K, V>(a, y); put_opt::<P, K, V>(b, x) }
    pub fn decode_len<A>(k: A) -> Option<usize> where K: SimFrom<A>, V: SimLen { load::<P, K, V>(&K::sim_from(k)).map(|v| v.sim_len()) }
    pub fn remove_all(_l: Option<u32>) { tab::<P, K, V>().clear() }
    pub fn iter() -> alloc::vec::IntoIter<(K, V)> { tab::<P, K, V>().iter().map(|e| (e.0.clone(), e.1.sim_dup())).collect::<Vec<_>>().into_iter() }
    pub fn iter_keys() -> alloc::vec::IntoIter<K> { tab::<P, K, V>().iter().map(|e| e.0.clone()).collect::<Vec<_>>().into_iter() }
    pub fn iter_values() -> alloc::vec::IntoIter<V> { tab::<P, K, V>().iter().map(|e| e.1.sim_dup()).collect::<Vec<_>>().into_iter() }
    pub fn drain() -> alloc::vec::IntoIter<(K, V)> { core::mem::take(tab::<P, K, V>()).into_iter() }
    pub fn count() -> u32 { tab::<P, K, V>().len() as u32 }
    pub fn translate<O, F: FnMut(K, O) -> Option<V>>(_f: F) { unimplemented!() }
    pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { tab::<P, K, V>().clear(); Default::default() }
} } }
map_impl!(StorageMap); map_impl!(CountedStorageMap);
pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, QK = OptionQuery, OE = GetDefault, MV = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, QK, OE, MV)>);
impl<P: StorageInstance, H1, K1: Clone + PartialEq, H2, K2: Clone + PartialEq, V: Decode, QK: QueryKind<V, OE>, OE, MV> SimDoubleMap for StorageDoubleMap<P, H1, K1, H2, K2, V, QK, OE, MV> { type Key1 = K1; type Key2 = K2; type Query = QK::Query; }
impl<P: StorageInstance, H1, K1: Clone + PartialEq, H2, K2: Clone + PartialEq, V: Decode, QK: QueryKind<V, OE>, OE, MV> StorageDoubleMap<P, H1, K1, H2, K2, V, QK, OE, MV> {
    pub fn sim_all<'a>() -> &'a mut Vec<((K1, K2), V)> where K1: 'a, K2: 'a, V: 'a { tab::<P, (K1, K2), V>() }
    fn key<A, B>(a: A, b: B) -> (K1, K2) where K1: SimFrom<A>, K2: SimFrom<B> { (K1::sim_from(a), K2::sim_from(b)) }
    pub fn get<A, B>(a: A, b: B) -> QK::Query where K1: SimFrom<A>, K2: SimFrom<B> { QK::to_query(load::<P, (K1, K2), V>(&Self::key(a, b))) }
    pub fn try_get<A, B>(a: A, b: B) -> Result<V, ()> where K1: SimFrom<A>, K2: SimFrom<B> { load::<P, (K1, K2), V>(&Self::key(a, b)).ok_or(()) }
    pub fn contains_key<A, B>(a: A, b: B) -> bool where K1: SimFrom<A>, K2: SimFrom<B> { find(tab::<P, (K1, K2), V>(), &Self::key(a, b)).is_some() }
    pub fn insert<A, B, C>(a: A, b: B, v: C) where K1: SimFrom<A>, K2: SimFrom<B>, V: SimFrom<C> { store::<P, (K1, K2), V>(Self::key(a, b), V::sim_from(v)) }
    pub fn remove<A, B>(a: A, b: B) where K1: SimFrom<A>, K2: SimFrom<B> { erase::<P, (K1, K2), V>(&Self::key(a, b)); }
    pub fn take<A, B>(a: A, b: B) -> QK::Query where K1: SimFrom<A>, K2: SimFrom<B> { QK::to_query(erase::<P, (K1, K2), V>(&Self::key(a, b))) }
    pub fn mutate<A, B, R>(a: A, b: B, f: impl FnOnce(&mut QK::Query) -> R) -> R where K1: SimFrom<A>, K2: SimFrom<B> { let k = Self::key(a, b); let mut q = QK::to_query(load::<P, (K1, K2), V>(&k)); let r = f(&mut q); put_opt::<P, (K1, K2), V>(k, QK::from_query(q)); r }
    pub fn try_mutate<A, B, R, E>(a: A, b: B, f: impl FnOnce(&mut QK::Query) -> Result<R, E>) -> Result<R, E> where K1: SimFrom<A>, K2: SimFrom<B> { let k = Self::key(a, b); let mut q = QK::to_query(load::<P, (K1, K2), V>(&k)); let r = f(&mut q); if r.is_ok() { put_opt::<P, (K1, K2), V>(k, QK::from_query(q)) } r }
    pub fn mutate_exists<A, B, R>(a: A, b: B, f: impl FnOnce(&mut Option<V>) -> R) -> R where K1: SimFrom<A>, K2: SimFrom<B> { let k = Self::key(a, b); let mut q = load::<P, (K1, K2), V>(&k); let r = f(&mut q); put_opt::<P, (K1, K2), V>(k, q); r }
    pub fn try_mutate_exists<A, B, R, E>(a: A, b: B, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> where K1: SimFrom<A>, K2: SimFrom<B> { let k = Self::key(a, b); let mut q = load::<P, (K1, K2), V>(&k); let r = f(&mut q); if r.is_ok() { put_opt::<P, (K1, K2), V>(k, q) } r }
    pub fn set<A, B>(a: A, b: B, q: QK::Query) where K1: SimFrom<A>, K2: SimFrom<B> { put_opt::<P, (K1, K2), V>(Self::key(a, b), QK::from_query(q)) }
    pub fn mutate_extant<A, B, R: Default>(a: A, b: B, f: impl FnOnce(&mut V) -> R) -> R where K1: SimFrom<A>, K2: SimFrom<B> { let k = Self::key(a, b); match load::<P, (K1, K2), V>(&k) { Some(mut v) => { let r = f(&mut v); store::<P, (K1, K2), V>(k, v); r } None => R::default() } }
    pub fn try_append<A, B, I>(a: A, b: B, item: I) -> Result<(), ()> where K1: SimFrom<A>, K2: SimFrom<B>, V: parity_scale_codec::SimAppend<I> + Default { let k = Self::key(a, b); let mut v = load::<P, (K1, K2), V>(&k).unwrap_or_default(); v.sim_try_append(item)?; store::<P, (K1, K2), V>(k, v); Ok(()) }
    pub fn append<A, B, I>(a: A, b: B, item: I) where K1: SimFrom<A>, K2: SimFrom<B>, V: parity_scale_codec::SimAppend<I> + Default { let _ = Self::try_append(a, b, item); }
    pub fn decode_len<A, B>(a: A, b: B) -> Option<usize> where K1: SimFrom<A>, K2: SimFrom<B>, V: SimLen { load::<P, (K1, K2), V>(&Self::key(a, b)).map(|v| v.sim_len()) }
    pub fn contains_prefix<A>(a: A) -> bool where K1: SimFrom<A> { let k = K1::sim_from(a); tab::<P, (K1, K2), V>().iter().any(|e| e.0.0 == k) }
    pub fn iter() -> alloc::vec::IntoIter<(K1, K2, V)> { tab::<P, (K1, K2), V>().iter().map(|e| (e.0.0.clone(), e.0.1.clone(), e.1.sim_dup())).collect::<Vec<_>>().into_iter() }
    pub fn iter_prefix<A>(a: A) -> alloc::vec::IntoIter<(K2, V)> where K1: SimFrom<A> { let k = K1::sim_from(a); let mut r = Vec::new(); for e in tab::<P, (K1, K2), V>().iter() { if e.0.0 == k { r.push((e.0.1.clone(), e.1.sim_dup())) } } r.into_iter() }
    pub fn iter_key_prefix<A>(a: A) -> alloc::vec::IntoIter<K2> where K1: SimFrom<A> { Self::iter_prefix(a).map(|e| e.0).collect::<Vec<_>>().into_iter() }
    pub fn iter_prefix_values<A>(a: A) -> alloc::vec::IntoIter<V> where K1: SimFrom<A> { Self::iter_prefix(a).map(|e| e.1).collect::<Vec<_>>().into_iter() }
    pub fn iter_keys() -> alloc::vec::IntoIter<(K1, K2)> { tab::<P, (K1, K2), V>().iter().map(|e| e.0.clone()).collect::<Vec<_>>().into_iter() }
    pub fn iter_values() -> alloc::vec::IntoIter<V> { tab::<P, (K1, K2), V>().iter().map(|e| e.1.sim_dup()).collect::<Vec<_>>().into_iter() }
    pub fn drain() -> alloc::vec::IntoIter<(K1, K2, V)> { core::mem::take(tab::<P, (K1, K2), V>()).into_iter().map(|e| (e.0.0, e.0.1, e.1)).collect::<Vec<_>>().into_iter() }
    pub fn drain_prefix<A>(a: A) -> alloc::vec::IntoIter<(K2, V)> where K1: SimFrom<A> + SimFrom<K1> { let k = K1::sim_from(a); let t = tab::<P, (K1, K2), V>(); let mut r = Vec::new(); let mut i = 0; while i < t.len() { if t[i].0.0 == k { let e = t.remove(i); r.push((e.0.1, e.1)) } else { i += 1 } } r.into_iter() }
    /// removes at most `limit` entries of the prefix
    pub fn clear_prefix<A>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults where K1: SimFrom<A> { let k = K1::sim_from(a); let t = tab::<P, (K1, K2), V>(); let mut n = 0u32; let mut i = 0; let mut more = false; while i < t.len() { if t[i].0.0 == k { if n >= limit { more = true; break } t.remove(i); n += 1 } else { i += 1 } } MultiRemovalResults { maybe_cursor: if more { Some(Vec::new()) } else { None }, backend: n, unique: n, loops: n } }
    pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { tab::<P, (K1, K2), V>().clear(); Default::default() }
}
pub trait SimLen { fn sim_len(&self) -> usize; }
impl<T> SimLen for Vec<T> { fn sim_len(&self) -> usize { self.len() } }
impl<T, S> SimLen for crate::BoundedVec<T, S> { fn sim_len(&self) -> usize { (**self).len() } }
impl<K, V, S> SimLen for crate::BoundedBTreeMap<K, V, S> { fn sim_len(&self) -> usize { (**self).len() } }
pub trait NKeys { type K: Clone + PartialEq; }
impl<H1, A: Clone + PartialEq> NKeys for (Key<H1, A>,) { type K = (A,); }
impl<H1, A: Clone + PartialEq, H2, B: Clone + PartialEq> NKeys for (Key<H1, A>, Key<H2, B>) { type K = (A, B); }
impl<H1, A: Clone + PartialEq, H2, B: Clone + PartialEq, H3, C: Clone + PartialEq> NKeys for (Key<H1, A>, Key<H2, B>, Key<H3, C>) { type K = (A, B, C); }
impl<H1, H2, A: SimFrom<X> + Clone + PartialEq, B: SimFrom<Y> + Clone + PartialEq, X, Y> SimKey<(X, Y)> for (Key<H1, A>, Key<H2, B>) { fn conv(a: (X, Y)) -> (A, B) { (A::sim_from(a.0), B::sim_from(a.1)) } }
impl<H1, H2, H3, A: SimFrom<X> + Clone + PartialEq, B: SimFrom<Y> + Clone + PartialEq, C: SimFrom<Z> + Clone + PartialEq, X, Y, Z> SimKey<(X, Y, Z)> for (Key<H1, A>, Key<H2, B>, Key<H3, C>) { fn conv(a: (X, Y, Z)) -> (A, B, C) { (A::sim_from(a.0), B::sim_from(a.1), C::sim_from(a.2)) } }
pub struct StorageNMap<P, Key, V, QK = OptionQuery, OE = GetDefault, MV = GetDefault>(PhantomData<(P, Key, V, QK, OE, MV)>);
impl<P: StorageInstance, KS: NKeys, V: Decode, QK: QueryKind<V, OE>, OE, MV> SimNMap for StorageNMap<P, KS, V, QK, OE, MV> { type Key = KS; type Query = QK::Query; }
impl<P: StorageInstance, KS: NKeys, V: Decode, QK: QueryKind<V, OE>, OE, MV> StorageNMap<P, KS, V, QK, OE, MV> {
    pub fn sim_all<'a>() -> &'a mut Vec<(KS::K, V)> where KS::K: 'a, V: 'a { tab::<P, KS::K, V>() }
    pub fn get<A>(a: A) -> QK::Query where KS: SimKey<A> { QK::to_query(load::<P, <KS as NKeys>::K, V>(&KS::conv(a))) }
    pub fn contains_key<A>(a: A) -> bool where KS: SimKey<A> { find(tab::<P, <KS as NKeys>::K, V>(), &KS::conv(a)).is_some() }
    pub fn insert<A, B>(a: A, v: B) where KS: SimKey<A>, V: SimFrom<B> { store::<P, <KS as NKeys>::K, V>(KS::conv(a), V::sim_from(v)) }
    pub fn remove<A>(a: A) where KS: SimKey<A> { erase::<P, <KS as NKeys>::K, V>(&KS::conv(a)); }
    pub fn try_get<A>(a: A) -> Result<V, ()> where KS: SimKey<A> { load::<P, <KS as NKeys>::K, V>(&KS::conv(a)).ok_or(()) }
    pub fn set<A>(a: A, q: QK::Query) where KS: SimKey<A> { put_opt::<P, <KS as NKeys>::K, V>(KS::conv(a), QK::from_query(q)) }
    pub fn take<A>(a: A) -> QK::Query where KS: SimKey<A> { QK::to_query(erase::<P, <KS as NKeys>::K, V>(&KS::conv(a))) }
    pub fn mutate<A, R>(a: A, f: impl FnOnce(&mut QK::Query) -> R) -> R where KS: SimKey<A> { let k = KS::conv(a); let mut q = QK::to_query(load::<P, <KS as NKeys>::K, V>(&k)); let r = f(&mut q); put_opt::<P, <KS as NKeys>::K, V>(k, QK::from_query(q)); r }
    pub fn try_mutate<A, R, E>(a: A, f: impl FnOnce(&mut QK::Query) -> Result<R, E>) -> Result<R, E> where KS: SimKey<A> { let k = KS::conv(a); let mut q = QK::to_query(load::<P, <KS as NKeys>::K, V>(&k)); let r = f(&mut q); if r.is_ok() { put_opt::<P, <KS as NKeys>::K, V>(k, QK::from_query(q)) } r }
    pub fn mutate_exists<A, R>(a: A, f: impl FnOnce(&mut Option<V>) -> R) -> R where KS: SimKey<A> { let k = KS::conv(a); let mut q = load::<P, <KS as NKeys>::K, V>(&k); let r = f(&mut q); put_opt::<P, <KS as NKeys>::K, V>(k, q); r }
    pub fn try_mutate_exists<A, R, E>(a: A, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> where KS: SimKey<A> { let k = KS::conv(a); let mut q = load::<P, <KS as NKeys>::K, V>(&k); let r = f(&mut q); if r.is_ok() { put_opt::<P, <KS as NKeys>::K, V>(k, q) } r }
    pub fn mutate_extant<A, R: Default>(a: A, f: impl FnOnce(&mut V) -> R) -> R where KS: SimKey<A> { let k = KS::conv(a); match load::<P, <KS as NKeys>::K, V>(&k) { Some(mut v) => { let r = f(&mut v); store::<P, <KS as NKeys>::K, V>(k, v); r } None => R::default() } }
    pub fn iter_keys() -> alloc::vec::IntoIter<KS::K> { tab::<P, KS::K, V>().iter().map(|e| e.0.clone()).collect::<Vec<_>>().into_iter() }
    pub fn iter_values() -> alloc::vec::IntoIter<V> { tab::<P, KS::K, V>().iter().map(|e| e.1.sim_dup()).collect::<Vec<_>>().into_iter() }
    pub fn iter_key_prefix<A>(a: A) -> alloc::vec::IntoIter<<KS::K as SimPrefix<A>>::Rest> where KS::K: SimPrefix<A> { let mut r = Vec::new(); for e in tab::<P, KS::K, V>().iter() { if let Some(k) = e.0.rest(&a) { r.push(k) } } r.into_iter() }
    pub fn contains_prefix<A>(a: A) -> bool where KS::K: SimPrefix<A> { tab::<P, KS::K, V>().iter().any(|e| e.0.rest(&a).is_some()) }
    pub fn drain() -> alloc::vec::IntoIter<(KS::K, V)> { core::mem::take(tab::<P, KS::K, V>()).into_iter() }
    pub fn drain_prefix<A>(a: A) -> alloc::vec::IntoIter<(<KS::K as SimPrefix<A>>::Rest, V)> where KS::K: SimPrefix<A> { let t = tab::<P, KS::K, V>(); let mut r = Vec::new(); let mut i = 0; while i < t.len() { if let Some(k) = t[i].0.rest(&a) { let e = t.remove(i); r.push((k, e.1)) } else { i += 1 } } r.into_iter() }
    pub fn clear_prefix<A>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults where KS::K: SimPrefix<A> { let t = tab::<P, KS::K, V>(); let mut n = 0u32; let mut i = 0; let mut more = false; while i < t.len() { if t[i].0.rest(&a).is_some() { if n >= limit { more = true; break } t.remove(i); n += 1 } else { i += 1 } } MultiRemovalResults { maybe_cursor: if more { Some(Vec::new()) } else { None }, backend: n, unique: n, loops: n } }
    pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { tab::<P, KS::K, V>().clear(); Default::default() }
    pub fn iter() -> alloc::vec::IntoIter<(KS::K, V)> { tab::<P, KS::K, V>().iter().map(|e| (e.0.clone(), e.1.sim_dup())).collect::<Vec<_>>().into_iter() }
    /// entries whose leading keys match
    pub fn iter_prefix<A>(a: A) -> alloc::vec::IntoIter<(<KS::K as SimPrefix<A>>::Rest, V)> where KS::K: SimPrefix<A> { let mut r = Vec::new(); for e in tab::<P, KS::K, V>().iter() { if let Some(k) = e.0.rest(&a) { r.push((k, e.1.sim_dup())) } } r.into_iter() }
    pub fn iter_prefix_values<A>(a: A) -> alloc::vec::IntoIter<V> where KS::K: SimPrefix<A> { Self::iter_prefix(a).map(|e| e.1).collect::<Vec<_>>().into_iter() }
}
pub trait SimPrefix<A> { type Rest; fn rest(&self, a: &A) -> Option<Self::Rest>; }
impl<A: Clone + PartialEq, B: Clone> SimPrefix<(A,)> for (A, B) { type Rest = B; fn rest(&self, a: &(A,)) -> Option<B> { if self.0 == a.0 { Some(self.1.clone()) } else { None } } }
impl<A: Clone + PartialEq, B: Clone, C: Clone> SimPrefix<(A,)> for (A, B, C) { type Rest = (B, C); fn rest(&self, a: &(A,)) -> Option<(B, C)> { if self.0 == a.0 { Some((self.1.clone(), self.2.clone())) } else { None } } }
impl<A: Clone + PartialEq, B: Clone + PartialEq, C: Clone> SimPrefix<(A, B)> for (A, B, C) { type Rest = C; fn rest(&self, a: &(A, B)) -> Option<C> { if self.0 == a.0 && self.1 == a.1 { Some(self.2.clone()) } else { None } } }
