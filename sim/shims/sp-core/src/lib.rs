//! sp-core: the types the pallets use.
extern crate alloc;
use parity_scale_codec::{self, Decode, Encode, Input, MaxEncodedLen, Output, EncodeLike};
use simmacros::TypeInfo;
pub use simmacros::RuntimeDebug;
pub use bounded::{BoundedBTreeMap, BoundedVec};

pub trait Get<T> { fn get() -> T; }
impl<T: Default> Get<T> for () { fn get() -> T { T::default() } }
pub trait TypedGet { type Type; fn get() -> Self::Type; }
macro_rules! consts { ($($n:ident $t:ty),*) => {$(
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct $n<const N: $t>;
    impl<const N: $t> Get<$t> for $n<N> { fn get() -> $t { N } }
    impl<const N: $t> Get<Option<$t>> for $n<N> { fn get() -> Option<$t> { Some(N) } }
)*} }
consts!(ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstBool bool);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct H256(pub [u8; 32]);
impl AsRef<[u8]> for H256 { fn as_ref(&self) -> &[u8] { &self.0 } }
impl H256 { pub fn from_slice(b: &[u8]) -> Self { let mut x = [0u8; 32]; x.copy_from_slice(b); H256(x) } pub fn as_bytes(&self) -> &[u8] { &self.0 } pub fn as_fixed_bytes(&self) -> &[u8; 32] { &self.0 } pub fn to_fixed_bytes(self) -> [u8; 32] { self.0 } pub fn zero() -> Self { H256([0; 32]) } pub fn is_zero(&self) -> bool { self.0 == [0; 32] } }
impl From<H256> for [u8; 32] { fn from(h: H256) -> [u8; 32] { h.0 } }
impl From<[u8; 32]> for H256 { fn from(b: [u8; 32]) -> Self { H256(b) } }

pub mod crypto {
    use super::*;
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
    pub struct AccountId32(pub [u8; 32]);
    impl AccountId32 { pub const fn new(b: [u8; 32]) -> Self { AccountId32(b) } }
    impl From<[u8; 32]> for AccountId32 { fn from(b: [u8; 32]) -> Self { AccountId32(b) } }
    impl From<AccountId32> for [u8; 32] { fn from(b: AccountId32) -> Self { b.0 } }
    impl AsRef<[u8]> for AccountId32 { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl AsRef<[u8; 32]> for AccountId32 { fn as_ref(&self) -> &[u8; 32] { &self.0 } }
    impl core::fmt::Display for AccountId32 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("acct") } }
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, TypeInfo)]
    pub struct KeyTypeId(pub [u8; 4]);
}
pub mod hexdisplay {
    pub struct HexDisplay<'a>(pub &'a [u8]);
    impl<'a> HexDisplay<'a> { pub fn from<R: AsRef<[u8]> + ?Sized>(d: &'a R) -> Self { HexDisplay(d.as_ref()) } }
    impl<'a> core::fmt::Display for HexDisplay<'a> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { for b in self.0 { write!(f, "{:02x}", b)?; } Ok(()) } }
    impl<'a> core::fmt::Debug for HexDisplay<'a> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { for b in self.0 { write!(f, "{:02x}", b)?; } Ok(()) } }
}
pub use serde;
#[derive(Clone, PartialEq, Eq, Debug, Default)] pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } } impl core::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
pub mod offchain {
    pub trait OffchainStorage: Clone + Send + Sync { fn set(&mut self, prefix: &[u8], key: &[u8], value: &[u8]); fn remove(&mut self, prefix: &[u8], key: &[u8]); fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>>; fn compare_and_set(&mut self, prefix: &[u8], key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool; }
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
    pub struct Duration(pub u64);
    impl Duration { pub const fn from_millis(m: u64) -> Self { Duration(m) } pub fn millis(&self) -> u64 { self.0 } }
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
    pub struct Timestamp(pub u64);
    impl Timestamp { pub fn add(&self, d: Duration) -> Self { Timestamp(self.0 + d.0) } }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum StorageKind { PERSISTENT, LOCAL }
}
pub mod bounded {
    use super::*;
    use alloc::vec::Vec;
    use core::marker::PhantomData;
    use core::ops::{Deref, Index, IndexMut};
    pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
    impl<T, S> BoundedVec<T, S> {
        pub fn into_inner(self) -> Vec<T> { self.0 }
        pub fn as_slice(&self) -> &[T] { &self.0 }
        pub fn new() -> Self { BoundedVec(Vec::new(), PhantomData) }
        pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
        pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
        pub fn clear(&mut self) { self.0.clear() }
        pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
        pub fn pop(&mut self) -> Option<T> { self.0.pop() }
        pub fn iter_mut(&mut self) -> core::slice::IterMut<'_, T> { self.0.iter_mut() }
        pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
        pub fn get_mut(&mut self, i: usize) -> Option<&mut T> { self.0.get_mut(i) }
        pub fn as_mut(&mut self) -> &mut [T] { &mut self.0 }
        pub fn drain<R: core::ops::RangeBounds<usize>>(&mut self, r: R) -> alloc::vec::Drain<'_, T> { self.0.drain(r) }
        pub fn sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { self.0.sort_by(f) }
        pub fn to_vec(&self) -> Vec<T> where T: Clone { self.0.clone() }
        pub fn first_mut(&mut self) -> Option<&mut T> { self.0.first_mut() }
        pub fn sort(&mut self) where T: Ord { self.0.sort() }
        pub fn sort_unstable(&mut self) where T: Ord { self.0.sort_unstable() }
        pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
        pub fn reverse(&mut self) { self.0.reverse() }
        pub fn swap(&mut self, a: usize, b: usize) { self.0.swap(a, b) }
        pub fn split_off(&mut self, at: usize) -> Self { BoundedVec(self.0.split_off(at), PhantomData) }
        pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.0 }
        pub fn get_ref(&self) -> &Vec<T> { &self.0 }
    }
    impl<T, S: Get<u32>> BoundedVec<T, S> {
        pub fn bound() -> usize { S::get() as usize }
        pub fn with_bounded_capacity(_n: usize) -> Self { Self::new() }
        pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); BoundedVec(v, PhantomData) }
        pub fn defensive_truncate_from(v: Vec<T>) -> Self { Self::truncate_from(v) }
        pub fn try_collect<I: IntoIterator<Item = T>>(i: I) -> Result<Self, ()> { Self::try_from_vec(i.into_iter().collect()).map_err(|_| ()) }
        pub fn iter_mut_full(&mut self) -> core::slice::IterMut<'_, T> { self.0.iter_mut() }
        pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
        pub fn try_mutate(mut self, f: impl FnOnce(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); if self.0.len() <= Self::bound() { Some(self) } else { None } }
        pub fn try_push(&mut self, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.push(t); Ok(()) } else { Err(t) } }
        pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.insert(i, t); Ok(()) } else { Err(t) } }
        pub fn force_push(&mut self, t: T) { self.try_push(t).map_err(|_| ()).expect("force_push") }
        pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> { if with.len() + self.0.len() <= Self::bound() { self.0.extend(with); Ok(()) } else { Err(()) } }
        pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if o.len() + self.0.len() <= Self::bound() { self.0.append(o); Ok(()) } else { Err(()) } }
        pub fn try_from_vec(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= Self::bound() { Ok(BoundedVec(v, PhantomData)) } else { Err(v) } }
    }
    impl<T, S> Default for BoundedVec<T, S> { fn default() -> Self { Self::new() } }
    impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { Self::try_from_vec(v) } }
    impl<T, S: Get<u32>, const N: usize> TryFrom<[T; N]> for BoundedVec<T, S> { type Error = Vec<T>; fn try_from(v: [T; N]) -> Result<Self, Vec<T>> { Self::try_from_vec(Vec::from(v)) } }
    impl<'a, T: Clone, S: Get<u32>> TryFrom<&'a [T]> for BoundedVec<T, S> { type Error = Vec<T>; fn try_from(v: &'a [T]) -> Result<Self, Vec<T>> { Self::try_from_vec(v.to_vec()) } }
    impl<T: PartialEq, S> PartialEq<[T]> for BoundedVec<T, S> { fn eq(&self, o: &[T]) -> bool { self.0.as_slice() == o } }
    impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for BoundedVec<T, S> { fn eq(&self, o: &&'a [T]) -> bool { self.0.as_slice() == *o } }
    impl<T, S> From<BoundedVec<T, S>> for Vec<T> { fn from(b: BoundedVec<T, S>) -> Vec<T> { b.0 } }
    impl<T, S> Deref for BoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
    impl<T, S, I: core::slice::SliceIndex<[T]>> Index<I> for BoundedVec<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { self.0.index(i) } }
    impl<T, S, I: core::slice::SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { self.0.index_mut(i) } }
    impl<T: Clone, S> Clone for BoundedVec<T, S> { fn clone(&self) -> Self { BoundedVec(self.0.clone(), PhantomData) } }
    impl<T: PartialEq, S, S2> PartialEq<BoundedVec<T, S2>> for BoundedVec<T, S> { fn eq(&self, o: &BoundedVec<T, S2>) -> bool { self.0 == o.0 } }
    impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
    impl<T: Eq, S> Eq for BoundedVec<T, S> {}
    impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
    impl<T: Ord, S> Ord for BoundedVec<T, S> { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.cmp(&o.0) } }
    impl<T: core::fmt::Debug, S> core::fmt::Debug for BoundedVec<T, S> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
    impl<T: core::hash::Hash, S> core::hash::Hash for BoundedVec<T, S> { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
    impl<T: Encode, S> Encode for BoundedVec<T, S> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } }
    impl<T, S: Get<u32>> parity_scale_codec::SimAppend<T> for BoundedVec<T, S> { fn sim_try_append(&mut self, i: T) -> core::result::Result<(), ()> { self.try_push(i).map_err(|_| ()) } }
    impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> { fn sim_dup(&self) -> Self { BoundedVec(self.0.sim_dup(), core::marker::PhantomData) } fn decode<I: Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> { Self::try_from_vec(Vec::decode(i)?).map_err(|_| "BoundedVec exceeds its limit".into()) } }
    impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
    impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> { fn max_encoded_len() -> usize { parity_scale_codec::Compact(S::get()).encoded_size() + S::get() as usize * T::max_encoded_len() } }
    impl<T, S> scale_info::TypeInfo for BoundedVec<T, S> { type Identity = Self; }
    impl<T, S> IntoIterator for BoundedVec<T, S> { type Item = T; type IntoIter = alloc::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
    impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> { type Item = &'a T; type IntoIter = core::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> { type Item = &'a mut T; type IntoIter = core::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
    impl<T, S> AsRef<[T]> for BoundedVec<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
    impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }

    pub struct BoundedBTreeMap<K, V, S>(alloc::collections::BTreeMap<K, V>, PhantomData<S>);
    impl<K: Ord, V, S> BoundedBTreeMap<K, V, S> {
        pub fn new() -> Self { BoundedBTreeMap(Default::default(), PhantomData) }
        pub fn into_inner(self) -> alloc::collections::BTreeMap<K, V> { self.0 }
        pub fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V> where K: core::borrow::Borrow<Q> { self.0.remove(k) }
        pub fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V> where K: core::borrow::Borrow<Q> { self.0.get_mut(k) }
        pub fn iter_mut(&mut self) -> alloc::collections::btree_map::IterMut<'_, K, V> { self.0.iter_mut() }
        pub fn clear(&mut self) { self.0.clear() }
        pub fn remove_entry<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<(K, V)> where K: core::borrow::Borrow<Q> { self.0.remove_entry(k) }
        pub fn values_mut(&mut self) -> alloc::collections::btree_map::ValuesMut<'_, K, V> { self.0.values_mut() }
        pub fn split_off<Q: ?Sized + Ord>(&mut self, k: &Q) -> Self where K: core::borrow::Borrow<Q> { BoundedBTreeMap(self.0.split_off(k), PhantomData) }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) { self.0.retain(f) }
    }
    impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
        pub fn bound() -> usize { S::get() as usize }
        pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> { if self.0.len() < Self::bound() || self.0.contains_key(&k) { Ok(self.0.insert(k, v)) } else { Err((k, v)) } }
        pub fn try_mutate(mut self, f: impl FnOnce(&mut alloc::collections::BTreeMap<K, V>)) -> Option<Self> { f(&mut self.0); if self.0.len() <= Self::bound() { Some(self) } else { None } }
        pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
        pub fn try_map<X, F: FnMut((&K, V)) -> X>(self, mut f: F) -> Option<BoundedBTreeMap<K, X, S>> { let mut r = alloc::collections::BTreeMap::new(); for (k, v) in self.0 { let x = f((&k, v)); r.insert(k, x); } Some(BoundedBTreeMap(r, PhantomData)) }
        pub fn try_from(m: alloc::collections::BTreeMap<K, V>) -> Result<Self, ()> { if m.len() <= Self::bound() { Ok(BoundedBTreeMap(m, PhantomData)) } else { Err(()) } }
    }
    impl<K: Ord, V, S> Default for BoundedBTreeMap<K, V, S> { fn default() -> Self { Self::new() } }
    impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> { type Target = alloc::collections::BTreeMap<K, V>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> { fn clone(&self) -> Self { BoundedBTreeMap(self.0.clone(), PhantomData) } }
    impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
    impl<K: core::fmt::Debug, V: core::fmt::Debug, S> core::fmt::Debug for BoundedBTreeMap<K, V, S> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
    impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } }
    impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> { fn sim_dup(&self) -> Self { BoundedBTreeMap(self.0.sim_dup(), core::marker::PhantomData) } fn decode<I: Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> { Self::try_from(Decode::decode(i)?).map_err(|_| "BoundedBTreeMap exceeds its limit".into()) } }
    impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> { fn max_encoded_len() -> usize { 4 + S::get() as usize * (K::max_encoded_len() + V::max_encoded_len()) } }
    impl<K: Encode, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
    impl<K, V, S> scale_info::TypeInfo for BoundedBTreeMap<K, V, S> { type Identity = Self; }
    impl<K: Ord, V, S> IntoIterator for BoundedBTreeMap<K, V, S> { type Item = (K, V); type IntoIter = alloc::collections::btree_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
    impl<'a, K: Ord, V, S> IntoIterator for &'a mut BoundedBTreeMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = alloc::collections::btree_map::IterMut<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
    impl<K, V, S> From<BoundedBTreeMap<K, V, S>> for alloc::collections::BTreeMap<K, V> { fn from(b: BoundedBTreeMap<K, V, S>) -> Self { b.0 } }
    impl<K, V, S> AsRef<alloc::collections::BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> { fn as_ref(&self) -> &alloc::collections::BTreeMap<K, V> { &self.0 } }
    impl<'a, K: Ord, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = alloc::collections::btree_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
}
#[macro_export] macro_rules! parameter_types { ($($(#[$m:meta])* pub const $n:ident: $t:ty = $v:expr;)*) => { $( pub struct $n; impl $n { #[allow(dead_code)] pub const fn get() -> $t { $v } } impl<I: From<$t>> $crate::Get<I> for $n { fn get() -> I { I::from($v) } } )* } }
