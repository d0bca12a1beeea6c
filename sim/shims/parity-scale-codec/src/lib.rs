//! Minimal re-implementation of the SCALE codec traits used by the code under verification.
extern crate alloc;
pub use alloc::vec::Vec;
pub use simmacros::{Decode, Encode, MaxEncodedLen, CompactAs};
use core::marker::PhantomData;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Error(pub &'static str);
impl From<&'static str> for Error { fn from(s: &'static str) -> Self { Error(s) } }
impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.0) } }
impl Error { pub fn chain(self, _d: &'static str) -> Self { self } }

pub trait Output { fn write(&mut self, bytes: &[u8]); fn push_byte(&mut self, b: u8) { self.write(&[b]) } }
impl Output for Vec<u8> {
    fn write(&mut self, bytes: &[u8]) { self.extend_from_slice(bytes) }
    fn push_byte(&mut self, b: u8) { self.push(b) }
}
pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> { let mut b = [0u8; 1]; self.read(&mut b)?; Ok(b[0]) }
}
impl<'a> Input for &'a [u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(Some(self.len())) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() { return Err(Error("Not enough data to fill buffer")) }
        let n = into.len();
        into.copy_from_slice(&self[..n]);
        *self = &self[n..];
        Ok(())
    }
    fn read_byte(&mut self) -> Result<u8, Error> {
        if self.is_empty() { return Err(Error("Not enough data to fill buffer")) }
        let b = self[0];
        *self = &self[1..];
        Ok(b)
    }
}

pub trait Encode {
    fn size_hint(&self) -> usize { 0 }
    fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) { self.using_encoded(|b| dest.write(b)) }
    fn encode(&self) -> Vec<u8> { let mut v = Vec::with_capacity(self.size_hint()); self.encode_to(&mut v); v }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.encode()) }
    fn encoded_size(&self) -> usize { self.encode().len() }
}
pub trait Decode: Sized {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> { Self::decode(input).map(|_| ()) }
    /// a copy with the same value (what encoding and decoding again would give)
    fn sim_dup(&self) -> Self { sim_bits(self) }
}
pub fn sim_bits<T>(t: &T) -> T { assert!(!core::mem::needs_drop::<T>(), "sim: type needs its own sim_dup"); unsafe { core::ptr::read(t) } }
pub trait DecodeAll: Sized { fn decode_all(input: &mut &[u8]) -> Result<Self, Error>; }
impl<T: Decode> DecodeAll for T { fn decode_all(input: &mut &[u8]) -> Result<Self, Error> { let r = T::decode(input)?; if input.is_empty() { Ok(r) } else { Err(Error("Input buffer has still data left after decoding!")) } } }
pub trait EncodeLike<T = Self>: Sized + Encode {}
/// helper conversion
pub trait SimFrom<S> { fn sim_from(s: S) -> Self; }
impl<T> SimFrom<T> for T { fn sim_from(s: T) -> T { s } }

pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait FullEncode: Encode {}
impl<T: Encode> FullEncode for T {}
pub trait FullCodec: Decode + Encode {}
impl<T: Decode + Encode> FullCodec for T {}
pub trait WrapperTypeEncode {}
pub trait WrapperTypeDecode {}
pub trait EncodeAppend { type Item; }
pub trait MaxEncodedLen: Encode { fn max_encoded_len() -> usize; }
pub trait ConstEncodedLen: MaxEncodedLen {}
pub trait DecodeLength { fn len(self_encoded: &[u8]) -> Result<usize, Error>; }
pub trait HasCompact: Sized { type Type: Encode + Decode + From<Self> + Into<Self>; }
pub trait CompactAs { type As; fn encode_as(&self) -> &Self::As; fn decode_from(a: Self::As) -> Result<Self, Error> where Self: Sized; }

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> { fn from(t: T) -> Self { Compact(t) } }

macro_rules! compact_small { ($($t:ty),*) => {$(
    impl From<Compact<$t>> for $t { fn from(c: Compact<$t>) -> $t { c.0 } }
    impl HasCompact for $t { type Type = Compact<$t>; }
    impl Encode for Compact<$t> {
        fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { compact_encode(self.0 as u128, d) }
    }
    impl Decode for Compact<$t> {
        fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
            let v = compact_decode(i)?;
            if v > <$t>::MAX as u128 { return Err(Error("compact out of range")) }
            Ok(Compact(v as $t))
        }
    }
    impl MaxEncodedLen for Compact<$t> { fn max_encoded_len() -> usize { match core::mem::size_of::<$t>() { 1 => 2, 2 => 4, 4 => 5, 8 => 9, _ => 17 } } }
)*} }
compact_small!(u8, u16, u32, u64, u128);
impl Encode for Compact<()> { fn encode_to<O: Output + ?Sized>(&self, _d: &mut O) {} }

pub fn compact_encode<O: Output + ?Sized>(v: u128, d: &mut O) {
    if v < 64 { d.push_byte((v as u8) << 2) }
    else if v < (1 << 14) { d.write(&(((v as u16) << 2) | 1).to_le_bytes()) }
    else if v < (1 << 30) { d.write(&(((v as u32) << 2) | 2).to_le_bytes()) }
    else {
        let bytes = v.to_le_bytes();
        let n = 16 - (v.leading_zeros() / 8) as usize;
        let n = if n < 4 { 4 } else { n };
        d.push_byte(3 + (((n - 4) as u8) << 2));
        d.write(&bytes[..n]);
    }
}
pub fn compact_decode<I: Input>(i: &mut I) -> Result<u128, Error> {
    let b = i.read_byte()?;
    Ok(match b & 3 {
        0 => (b >> 2) as u128,
        1 => { let b1 = i.read_byte()?; let x = (u16::from_le_bytes([b, b1]) >> 2) as u128; if x < 64 { return Err(Error("out of range Compact")) } x },
        2 => { let mut r = [0u8; 3]; i.read(&mut r)?; let x = (u32::from_le_bytes([b, r[0], r[1], r[2]]) >> 2) as u128; if x < (1 << 14) { return Err(Error("out of range Compact")) } x },
        _ => { let n = (b >> 2) as usize + 4; if n > 16 { return Err(Error("unexpected prefix decoding Compact")) } let mut r = [0u8; 16]; let mut k = 0; while k < n { r[k] = i.read_byte()?; k += 1; } let x = u128::from_le_bytes(r); x },
    })
}

macro_rules! ints { ($($t:ty),*) => {$(
    impl Encode for $t {
        fn size_hint(&self) -> usize { core::mem::size_of::<$t>() }
        fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.write(&self.to_le_bytes()) }
        fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) }
        fn encoded_size(&self) -> usize { core::mem::size_of::<$t>() }
    }
    impl Decode for $t {
        fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut b = [0u8; core::mem::size_of::<$t>()]; i.read(&mut b)?; Ok(<$t>::from_le_bytes(b)) }
    }
    impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { core::mem::size_of::<$t>() } }
    impl EncodeLike for $t {}
)*} }
ints!(u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Encode for u8 {
    fn size_hint(&self) -> usize { 1 }
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.push_byte(*self) }
    fn encoded_size(&self) -> usize { 1 }
}
impl Decode for u8 { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { i.read_byte() } }
impl MaxEncodedLen for u8 { fn max_encoded_len() -> usize { 1 } }
impl EncodeLike for u8 {}
impl Encode for bool { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.push_byte(*self as u8) } }
impl Decode for bool { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(false), 1 => Ok(true), _ => Err(Error("Invalid boolean representation")) } } }
impl MaxEncodedLen for bool { fn max_encoded_len() -> usize { 1 } }
impl EncodeLike for bool {}
impl Encode for () { fn encode_to<O: Output + ?Sized>(&self, _d: &mut O) {} }
impl Decode for () { fn decode<I: Input>(_i: &mut I) -> Result<Self, Error> { Ok(()) } }
impl MaxEncodedLen for () { fn max_encoded_len() -> usize { 0 } }
impl EncodeLike for () {}
impl<T> Encode for PhantomData<T> { fn encode_to<O: Output + ?Sized>(&self, _d: &mut O) {} }
impl<T> Decode for PhantomData<T> { fn decode<I: Input>(_i: &mut I) -> Result<Self, Error> { Ok(PhantomData) } }
impl<T> MaxEncodedLen for PhantomData<T> { fn max_encoded_len() -> usize { 0 } }
impl<T: Encode> Encode for [T] {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { compact_encode(self.len() as u128, d); for x in self { x.encode_to(d) } }
}
impl Encode for str { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.as_bytes().encode_to(d) } }
impl Encode for alloc::string::String { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.as_bytes().encode_to(d) } }
impl Decode for alloc::string::String { fn sim_dup(&self) -> Self { self.clone() } fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { alloc::string::String::from_utf8(Vec::<u8>::decode(i)?).map_err(|_| Error("Invalid utf8 sequence")) } }
impl<T: Encode> Encode for Vec<T> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { self.as_slice().encode_to(d) } }
impl<T: Decode> Decode for Vec<T> {
    fn sim_dup(&self) -> Self { if core::mem::needs_drop::<T>() { self.iter().map(|x| x.sim_dup()).collect() } else { let mut v = Vec::with_capacity(self.len()); unsafe { core::ptr::copy_nonoverlapping(self.as_ptr(), v.as_mut_ptr(), self.len()); v.set_len(self.len()); } v } }
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let n = <Compact<u32>>::decode(i)?.0 as usize;
        let mut v = Vec::new();
        let mut k = 0;
        while k < n { v.push(T::decode(i)?); k += 1; }
        Ok(v)
    }
}
impl<T: Encode> EncodeLike for Vec<T> {}
impl<T: Encode, const N: usize> Encode for [T; N] { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { for x in self { x.encode_to(d) } } }
impl<T: Decode, const N: usize> Decode for [T; N] {
    fn sim_dup(&self) -> Self { core::array::from_fn(|i| self[i].sim_dup()) }
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N { v.push(T::decode(i)?); }
        v.try_into().map_err(|_| Error("array"))
    }
}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] { fn max_encoded_len() -> usize { N * T::max_encoded_len() } }
impl<T: Encode, const N: usize> EncodeLike for [T; N] {}
impl<T: Encode> Encode for Option<T> {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { match self { None => d.push_byte(0), Some(x) => { d.push_byte(1); x.encode_to(d) } } }
}
impl<T: Decode> Decode for Option<T> {
    fn sim_dup(&self) -> Self { self.as_ref().map(|x| x.sim_dup()) }
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(None), 1 => Ok(Some(T::decode(i)?)), _ => Err(Error("unexpected first byte decoding Option")) } }
}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> { fn max_encoded_len() -> usize { 1 + T::max_encoded_len() } }
impl<T: Encode> EncodeLike for Option<T> {}
impl<T: Encode, E: Encode> Encode for Result<T, E> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { match self { Ok(x) => { d.push_byte(0); x.encode_to(d) }, Err(x) => { d.push_byte(1); x.encode_to(d) } } } }
impl<T: Decode, E: Decode> Decode for Result<T, E> { fn sim_dup(&self) -> Self { match self { Ok(x) => Ok(x.sim_dup()), Err(e) => Err(e.sim_dup()) } } fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { match i.read_byte()? { 0 => Ok(Ok(T::decode(i)?)), 1 => Ok(Err(E::decode(i)?)), _ => Err(Error("unexpected first byte decoding Result")) } } }
impl<T: Encode> Encode for alloc::boxed::Box<T> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { (**self).encode_to(d) } }
impl<T: Decode> Decode for alloc::boxed::Box<T> { fn sim_dup(&self) -> Self { alloc::boxed::Box::new((**self).sim_dup()) } fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(alloc::boxed::Box::new(T::decode(i)?)) } }
impl<T: MaxEncodedLen> MaxEncodedLen for alloc::boxed::Box<T> { fn max_encoded_len() -> usize { T::max_encoded_len() } }
impl<T: Encode> EncodeLike for alloc::boxed::Box<T> {}
impl<'a, T: Encode + ?Sized> Encode for &'a T {
    fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { (**self).encode_to(d) }
    fn encode(&self) -> Vec<u8> { (**self).encode() }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { (**self).using_encoded(f) }
}
impl<'a, T: Encode> EncodeLike<T> for &'a T {}
impl<'a, T: Clone> SimFrom<&'a T> for T { fn sim_from(s: &'a T) -> T { s.clone() } }
impl<'a, 'b, T: Clone> SimFrom<&'a &'b T> for T { fn sim_from(s: &'a &'b T) -> T { (**s).clone() } }
impl<K: Encode, V: Encode> Encode for alloc::collections::BTreeMap<K, V> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { compact_encode(self.len() as u128, d); for (k, v) in self { k.encode_to(d); v.encode_to(d); } } }
impl<K: Decode + Ord, V: Decode> Decode for alloc::collections::BTreeMap<K, V> { fn sim_dup(&self) -> Self { self.iter().map(|(k, v)| (k.sim_dup(), v.sim_dup())).collect() } fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let v = Vec::<(K, V)>::decode(i)?; Ok(v.into_iter().collect()) } }
macro_rules! tuples { ($(($($n:ident $i:tt),+))*) => {$(
    impl<$($n: Encode),+> Encode for ($($n,)+) { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { $(self.$i.encode_to(d);)+ } }
    impl<$($n: Decode),+> Decode for ($($n,)+) { fn sim_dup(&self) -> Self { ($(self.$i.sim_dup(),)+) } fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(($($n::decode(i)?,)+)) } }
    impl<$($n: MaxEncodedLen),+> MaxEncodedLen for ($($n,)+) { fn max_encoded_len() -> usize { 0 $(+ $n::max_encoded_len())+ } }
)*} }
tuples! { (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, Z 8) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, Z 8, J 9) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, Z 8, J 9, K 10) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, Z 8, J 9, K 10, L 11) }
impl<A: Encode> EncodeLike for (A,) {}
impl<A: Encode, B: Encode> EncodeLike for (A, B) {}
impl<A: Encode, B: Encode, C: Encode> EncodeLike for (A, B, C) {}
impl<A: Encode, B: Encode, C: Encode, D: Encode> EncodeLike for (A, B, C, D) {}

pub mod alloc_reexport { pub use alloc::vec; }

pub trait SimAppend<I> { fn sim_try_append(&mut self, i: I) -> core::result::Result<(), ()>; }
impl<T> SimAppend<T> for Vec<T> { fn sim_try_append(&mut self, i: T) -> core::result::Result<(), ()> { self.push(i); Ok(()) } }
impl<T: Encode> Encode for alloc::collections::BTreeSet<T> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { compact_encode(self.len() as u128, d); for x in self { x.encode_to(d) } } }
impl<T: Decode + Ord> Decode for alloc::collections::BTreeSet<T> { fn sim_dup(&self) -> Self { self.iter().map(|x| x.sim_dup()).collect() } fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Vec::<T>::decode(i)?.into_iter().collect()) } }
impl<T: Encode> Encode for alloc::collections::VecDeque<T> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { compact_encode(self.len() as u128, d); for x in self { x.encode_to(d) } } }
pub trait DecodeLimit: Sized { fn decode_with_depth_limit(limit: u32, i: &mut &[u8]) -> Result<Self, Error>; fn decode_all_with_depth_limit(limit: u32, i: &mut &[u8]) -> Result<Self, Error>; }
impl<T: Decode> DecodeLimit for T { fn decode_with_depth_limit(_l: u32, i: &mut &[u8]) -> Result<Self, Error> { T::decode(i) } fn decode_all_with_depth_limit(_l: u32, i: &mut &[u8]) -> Result<Self, Error> { <T as DecodeAll>::decode_all(i) } }
