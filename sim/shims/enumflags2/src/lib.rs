//! Stand-in for enumflags2 (only what the repository uses).
pub use simmacros::bitflags;
pub trait RawBitFlags: Copy + Sized + 'static { type Numeric: Copy; const EMPTY: Self::Numeric; const ALL_BITS: Self::Numeric; fn bits(self) -> Self::Numeric; }
pub trait BitFlag: RawBitFlags { const ALL: &'static [Self]; }
pub trait Num: Copy + PartialEq + Eq + core::ops::BitOr<Output = Self> + core::ops::BitAnd<Output = Self> + core::ops::Not<Output = Self> + core::ops::BitXor<Output = Self> + core::fmt::Debug {}
impl Num for u8 {} impl Num for u16 {} impl Num for u32 {} impl Num for u64 {}
pub struct BitFlags<T: RawBitFlags>(T::Numeric);
pub struct FromBitsError<T>(core::marker::PhantomData<T>);
impl<T: RawBitFlags> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T: RawBitFlags> Copy for BitFlags<T> {}
impl<T: RawBitFlags> PartialEq for BitFlags<T> where T::Numeric: Num { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: RawBitFlags> Eq for BitFlags<T> where T::Numeric: Num {}
impl<T: RawBitFlags> core::fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("BitFlags") } }
impl<T: RawBitFlags> Default for BitFlags<T> { fn default() -> Self { Self::EMPTY } }
impl<T: RawBitFlags> BitFlags<T> { pub const EMPTY: Self = BitFlags(T::EMPTY); pub const ALL: Self = BitFlags(T::ALL_BITS); pub fn empty() -> Self { Self::EMPTY } pub fn all() -> Self { Self::ALL } pub fn bits(self) -> T::Numeric { self.0 } }
impl<T: BitFlag> BitFlags<T> where T::Numeric: Num {
    pub fn contains<B: Into<BitFlags<T>>>(self, o: B) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn intersects<B: Into<BitFlags<T>>>(self, o: B) -> bool { let o = o.into(); self.0 & o.0 != T::EMPTY }
    pub fn insert<B: Into<BitFlags<T>>>(&mut self, o: B) { self.0 = self.0 | o.into().0 }
    pub fn remove<B: Into<BitFlags<T>>>(&mut self, o: B) { self.0 = self.0 & !o.into().0 }
    pub fn toggle<B: Into<BitFlags<T>>>(&mut self, o: B) { self.0 = self.0 ^ o.into().0 }
    pub fn set<B: Into<BitFlags<T>>>(&mut self, o: B, c: bool) { if c { self.insert(o) } else { self.remove(o) } }
    pub fn is_empty(self) -> bool { self.0 == T::EMPTY }
    pub fn is_all(self) -> bool { self.0 == T::ALL_BITS }
    pub fn len(self) -> usize { self.iter().count() }
    pub fn from_bits(b: T::Numeric) -> Result<Self, FromBitsError<T>> { if b & !T::ALL_BITS == T::EMPTY { Ok(BitFlags(b)) } else { Err(FromBitsError(core::marker::PhantomData)) } }
    pub fn from_bits_truncate(b: T::Numeric) -> Self { BitFlags(b & T::ALL_BITS) }
    pub fn from_flag(f: T) -> Self { BitFlags(f.bits()) }
    pub fn iter(self) -> Iter<T> { Iter { rest: self, i: 0 } }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { BitFlags(t.bits()) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> core::ops::BitOr<B> for BitFlags<T> where T::Numeric: Num { type Output = Self; fn bitor(self, o: B) -> Self { BitFlags(self.0 | o.into().0) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> core::ops::BitAnd<B> for BitFlags<T> where T::Numeric: Num { type Output = Self; fn bitand(self, o: B) -> Self { BitFlags(self.0 & o.into().0) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> core::ops::BitOrAssign<B> for BitFlags<T> where T::Numeric: Num { fn bitor_assign(&mut self, o: B) { self.insert(o) } }
pub struct Iter<T: RawBitFlags> { rest: BitFlags<T>, i: usize }
impl<T: BitFlag> Iterator for Iter<T> where T::Numeric: Num { type Item = T; fn next(&mut self) -> Option<T> { while self.i < T::ALL.len() { let f = T::ALL[self.i]; self.i += 1; if self.rest.contains(f) { return Some(f) } } None } }
impl<T: BitFlag> IntoIterator for BitFlags<T> where T::Numeric: Num { type Item = T; type IntoIter = Iter<T>; fn into_iter(self) -> Iter<T> { self.iter() } }
impl<T: BitFlag> core::iter::FromIterator<T> for BitFlags<T> where T::Numeric: Num { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut f = Self::EMPTY; for x in i { f.insert(x) } f } }
pub mod _internal {}
