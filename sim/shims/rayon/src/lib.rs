//! Stand-in: parallel iteration gives its results in the order of its input, so going through it in order is the same.
pub mod prelude {
    pub trait IntoParallelRefIterator<'a> { type Iter; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> { type Iter = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::Iter { self.iter() } }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] { type Iter = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::Iter { self.iter() } }
    pub trait IntoParallelIterator { type Iter; fn into_par_iter(self) -> Self::Iter; }
    impl<T> IntoParallelIterator for Vec<T> { type Iter = std::vec::IntoIter<T>; fn into_par_iter(self) -> Self::Iter { self.into_iter() } }
    pub use std::iter::Iterator as ParallelIterator;
}
