//! Stand-in for sp-std (std re-exports; the collections are alloc's).
pub extern crate alloc;
pub use alloc::{borrow, boxed, rc, sync, vec, format};
pub use core::{any, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, result, slice, str, time};
pub mod string { pub use alloc::string::*; }
pub mod collections {
    pub use alloc::collections::{btree_map, btree_set, vec_deque, BTreeMap, BTreeSet, VecDeque};
}
pub mod prelude {
    pub use alloc::{borrow::ToOwned, boxed::Box, vec::Vec, vec};
    pub use core::prelude::v1::*;
    pub use core::{clone::Clone, cmp::{Eq, PartialEq, Reverse}, iter::{Extend, IntoIterator, Iterator}};
    pub use alloc::borrow::Cow;
}
#[macro_export] macro_rules! if_std { ($($t:tt)*) => {} }
