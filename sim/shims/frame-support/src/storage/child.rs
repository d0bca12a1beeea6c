//! child tries: an association list keyed by (child trie, key)
use crate::alloc::{boxed::Box, vec::Vec};
pub use sp_core_child::{ChildInfo, KillStorageResult};
pub mod sp_core_child {
    use super::Vec;
    #[derive(Clone, PartialEq, Eq, Debug)] pub struct ChildInfo(pub Vec<u8>);
    impl ChildInfo { pub fn new_default(k: &[u8]) -> Self { ChildInfo(k.to_vec()) } pub fn storage_key(&self) -> &[u8] { &self.0 } }
    pub enum KillStorageResult { AllRemoved(u32), SomeRemaining(u32) }
}
static mut CHILD: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = Vec::new();
pub fn sim_child() -> &'static mut Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> { unsafe { &mut *core::ptr::addr_of_mut!(CHILD) } }
fn at(c: &ChildInfo, k: &[u8]) -> Option<usize> { sim_child().iter().position(|e| e.0 == c.0 && e.1.as_slice() == k) }
pub fn get_raw(c: &ChildInfo, k: &[u8]) -> Option<Vec<u8>> { at(c, k).map(|i| sim_child()[i].2.clone()) }
pub fn put_raw(c: &ChildInfo, k: &[u8], v: &[u8]) { match at(c, k) { Some(i) => sim_child()[i].2 = v.to_vec(), None => sim_child().push((c.0.clone(), k.to_vec(), v.to_vec())) } }
pub fn exists(c: &ChildInfo, k: &[u8]) -> bool { at(c, k).is_some() }
pub fn kill(c: &ChildInfo, k: &[u8]) { if let Some(i) = at(c, k) { sim_child().remove(i); } }
pub fn get<T: parity_scale_codec::Decode>(c: &ChildInfo, k: &[u8]) -> Option<T> { get_raw(c, k).and_then(|v| T::decode(&mut &v[..]).ok()) }
pub fn put<T: parity_scale_codec::Encode>(c: &ChildInfo, k: &[u8], v: &T) { put_raw(c, k, &v.encode()) }
pub fn clear_storage(c: &ChildInfo, _l: Option<u32>, _m: Option<&[u8]>) -> super::MultiRemovalResults { sim_child().retain(|e| e.0 != c.0); Default::default() }
#[allow(unused)] fn unused() -> Box<u8> { Box::new(0) }
/// entries of a child trie whose key starts with a prefix (in insertion order; nothing may rely on the order)
pub struct ChildTriePrefixIterator<T> { rows: crate::alloc::vec::IntoIter<(Vec<u8>, Vec<u8>)>, f: fn(&[u8], &[u8]) -> Result<T, parity_scale_codec::Error>, c: ChildInfo, prefix: Vec<u8>, drain: bool }
impl<T> ChildTriePrefixIterator<T> { pub fn drain(mut self) -> Self { self.drain = true; self } }
impl<V: parity_scale_codec::Decode> ChildTriePrefixIterator<(Vec<u8>, V)> {
    pub fn with_prefix(c: &ChildInfo, prefix: &[u8]) -> Self {
        let mut rows = Vec::new();
        for e in sim_child().iter() { if e.0 == c.0 && e.1.len() >= prefix.len() && &e.1[..prefix.len()] == prefix { rows.push((e.1[prefix.len()..].to_vec(), e.2.clone())) } }
        ChildTriePrefixIterator { rows: rows.into_iter(), f: |k, v| Ok((k.to_vec(), V::decode(&mut &v[..])?)), c: c.clone(), prefix: prefix.to_vec(), drain: false }
    }
}
impl<T> Iterator for ChildTriePrefixIterator<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        loop {
            let (k, v) = self.rows.next()?;
            if self.drain { let mut full = self.prefix.clone(); full.extend_from_slice(&k); kill(&self.c, &full) }
            if let Ok(t) = (self.f)(&k, &v) { return Some(t) }
        }
    }
}
