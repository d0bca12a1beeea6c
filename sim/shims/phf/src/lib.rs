//! `phf` replacement: the map literal becomes a `match`, so a lookup with a symbolic key is one
//! switch instead of a symbolic SipHash.  Same keys, same values, same lookups.
pub struct Map<K: 'static, V: 'static> { pub lookup: fn(&K) -> Option<&'static V>, pub entries: &'static [(K, V)] }
impl<K, V> Map<K, V> {
    pub fn get(&self, k: &K) -> Option<&'static V> { (self.lookup)(k) }
    pub fn contains_key(&self, k: &K) -> bool { (self.lookup)(k).is_some() }
    pub const fn len(&self) -> usize { self.entries.len() }
    pub const fn is_empty(&self) -> bool { self.entries.is_empty() }
    pub fn entries(&self) -> impl Iterator<Item = (&'static K, &'static V)> { self.entries.iter().map(|(k, v)| (k, v)) }
    pub fn keys(&self) -> impl Iterator<Item = &'static K> { self.entries.iter().map(|(k, _)| k) }
    pub fn values(&self) -> impl Iterator<Item = &'static V> { self.entries.iter().map(|(_, v)| v) }
}
#[macro_export]
macro_rules! phf_map {
    ($($k:literal => $v:expr),* $(,)?) => {
        $crate::Map { lookup: { #[allow(unreachable_patterns)] fn __l(k: &char) -> Option<&'static char> { match *k { $($k => Some(&$v),)* _ => None } } __l }, entries: &[$(($k, $v)),*] }
    };
}
