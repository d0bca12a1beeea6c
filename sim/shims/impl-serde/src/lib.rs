//! Stand-in for impl-serde 0.4: bytes as "0x" and two lower-case digits each
#![no_std]
extern crate alloc;
pub mod serialize {
	use alloc::{string::String, vec::Vec};
	use serde::{de, Deserializer, Serializer};
	pub fn to_hex(bytes: &[u8]) -> String {
		let d = |x: u8| (if x < 10 { b'0' + x } else { b'a' + x - 10 }) as char;
		let mut s = String::with_capacity(2 + 2 * bytes.len());
		s.push_str("0x");
		for b in bytes { s.push(d(b >> 4)); s.push(d(b & 15)) }
		s
	}
	pub fn from_hex(s: &str) -> Option<Vec<u8>> {
		let h = s.strip_prefix("0x").unwrap_or(s).as_bytes();
		let d = |x: u8| match x { b'0'..=b'9' => Some(x - b'0'), b'a'..=b'f' => Some(x - b'a' + 10), b'A'..=b'F' => Some(x - b'A' + 10), _ => None };
		let mut r = Vec::with_capacity(h.len() / 2 + 1);
		let h = if h.len() % 2 == 1 { r.push(d(h[0])?); &h[1..] } else { h };
		for c in h.chunks(2) { r.push(d(c[0])? * 16 + d(c[1])?) }
		Some(r)
	}
	pub fn serialize<S: Serializer>(slice: &[u8], s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&to_hex(slice)) }
	pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
		struct V;
		impl<'b> de::Visitor<'b> for V {
			type Value = Vec<u8>;
			fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("a (both 0x-prefixed or not) hex string") }
			fn visit_str<E: de::Error>(self, v: &str) -> Result<Vec<u8>, E> { from_hex(v).ok_or_else(|| E::custom("not hex")) }
			fn visit_string<E: de::Error>(self, v: String) -> Result<Vec<u8>, E> { self.visit_str(&v) }
		}
		d.deserialize_str(V)
	}
}
