//! `hex` replacement
#[derive(Debug, PartialEq)] pub struct FromHexError;
pub fn decode<T: AsRef<[u8]>>(s: T) -> Result<Vec<u8>, FromHexError> {
    let s = s.as_ref(); if s.len() % 2 != 0 { return Err(FromHexError) }
    let d = |c: u8| match c { b'0'..=b'9' => Ok(c - b'0'), b'a'..=b'f' => Ok(c - b'a' + 10), b'A'..=b'F' => Ok(c - b'A' + 10), _ => Err(FromHexError) };
    let mut o = Vec::new(); for p in s.chunks(2) { o.push((d(p[0])? << 4) | d(p[1])?) } Ok(o)
}
