//! Port of the `multibase` crate for the identity, base16, base32 and base58btc alphabets; other
//! bases are refused (the harnesses stay inside these).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Base { Identity, Base16Lower, Base16Upper, Base32Lower, Base32Upper, Base58Btc, Base64 }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { UnknownBase(char), InvalidBaseString }
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
impl Base {
    pub fn from_code(c: char) -> Result<Base, Error> { Ok(match c { '\0' => Base::Identity, 'f' => Base::Base16Lower, 'F' => Base::Base16Upper, 'b' => Base::Base32Lower, 'B' => Base::Base32Upper, 'z' => Base::Base58Btc, 'm' => Base::Base64, c => return Err(Error::UnknownBase(c)) }) }
    pub fn code(&self) -> char { match self { Base::Identity => '\0', Base::Base16Lower => 'f', Base::Base16Upper => 'F', Base::Base32Lower => 'b', Base::Base32Upper => 'B', Base::Base58Btc => 'z', Base::Base64 => 'm' } }
    pub fn decode(&self, s: &str) -> Result<Vec<u8>, Error> {
        let b = s.as_bytes();
        match self {
            Base::Identity => Ok(b.to_vec()),
            Base::Base16Lower | Base::Base16Upper => { if b.len() % 2 != 0 { return Err(Error::InvalidBaseString) } let mut o = Vec::new(); for p in b.chunks(2) { o.push(hex(p[0], *self)? << 4 | hex(p[1], *self)?) } Ok(o) },
            Base::Base32Lower | Base::Base32Upper => {
                // no padding; 1, 3 and 6 trailing characters and non-zero trailing bits are errors
                if matches!(b.len() % 8, 1 | 3 | 6) { return Err(Error::InvalidBaseString) }
                let (mut acc, mut bits, mut o) = (0u32, 0u32, Vec::new());
                for &c in b { let lo = if *self == Base::Base32Lower { b'a' } else { b'A' }; let v = if c >= lo && c <= lo + 25 { c - lo } else if c >= b'2' && c <= b'7' { c - b'2' + 26 } else { return Err(Error::InvalidBaseString) };
                    acc = (acc << 5) | v as u32; bits += 5; if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1; } }
                if acc != 0 { return Err(Error::InvalidBaseString) }
                Ok(o)
            },
            Base::Base58Btc => {
                let mut o: Vec<u8> = Vec::new();
                for &c in b { let mut v = B58.iter().position(|x| *x == c).ok_or(Error::InvalidBaseString)? as u32; for x in o.iter_mut() { v += *x as u32 * 58; *x = v as u8; v >>= 8 } while v > 0 { o.push(v as u8); v >>= 8 } }
                for &c in b { if c == b'1' { o.push(0) } else { break } }
                o.reverse(); Ok(o)
            },
            Base::Base64 => Err(Error::InvalidBaseString),
        }
    }
}
fn hex(c: u8, b: Base) -> Result<u8, Error> { let lo = if b == Base::Base16Lower { b'a' } else { b'A' }; if c >= b'0' && c <= b'9' { Ok(c - b'0') } else if c >= lo && c <= lo + 5 { Ok(c - lo + 10) } else { Err(Error::InvalidBaseString) } }
pub fn decode<T: AsRef<str>>(s: T) -> Result<(Base, Vec<u8>), Error> { let s = s.as_ref(); let c = s.chars().next().ok_or(Error::InvalidBaseString)?; let b = Base::from_code(c)?; Ok((b, b.decode(&s[c.len_utf8()..])?)) }
pub fn encode<T: AsRef<[u8]>>(base: Base, input: T) -> String {
    let d = input.as_ref(); let mut o = String::new(); o.push(base.code());
    match base {
        Base::Base32Lower | Base::Base32Upper => { let lo = if base == Base::Base32Lower { b'a' } else { b'A' }; let (mut acc, mut bits) = (0u32, 0u32);
            let ch = |v: u32| { let v = v as u8 & 31; (if v < 26 { lo + v } else { b'2' + v - 26 }) as char };
            for &b in d { acc = (acc << 8) | b as u32; bits += 8; while bits >= 5 { bits -= 5; o.push(ch(acc >> bits)); acc &= (1 << bits) - 1; } } if bits > 0 { o.push(ch(acc << (5 - bits))) } },
        Base::Base16Lower => for &b in d { for n in [b >> 4, b & 15] { o.push((if n < 10 { b'0' + n } else { b'a' + n - 10 }) as char) } },
        _ => panic!("sim: base not encoded"),
    }
    o
}
