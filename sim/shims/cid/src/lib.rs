//! Port of the parsing rules of the `cid` crate (with 64-byte multihashes).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Version { V0, V1 }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { UnknownCodec, InputTooShort, ParsingError, InvalidCidVersion, InvalidCidV0Codec, InvalidCidV0Multihash, InvalidCidV0Base, VarIntDecodeError, Io }
pub type Result<T> = core::result::Result<T, Error>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cid { version: Version, codec: u64, mh_code: u64, digest: Vec<u8> }
fn byte(r: &mut &[u8]) -> Result<u8> { let (b, t) = r.split_first().ok_or(Error::VarIntDecodeError)?; *r = t; Ok(*b) }
fn varint(r: &mut &[u8]) -> Result<u64> {
    let mut v = 0u64; let mut i = 0u32;
    loop { let b = byte(r)?; let k = (b & 0x7f) as u64; if i == 9 && b > 1 { return Err(Error::VarIntDecodeError) } v |= k << (7 * i);
        if b & 0x80 == 0 { if b == 0 && i > 0 { return Err(Error::VarIntDecodeError) } return Ok(v) } i += 1; if i > 9 { return Err(Error::VarIntDecodeError) } }
}
pub type CidGeneric<const S: usize> = Cid;
impl Cid {
    pub fn read_bytes(mut r: &[u8]) -> Result<Self> {
        let r = &mut r; let version = varint(r)?; let codec = varint(r)?;
        if version == 0x12 && codec == 0x20 { if r.len() < 32 { return Err(Error::Io) } return Ok(Cid { version: Version::V0, codec: 0x70, mh_code: 0x12, digest: r[..32].to_vec() }) }
        let ver = match version { 0 => Version::V0, 1 => Version::V1, _ => return Err(Error::InvalidCidVersion) };
        let code = varint(r)?; let size = varint(r)?; if size > 64 { return Err(Error::ParsingError) } let size = size as usize; if r.len() < size { return Err(Error::Io) }
        let digest = r[..size].to_vec();
        if ver == Version::V0 { if codec != 0x70 { return Err(Error::InvalidCidV0Codec) } if code != 0x12 || size != 32 { return Err(Error::InvalidCidV0Multihash) } }
        Ok(Cid { version: ver, codec, mh_code: code, digest })
    }
    pub fn version(&self) -> Version { self.version }
    pub fn codec(&self) -> u64 { self.codec }
}
impl TryFrom<&[u8]> for Cid { type Error = Error; fn try_from(b: &[u8]) -> Result<Self> { Cid::read_bytes(b) } }
impl TryFrom<Vec<u8>> for Cid { type Error = Error; fn try_from(b: Vec<u8>) -> Result<Self> { Cid::read_bytes(&b) } }
