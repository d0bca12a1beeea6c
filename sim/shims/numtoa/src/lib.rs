//! Stand-in for numtoa: base-10 rendering of unsigned integers into the tail of a buffer.
pub trait NumToA { fn numtoa(self, base: Self, buf: &mut [u8]) -> &[u8]; fn numtoa_str(self, base: Self, buf: &mut [u8]) -> &str; }
macro_rules! n { ($($t:ty),*) => {$(
impl NumToA for $t {
    fn numtoa(self, base: $t, buf: &mut [u8]) -> &[u8] {
        let mut i = buf.len();
        let mut v = self;
        if v == 0 { buf[i - 1] = b'0'; return &buf[i - 1..] }
        while v > 0 { i -= 1; let d = (v % base) as u8; buf[i] = if d < 10 { b'0' + d } else { b'A' + d - 10 }; v /= base; }
        &buf[i..]
    }
    fn numtoa_str(self, base: $t, buf: &mut [u8]) -> &str { unsafe { core::str::from_utf8_unchecked(self.numtoa(base, buf)) } }
})*} }
n!(u8, u16, u32, u64, usize, u128);
