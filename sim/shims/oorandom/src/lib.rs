//! `oorandom` replacement: the generator is an arbitrary deterministic function of its seed.
//! A harness supplies the draws (`set_source`): each draw is an arbitrary value of the requested range.
pub struct Rand32 { pub seed: u64, pub step: u32 }
pub type Source = fn(seed: u64, step: u32, lo: u32, hi: u32) -> u32;
static mut SOURCE: Option<Source> = None;
pub fn set_source(s: Source) { unsafe { SOURCE = Some(s) } }
impl Rand32 {
    pub fn new(seed: u64) -> Self { Rand32 { seed, step: 0 } }
    pub fn new_inc(seed: u64, _inc: u64) -> Self { Rand32 { seed, step: 0 } }
    fn draw(&mut self, lo: u32, hi: u32) -> u32 {
        let s = unsafe { SOURCE }.expect("rand source");
        let r = s(self.seed, self.step, lo, hi);
        self.step += 1;
        r
    }
    pub fn rand_range(&mut self, range: core::ops::Range<u32>) -> u32 {
        // the real crate asserts this in debug builds and loops/garbles otherwise
        assert!(range.end > range.start, "oorandom: empty range");
        self.draw(range.start, range.end)
    }
    pub fn rand_u32(&mut self) -> u32 { let s = unsafe { SOURCE }.expect("rand source"); let r = s(self.seed, self.step, 0, u32::MAX); self.step += 1; r }
}
