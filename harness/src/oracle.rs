//! The specification side: written against the documentation, sharing no code with gaoya.
pub fn matches<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < a.len() {
        n += (a[i] == b[i]) as usize;
        i += 1;
    }
    n
}
/// At least one band (run of `width` positions) agrees completely.
pub fn shares_band<T: PartialEq>(a: &[T], b: &[T], bands: usize, width: usize) -> bool {
    let mut any = false;
    let mut i = 0;
    while i < bands {
        let mut all = true;
        let mut j = 0;
        while j < width {
            all &= a[i * width + j] == b[i * width + j];
            j += 1;
        }
        any |= all;
        i += 1;
    }
    any
}
/// A threshold num/den, as the library receives it.
#[derive(Clone, Copy)]
pub struct Thr { pub num: usize, pub den: usize }
impl Thr {
    pub fn f64(self) -> f64 { self.num as f64 / self.den as f64 }
    /// matches/n >= num/den, in integers
    pub fn met(self, matches: usize, n: usize) -> bool { matches * self.den >= self.num * n }
    /// One of the given thresholds, each explored.
    pub fn choose(ts: &[(usize, usize)]) -> Thr {
        let i = crate::sym::choose(ts.len());
        Thr { num: ts[i].0, den: ts[i].1 }
    }
}
/// A document with signature `s` is an answer for query `q`.
pub fn answers<T: PartialEq>(s: &[T], q: &[T], bands: usize, width: usize, t: Thr) -> bool {
    shares_band(s, q, bands, width) & t.met(matches(s, q), s.len())
}
