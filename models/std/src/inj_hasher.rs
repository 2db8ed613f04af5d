//! An injective hash: the packed bytes (up to 7 of them) or the number of the sequence (longer
//! ones). Keys do not collide in a real 64-bit hash but with probability 2^-64 per pair.
use core::hash::Hasher;
use real_std::prelude::rust_2021::*;

/// Sequences longer than 7 bytes, each hashed to its number: equal sequences have equal hashes,
/// different ones different hashes.
static mut LONG: Vec<Vec<u8>> = Vec::new();
#[allow(static_mut_refs)]
fn intern(b: &[u8]) -> u64 {
    let t = unsafe { &mut LONG };
    let mut id = t.len() as u64;
    let mut i = t.len();
    while i > 0 {
        i -= 1;
        if t[i].len() == b.len() {
            let mut same = true;
            let mut k = 0;
            while k < b.len() {
                same &= t[i][k] == b[k];
                k += 1;
            }
            id = if same { i as u64 } else { id };
        }
    }
    t.push(b.to_vec());
    id
}

#[derive(Clone, Debug)]
pub struct InjHasher {
    state: u64,
    bytes: u32,
    /// of the hash function: differently keyed ones hash differently
    key: u64,
    long: Vec<u8>,
    /// the value, if all that was written is one 64-bit or 128-bit integer (a map key)
    word: Option<u64>,
}
impl Default for InjHasher {
    fn default() -> Self {
        InjHasher { state: 0, bytes: 0, key: 0, long: Vec::new(), word: None }
    }
}
impl InjHasher {
    pub fn with_key(key: u64) -> Self {
        InjHasher { key: key.wrapping_mul(0x1e37_79b9_7f4a_7c15) & !(1 << 63), ..Self::default() }
    }
    #[inline]
    fn add(&mut self, b: u8) {
        self.word = None;
        if self.bytes < 7 {
            self.state = (self.state << 8) | b as u64;
        } else {
            if self.bytes == 7 {
                self.long = self.state.to_be_bytes()[1..].to_vec();
            }
            self.long.push(b);
        }
        self.bytes += 1;
    }
}
impl Hasher for InjHasher {
    fn finish(&self) -> u64 {
        // never zero: the real hash is zero with probability 2^-64
        if let Some(w) = self.word {
            return (w | (1 << 63)) ^ self.key;
        }
        if self.bytes > 7 {
            return ((3 << 62) | intern(&self.long)) ^ self.key;
        }
        (self.state | ((self.bytes as u64) << 56) | (1 << 63)) ^ self.key
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() {
            self.add(bytes[i]);
            i += 1;
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i)
    }
    fn write_u64(&mut self, i: u64) {
        let first = self.bytes == 0;
        self.write(&i.to_ne_bytes());
        self.word = if first { Some(i) } else { None };
    }
    fn write_u128(&mut self, i: u128) {
        let first = self.bytes == 0;
        self.write(&i.to_ne_bytes());
        self.word = if first { Some(i as u64 ^ (i >> 64) as u64) } else { None };
    }
    fn write_usize(&mut self, i: usize) {
        // A length prefix comes first and is implied by the number of bytes that follow.
        if self.bytes > 0 {
            self.write(&i.to_ne_bytes());
        }
    }
}

