use crate::{sym::{self, check}};
use gaoya::minhash::*;
use std::hash::{BuildHasher, Hash, Hasher};
use std::vec::Vec;
use std::vec;
use crate::minhash_index::same;

/// The hash of an integer token is the token: arbitrary token hashes, under the solver's control.
#[derive(Clone, Default)]
pub struct Raw;
pub struct RawHasher(u64);
impl BuildHasher for Raw { type Hasher = RawHasher; fn build_hasher(&self) -> RawHasher { RawHasher(0) } }
impl Hasher for RawHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 << 8) | *x as u64; } }
    fn write_u32(&mut self, x: u32) { self.0 = x as u64; }
    fn write_u64(&mut self, x: u64) { self.0 = x; }
}
pub fn m8(n: usize) -> MinHasher8<Raw> { MinHasher8::new_with_hasher(n, Raw) }
pub fn m16(n: usize) -> MinHasher16<Raw> { MinHasher16::new_with_hasher(n, Raw) }
pub fn m32(n: usize) -> MinHasher32<Raw> { MinHasher32::new_with_hasher(n, Raw) }
pub fn m64(n: usize) -> MinHasher64V1<Raw> { MinHasher64V1::new_with_hasher(n, Raw) }

fn set_semantics<M: MinHasher>(m: &M) where M::V: PartialEq {
    let (a, b, c) = (sym::u64(), sym::u64(), sym::u64());
    let s = m.create_signature([a, b, c].iter());
    let t: [u64; 5] = match sym::choose(5) { 0 => [c, b, a, c, c], 1 => [b, a, c, a, b], 2 => [a, c, b, b, b], 3 => [a, a, a, b, c], _ => [c, a, c, b, b] };
    check(same(&s, &m.create_signature(t.iter())), "order and repetition of tokens do not change the signature");
}
fn duplicates<M: MinHasher>(m: &M) where M::V: PartialEq {
    let a = sym::u64();
    let s = m.create_signature([a].iter());
    check(same(&s, &m.create_signature([a, a].iter())), "a repeated token does not change the signature");
    check(same(&s, &m.create_signature([a, a, a].iter())), "a token repeated three times does not change the signature");
}
fn union_min<M: MinHasher>(m: &M, n: usize) {
    let (a, b) = (sym::u64(), sym::u64());
    let (sa, sb) = (m.create_signature([a].iter()), m.create_signature([b].iter()));
    let u = m.create_signature([a, b].iter());
    check(u.len() == n, "the signature has num_hashes positions");
    for i in 0..n {
        check((u[i] == sa[i]) | (u[i] == sb[i]), "each position of a union's signature comes from one of the sets");
        check((u[i] <= sa[i]) & (u[i] <= sb[i]), "each position of a union's signature is the minimum");
    }
}
fn union_one<M: MinHasher>(m: &M, n: usize) {
    let (a, b) = (sym::u64(), sym::u64());
    let (sa, sb) = (m.create_signature([a].iter()), m.create_signature([b].iter()));
    let u = m.create_signature([a, b].iter());
    check(u.len() == n, "the signature has num_hashes positions");
    for i in 0..n { check((u[i] == sa[i]) | (u[i] == sb[i]), "each position of a union's signature comes from one of the sets"); }
}
fn shape<M: MinHasher>(mk: fn(usize) -> M) where M::V: PartialEq {
    let n = sym::choose(4);
    let m = mk(n);
    let k = sym::choose(3);
    let toks: [u64; 2] = [sym::u64(), sym::u64()];
    let s = m.create_signature(toks[..k].iter());
    check(s.len() == n, "the signature has num_hashes positions whatever the document");
    if k == 0 { for x in s.iter() { check(*x == num0::<M::V>(), "the signature of an empty document is all zeros"); } }
}
fn num0<V: MinHashType>() -> V { V::from(0u8).unwrap() }
fn determinism<M: MinHasher + Sync + Send>(mk: fn(usize) -> M) where M::V: PartialEq {
    let (m, m2) = (mk(2), mk(2));
    let (a, b) = (sym::u64(), sym::u64());
    let s = m.create_signature([a, b].iter());
    check(same(&s, &m.create_signature([a, b].iter())), "the same document has the same signature again");
    check(same(&s, &m2.create_signature([a, b].iter())), "another hasher with the same configuration gives the same signature");
    let batch: Vec<Vec<u64>> = vec![vec![a, b], vec![], vec![b]];
    let bulk = m.bulk_create_signature(&batch);
    check(bulk.len() == 3, "one signature per document of the batch");
    check(same(&bulk[0], &s), "bulk signatures equal single ones");
    check(same(&bulk[1], &m.create_signature(batch[1].iter())), "bulk signature of an empty document");
    check(same(&bulk[2], &m.create_signature([b].iter())), "bulk signatures are in the order of the batch");
    let refs: Vec<&Vec<u64>> = vec![&batch[2], &batch[0], &batch[1], &batch[2]];
    let br = m.bulk_create_signature_refs(&refs);
    check(br.len() == 4, "one signature per referenced document");
    check(same(&br[0], &bulk[2]) && same(&br[3], &bulk[2]), "bulk signatures of references");
    check(same(&br[1], &bulk[0]) && same(&br[2], &bulk[1]), "bulk signatures of references are in order");
}

harnesses! {
    fn s_set8() { set_semantics(&m8(2)) }
    fn s_set16() { set_semantics(&m16(2)) }
    fn s_set32() { set_semantics(&m32(2)) }
    fn s_set64() { set_semantics(&m64(2)) }
    fn s_dup8() { duplicates(&m8(3)) }
    fn s_dup16() { duplicates(&m16(3)) }
    fn s_dup32() { duplicates(&m32(3)) }
    fn s_dup64() { duplicates(&m64(3)) }
    fn s_union8() { union_one(&m8(2), 2) }
    fn s_union16() { union_one(&m16(2), 2) }
    fn s_union32() { union_min(&m32(2), 2) }
    fn s_union64() { union_min(&m64(2), 2) }
    fn s_shape8() { shape(m8) }
    fn s_shape16() { shape(m16) }
    fn s_shape32() { shape(m32) }
    fn s_shape64() { shape(m64) }
    fn s_det8() { determinism(m8) }
    fn s_det16() { determinism(m16) }
    fn s_det32() { determinism(m32) }
    fn s_det64() { determinism(m64) }
    /// The default (FNV) hashers, on one-byte tokens.
    fn s_fnv32() {
        let m = MinHasher32::new(2);
        let (a, b) = (sym::u8(), sym::u8());
        let s = m.create_signature([a, b].iter());
        check(same(&s, &m.create_signature([b, a, a].iter())), "set semantics with the default hasher");
        check(same(&s, &MinHasher32::new(2).create_signature([a, b].iter())), "determinism with the default hasher");
    }
}
