#![allow(warnings)]
#[macro_use]
mod macros;
pub mod sym;
pub mod env;
mod oracle;
pub mod minhash_index;
pub mod minhash_sig;
pub mod measures;
pub mod simhash;
pub mod texts;
pub mod clustering;
pub mod strings;
pub mod large;
pub mod hashes;

#[cfg(feature = "replay")]
pub fn main() {
    let mut t = std::vec::Vec::new();
    t.extend_from_slice(minhash_index::TABLE);
    t.extend_from_slice(minhash_sig::TABLE);
    t.extend_from_slice(measures::TABLE);
    t.extend_from_slice(simhash::TABLE);
    t.extend_from_slice(texts::TABLE);
    t.extend_from_slice(clustering::TABLE);
    t.extend_from_slice(strings::TABLE);
    t.extend_from_slice(large::TABLE);
    t.extend_from_slice(hashes::TABLE);
    sym::imp::main(t)
}
