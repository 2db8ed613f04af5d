#![allow(warnings)]
#[macro_use]
#[path = "../../harness/src/macros.rs"]
mod macros;
#[path = "../../harness/src/sym.rs"]
pub mod sym;
#[path = "../../harness/src/env.rs"]
pub mod env;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
pub mod py;
pub mod py_minhash;
pub mod py_simhash;

#[cfg(feature = "replay")]
pub fn main() {
    let mut t = std::vec::Vec::new();
    t.extend_from_slice(py_minhash::TABLE);
    t.extend_from_slice(py_simhash::TABLE);
    sym::imp::main(t)
}
