#![allow(warnings)]
//! A shadow of the standard library. Everything is re-exported from the real `std`, except the
//! hash-based containers, whose hashbrown implementation is out of reach of bit-blasting.
//! They are replaced by association lists that keep the *contract* of the std containers
//! (including: a key is found iff its hash and equality agree; the iteration order is arbitrary).
#![no_std]
#![allow(clippy::all)]
#[doc(hidden)]
pub extern crate std as real_std;

#[doc(hidden)]
pub use real_std::*;

pub mod collections {
    #[doc(hidden)]
    pub use real_std::collections::*;
    pub use crate::hash_map_model as hash_map;
    pub use crate::hash_set_model as hash_set;
    pub use crate::hash_map_model::HashMap;
    pub use crate::hash_set_model::HashSet;
}

pub mod sync {
    #[doc(hidden)]
    pub use real_std::sync::*;
    pub use crate::sync_model::{atomic, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
}
#[doc(hidden)]
pub mod sync_model;

pub mod thread {
    #[doc(hidden)]
    pub use real_std::thread::*;
    pub use crate::thread_model::{scope, spawn, JoinHandle, Scope, ScopedJoinHandle};
}
#[doc(hidden)]
pub mod thread_model;

pub mod fs {
    #[doc(hidden)]
    pub use real_std::fs::*;
    pub use crate::fs_model::{read_to_string, File};
}
#[doc(hidden)]
pub mod fs_model;

pub mod hash {
    #[doc(hidden)]
    pub use real_std::hash::*;
    pub use crate::hash_map_model::{DefaultHasher, RandomState};
}

#[doc(hidden)]
pub mod verif {
    //! Switches used by the harnesses only.
    pub use crate::fs_model::{set_broken, set_file};
    pub use crate::inj_hasher::InjHasher;
    /// The real standard library, for the native replay runtime.
    pub use real_std as real;
    static mut ROT: usize = 0;
    static mut BACK: bool = false;
    /// Traversals of hash containers start at slot `rot` and go backwards if `back`. Both may be
    /// symbolic: the standard library promises no order. (Up to 3 elements: all orders.)
    pub fn set_order(rot: usize, back: bool) {
        unsafe {
            ROT = rot;
            BACK = back;
        }
    }
    pub fn order() -> (usize, bool) {
        unsafe { (ROT, BACK) }
    }
    /// Slots preallocated by a container on first use, so that symbolic occupancy does not
    /// turn into symbolic reallocation. Beyond it containers grow normally.
    pub const PREALLOC: usize = 6;
}

#[doc(hidden)]
pub mod inj_hasher;
#[doc(hidden)]
pub mod hash_map_model;
#[doc(hidden)]
pub mod hash_set_model;
