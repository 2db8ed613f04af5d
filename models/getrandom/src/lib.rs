//! What the operating system returns is arbitrary; here it is merely different from call to call,
//! which is enough to tell whether anything depends on it.
#![no_std]
use core::num::NonZeroU32;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const UNSUPPORTED: Error = Error(NonZeroU32::MIN);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("getrandom")
    }
}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Error(code)
    }
}
#[cfg(feature = "std")]
extern crate std;
#[cfg(feature = "std")]
impl std::error::Error for Error {}
#[cfg(feature = "std")]
impl From<Error> for std::io::Error {
    fn from(_: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, "getrandom")
    }
}
static mut CALLS: u64 = 0x243f_6a88_85a3_08d3;
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    for b in dest.iter_mut() {
        unsafe {
            CALLS = CALLS.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
            *b = (CALLS >> 40) as u8;
        }
    }
    Ok(())
}
