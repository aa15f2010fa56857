//! Entropy seam: same API as getrandom 0.2, always through the libc symbol `getrandom`, which the
//! simulator binary defines (so that every byte of entropy comes from the run's seed).
use std::fmt;
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(core::num::NonZeroU32);
impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { core::num::NonZeroU32::new_unchecked(1 << 31) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> core::num::NonZeroU32 { self.0 }
}
impl From<core::num::NonZeroU32> for Error { fn from(c: core::num::NonZeroU32) -> Self { Self(c) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "getrandom: {}", self.0) } }
impl std::error::Error for Error {}
impl From<Error> for std::io::Error { fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) } }
mod sys { extern "C" { pub fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize; } }
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let mut off = 0;
    while off < dest.len() {
        let n = unsafe { sys::getrandom(dest[off..].as_mut_ptr(), dest.len() - off, 0) };
        if n <= 0 { return Err(Error::UNSUPPORTED); }
        off += n as usize;
    }
    Ok(())
}
