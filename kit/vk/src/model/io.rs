//! std::io::Error as an opaque value (only created, returned, formatted).
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Error { pub code: i32 }
pub type Result<T> = ::std::result::Result<T, Error>;
impl Error {
    pub fn last_os_error() -> Error { Error { code: 1 } }
    pub fn from_raw_os_error(c: i32) -> Error { Error { code: c } }
    pub fn raw_os_error(&self) -> Option<i32> { Some(self.code) }
    pub fn other<E>(e: E) -> Error { ::std::mem::forget(e); Error { code: 2 } }
    pub fn new<E>(_k: ::std::io::ErrorKind, e: E) -> Error { ::std::mem::forget(e); Error { code: 3 } }
}
impl ::std::fmt::Debug for Error { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } }
impl ::std::fmt::Display for Error { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } }
impl ::std::error::Error for Error {}
