//! Model of `bytes::Bytes`: an immutable byte sequence, either concrete (leaked) or opaque (a length and
//! an identity `tag`; reading the bytes of an opaque one is outside the model).
use std::ops::Deref;
#[derive(Clone, Copy, Debug)]
pub struct Bytes { pub tag: u64, pub olen: usize, p: *const u8 }
unsafe impl Send for Bytes {}
unsafe impl Sync for Bytes {}
impl Bytes {
    pub const fn new() -> Self { Self::from_static(&[]) }
    /// ghost: an opaque chunk
    pub const fn vp_opaque(tag: u64, len: usize) -> Self { Bytes { tag, olen: len, p: std::ptr::null() } }
    pub const fn from_static(b: &'static [u8]) -> Self { Bytes { tag: 0, olen: b.len(), p: b.as_ptr() } }
    pub fn copy_from_slice(b: &[u8]) -> Self { Self::from(b.to_vec()) }
    pub fn len(&self) -> usize { self.olen }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn to_vec(&self) -> Vec<u8> { self.as_slice().to_vec() }
    fn opaque(&self) -> bool { self.p.is_null() }
    fn as_slice(&self) -> &[u8] {
        if self.opaque() { assert!(self.olen == 0, "MODEL: bytes of an opaque chunk"); &[] } else { unsafe { std::slice::from_raw_parts(self.p, self.olen) } }
    }
}
impl Default for Bytes { fn default() -> Self { Self::new() } }
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Self::from_static(Vec::leak(v)) } }
impl From<&'static [u8]> for Bytes { fn from(v: &'static [u8]) -> Self { Self::from_static(v) } }
impl From<&'static str> for Bytes { fn from(v: &'static str) -> Self { Self::from_static(v.as_bytes()) } }
impl From<String> for Bytes { fn from(v: String) -> Self { Self::from(v.into_bytes()) } }
impl From<Bytes> for Vec<u8> { fn from(v: Bytes) -> Self { v.to_vec() } }
impl Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { self.as_slice() } }
impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { self.as_slice() } }
impl PartialEq for Bytes { fn eq(&self, o: &Self) -> bool { if self.opaque() && o.opaque() { self.tag == o.tag && self.olen == o.olen } else { self.as_slice() == o.as_slice() } } }
impl Eq for Bytes {}
impl PartialEq<[u8]> for Bytes { fn eq(&self, o: &[u8]) -> bool { self.as_slice() == o } }
