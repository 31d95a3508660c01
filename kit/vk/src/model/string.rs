//! String, for sources in which texts are only passed along: an immutable text without owned memory
//! (the verifier then keeps enum tags constant and reaches no deallocation code).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct String { p: *const u8, n: usize }
unsafe impl Send for String {}
unsafe impl Sync for String {}
impl String {
    pub const fn new() -> Self { Self::lit("") }
    pub const fn lit(s: &'static str) -> Self { String { p: s.as_ptr(), n: s.len() } }
    pub fn as_str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.p, self.n)) } }
    pub fn raw(p: *const u8, n: usize) -> Self { String { p, n } }
    pub fn from_utf8_lossy_of(v: &[u8]) -> Self { String { p: v.as_ptr(), n: v.len() } }
    pub fn into_bytes(self) -> crate::model::vbytes::Vec<u8> { crate::model::vbytes::Vec::from(self.as_bytes()) }
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
}
impl std::ops::Deref for String { type Target = str; fn deref(&self) -> &str { self.as_str() } }
impl Default for String { fn default() -> Self { Self::new() } }
impl From<&str> for String { fn from(s: &str) -> Self { Self::lit(Box::leak(s.to_string().into_boxed_str())) } }
impl From<std::string::String> for String { fn from(s: std::string::String) -> Self { Self::lit(s.leak()) } }
impl AsRef<str> for String { fn as_ref(&self) -> &str { self } }
impl PartialEq<str> for String { fn eq(&self, o: &str) -> bool { self.as_str() == o } }
impl PartialEq<&str> for String { fn eq(&self, o: &&str) -> bool { self.as_str() == *o } }
impl std::fmt::Debug for String { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Display for String { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for String {}
/// `to_string`/`to_owned` of the mirrored text
pub trait VpText { fn vp_to_string(&self) -> String; fn vp_to_owned(&self) -> String { self.vp_to_string() } }
impl VpText for &'static str { fn vp_to_string(&self) -> String { String::lit(self) } }
impl VpText for String { fn vp_to_string(&self) -> String { *self } }
impl VpText for u64 { fn vp_to_string(&self) -> String { String::new() } }
impl VpText for usize { fn vp_to_string(&self) -> String { String::new() } }

// ---- case mapping of short ASCII texts -----------------------------------------------------------
pub const NT: usize = 8;
pub struct Texts { pub magic: u64, pub t: [[u8; NT]; 4], pub next: usize }
pub static mut TEXTS: Texts = Texts { magic: 0x5EED_0000_5555_0001, t: [[0x21; NT]; 4], next: 0 };
fn mapped(s: &str, up: bool) -> String {
    let ts = unsafe { &mut *(&raw mut TEXTS) };
    let k = ts.next;
    assert!(k < 4, "MODEL: too many case-mapped texts");
    ts.next = k + 1;
    let b = s.as_bytes();
    assert!(b.len() <= NT, "MODEL: case mapping of a long text");
    for i in 0..NT {
        if i < b.len() { ts.t[k][i] = if up { b[i].to_ascii_uppercase() } else { b[i].to_ascii_lowercase() }; }
    }
    String { p: ts.t[k].as_ptr(), n: b.len() }
}
pub trait VpCase { fn vp_to_uppercase(&self) -> String; fn vp_to_lowercase(&self) -> String; fn vp_to_ascii_uppercase(&self) -> String { self.vp_to_uppercase() } fn vp_to_ascii_lowercase(&self) -> String { self.vp_to_lowercase() } }
impl VpCase for str { fn vp_to_uppercase(&self) -> String { mapped(self, true) } fn vp_to_lowercase(&self) -> String { mapped(self, false) } }
