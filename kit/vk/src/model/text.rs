//! String, for sources that compare short texts: up to 3 bytes sit inline and compare by content;
//! longer ones (messages) are all alike.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct String { n: u8, b: [u8; 3] }
impl String {
    pub const fn new() -> Self { String { n: 0, b: [0; 3] } }
    pub fn of(s: &str) -> Self {
        let v = s.as_bytes();
        let mut r = String::new();
        if v.len() > 3 { r.n = 255; return r; }
        r.n = v.len() as u8;
        if v.len() > 0 { r.b[0] = v[0]; }
        if v.len() > 1 { r.b[1] = v[1]; }
        if v.len() > 2 { r.b[2] = v[2]; }
        r
    }
    #[cfg(kani)]
    pub fn any() -> Self {
        let n: u8 = kani::any();
        kani::assume(n <= 2);
        let mut r = String { n, b: [0; 3] };
        if n > 0 { let x: u8 = kani::any(); kani::assume(x < 128); r.b[0] = x; }
        if n > 1 { let x: u8 = kani::any(); kani::assume(x < 128); r.b[1] = x; }
        r
    }
    pub fn same(&self, o: &String) -> bool { self.n == o.n && self.b[0] == o.b[0] && self.b[1] == o.b[1] && self.b[2] == o.b[2] }
    pub fn as_str(&self) -> &str { if self.n == 255 { "long text" } else { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.b.as_ptr(), self.n as usize)) } } }
    pub fn is_empty(&self) -> bool { self.n == 0 }
}
impl std::ops::Deref for String { type Target = str; fn deref(&self) -> &str { self.as_str() } }
impl Default for String { fn default() -> Self { Self::new() } }
impl From<&str> for String { fn from(s: &str) -> Self { Self::of(s) } }
impl AsRef<str> for String { fn as_ref(&self) -> &str { self } }
impl PartialEq<str> for String { fn eq(&self, o: &str) -> bool { self.same(&String::of(o)) } }
impl PartialEq<&str> for String { fn eq(&self, o: &&str) -> bool { self.same(&String::of(o)) } }
impl PartialEq<String> for str { fn eq(&self, o: &String) -> bool { o.same(&String::of(self)) } }
impl PartialEq<String> for &str { fn eq(&self, o: &String) -> bool { o.same(&String::of(self)) } }
impl std::fmt::Debug for String { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Display for String { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub trait VpText { fn vp_to_string(&self) -> String; fn vp_to_owned(&self) -> String { self.vp_to_string() } }
impl VpText for str { fn vp_to_string(&self) -> String { String::of(self) } }
impl VpText for String { fn vp_to_string(&self) -> String { *self } }
