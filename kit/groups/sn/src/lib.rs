#![allow(dead_code, unused, static_mut_refs)]
pub mod kstd_sn {
    pub use ::std::*;
    pub mod str {
        pub use ::std::str::*;
        /// assumed contract of `std::str::from_utf8`: the same bytes as text, or an error
        pub fn from_utf8(v: &[u8]) -> Result<&str, ::std::fmt::Error> {
            let u = crate::utf8();
            u.calls += 1;
            u.p = v.as_ptr();
            u.n = v.len();
            if u.valid { Ok(unsafe { ::std::str::from_utf8_unchecked(v) }) } else { Err(::std::fmt::Error) }
        }
    }
}
pub struct Utf8 { magic: u64, pub valid: bool, pub calls: u32, pub p: *const u8, pub n: usize }
pub static mut UTF8: Utf8 = Utf8 { magic: 0x0F8, valid: true, calls: 0, p: std::ptr::null(), n: 0 };
pub fn utf8() -> &'static mut Utf8 { unsafe { &mut *(&raw mut UTF8) } }
pub mod rope;
pub mod snapshot;
#[cfg(kani)]
mod h_bundle;
