//! Model of `encoding_rs`: decoding is an uninterpreted function of (encoding, bytes).
#![allow(static_mut_refs)]
use vk::model::string::String;
use vk::model::vbytes::{term_of, text, GARBAGE};
pub struct Encoding { pub id: u64 }
pub static ENC: Encoding = Encoding { id: 7 };
pub static UTF_8: &Encoding = &Encoding { id: 8 };
pub struct Env { pub magic: u64, pub known: bool, pub label: u64, pub errors: bool, pub out_len: usize, pub lookups: u32, pub utf8_lookups: u32, pub decodes: u32, pub utf8_errors: bool }
pub static mut ENV: Env = Env { magic: 0x5EED_0000_7777_0001, known: true, label: GARBAGE, errors: false, out_len: 0, lookups: 0, utf8_lookups: 0, decodes: 0, utf8_errors: false };
pub fn env() -> &'static mut Env { unsafe { &mut *(&raw mut ENV) } }
pub fn dec(enc: u64, bytes: u64) -> u64 { 0x0D00_0000_0000_0000 | enc << 32 | bytes }
pub struct Cow(String);
impl Cow {
    pub fn into_owned(self) -> String { self.0 }
    pub fn as_ref(&self) -> &str { self.0.as_str() }
}
impl std::ops::Deref for Cow { type Target = str; fn deref(&self) -> &str { self.0.as_str() } }
impl vk::model::string::VpText for Cow { fn vp_to_string(&self) -> String { self.0 } }
impl Encoding {
    pub fn for_label(l: &[u8]) -> Option<&'static Encoding> {
        let e = env();
        e.lookups += 1;
        if vk::model::vbytes::is_cell(l.as_ptr()) {
            if term_of(l) == e.label && e.known { return Some(&ENC); }
            return None;
        }
        if l == b"utf-8" || l == b"utf8" { e.utf8_lookups += 1; return Some(UTF_8); }
        None
    }
    pub fn for_label_no_replacement(l: &[u8]) -> Option<&'static Encoding> { Self::for_label(l) }
    fn one(&self, b: &[u8], k: u64) -> (Cow, bool) {
        let e = env();
        e.decodes += 1;
        let t = term_of(b);
        (Cow(text(if t == GARBAGE { GARBAGE } else { dec(self.id, t) + (k << 60) }, e.out_len)), e.errors)
    }
    pub fn decode_without_bom_handling(&self, b: &[u8]) -> (Cow, bool) { self.one(b, 0) }
    pub fn decode_with_bom_removal(&self, b: &[u8]) -> (Cow, bool) { self.one(b, 1) }
    pub fn decode_without_bom_handling_and_without_replacement(&self, b: &[u8]) -> Option<Cow> { let (c, e) = self.one(b, 0); if e { None } else { Some(c) } }
}
