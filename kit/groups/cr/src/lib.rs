#![allow(dead_code, unused, static_mut_refs)]
macro_rules! eprintln { ($($t:tt)*) => {{}} }
macro_rules! println { ($($t:tt)*) => {{}} }
// message texts are dropped
macro_rules! format { ($($t:tt)*) => { vk::model::string::String::new() } }
pub mod crypto;
pub mod text_encoding;
pub mod v8_helpers;
pub mod v8_helpers_sandbox;
#[cfg(kani)]
mod util;
#[cfg(kani)]
mod h_digest;
#[cfg(kani)]
mod h_sign;
#[cfg(kani)]
mod h_derive;
#[cfg(kani)]
mod h_random;
#[cfg(kani)]
mod h_text;
