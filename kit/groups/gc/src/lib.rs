#![cfg_attr(kani, feature(min_specialization))]
#![allow(dead_code, unused, static_mut_refs)]
extern crate self as openworkers_runtime_v8;
macro_rules! thread_local { ($($t:tt)*) => { vk::vk_thread_local! { $($t)* } } }
macro_rules! eprintln { ($($t:tt)*) => {{}} }
macro_rules! println { ($($t:tt)*) => {{}} }
pub mod gc;
pub use gc::GcTraceable;

#[cfg(kani)]
mod h_defer;
#[cfg(kani)]
mod h_ledger;
#[cfg(kani)]
mod h_size;
