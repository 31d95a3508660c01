#![allow(dead_code, unused, static_mut_refs)]
macro_rules! eprintln { ($($t:tt)*) => {{}} }
macro_rules! println { ($($t:tt)*) => {{}} }
pub mod async_waiter;
#[cfg(kani)]
mod h_turn;
