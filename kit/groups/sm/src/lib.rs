#![cfg_attr(kani, feature(min_specialization, arbitrary_self_types))]
#![allow(dead_code, unused, static_mut_refs)]
macro_rules! eprintln { ($($t:tt)*) => {{}} }
macro_rules! println { ($($t:tt)*) => {{}} }
// message texts are dropped
macro_rules! format { ($($t:tt)*) => { vk::model::string::String::new() } }
pub mod stream_manager;
pub mod sm_pump;
#[cfg(kani)]
mod pump_env;
#[cfg(kani)]
mod util;
#[cfg(kani)]
mod h_ids;
#[cfg(kani)]
mod h_flow;
#[cfg(kani)]
mod h_pump;
