#![allow(dead_code, unused, static_mut_refs)]
macro_rules! eprintln { ($($t:tt)*) => {{}} }
macro_rules! println { ($($t:tt)*) => {{}} }
pub mod array_buffer_allocator;
pub mod cpu_enforcer;
pub mod cpu_timer;
pub mod heap_limit;
pub mod timeout_guard;

#[cfg(kani)]
mod h_alloc;
#[cfg(kani)]
mod h_heap;
#[cfg(kani)]
mod h_cpu;
#[cfg(kani)]
mod h_timeout;
