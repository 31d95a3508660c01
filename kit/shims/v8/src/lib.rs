//! Model of the parts of `v8` the mirrored sources use: calls are recorded in ghost state.
#![allow(static_mut_refs, dead_code)]
use std::ffi::{c_char, c_void};
use vk::ghost::g;

// ---- allocator -------------------------------------------------------------------------------
pub struct RustAllocatorVtable<T> {
    pub allocate: unsafe extern "C" fn(handle: &T, len: usize) -> *mut c_void,
    pub allocate_uninitialized: unsafe extern "C" fn(handle: &T, len: usize) -> *mut c_void,
    pub free: unsafe extern "C" fn(handle: &T, data: *mut c_void, len: usize),
    pub drop: unsafe extern "C" fn(handle: *const T),
}
pub struct UniqueRef<T>(pub T);
pub struct Allocator { pub handle: *const c_void, pub vt: *const c_void }
pub unsafe fn new_rust_allocator<T>(h: *const T, vt: &'static RustAllocatorVtable<T>) -> UniqueRef<Allocator> {
    UniqueRef(Allocator { handle: h as *const c_void, vt: vt as *const _ as *const c_void })
}

// ---- isolate ---------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct IsolateHandle { pub id: usize }
impl IsolateHandle {
    pub fn terminate_execution(&self) -> bool {
        let gh = g();
        gh.count_term(self.id);
        gh.num[0] = gh.num[2]; // flags set before this termination
        true
    }
    pub fn cancel_terminate_execution(&self) -> bool { true }
    pub fn is_execution_terminating(&self) -> bool { let mut r = false; let gh = g(); for i in 0..vk::ghost::NISO { if i == self.id { r = gh.term[i] > 0; } } r }
}
pub struct OomDetails { pub is_heap_oom: bool, pub detail: *const c_char }
pub type NearHeapLimitCallback = unsafe extern "C" fn(data: *mut c_void, current: usize, initial: usize) -> usize;
pub type OomErrorCallback = unsafe extern "C" fn(location: *const c_char, details: &OomDetails);
pub struct Isolate {
    pub id: usize,
    pub near: Option<(NearHeapLimitCallback, *mut c_void)>,
    pub near_installs: u32,
    pub oom: Option<OomErrorCallback>,
}
impl Isolate {
    pub fn vp_new(id: usize) -> Isolate { Isolate { id, near: None, near_installs: 0, oom: None } }
    pub fn thread_safe_handle(&self) -> IsolateHandle { IsolateHandle { id: self.id } }
    pub fn add_near_heap_limit_callback(&mut self, cb: NearHeapLimitCallback, data: *mut c_void) { self.near = Some((cb, data)); self.near_installs += 1; }
    pub fn remove_near_heap_limit_callback(&mut self, _cb: NearHeapLimitCallback, _l: usize) { self.near = None; }
    pub fn set_oom_error_handler(&mut self, cb: OomErrorCallback) { self.oom = Some(cb); }
    pub fn adjust_amount_of_external_allocated_memory(&mut self, d: i64) -> i64 {
        let gh = g();
        gh.adjust(self.id, d)
    }
    pub fn terminate_execution(&self) -> bool { self.thread_safe_handle().terminate_execution() }
}

// ---- handles ---------------------------------------------------------------------------------
pub struct Context;
pub struct Function;
pub struct Object;
pub struct Value;
/// A persistent handle: identity `id`, isolate `iso`; dropping it is recorded.
pub struct Global<T> { pub id: u32, pub iso: usize, pub _t: std::marker::PhantomData<T> }
impl<T> Global<T> {
    pub fn vp_new(id: u32, iso: usize) -> Self { g().globals_made = g().globals_made.wrapping_add(1); Global { id, iso, _t: std::marker::PhantomData } }
}
impl<T> Drop for Global<T> {
    fn drop(&mut self) {
        let gh = g();
        gh.globals_dropped = gh.globals_dropped.wrapping_add(1);
        let b = 1u64 << (self.id & 63);
        if gh.dropped_ids & b != 0 { gh.global_drop_bad += 1; }
        gh.dropped_ids |= b;
    }
}
