//! Signal stream: the harness decides which signals arrive.
#![allow(static_mut_refs)]
use std::marker::PhantomData;
pub struct Sched { pub magic: u64, pub signo: i32, pub queue: [usize; 3], pub n: usize, pub next: usize, pub streams: u32 }
pub static mut SCHED: Sched = Sched { magic: 0x516_0000_0000_0001, signo: -1, queue: [0; 3], n: 0, next: 0, streams: 0 };
pub fn sched() -> &'static mut Sched { unsafe { &mut *(&raw mut SCHED) } }
#[derive(Clone, Copy)]
pub struct SigInfo { v: usize }
impl SigInfo { pub unsafe fn si_value(&self) -> libc::sigval { libc::sigval { sival_ptr: self.v as *mut libc::c_void } } pub fn vp(v: usize) -> Self { SigInfo { v } } }
pub struct SignalsInfo<E> { _e: PhantomData<E> }
impl<E> SignalsInfo<E> {
    pub fn with_exfiltrator<I: IntoIterator<Item = i32>>(sigs: I, _e: E) -> Result<Self, vk::model::io::Error> {
        let s = sched();
        s.streams += 1;
        for x in sigs { s.signo = x; }
        Ok(SignalsInfo { _e: PhantomData })
    }
    pub async fn next(&mut self) -> Option<SigInfo> {
        let s = sched();
        if s.next < s.n { let v = s.queue[s.next]; s.next += 1; Some(SigInfo { v }) } else { None }
    }
}
