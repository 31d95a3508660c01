//! Threads, sequential view: a spawned closure runs when the harness (the scheduler) says so, or at
//! the latest when it is joined. (Scheduling of the atomic actions inside is covered by the
//! rely/guarantee models where a property depends on it.)
use super::time::Duration;

/// unique function type, so the verifier's function pointer resolution stays exact
pub struct Cell1 { pub magic: u64 }
type RunFn = fn(*mut Cell1);
#[derive(Clone, Copy)]
pub struct Slot { pub magic: u64, pub data: *mut Cell1, pub run: RunFn, pub done: bool }
pub struct Table { pub magic: u64, pub spawned: usize, pub finished: usize, pub slot: [Slot; 3],
    /// the thread that runs now may let its timeouts elapse
    pub expire: bool, pub in_join: bool, pub detached: usize }
fn nothing(_: *mut Cell1) {}
const S0: Slot = Slot { magic: 0x51, data: std::ptr::null_mut(), run: nothing, done: false };
pub static mut TABLE: Table = Table { magic: 0x7AB1_E000_0000_0001, spawned: 0, finished: 0, slot: [S0; 3], expire: false, in_join: false, detached: 0 };
pub fn table() -> &'static mut Table { unsafe { &mut *(&raw mut TABLE) } }

struct Job<F, T> { f: Option<F>, out: *mut Out<T> }
pub struct Out<T> { magic: u64, v: Option<T> }
fn run_job<F: FnOnce() -> T, T>(p: *mut Cell1) {
    let j = unsafe { &mut *(p as *mut Job<F, T>) };
    let f = j.f.take().expect("MODEL: thread ran twice");
    let r = f();
    unsafe { (*j.out).v = Some(r) };
}
pub struct JoinHandle<T> { i: usize, out: *mut Out<T>, joined: bool }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
pub type Result<T> = std::thread::Result<T>;
impl<T> JoinHandle<T> {
    pub fn join(mut self) -> Result<T> {
        self.joined = true;
        let t = table();
        t.in_join = true;
        run(self.i);
        t.in_join = false;
        let r = unsafe { (*self.out).v.take() };
        match r { Some(v) => Ok(v), None => panic!("MODEL: thread result") }
    }
    pub fn is_finished(&self) -> bool { let mut r = false; for k in 0..3 { if k == self.i { r = table().slot[k].done; } } r }
    pub fn thread(&self) -> &Thread { &Thread }
}
impl<T> Drop for JoinHandle<T> { fn drop(&mut self) { if !self.joined { table().detached += 1; } } }
/// The scheduler runs thread `i` to completion now (once).
pub fn run(i: usize) {
    for k in 0..3 {
        let t = table();
        if k == i && k < t.spawned && !t.slot[k].done {
            t.slot[k].done = true;
            let s = t.slot[k];
            (s.run)(s.data);
            table().finished += 1;
        }
    }
}
pub struct Builder;
impl Builder {
    pub fn new() -> Builder { Builder }
    pub fn name(self, n: String) -> Builder { std::mem::forget(n); self }
    pub fn stack_size(self, _n: usize) -> Builder { self }
    pub fn spawn<F, T>(self, f: F) -> super::io::Result<JoinHandle<T>> where F: FnOnce() -> T + 'static, T: 'static {
        let out = Box::into_raw(Box::new(Out { magic: 7, v: None }));
        let job = Box::into_raw(Box::new(Job { f: Some(f), out }));
        let t = table();
        let i = t.spawned;
        assert!(i < 3, "MODEL: at most 3 threads");
        for k in 0..3 { if k == i { t.slot[k] = Slot { magic: 0x51, data: job as *mut Cell1, run: run_job::<F, T>, done: false }; } }
        t.spawned += 1;
        Ok(JoinHandle { i, out, joined: false })
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + 'static, T: 'static {
    match Builder::new().spawn(f) { Ok(h) => h, Err(_) => panic!("MODEL: spawn") }
}
pub fn sleep(_d: Duration) { super::std_mpsc::elapse(_d, true); }
pub fn yield_now() {}
pub fn panicking() -> bool { false }
pub struct Thread;
impl Thread { pub fn id(&self) -> u64 { 1 } pub fn name(&self) -> Option<&str> { None } pub fn unpark(&self) {} }
pub fn current() -> Thread { Thread }
