//! Ghost state: records of calls into the external world.
//! Statics are never zero-initialised (Kani 0.68 may share storage of an all-zero `static mut`
//! with equal constants), hence the magic fields.

pub const NISO: usize = 4;

pub struct Ghost {
    pub magic: u64,
    /// global event counter
    pub clock: u64,
    /// number of terminate_execution() calls per isolate
    pub term: [u32; NISO],
    /// external memory reported to each isolate
    pub reported: [i64; NISO],
    /// adjust calls per isolate
    pub adjusts: [u32; NISO],
    /// which isolate's Locker is held (0 = none, else id+1), nesting depth
    pub locker: [u32; NISO],
    pub locker_news: u32,
    /// v8::Global bookkeeping
    pub globals_made: u32,
    pub globals_dropped: u32,
    pub global_drop_bad: u32,
    /// ids of the handles destroyed so far (bit per id)
    pub dropped_ids: u64,
    pub ptr: [*const u8; 4],
    pub num: [u64; 8],
    /// mutexes held by this flow
    pub locks: u32,
    /// the next sequence created starts with this many unknown elements, tickets from 100
    pub next_prefix: usize,
}

pub static mut G: Ghost = Ghost {
    magic: 0x5EED_0000_1111_2222,
    clock: 1,
    term: [0; NISO],
    reported: [0; NISO],
    adjusts: [0; NISO],
    locker: [0; NISO],
    locker_news: 0,
    globals_made: 0,
    globals_dropped: 0,
    global_drop_bad: 0,
    dropped_ids: 0,
    ptr: [std::ptr::null(); 4],
    num: [0; 8],
    locks: 0,
    next_prefix: 0,
};

pub fn g() -> &'static mut Ghost { unsafe { &mut *(&raw mut G) } }
pub fn tick() -> u64 { let g = g(); g.clock += 1; g.clock }

// constant indices only: a symbolic index into a static array is expensive for the verifier
impl Ghost {
    pub fn count_term(&mut self, id: usize) { for i in 0..NISO { if i == id { self.term[i] += 1; } } }
    pub fn adjust(&mut self, id: usize, d: i64) -> i64 {
        let mut r = 0;
        for i in 0..NISO { if i == id { self.reported[i] += d; self.adjusts[i] += 1; r = self.reported[i]; } }
        r
    }
}
