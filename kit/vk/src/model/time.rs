//! Duration: exact nanosecond count (no division in the representation, which keeps the verifier's
//! arithmetic linear). Instant: abstract monotonic clock (ghost-controlled).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Default)]
pub struct Duration { pub ns: u128 }
impl Duration {
    pub const ZERO: Duration = Duration { ns: 0 };
    pub const MAX: Duration = Duration { ns: (u64::MAX as u128) * 1_000_000_000 + 999_999_999 };
    pub const fn exact(s: u64, n: u32) -> Duration { Duration { ns: s as u128 * 1_000_000_000 + n as u128 } }
    /// `exact`, except that a value the harness named with `name_duration` is that value itself
    /// (same number, but the solver need not redo the multiplication to see it).
    pub fn new(s: u64, n: u32) -> Duration {
        let m = unsafe { &NAMED };
        if m.on[0] && m.s[0] == s && m.n[0] == n { return Duration { ns: m.ns[0] } }
        if m.on[1] && m.s[1] == s && m.n[1] == n { return Duration { ns: m.ns[1] } }
        Self::exact(s, n)
    }
    pub const fn from_secs(s: u64) -> Duration { Duration { ns: s as u128 * 1_000_000_000 } }
    pub const fn from_millis(s: u64) -> Duration { Duration { ns: s as u128 * 1_000_000 } }
    pub const fn from_micros(s: u64) -> Duration { Duration { ns: s as u128 * 1_000 } }
    pub const fn from_nanos(s: u64) -> Duration { Duration { ns: s as u128 } }
    pub const fn as_secs(&self) -> u64 { (self.ns / 1_000_000_000) as u64 }
    pub const fn as_millis(&self) -> u128 { self.ns / 1_000_000 }
    pub const fn as_micros(&self) -> u128 { self.ns / 1_000 }
    pub const fn as_nanos(&self) -> u128 { self.ns }
    pub const fn subsec_nanos(&self) -> u32 { (self.ns % 1_000_000_000) as u32 }
    pub const fn subsec_millis(&self) -> u32 { (self.ns % 1_000_000_000 / 1_000_000) as u32 }
    pub const fn is_zero(&self) -> bool { self.ns == 0 }
    pub fn saturating_sub(self, o: Duration) -> Duration { if self.ns > o.ns { Duration { ns: self.ns - o.ns } } else { Duration::ZERO } }
    pub fn saturating_add(self, o: Duration) -> Duration { let n = self.ns + o.ns; if n > Self::MAX.ns { Self::MAX } else { Duration { ns: n } } }
    pub fn checked_sub(self, o: Duration) -> Option<Duration> { if self.ns >= o.ns { Some(Duration { ns: self.ns - o.ns }) } else { None } }
    pub fn checked_add(self, o: Duration) -> Option<Duration> { let n = self.ns + o.ns; if n > Self::MAX.ns { None } else { Some(Duration { ns: n }) } }
    pub fn abs_diff(self, o: Duration) -> Duration { if self.ns > o.ns { Duration { ns: self.ns - o.ns } } else { Duration { ns: o.ns - self.ns } } }
}
impl std::ops::Add for Duration { type Output = Duration; fn add(self, o: Duration) -> Duration { self.checked_add(o).expect("overflow when adding durations") } }
impl std::ops::Sub for Duration { type Output = Duration; fn sub(self, o: Duration) -> Duration { self.checked_sub(o).expect("overflow when subtracting durations") } }
impl std::ops::Mul<u32> for Duration { type Output = Duration; fn mul(self, k: u32) -> Duration { let n = self.ns * k as u128; assert!(n <= Self::MAX.ns, "overflow when multiplying duration by scalar"); Duration { ns: n } } }
impl std::ops::AddAssign for Duration { fn add_assign(&mut self, o: Duration) { *self = *self + o } }
impl std::ops::SubAssign for Duration { fn sub_assign(&mut self, o: Duration) { *self = *self - o } }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(pub u64);
impl Instant {
    pub fn now() -> Instant { Instant(clock()) }
    pub fn elapsed(&self) -> Duration { Duration::from_nanos(clock().saturating_sub(self.0)) }
    pub fn duration_since(&self, o: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d.ns as u64).map(Instant) }
}
impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d.ns as u64) } }
impl std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }
/// ghost clock: num[7] holds the current time, advanced by harnesses.
pub fn clock() -> u64 { crate::ghost::g().num[7] }
pub fn set_clock(t: u64) { crate::ghost::g().num[7] = t; }

struct Named { magic: u64, on: [bool; 2], s: [u64; 2], n: [u32; 2], ns: [u128; 2] }
static mut NAMED: Named = Named { magic: 0x5a5a, on: [false; 2], s: [0; 2], n: [0; 2], ns: [0; 2] };
/// The duration of `s` seconds and `n` nanoseconds as a fresh name constrained to be exactly that.
pub fn name_duration(i: usize, s: u64, n: u32) -> Duration {
    #[cfg(kani)]
    let ns: u128 = { let ns: u128 = kani::any(); kani::assume(ns == Duration::exact(s, n).ns); ns };
    #[cfg(not(kani))]
    let ns = Duration::exact(s, n).ns;
    let m = unsafe { &mut NAMED };
    m.on[i] = true; m.s[i] = s; m.n[i] = n; m.ns[i] = ns;
    Duration { ns }
}
