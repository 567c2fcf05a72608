//! Harness-controlled clock: every reading is an unconstrained value not earlier than the last one.
use ::std::ops::{Add, AddAssign, Sub, SubAssign};
use ::std::time::Duration;

// Initial values are set before use; they are unusual because the verifier may merge a static with constants of the same bytes.
/// Last monotonic reading (time since an arbitrary origin), and how many readings were taken.
pub static mut NOW: Duration = Duration::new(0x5eed_0003, 123_456_789);
pub static mut READS: u32 = 0x5eed_0004;
/// When set, readings advance by an arbitrary amount; otherwise they return `NOW`.
pub static mut FREE: bool = false;
/// Wall clock, since the Unix epoch.
pub static mut WALL: Duration = Duration::new(0x5eed_0005, 123_456_788);

pub fn reset() {
    unsafe {
        NOW = Duration::ZERO;
        READS = 0;
        FREE = false;
        WALL = Duration::ZERO;
    }
}
/// An unconstrained span of up to 2^32 seconds, at nanosecond resolution.
pub fn any_span() -> Duration {
    let s: u32 = nd::any();
    let n = nd::below(1_000_000_000);
    Duration::new(s as u64, n as u32)
}
pub fn advance(d: Duration) {
    unsafe { NOW += d }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(pub Duration);

impl Instant {
    pub fn now() -> Self {
        unsafe {
            READS += 1;
            if FREE {
                NOW += any_span();
            }
            Instant(NOW)
        }
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.0.checked_sub(earlier.0)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().saturating_duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}

impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.checked_sub(d).expect("overflow when subtracting duration from instant"))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.saturating_duration_since(o)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(pub Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);

#[derive(Clone, Debug)]
pub struct SystemTimeError(pub Duration);
impl SystemTimeError {
    pub fn duration(&self) -> Duration {
        self.0
    }
}
impl ::std::fmt::Display for SystemTimeError {
    fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        Ok(())
    }
}
impl ::std::error::Error for SystemTimeError {}

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
    pub fn now() -> Self {
        unsafe { SystemTime(WALL) }
    }
    pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
        match self.0.checked_sub(earlier.0) {
            Some(d) => Ok(d),
            None => Err(SystemTimeError(earlier.0 - self.0)),
        }
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
