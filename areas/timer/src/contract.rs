use prometheus_exporter::prometheus::{self, Histogram};
use crate::timer::DiscardOnDropHistogramTimer as Timer;
use std::time::Duration;
use vstd::clock;

fn count() -> u32 {
    unsafe { prometheus::COUNT }
}
/// Starts a timer at a fixed instant, runs `stop` after `d`, and returns its result with what was recorded.
fn timed(d: Duration, stop: impl Fn(Timer) -> f64) -> (f64, u32, f64) {
    clock::reset();
    prometheus::reset();
    clock::advance(Duration::new(17, 300_000_000));
    let t = Timer::new(Histogram::default());
    assert!(count() == 0, "P06.start: starting records nothing");
    clock::advance(d);
    let v = stop(t);
    (v, count(), unsafe { prometheus::LAST })
}
/// `v` is `d` in seconds, up to floating-point rounding.
fn close(v: f64, d: Duration) -> bool {
    let e = d.as_secs() as f64 + d.subsec_nanos() as f64 / 1e9;
    let tol = e * 1e-12 + 1e-12;
    v == e || v >= 0.0 && v - e <= tol && e - v <= tol
}
fn record(d: Duration) {
    let (v, n, last) = timed(d, |t| t.stop_and_record());
    assert!(n == 1, "P06.record-once: exactly one observation");
    assert!(last == v, "P06.same: recorded value is the returned one");
    assert!(close(v, d), "P06.elapsed: value is the time since creation");
}
fn observe(d: Duration) {
    let (_, n, last) = timed(d, |t| { t.observe_duration(); 0.0 });
    assert!(n == 1, "P06.observe-once: exactly one observation");
    assert!(close(last, d), "P06.observe-elapsed: value is the time since creation");
}
fn discard(d: Duration) {
    let (v, n, _) = timed(d, |t| t.stop_and_discard());
    assert!(n == 0, "P06.discard: discarding records nothing");
    assert!(close(v, d), "P06.discard-elapsed: returned value is the time since creation");
}
fn spans(f: fn(Duration)) {
    f(Duration::new(0, 0));
    f(Duration::new(0, 1));
    f(Duration::new(0, 999_999_999));
    f(Duration::new(1, 0));
    f(Duration::new(1, 500_000_000));
    f(Duration::new(59, 1_000_000));
    f(Duration::new(3600, 123_456_789));
    f(Duration::new(4_294_967_296, 7));
}

nd::harnesses! {
    fn p06_record (unwind = 3) { spans(record); }
    fn p06_observe (unwind = 3) { spans(observe); }
    fn p06_discard (unwind = 3) { spans(discard); }
    fn p06_any_seconds (unwind = 3) {
        let s: u32 = nd::any();
        record(Duration::new(s as u64, 250_000_000));
    }
    fn p06_drop (unwind = 3) {
        clock::reset();
        prometheus::reset();
        clock::advance(clock::any_span());
        let t = Timer::new(Histogram::default());
        clock::advance(clock::any_span());
        let h: bool = nd::any();
        unsafe { std::thread::UNWINDING = nd::any(); }
        if h { drop(t); } else { let _moved = t; }
        unsafe { std::thread::UNWINDING = false; }
        assert!(count() == 0, "P06.drop: dropping records nothing");
    }
    /// The clock moves between any two readings.
    fn p06_moving_clock (unwind = 3) {
        clock::reset();
        prometheus::reset();
        unsafe { clock::FREE = true; }
        let t = Timer::new(Histogram::default());
        let rec: bool = nd::any();
        let v = if rec { t.stop_and_record() } else { t.stop_and_discard() };
        assert!(v >= 0.0, "P06.nonneg: never negative");
        assert!(count() == rec as u32, "P06.count: one observation exactly when recording");
    }
}
