//! The same statements against the real metrics crate and the real clock; used only when the timer
//! no longer compiles against the contract of the metrics crate.
use crate::timer::DiscardOnDropHistogramTimer as Timer;
use prometheus_exporter::prometheus::{Histogram, HistogramOpts};
use std::time::{Duration, Instant};

fn all() {
    let h = Histogram::with_opts(HistogramOpts::new("h", "h")).expect("histogram");
    let earlier: bool = nd::any();
    if earlier {
        h.observe(1.0);
    }
    let (n0, s0) = (h.get_sample_count(), h.get_sample_sum());
    let t0 = Instant::now();
    let t = Timer::new(h.clone());
    let t1 = Instant::now();
    if nd::below(4) == 0 {
        std::thread::sleep(Duration::from_micros(nd::below(3000) as u64));
    }
    let t2 = Instant::now();
    let how = nd::below(5);
    let v = match how {
        0 => Some(t.stop_and_record()),
        1 => {
            t.observe_duration();
            None
        }
        2 => Some(t.stop_and_discard()),
        3 => {
            drop(t);
            None
        }
        _ => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _t = t;
                std::panic::resume_unwind(Box::new(()));
            }));
            assert!(r.is_err());
            None
        }
    };
    let t3 = Instant::now();
    let rec = how < 2;
    assert!(h.get_sample_count() - n0 == rec as u64, "P06.count: one observation exactly when recording");
    let inside = |v: f64| v >= (t2 - t1).as_secs_f64() - 1e-9 && v <= (t3 - t0).as_secs_f64() + 1e-9;
    if let Some(v) = v {
        assert!(inside(v), "P06.elapsed: value is the time since creation");
    }
    if rec {
        assert!(inside(h.get_sample_sum() - s0), "P06.recorded: recorded value is the time since creation");
    }
}
macro_rules! table {
    ($($n:ident),*) => {
        pub fn nd_table() -> &'static [(&'static str, fn())] {
            &[$((stringify!($n), all as fn())),*]
        }
    };
}
table!(p06_record, p06_observe, p06_discard, p06_any_seconds, p06_drop, p06_moving_clock);
