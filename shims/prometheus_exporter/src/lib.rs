//! Contract of the metric types trin uses: a histogram is a shared sink that records every value it
//! is given; handles are cheap clones of the same sink.
pub mod prometheus {
    /// Everything observed on any histogram handle since the last `reset`.
    pub static mut COUNT: u32 = 0x5eed_0001; // Initial values are set before use; they are unusual because the verifier may merge a static with constants of the same bytes.
    pub static mut LAST: f64 = 1.234567e89;
    /// Observations made on the histogram before the last `reset` (by earlier timers).
    pub static mut EARLIER: u32 = 0x5eed_0002;

    pub fn reset() {
        unsafe {
            COUNT = 0;
            LAST = 0.0;
            EARLIER = nd::any();
        }
    }

    #[derive(Debug, Clone, Default)]
    pub struct Histogram {}
    impl Histogram {
        pub fn observe(&self, v: f64) {
            unsafe {
                COUNT += 1;
                LAST = v;
            }
        }
        pub fn get_sample_count(&self) -> u64 {
            unsafe { EARLIER as u64 + COUNT as u64 }
        }
        pub fn get_sample_sum(&self) -> f64 {
            nd::any()
        }
        pub fn with_opts(_: HistogramOpts) -> Result<Self> {
            Ok(Self::default())
        }
    }
    #[derive(Debug, Clone, Default)]
    pub struct HistogramOpts {}
    impl HistogramOpts {
        pub fn new(_: impl Into<String>, _: impl Into<String>) -> Self {
            Self {}
        }
        pub fn buckets(self, _: Vec<f64>) -> Self {
            self
        }
    }
    pub type Result<T> = std::result::Result<T, String>;
    macro_rules! counter {
        ($n:ident) => {
            #[derive(Debug, Clone, Default)]
            pub struct $n {}
            impl $n {
                pub fn inc(&self) {}
                pub fn dec(&self) {}
                pub fn inc_by(&self, _: u64) {}
                pub fn get(&self) -> u64 {
                    0
                }
                pub fn set(&self, _: f64) {}
                pub fn add(&self, _: f64) {}
                pub fn sub(&self, _: f64) {}
            }
        };
    }
    counter!(IntCounter);
    counter!(IntGauge);
    counter!(Gauge);
    macro_rules! vecs {
        ($n:ident, $t:ty) => {
            #[derive(Debug, Clone, Default)]
            pub struct $n {}
            impl $n {
                pub fn with_label_values(&self, _: &[&str]) -> $t {
                    Default::default()
                }
            }
        };
    }
    vecs!(IntCounterVec, IntCounter);
    vecs!(IntGaugeVec, IntGauge);
    vecs!(GaugeVec, Gauge);
    vecs!(HistogramVec, Histogram);
    #[derive(Debug, Clone, Default)]
    pub struct Registry {}
}
