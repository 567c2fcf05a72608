//! Contract of serde as trin's parameter type uses it (verifier builds only; native builds use the
//! real crates): see `kserde_derive` for the derive contract and `kserde_json` for the values.
pub use kserde_derive::{Deserialize, Serialize};
pub use kserde_json::{FromJson, ToJson};
