//! Runtime monitors for orx-concurrent-vec: workload runner, violation reporting, hang watchdog,
//! instrumented payloads, chaos/monitor storage and history oracles.
pub mod chaos;
pub mod ctx;
pub mod hist;
pub mod pay;
pub mod rng;
pub mod store;
pub mod growth;

pub use chaos::*;
pub use ctx::*;
pub use hist::*;
pub use orx_concurrent_option::ConcurrentOption;
pub use orx_concurrent_vec::*;
pub use pay::*;
pub use rng::*;
pub use store::*;
pub mod access;
pub mod seq;
pub use access::*;
pub mod view;
pub use view::*;
pub mod busy;
pub mod gaps;
pub use busy::{busy_any, hold, Need, HOLDERS};
pub use gaps::gaps_any;
pub mod huge;
pub use huge::huge;
