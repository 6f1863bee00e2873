//! The parts of the monitors that do not depend on the library under test (always optimised).
pub mod ev;
pub mod oracle;
pub mod rng;
pub mod ulp;
