//! Runtime monitors for minikalman: drivers, reference models, verdicts.
pub mod drive;
pub mod ev;
pub mod gen;
pub mod mats;
pub mod mission;
pub mod num;
pub mod rep;
pub mod rig;
pub mod sets;

pub use ev::{Ar, ArOf, MFrom, M};
pub use kfcore::{oracle, rng};
pub use num::{same, same_val, to_f, to_t, Num};
pub use rep::{guarded, Case, Chk, Rep};
pub use rng::Rng;
pub use sets::Sets;
