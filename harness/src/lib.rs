pub mod api;
pub mod conv;
pub mod drive;
pub mod el;
pub mod gen;
pub mod mon;
pub mod ops;
pub mod probe;
pub mod rng;
pub mod tol;
pub mod tr;
pub use drive::{drive, verdict};
pub use el::*;
pub use mon::{Ctx, Job, Out, W};
pub use ops::*;
pub use rng::Rng;
