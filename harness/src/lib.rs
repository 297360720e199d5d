pub mod rng;
#[macro_use]
pub mod run;
pub mod convexity;
pub mod forest;
pub mod gen;
pub mod graphchecks;
pub mod itercheck;
pub mod hist;
pub mod model;
