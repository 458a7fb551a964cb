pub mod checks;
pub mod ctx;
pub mod fuzz;
pub mod gen;
pub mod model;
pub mod rng;
pub mod util;
