pub mod alloc;
pub mod conv;
pub mod crash;
pub mod faults;
pub mod fuzz;
pub mod io;
pub mod model;
pub mod props;
pub mod runner;
pub mod wire;
