pub mod circ;
pub mod engine;
pub mod fp;
pub mod gad;
pub mod gprog;
pub mod gro;
pub mod mock;
pub mod wide;
pub mod rec;
pub mod refhash;
pub mod runner;
pub mod solve;
