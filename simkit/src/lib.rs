pub mod heap;
pub mod driver;
pub mod ledger;
pub mod rng;
