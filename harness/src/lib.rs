#[macro_use]
pub mod engine;
pub mod fresh;
pub mod gen;
pub mod meter;
pub mod grow;
pub mod iregex;
pub mod model;
pub mod print;
pub mod recog;
pub mod suts;
pub mod props;
