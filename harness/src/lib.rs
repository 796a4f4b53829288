pub mod alloc;
pub mod gen;
pub mod judge;
pub mod model;
pub mod obs;
pub mod props;
pub mod run;
pub mod tree;
