pub mod adapt;
pub mod alloc;
pub mod capture;
pub mod clock;
pub mod crash;
pub mod dict;
pub mod engine;
pub mod gen;
pub mod model;
pub mod props;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;
