//! Model-checking kit for matreex.
pub mod alloc;
pub mod elem;
pub mod model;
pub mod sup;

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: alloc::Canary = alloc::Canary;
pub mod drive;
pub mod ops;
