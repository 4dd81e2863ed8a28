//! Bounded exhaustive exploration of the real householder code against reference models.
#![allow(clippy::all, unused_variables)]
pub mod alloc;
pub mod blocks;
pub mod engine;
pub mod guard;
pub mod kinds;
pub mod lv;
pub mod refm;
pub mod scal;
pub mod trees;

pub use blocks::*;
pub use engine::*;
pub use guard::*;
pub use kinds::*;
pub use lv::*;
pub use refm::*;
pub use scal::*;
pub use trees::*;

#[global_allocator]
static GLOBAL: alloc::RedZone = alloc::RedZone;
