//! The checks, over any zoo of definitions.
#![allow(clippy::type_complexity)]

#[macro_use]
pub mod cx;
pub mod c;
pub mod gen;
pub mod item;
pub mod run;

pub use cx::*;

#[global_allocator]
static ALLOC: engine::mem::Counting = engine::mem::Counting;
