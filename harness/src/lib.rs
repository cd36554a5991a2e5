//! The history engine. World crates are generated by bin/gen_worlds.py and linked by a generated
//! binary that calls [`main`] with the list of worlds.
#![allow(clippy::type_complexity)]

pub mod alloc;
pub mod api;
pub mod big;
pub mod cli;
pub mod comp;
pub mod engine;
pub mod gen;
pub mod ops;
pub mod shelf;

#[cfg(not(feature = "sysalloc"))]
#[global_allocator]
static GLOBAL: alloc::Checked = alloc::Checked;

/// One generated world.
#[derive(Clone, Copy)]
pub struct Entry {
    pub meta: &'static api::Meta,
    pub make: fn(u32, &[usize]) -> Box<dyn api::Api>,
}

pub fn main(w: &[Entry]) {
    cli::main(w)
}
