#![allow(warnings)]
#![cfg_attr(kani, feature(core_io_internals, core_io, allocator_api))]
extern crate alloc;
#[macro_use]
extern crate arrayref;
#[macro_use]
extern crate bitflags;

#[cfg(model)]
pub mod vcollections;

#[macro_use]
pub mod sym;

include!(concat!(env!("OUT_DIR"), "/mods.rs"));

#[cfg(not(kani))]
pub mod replay {
    include!(concat!(env!("OUT_DIR"), "/table.rs"));
}
