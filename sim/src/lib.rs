#![allow(clippy::too_many_arguments, clippy::type_complexity, static_mut_refs)]
pub mod choice;
#[macro_use]
pub mod rt;
pub mod gen;
pub mod idl;
pub mod net;
pub mod peers;
pub mod proc;
pub mod calls;
pub mod cost;
pub mod driver;
pub mod dynser;
pub mod evolve;
pub mod faults;
pub mod schema;
pub mod statics;
pub mod wire;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;
