extern crate self as mon;
pub mod drive;
pub mod derived_ints;
pub mod derived_wrap;
pub mod derived_zoo;
pub mod extra;
pub mod gen;
pub mod heapwork;
pub mod json;
pub mod jsonwork;
pub mod model;
pub mod probe;
pub mod probe_de;
pub mod probe_ser;
pub mod skip;
pub mod table;
pub mod tracked;
pub mod uservalue;
pub mod util;
pub mod work;
pub mod zoo;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: util::CountingAlloc = util::CountingAlloc;
