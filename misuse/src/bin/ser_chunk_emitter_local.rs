//! A value returns an emitter over a local variable.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Bad;
impl Serialize for Bad {
    #[cfg(not(feature = "control"))]
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        let many = Many::new();
        many.serialize(st)
    }
    #[cfg(feature = "control")]
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(Chunk::Atom(Atom::Null))
    }
}
fn main() {
    let mut d = SerializeDriver::new(&Bad);
    while let Some(_) = d.next().unwrap() {}
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
