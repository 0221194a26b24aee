//! A value returns text of a local variable.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Bad;
impl Serialize for Bad {
    #[cfg(not(feature = "control"))]
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        let text = "text".repeat(3);
        Ok(Chunk::Atom(Atom::Str(Cow::Borrowed(&text))))
    }
    #[cfg(feature = "control")]
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        let text = "text".repeat(3);
        Ok(Chunk::Atom(Atom::Str(Cow::Owned(text))))
    }
}
fn main() {
    let mut d = SerializeDriver::new(&Bad);
    println!("{:?}", d.next().unwrap().unwrap().0);
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
