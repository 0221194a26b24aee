//! An emitter keeps the state it was shown.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Keeper<'a>(Option<&'a SerializerState<'a>>);
impl<'a> SeqEmitter for Keeper<'a> {
    fn next(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        #[cfg(not(feature = "control"))]
        {
            self.0 = Some(st);
        }
        Ok(None)
    }
}
struct Bad;
impl Serialize for Bad {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(Chunk::Seq(Box::new(Keeper(None))))
    }
}
fn main() {
    let mut d = SerializeDriver::new(&Bad);
    while let Some(_) = d.next().unwrap() {}
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
