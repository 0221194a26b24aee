//! A sink keeps the state it was shown.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Keeper<'a>(Option<&'a DeserializerState<'a>>);
impl<'a> Sink for Keeper<'a> {
    fn atom(&mut self, _: Atom, st: &DeserializerState) -> Result<(), Error> {
        #[cfg(not(feature = "control"))]
        {
            self.0 = Some(st);
        }
        Ok(())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
}
fn main() {
    let mut keeper = Keeper(None);
    {
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut keeper));
        d.emit(1u64).unwrap();
    }
    println!("{:?}", keeper.0.map(|x| x.depth()));
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
