//! A sink keeps the atom it was shown.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Keeper<'a>(Option<Atom<'a>>);
impl<'a> Sink for Keeper<'a> {
    #[cfg(not(feature = "control"))]
    fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.0 = Some(atom);
        Ok(())
    }
    #[cfg(feature = "control")]
    fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.0 = Some(atom.to_static());
        Ok(())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
}
fn main() {
    let mut keeper = Keeper(None);
    {
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut keeper));
        let text = "text".repeat(3);
        d.emit(&text[..]).unwrap();
    }
    println!("{:?}", keeper.0);
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
