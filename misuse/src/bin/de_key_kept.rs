//! A sink keeps the key it was asked for.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Keeper<'a>(Option<&'a str>);
impl<'a> Sink for Keeper<'a> {
    #[cfg(not(feature = "control"))]
    fn value_for_key(&mut self, key: &str, _: &DeserializerState) -> Result<Option<SinkHandle<'_>>, Error> {
        self.0 = Some(key);
        Ok(None)
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
}
fn main() {
    let mut other = None::<Val>;
    let d = DeserializeDriver::new(&mut other);
    let mut keeper = Keeper(None);
    {
        let text = "text".repeat(3);
        let _ = keeper.value_for_key(&text, d.state());
    }
    println!("{:?}", keeper.0);
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
