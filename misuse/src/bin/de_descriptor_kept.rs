//! A descriptor of an open container kept after the driver is gone.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Vec<Val>>;
    #[cfg(not(feature = "control"))]
    {
        let desc = {
            let mut d = DeserializeDriver::new(&mut out);
            d.emit(Event::SeqStart).unwrap();
            d.state().top_descriptor().unwrap()
        };
        println!("{:?}", desc.name());
    }
    #[cfg(feature = "control")]
    {
        let mut d = DeserializeDriver::new(&mut out);
        d.emit(Event::SeqStart).unwrap();
        let desc = d.state().top_descriptor().unwrap();
        println!("{:?}", desc.name());
    }
}
