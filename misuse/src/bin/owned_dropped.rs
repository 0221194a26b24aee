//! The sink in an owned sink outlives it.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut other = None::<Val>;
    let d = DeserializeDriver::new(&mut other);
    #[cfg(not(feature = "control"))]
    {
        let sink = {
            let mut o = OwnedSink::<Val>::deserialize();
            o.borrow_mut()
        };
        sink.finish(d.state()).unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut o = OwnedSink::<Val>::deserialize();
        let sink = o.borrow_mut();
        sink.finish(d.state()).unwrap();
    }
}
