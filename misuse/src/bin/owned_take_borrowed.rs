//! The value is taken while the sink is lent out.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut other = None::<Val>;
    let d = DeserializeDriver::new(&mut other);
    let mut o = OwnedSink::<Val>::deserialize();
    #[cfg(not(feature = "control"))]
    {
        let sink = o.borrow_mut();
        let val = o.take();
        sink.finish(d.state()).unwrap();
        drop(val);
    }
    #[cfg(feature = "control")]
    {
        let sink = o.borrow_mut();
        sink.finish(d.state()).unwrap();
        let val = o.take();
        drop(val);
    }
}
