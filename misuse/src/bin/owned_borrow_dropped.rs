//! The handle in an owned sink outlives it.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let sink = {
            let o = OwnedSink::<Val>::deserialize();
            o.borrow()
        };
        println!("{}", sink.expecting());
    }
    #[cfg(feature = "control")]
    {
        let o = OwnedSink::<Val>::deserialize();
        let sink = o.borrow();
        println!("{}", sink.expecting());
    }
}
