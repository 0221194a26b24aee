//! A handle made from a slot outlives the slot.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let handle = {
            let mut out = None::<Vec<Val>>;
            Vec::<Val>::deserialize_into(&mut out)
        };
        let mut d = DeserializeDriver::from_sink(handle);
        d.emit(Event::SeqStart).unwrap();
        d.emit(Event::SeqEnd).unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut out = None::<Vec<Val>>;
        let handle = Vec::<Val>::deserialize_into(&mut out);
        let mut d = DeserializeDriver::from_sink(handle);
        d.emit(Event::SeqStart).unwrap();
        d.emit(Event::SeqEnd).unwrap();
    }
}
