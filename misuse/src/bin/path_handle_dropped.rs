//! A path sink outlives the slot of the handle in it.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let mut p = {
            let mut out = None::<Val>;
            PathSink::wrap_ref(Val::deserialize_into(&mut out))
        };
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
        d.emit(1u64).unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut out = None::<Val>;
        let mut p = PathSink::wrap_ref(Val::deserialize_into(&mut out));
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
        d.emit(1u64).unwrap();
    }
}
