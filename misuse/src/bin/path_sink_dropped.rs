//! A path sink outlives the sink in it.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Val>;
    #[cfg(not(feature = "control"))]
    {
        let mut p = {
            let mut sink = ValSink { out: &mut out, own: Box::new(1), children: vec![] };
            PathSink::wrap(&mut sink)
        };
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
        d.emit(1u64).unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut sink = ValSink { out: &mut out, own: Box::new(1), children: vec![] };
        let mut p = PathSink::wrap(&mut sink);
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
        d.emit(1u64).unwrap();
    }
}
