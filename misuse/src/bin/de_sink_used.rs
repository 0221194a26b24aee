//! The sink lent to a driver is used while the driver is at work.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Val>;
    let mut sink = ValSink { out: &mut out, own: Box::new(1), children: vec![] };
    #[cfg(not(feature = "control"))]
    {
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut sink));
        d.emit(Event::SeqStart).unwrap();
        d.emit("x").unwrap();
        sink.children = vec![];
        d.emit(Event::SeqEnd).unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut sink));
        d.emit(Event::SeqStart).unwrap();
        d.emit("x").unwrap();
        d.emit(Event::SeqEnd).unwrap();
        drop(d);
        sink.children = vec![];
    }
}
