//! The sink lent to a driver is gone before the driver.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Val>;
    #[cfg(not(feature = "control"))]
    {
        let mut d = {
            let mut sink = ValSink { out: &mut out, own: Box::new(1), children: vec![] };
            DeserializeDriver::from_sink(SinkHandle::to(&mut sink))
        };
        d.emit("x").unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut sink = ValSink { out: &mut out, own: Box::new(1), children: vec![] };
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut sink));
        d.emit("x").unwrap();
    }
}
