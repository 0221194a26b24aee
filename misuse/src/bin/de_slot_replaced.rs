//! The slot is read and changed under the driver.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Val>;
    #[cfg(not(feature = "control"))]
    {
        let mut d = DeserializeDriver::new(&mut out);
        d.emit(Event::SeqStart).unwrap();
        out = Some(Val::new());
        d.emit(Event::SeqEnd).unwrap();
        drop(d);
    }
    #[cfg(feature = "control")]
    {
        let mut d = DeserializeDriver::new(&mut out);
        d.emit(Event::SeqStart).unwrap();
        d.emit(Event::SeqEnd).unwrap();
        drop(d);
        out = Some(Val::new());
    }
}
