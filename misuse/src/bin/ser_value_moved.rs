//! The value is moved away under the driver.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let v = Many::new();
    #[cfg(not(feature = "control"))]
    {
        let mut d = SerializeDriver::new(&v);
        d.next().unwrap();
        let moved = v;
        d.next().unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut d = SerializeDriver::new(&v);
        d.next().unwrap();
        d.next().unwrap();
        drop(d);
        let moved = v;
    }
}
