//! The value is changed under the driver.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut v = Many::new();
    #[cfg(not(feature = "control"))]
    {
        let mut d = SerializeDriver::new(&v);
        d.next().unwrap();
        d.next().unwrap();
        v.0.clear();
        d.next().unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut d = SerializeDriver::new(&v);
        d.next().unwrap();
        d.next().unwrap();
        drop(d);
        v.0.clear();
    }
}
