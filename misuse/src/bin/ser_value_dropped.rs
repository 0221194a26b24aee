//! The value is gone before the driver.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let mut d = {
            let v = Many::new();
            SerializeDriver::new(&v)
        };
        while let Some(_) = d.next().unwrap() {}
    }
    #[cfg(feature = "control")]
    {
        let v = Many::new();
        let mut d = SerializeDriver::new(&v);
        while let Some(_) = d.next().unwrap() {}
    }
}
