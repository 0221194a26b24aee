//! A boxed handle outlives what the value in it borrows.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let h = {
            let v = Val::new();
            SerializeHandle::boxed(Some(&v))
        };
        let d = SerializeDriver::new(&*h).next().unwrap().is_some();
    }
    #[cfg(feature = "control")]
    {
        let v = Val::new();
        let h = SerializeHandle::boxed(Some(&v));
        let d = SerializeDriver::new(&*h).next().unwrap().is_some();
    }
}
