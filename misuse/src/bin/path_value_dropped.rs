//! A path value outlives the value in it.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let p = {
            let v = Many::new();
            PathSerializable::wrap(&v)
        };
        let mut d = SerializeDriver::new(&p);
        while let Some(_) = d.next().unwrap() {}
    }
    #[cfg(feature = "control")]
    {
        let v = Many::new();
        let p = PathSerializable::wrap(&v);
        let mut d = SerializeDriver::new(&p);
        while let Some(_) = d.next().unwrap() {}
    }
}
