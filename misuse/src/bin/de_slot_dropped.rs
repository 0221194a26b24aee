//! The slot is gone before the driver.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let mut d = {
            let mut out = None::<Val>;
            DeserializeDriver::new(&mut out)
        };
        d.emit("x").unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut out = None::<Val>;
        let mut d = DeserializeDriver::new(&mut out);
        d.emit("x").unwrap();
    }
}
