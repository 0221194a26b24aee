//! An extension guard kept after the driver is gone.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let v = Many::new();
    #[cfg(not(feature = "control"))]
    {
        let guard = {
            let d = SerializeDriver::new(&v);
            d.state().get::<Val>()
        };
        println!("{:?}", guard.1);
    }
    #[cfg(feature = "control")]
    {
        let d = SerializeDriver::new(&v);
        let guard = d.state().get::<Val>();
        println!("{:?}", guard.1);
    }
}
