//! What the driver handed out outlives the driver.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let v = Many::new();
    #[cfg(not(feature = "control"))]
    {
        let kept = {
            let mut d = SerializeDriver::new(&v);
            d.next().unwrap();
            let (e, desc, st) = d.next().unwrap().unwrap();
            st
        };
        println!("{:?}", kept.depth());
    }
    #[cfg(feature = "control")]
    {
        let mut d = SerializeDriver::new(&v);
        d.next().unwrap();
        let (e, desc, st) = d.next().unwrap().unwrap();
        let kept = st;
        println!("{:?}", kept.depth());
    }
}
