//! What the driver handed out is kept over the next event.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let v = Many::new();
    let mut d = SerializeDriver::new(&v);
    d.next().unwrap();
    #[cfg(not(feature = "control"))]
    {
        let (e, desc, st) = d.next().unwrap().unwrap();
        let kept = desc;
        while let Some(_) = d.next().unwrap() {}
        drop(d);
        println!("{:?}", kept.name());
    }
    #[cfg(feature = "control")]
    {
        let (e, desc, st) = d.next().unwrap().unwrap();
        let kept = desc;
        println!("{:?}", kept.name());
        while let Some(_) = d.next().unwrap() {}
        drop(d);
    }
}
