//! An emitter changes what it has lent out.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Em(Vec<Val>);
fn main() {
    let v = Many::new();
    let d = SerializeDriver::new(&v);
    let mut em = match v.serialize(d.state()).unwrap() {
        Chunk::Seq(em) => em,
        _ => unreachable!(),
    };
    #[cfg(not(feature = "control"))]
    {
        let a = em.next(d.state()).unwrap().unwrap();
        let b = em.next(d.state()).unwrap();
        println!("{:?}", a.is_optional());
    }
    #[cfg(feature = "control")]
    {
        let a = em.next(d.state()).unwrap().is_some();
        let b = em.next(d.state()).unwrap();
    }
}
