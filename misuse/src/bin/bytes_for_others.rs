//! The mark of byte elements cannot be set by safe code.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug)]
struct Big(Box<u64>);
impl Deserialize for Big {
    fn deserialize_into(out: &mut Option<Big>) -> SinkHandle<'_> {
        SinkHandle::null()
    }
    #[cfg(not(feature = "control"))]
    fn __private_is_bytes() -> bool {
        true
    }
}
fn main() {
    let mut out = None::<Vec<Big>>;
    {
        let mut d = DeserializeDriver::new(&mut out);
        let _ = d.emit(Atom::Bytes(vec![1u8; 64].into()));
    }
    println!("{:?}", out);
    #[cfg(not(feature = "control"))]
    {
    }
    #[cfg(feature = "control")]
    {
    }
}
