//! The handle inside an owned sink is exchanged with another one's.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut other = None::<Val>;
    let d = DeserializeDriver::new(&mut other);
    #[cfg(not(feature = "control"))]
    {
        let mut a = OwnedSink::<Val>::deserialize();
        {
            let mut b = OwnedSink::<Val>::deserialize();
            std::mem::swap(a.borrow_mut(), b.borrow_mut());
        }
        a.borrow_mut().finish(d.state()).unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut a = OwnedSink::<Val>::deserialize();
        {
            let mut b = OwnedSink::<Val>::deserialize();
            std::mem::swap(&mut a, &mut b);
        }
        a.borrow_mut().finish(d.state()).unwrap();
    }
}
