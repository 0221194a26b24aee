//! The handle inside an owned sink is replaced by one that lives shorter.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut other = None::<Val>;
    let d = DeserializeDriver::new(&mut other);
    #[cfg(not(feature = "control"))]
    {
        let mut a = OwnedSink::<Val>::deserialize();
        {
            let mut out = None::<Val>;
            *a.borrow_mut() = Val::deserialize_into(&mut out);
        }
        a.borrow_mut().finish(d.state()).unwrap();
    }
    #[cfg(feature = "control")]
    {
        let mut a = OwnedSink::<Val>::deserialize();
        a.borrow_mut().finish(d.state()).unwrap();
    }
}
