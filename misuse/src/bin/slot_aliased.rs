//! A slot is used while its wrapper is.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

deser::make_slot_wrapper!(Slot);
fn main() {
    let mut out = Some(Val::new());
    #[cfg(not(feature = "control"))]
    {
        let slot = Slot::wrap(&mut out);
        let inner = out.as_ref();
        **slot = None;
        println!("{:?}", inner);
    }
    #[cfg(feature = "control")]
    {
        let slot = Slot::wrap(&mut out);
        **slot = None;
        println!("{:?}", out.as_ref());
    }
}
