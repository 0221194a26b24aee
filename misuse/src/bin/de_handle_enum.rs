//! The slot of this type is gone before its handle.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Serialize, Deserialize)]
struct Derived {
    a: Val,
}
#[derive(Serialize, Deserialize)]
struct Newtype(Val);
#[derive(Serialize, Deserialize)]
enum Kind {
    A,
}
fn main() {
    #[cfg(not(feature = "control"))]
    {
        let mut handle = {
            let mut slot = None::<Kind>;
            Kind::deserialize_into(&mut slot)
        };
        let mut d = DeserializeDriver::from_sink(handle);
        let _ = d.emit(Event::Atom(Atom::Str("A".into())));
        let _ = d.emit(Event::SeqStart);
    }
    #[cfg(feature = "control")]
    {
        let mut slot = None::<Kind>;
        let mut handle = Kind::deserialize_into(&mut slot);
        let mut d = DeserializeDriver::from_sink(handle);
        let _ = d.emit(Event::Atom(Atom::Str("A".into())));
    }
}
