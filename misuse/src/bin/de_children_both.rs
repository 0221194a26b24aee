//! Two children of one sink at once.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Val>;
    let mut other = None::<Val>;
    let d = DeserializeDriver::new(&mut other);
    let mut sink = ValSink { out: &mut out, own: Box::new(1), children: vec![] };
    #[cfg(not(feature = "control"))]
    {
        let mut first = sink.next_value(d.state()).unwrap();
        let mut second = sink.next_value(d.state()).unwrap();
        first.atom(Atom::Null, d.state()).unwrap();
        second.atom(Atom::Null, d.state()).unwrap();
    }
    #[cfg(feature = "control")]
    {
        {
            let mut first = sink.next_value(d.state()).unwrap();
            first.atom(Atom::Null, d.state()).unwrap();
        }
        let mut second = sink.next_value(d.state()).unwrap();
        second.atom(Atom::Null, d.state()).unwrap();
    }
}
