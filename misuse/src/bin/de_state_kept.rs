//! State of the driver kept over the next event.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Vec<Val>>;
    let mut d = DeserializeDriver::new(&mut out);
    d.emit(Event::SeqStart).unwrap();
    #[cfg(not(feature = "control"))]
    {
        let st = d.state();
        d.emit(Event::SeqEnd).unwrap();
        if let Some(x) = st.top_descriptor() {
            println!("{:?}", x.name());
        }
    }
    #[cfg(feature = "control")]
    {
        d.emit(Event::SeqEnd).unwrap();
        let st = d.state();
        if let Some(x) = st.top_descriptor() {
            println!("{:?}", x.name());
        }
    }
}
