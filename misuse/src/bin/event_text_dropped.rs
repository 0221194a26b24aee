//! An event outlives its text.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    #[cfg(not(feature = "control"))]
    {
        let e: Event = {
            let text = "text".repeat(3);
            Event::from(&text[..])
        };
        println!("{:?}", e);
    }
    #[cfg(feature = "control")]
    {
        let e: Event = {
            let text = "text".repeat(3);
            Event::from(&text[..]).to_static()
        };
        println!("{:?}", e);
    }
}
