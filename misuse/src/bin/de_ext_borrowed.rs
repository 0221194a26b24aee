//! Extension values must not borrow.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let mut out = None::<Val>;
    #[cfg(not(feature = "control"))]
    {
        let mut d = DeserializeDriver::new(&mut out);
        {
            let text = "text".repeat(3);
            d.state().get_mut::<Option<&str>>().replace(&text[..]);
        }
        println!("{:?}", d.state().get::<Option<&str>>());
    }
    #[cfg(feature = "control")]
    {
        let mut d = DeserializeDriver::new(&mut out);
        {
            d.state().get_mut::<Option<&'static str>>().replace("text");
        }
        println!("{:?}", d.state().get::<Option<&'static str>>());
    }
}
