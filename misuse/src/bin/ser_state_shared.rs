//! The state of a serialization is shared between threads.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    let v = Many::new();
    let d = SerializeDriver::new(&v);
    #[cfg(not(feature = "control"))]
    {
        let st = d.state();
        std::thread::scope(|s| {
            s.spawn(move || {
                for _ in 0..50 {
                    st.get_mut::<Val>().1.push('x');
                }
            });
            for _ in 0..50 {
                st.get_mut::<Val>().1.push('x');
            }
        });
    }
    #[cfg(feature = "control")]
    {
        d.state().get_mut::<Val>().1.push('x');
    }
}
