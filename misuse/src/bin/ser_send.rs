//! A driver over a value that must stay on its thread is sent away.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    struct Local(Rc<Val>);
    impl Serialize for Local {
        fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
            drop(self.0.clone());
            Ok(Chunk::Atom(Atom::Null))
        }
    }
    let rc = Rc::new(Val::new());
    let v = Local(rc.clone());
    let mut d = SerializeDriver::new(&v);
    #[cfg(not(feature = "control"))]
    {
        std::thread::scope(|s| {
            s.spawn(move || while let Some(_) = d.next().unwrap() {});
            for _ in 0..50 {
                drop(rc.clone());
            }
        });
    }
    #[cfg(feature = "control")]
    {
        while let Some(_) = d.next().unwrap() {}
        drop(rc.clone());
    }
}
