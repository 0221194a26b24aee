//! An owned sink over values that must stay on their thread is sent away.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

thread_local!(static RC: Rc<RefCell<u64>> = Rc::new(RefCell::new(1)));
struct Local(Rc<RefCell<u64>>);
struct LocalSink<'a>(&'a mut Option<Local>, Rc<RefCell<u64>>);
impl<'a> Sink for LocalSink<'a> {
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
}
impl Deserialize for Local {
    fn deserialize_into(out: &mut Option<Local>) -> SinkHandle<'_> {
        SinkHandle::boxed(LocalSink(out, RC.with(|x| x.clone())))
    }
}
fn main() {
    let o = OwnedSink::<Local>::deserialize();
    #[cfg(not(feature = "control"))]
    {
        std::thread::scope(|s| {
            s.spawn(move || drop(o));
            for _ in 0..50 {
                RC.with(|x| drop(x.clone()));
            }
        });
    }
    #[cfg(feature = "control")]
    {
        drop(o);
    }
}
