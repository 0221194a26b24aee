//! A driver over values that must stay on their thread is sent away.
#![allow(unused, dead_code)]
use deser::de::*;
use deser::ser::*;
use deser::*;
use deser_path::{PathSerializable, PathSink};
use misuse::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

struct Local<'a>(Rc<RefCell<u64>>, &'a mut Option<Val>);
impl<'a> Sink for Local<'a> {
    fn atom(&mut self, _: Atom, _: &DeserializerState) -> Result<(), Error> {
        let _more = self.0.clone();
        *self.0.borrow_mut() += 1;
        Ok(())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
}
fn main() {
    let rc = Rc::new(RefCell::new(1));
    let mut out = None;
    let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(Local(rc.clone(), &mut out)));
    #[cfg(not(feature = "control"))]
    {
        std::thread::scope(|s| {
            s.spawn(move || d.emit(1u64).unwrap());
            for _ in 0..50 {
                let _more = rc.clone();
                *rc.borrow_mut() += 1;
            }
        });
    }
    #[cfg(feature = "control")]
    {
        d.emit(1u64).unwrap();
    }
}
