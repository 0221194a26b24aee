//! Scenarios that execute undefined behaviour on the unchanged tree; see known-findings.txt.
//! usage: known SCENARIO
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, Event};

/// A sink that is its own descriptor, and changes.
struct Own(u64, Option<u64>, String);
impl Descriptor for Own {
    fn name(&self) -> Option<&str> {
        Some(&self.2)
    }
}
impl Sink for Own {
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.0 += 1;
        self.2.push('x');
        Ok(u64::deserialize_into(&mut self.1))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self
    }
}

/// A sink that looks at its slot when it is dropped.
struct Touch<'a>(&'a mut Option<T>);
struct T(#[allow(dead_code)] Box<u64>);
impl<'a> Sink for Touch<'a> {
    fn atom(&mut self, _: Atom, _: &DeserializerState) -> Result<(), Error> {
        *self.0 = Some(T(Box::new(1)));
        Ok(())
    }
    fn value_for_key(&mut self, _: &str, _: &DeserializerState) -> Result<Option<SinkHandle<'_>>, Error> {
        *self.0 = Some(T(Box::new(1)));
        Ok(None)
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        *self.0 = Some(T(Box::new(1)));
        Ok(())
    }
}
impl<'a> Drop for Touch<'a> {
    fn drop(&mut self) {
        let x = self.0.take();
        *self.0 = x;
    }
}
impl Deserialize for T {
    fn deserialize_into(out: &mut Option<T>) -> SinkHandle<'_> {
        SinkHandle::boxed(Touch(out))
    }
}
#[derive(deser::Deserialize)]
struct New(#[allow(dead_code)] T);
#[derive(deser::Deserialize)]
struct Flat {
    #[deser(flatten)]
    #[allow(dead_code)]
    t: T,
}

fn one<X: Deserialize>(evs: &[Event<'static>]) {
    let mut out = None::<X>;
    {
        let mut d = DeserializeDriver::new(&mut out);
        for e in evs {
            d.emit(e.clone()).unwrap();
        }
    }
    assert!(out.is_some());
}

fn main() {
    match &std::env::args().nth(1).unwrap()[..] {
        "descriptor" => {
            let mut own = Own(0, None, "own".into());
            let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut own));
            d.emit(Event::SeqStart).unwrap();
            for _ in 0..3 {
                d.emit(1u64).unwrap();
                println!("{:?}", d.state().top_descriptor().and_then(|x| x.name()));
            }
        }
        "owned" => {
            let mut o = OwnedSink::<T>::deserialize();
            {
                let mut d = DeserializeDriver::from_sink(SinkHandle::to(o.borrow_mut()));
                d.emit(1u64).unwrap();
            }
            assert!(o.take().is_some());
        }
        "box" => one::<Box<T>>(&[1u64.into()]),
        "newtype" => one::<New>(&[1u64.into()]),
        "flatten" => one::<Flat>(&[Event::MapStart, "a".into(), 1u64.into(), Event::MapEnd]),
        _ => unreachable!(),
    }
    println!("done");
}
