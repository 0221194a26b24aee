//! What the generated declarations refer to.
use deser::de::{Deserialize, OwnedSink, Sink, SinkHandle};
use deser::ser::{Chunk, Serialize, SerializerState};
use deser::{Descriptor, Error};

pub fn never<T>(_: &T) -> bool {
    false
}

pub fn always<T>(_: &T) -> bool {
    true
}

pub fn make<T: Default>() -> T {
    T::default()
}

#[derive(deser::Serialize, deser::Deserialize, Default)]
pub struct Flat1 {
    pub flat_a: u32,
    pub flat_b: String,
}

#[derive(deser::Serialize, deser::Deserialize, Default)]
pub struct Flat2 {
    pub flat_c: bool,
}

/// Has methods named like those of the traits.
#[derive(Default)]
pub struct Evil(pub u32);

impl Evil {
    pub fn descriptor(&self) -> &dyn Descriptor {
        struct D;
        impl Descriptor for D {
            fn name(&self) -> Option<&str> {
                Some("the wrong one")
            }
        }
        &D
    }
    pub fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(Chunk::from(false))
    }
    pub fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        panic!("the wrong finish")
    }
    pub fn is_optional(&self) -> bool {
        panic!("the wrong is_optional")
    }
    pub fn deserialize_into(_: &mut Option<Self>) -> SinkHandle<'_> {
        panic!("the wrong deserialize_into")
    }
    pub fn default() -> Self {
        panic!("the wrong default")
    }
    pub fn take(self) -> Self {
        panic!("the wrong take")
    }
}

impl Serialize for Evil {
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
    fn serialize(&self, state: &SerializerState) -> Result<Chunk<'_>, Error> {
        Serialize::serialize(&self.0, state)
    }
}

struct EvilSink<'a>(&'a mut Option<Evil>, OwnedSink<u32>);

impl<'a> Sink for EvilSink<'a> {
    fn atom(&mut self, atom: deser::Atom, state: &deser::de::DeserializerState) -> Result<(), Error> {
        self.1.borrow_mut().atom(atom, state)
    }
    fn finish(&mut self, state: &deser::de::DeserializerState) -> Result<(), Error> {
        self.1.borrow_mut().finish(state)?;
        *self.0 = self.1.take().map(Evil);
        Ok(())
    }
}

impl Deserialize for Evil {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(EvilSink(out, OwnedSink::deserialize()))
    }
}

/// The name of the value's descriptor.
pub fn name<T: Serialize>(v: &T) -> String {
    Serialize::descriptor(v).name().unwrap_or("-").to_string()
}

pub fn text<T: Serialize>(v: &T) -> String {
    deser_json::to_string(v).unwrap_or_else(|e| format!("ERROR {}", e))
}

pub fn again<T: Serialize + Deserialize>(json: &str) -> String {
    match deser_json::from_str::<T>(json) {
        Ok(v) => text(&v),
        Err(e) => format!("ERROR {}", e),
    }
}
