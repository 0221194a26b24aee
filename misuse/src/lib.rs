//! What the programs in bin/ share.  Each of them uses the safe API in a way that would touch
//! dead or aliased memory if the compiler let it through; it must not.
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, Serialize, SerializeHandle, SerializerState, SeqEmitter};
use deser::{Atom, Descriptor, Error};

/// A value with memory of its own.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Val(pub Box<u64>, pub String);

impl Val {
    pub fn new() -> Val {
        Val(Box::new(7), "text".repeat(3))
    }
    pub fn look(&self) {
        assert_eq!(*self.0, 7);
        assert!(self.1.starts_with("text"));
    }
}

pub struct Desc(pub String);
impl Descriptor for Desc {
    fn name(&self) -> Option<&str> {
        Some(&self.0)
    }
}

/// A sequence of values, made as it goes, with a descriptor in memory.
pub struct Many(pub Vec<Val>, pub Desc);
impl Many {
    pub fn new() -> Many {
        Many(vec![Val::new(), Val::new()], Desc("many".to_string()))
    }
}
struct Em<'a>(&'a Many, usize, Option<Val>);
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.1 += 1;
        self.2 = self.0 .0.get(self.1 - 1).cloned();
        Ok(self.2.as_ref().map(SerializeHandle::to))
    }
}
impl Serialize for Many {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(Chunk::Seq(Box::new(Em(self, 0, None))))
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.1
    }
}
impl Serialize for Val {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.look();
        Ok(Chunk::Atom(Atom::Str(self.1[..].into())))
    }
    fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        self.look();
        Ok(())
    }
}

pub struct ValSink<'a> {
    pub out: &'a mut Option<Val>,
    pub own: Box<u64>,
    pub children: Vec<Option<Val>>,
}
impl<'a> Sink for ValSink<'a> {
    fn atom(&mut self, _: Atom, _: &DeserializerState) -> Result<(), Error> {
        *self.own += 1;
        *self.out = Some(Val::new());
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        *self.own += 1;
        Ok(())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.children = vec![None];
        Ok(Val::deserialize_into(&mut self.children[0]))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        *self.own += 1;
        *self.out = Some(Val::new());
        Ok(())
    }
}
impl Deserialize for Val {
    fn deserialize_into(out: &mut Option<Val>) -> SinkHandle<'_> {
        SinkHandle::boxed(ValSink { out, own: Box::new(1), children: vec![] })
    }
}
