//! A user written value with any content and descriptors.
use crate::model::*;
use crate::probe::PDesc;
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState};
use deser::{Descriptor, Error};

/// A value with any descriptor.
pub struct V {
    pub d: PDesc,
    pub k: K,
}

pub enum K {
    Atom(A),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
}

struct Em<'a>(&'a V, usize);

impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.1 += 1;
        match &self.0.k {
            K::Seq(v) => Ok(v.get(self.1 - 1).map(SerializeHandle::to)),
            _ => unreachable!(),
        }
    }
}

impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.1 += 1;
        match &self.0.k {
            K::Map(v) => Ok(v.get(self.1 - 1).map(|x| SerializeHandle::to(&x.0))),
            _ => unreachable!(),
        }
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        match &self.0.k {
            K::Map(v) => Ok(SerializeHandle::to(&v[self.1 - 1].1)),
            _ => unreachable!(),
        }
    }
}

impl Serialize for V {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(match &self.k {
            K::Atom(a) => Chunk::Atom(a.atom()),
            K::Seq(_) => Chunk::Seq(Box::new(Em(self, 0))),
            K::Map(_) => Chunk::Map(Box::new(Em(self, 0))),
        })
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.d
    }
}

pub fn value(m: &M) -> V {
    V {
        d: PDesc(m.d.clone()),
        k: match &m.k {
            MK::Atom(a) => K::Atom(a.clone()),
            MK::Seq(v) => K::Seq(v.iter().map(value).collect()),
            MK::Map(v) => K::Map(v.iter().map(|(a, b)| (value(a), value(b))).collect()),
        },
    }
}

/// A value without descriptors.
pub fn plain(t: &T) -> V {
    V {
        d: PDesc(D::default()),
        k: match t {
            T::A(a) => K::Atom(a.clone()),
            T::Seq(v) => K::Seq(v.iter().map(plain).collect()),
            T::Map(v) => K::Map(v.iter().map(|(a, b)| (plain(a), plain(b))).collect()),
        },
    }
}
