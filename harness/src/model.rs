//! The reference data model: events, trees, and annotated trees.
use deser::{Atom, Descriptor, ErrorKind, Event};
use std::borrow::Cow;

/// An owned atom compared bit by bit.
#[derive(Clone, Debug)]
pub enum A {
    Null,
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Char(char),
    U64(u64),
    I64(i64),
    F64(f64),
}

impl PartialEq for A {
    fn eq(&self, o: &A) -> bool {
        match (self, o) {
            (A::Null, A::Null) => true,
            (A::Bool(a), A::Bool(b)) => a == b,
            (A::Str(a), A::Str(b)) => a == b,
            (A::Bytes(a), A::Bytes(b)) => a == b,
            (A::Char(a), A::Char(b)) => a == b,
            (A::U64(a), A::U64(b)) => a == b,
            (A::I64(a), A::I64(b)) => a == b,
            (A::F64(a), A::F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            _ => false,
        }
    }
}

impl A {
    pub fn of(a: &Atom) -> A {
        match a {
            Atom::Null => A::Null,
            Atom::Bool(x) => A::Bool(*x),
            Atom::Str(x) => A::Str(x.to_string()),
            Atom::Bytes(x) => A::Bytes(x.to_vec()),
            Atom::Char(x) => A::Char(*x),
            Atom::U64(x) => A::U64(*x),
            Atom::I64(x) => A::I64(*x),
            Atom::F64(x) => A::F64(*x),
            x => panic!("unknown atom {:?}", x),
        }
    }
    pub fn atom(&self) -> Atom<'_> {
        match self {
            A::Null => Atom::Null,
            A::Bool(x) => Atom::Bool(*x),
            A::Str(x) => Atom::Str(Cow::Borrowed(x)),
            A::Bytes(x) => Atom::Bytes(Cow::Borrowed(x)),
            A::Char(x) => Atom::Char(*x),
            A::U64(x) => Atom::U64(*x),
            A::I64(x) => Atom::I64(*x),
            A::F64(x) => Atom::F64(*x),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            A::Null => "null",
            A::Bool(_) => "bool",
            A::Str(_) => "str",
            A::Bytes(_) => "bytes",
            A::Char(_) => "char",
            A::U64(_) => "u64",
            A::I64(_) => "i64",
            A::F64(_) => "f64",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Atom(A),
    MapStart,
    MapEnd,
    SeqStart,
    SeqEnd,
}

impl Ev {
    pub fn of(e: &Event) -> Ev {
        match e {
            Event::Atom(a) => Ev::Atom(A::of(a)),
            Event::MapStart => Ev::MapStart,
            Event::MapEnd => Ev::MapEnd,
            Event::SeqStart => Ev::SeqStart,
            Event::SeqEnd => Ev::SeqEnd,
        }
    }
    pub fn event(&self) -> Event<'_> {
        match self {
            Ev::Atom(a) => Event::Atom(a.atom()),
            Ev::MapStart => Event::MapStart,
            Ev::MapEnd => Event::MapEnd,
            Ev::SeqStart => Event::SeqStart,
            Ev::SeqEnd => Event::SeqEnd,
        }
    }
}

pub fn show(evs: &[Ev]) -> String {
    let mut s = String::new();
    for (i, e) in evs.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        match e {
            Ev::Atom(A::Null) => s += "null",
            Ev::Atom(A::Bool(b)) => s += &b.to_string(),
            Ev::Atom(A::Str(b)) => s += &format!("{:?}", b),
            Ev::Atom(A::Bytes(b)) => s += &format!("bytes{:?}", b),
            Ev::Atom(A::Char(b)) => s += &format!("{:?}", b),
            Ev::Atom(A::U64(b)) => s += &format!("{}u", b),
            Ev::Atom(A::I64(b)) => s += &format!("{}i", b),
            Ev::Atom(A::F64(b)) => s += &format!("{:?}f", b),
            Ev::MapStart => s.push('{'),
            Ev::MapEnd => s.push('}'),
            Ev::SeqStart => s.push('['),
            Ev::SeqEnd => s.push(']'),
        }
        if s.len() > 1500 {
            s += " ...";
            break;
        }
    }
    s
}

pub fn fingerprint(evs: &[Ev]) -> u64 {
    let mut h = 7u64;
    for e in evs {
        let x = match e {
            Ev::MapStart => 1,
            Ev::MapEnd => 2,
            Ev::SeqStart => 3,
            Ev::SeqEnd => 4,
            Ev::Atom(A::Null) => 5,
            Ev::Atom(A::Bool(b)) => 6 + *b as u64,
            Ev::Atom(A::Str(s)) => crate::util::hash_bytes(s.as_bytes()) ^ 8,
            Ev::Atom(A::Bytes(s)) => crate::util::hash_bytes(s) ^ 9,
            Ev::Atom(A::Char(c)) => 0x1000 + *c as u64,
            Ev::Atom(A::U64(c)) => crate::util::mix(*c ^ 0x77),
            Ev::Atom(A::I64(c)) => crate::util::mix(*c as u64 ^ 0x78),
            Ev::Atom(A::F64(c)) => crate::util::mix(c.to_bits() ^ 0x79),
        };
        h = crate::util::mix(h ^ x).wrapping_mul(31);
    }
    h
}

/// What a descriptor says.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct D {
    pub name: Option<String>,
    pub precision: Option<usize>,
    pub unordered: bool,
}

impl D {
    pub fn of(d: &dyn Descriptor) -> D {
        D { name: d.name().map(|x| x.to_string()), precision: d.precision(), unordered: d.unordered() }
    }
    pub fn named(n: &str) -> D {
        D { name: Some(n.into()), ..D::default() }
    }
    pub fn num(n: &str, p: usize) -> D {
        D { name: Some(n.into()), precision: Some(p), unordered: false }
    }
    pub fn unord(n: &str) -> D {
        D { name: Some(n.into()), precision: None, unordered: true }
    }
}

/// A value as serialization must show it.
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub k: MK,
    pub d: D,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MK {
    Atom(A),
    Map(Vec<(M, M)>),
    Seq(Vec<M>),
}

impl M {
    pub fn atom(a: A, d: D) -> M {
        M { k: MK::Atom(a), d }
    }
    pub fn is_null(&self) -> bool {
        matches!(self.k, MK::Atom(A::Null))
    }
    pub fn events(&self) -> Vec<Ev> {
        let mut v = vec![];
        self.push(&mut v);
        v
    }
    fn push(&self, v: &mut Vec<Ev>) {
        match &self.k {
            MK::Atom(a) => v.push(Ev::Atom(a.clone())),
            MK::Map(m) => {
                v.push(Ev::MapStart);
                for (a, b) in m {
                    a.push(v);
                    b.push(v);
                }
                v.push(Ev::MapEnd);
            }
            MK::Seq(s) => {
                v.push(Ev::SeqStart);
                for a in s {
                    a.push(v);
                }
                v.push(Ev::SeqEnd);
            }
        }
    }
    /// The complete trace a consumer has to see.
    pub fn trace(&self) -> Vec<Traced> {
        let mut v = vec![];
        self.trace_into(&mut v, &mut vec![]);
        v
    }
    fn trace_into(&self, v: &mut Vec<Traced>, stack: &mut Vec<D>) {
        let mut put = |ev: Ev, stack: &Vec<D>| {
            v.push(Traced { ev, d: self.d.clone(), depth: stack.len(), top: stack.last().cloned() })
        };
        match &self.k {
            MK::Atom(a) => put(Ev::Atom(a.clone()), stack),
            MK::Map(m) => {
                stack.push(self.d.clone());
                put(Ev::MapStart, stack);
                for (a, b) in m {
                    a.trace_into(v, stack);
                    b.trace_into(v, stack);
                }
                stack.pop();
                v.push(Traced { ev: Ev::MapEnd, d: self.d.clone(), depth: stack.len(), top: stack.last().cloned() });
            }
            MK::Seq(s) => {
                stack.push(self.d.clone());
                put(Ev::SeqStart, stack);
                for a in s {
                    a.trace_into(v, stack);
                }
                stack.pop();
                v.push(Traced { ev: Ev::SeqEnd, d: self.d.clone(), depth: stack.len(), top: stack.last().cloned() });
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Traced {
    pub ev: Ev,
    pub d: D,
    pub depth: usize,
    pub top: Option<D>,
}

/// An event tree with the position of its events.
#[derive(Clone, Debug)]
pub struct N {
    pub k: NK,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub enum NK {
    Atom(A),
    Map(Vec<(N, N)>),
    Seq(Vec<N>),
}

impl N {
    pub fn parse(evs: &[Ev]) -> N {
        let mut pos = 0;
        let n = N::parse_at(evs, &mut pos);
        assert_eq!(pos, evs.len(), "trailing events");
        n
    }
    fn parse_at(evs: &[Ev], pos: &mut usize) -> N {
        let start = *pos;
        *pos += 1;
        match &evs[start] {
            Ev::Atom(a) => N { k: NK::Atom(a.clone()), start, end: start },
            Ev::SeqStart => {
                let mut v = vec![];
                while evs[*pos] != Ev::SeqEnd {
                    v.push(N::parse_at(evs, pos));
                }
                *pos += 1;
                N { k: NK::Seq(v), start, end: *pos - 1 }
            }
            Ev::MapStart => {
                let mut v = vec![];
                while evs[*pos] != Ev::MapEnd {
                    let k = N::parse_at(evs, pos);
                    let x = N::parse_at(evs, pos);
                    v.push((k, x));
                }
                *pos += 1;
                N { k: NK::Map(v), start, end: *pos - 1 }
            }
            e => panic!("bad tree at {}: {:?}", start, e),
        }
    }
}

/// The first mismatch of a stream.
#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    pub kind: ErrorKind,
    pub at: usize,
}

pub fn fail<T>(kind: ErrorKind, at: usize) -> Result<T, Fail> {
    Err(Fail { kind, at })
}

/// Plain tree for building streams.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    A(A),
    Map(Vec<(T, T)>),
    Seq(Vec<T>),
}

impl T {
    pub fn of_events(evs: &[Ev]) -> T {
        fn conv(n: &N) -> T {
            match &n.k {
                NK::Atom(a) => T::A(a.clone()),
                NK::Map(m) => T::Map(m.iter().map(|(a, b)| (conv(a), conv(b))).collect()),
                NK::Seq(m) => T::Seq(m.iter().map(conv).collect()),
            }
        }
        conv(&N::parse(evs))
    }
    pub fn events(&self) -> Vec<Ev> {
        let mut v = vec![];
        self.push(&mut v);
        v
    }
    pub fn push(&self, v: &mut Vec<Ev>) {
        match self {
            T::A(a) => v.push(Ev::Atom(a.clone())),
            T::Map(m) => {
                v.push(Ev::MapStart);
                for (a, b) in m {
                    a.push(v);
                    b.push(v);
                }
                v.push(Ev::MapEnd);
            }
            T::Seq(m) => {
                v.push(Ev::SeqStart);
                for a in m {
                    a.push(v);
                }
                v.push(Ev::SeqEnd);
            }
        }
    }
    pub fn size(&self) -> usize {
        match self {
            T::A(_) => 1,
            T::Map(m) => 2 + m.iter().map(|(a, b)| a.size() + b.size()).sum::<usize>(),
            T::Seq(m) => 2 + m.iter().map(|a| a.size()).sum::<usize>(),
        }
    }
}
