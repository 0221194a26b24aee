//! Element values that have to be dropped exactly once.
use crate::gen::Gen;
use crate::model::{T as Tr, *};
use crate::probe::{cb, pdesc, sink_desc, Rec, Tok};
use crate::probe_ser::NT;
use crate::zoo::*;
use deser::de::{DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, SerializerState};
use deser::{Atom, Deserialize, Descriptor, Error, ErrorKind, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// A small number together with something on the heap and a ledger entry.
#[derive(Debug)]
pub struct E {
    pub n: u64,
    heap: Box<u64>,
    tok: Tok,
}

impl E {
    pub fn new(n: u64) -> E {
        E { n, heap: Box::new(n), tok: Tok::new("element") }
    }
    pub fn ok(&self) -> bool {
        self.tok.intact() && *self.heap == self.n
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        E::new(self.n)
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.n == o.n
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        self.n.cmp(&o.n)
    }
}
impl std::hash::Hash for E {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.n.hash(h)
    }
}
impl Default for E {
    fn default() -> E {
        E::new(77)
    }
}

thread_local! {
    static EARLY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether elements are put in their slots when their atom comes, or only when they are finished.
pub fn set_early(early: bool) {
    EARLY.with(|e| e.set(early));
}

struct ESink<'a> {
    out: &'a mut Option<E>,
    held: Option<E>,
    tok: Tok,
}

impl<'a> Sink for ESink<'a> {
    fn atom(&mut self, atom: Atom, st: &DeserializerState) -> Result<(), Error> {
        self.tok.assert_alive("element sink");
        match atom {
            Atom::U64(n) if n <= 100 => {
                let e = Some(E::new(n));
                if EARLY.with(|e| e.get()) {
                    *self.out = e;
                } else {
                    self.held = e;
                }
                cb(st, |v| Rec::Map { id: 0, v })
            }
            Atom::U64(n) if n <= 200 => Err(Error::new(ErrorKind::OutOfRange, "too big")),
            other => self.unexpected_atom(other, st),
        }
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.tok.assert_alive("element sink");
        cb(st, |v| Rec::SinkFin { id: 0, v })?;
        if !EARLY.with(|e| e.get()) {
            *self.out = self.held.take();
        }
        Ok(())
    }
}

impl Deserialize for E {
    fn deserialize_into(out: &mut Option<E>) -> SinkHandle<'_> {
        SinkHandle::boxed(ESink { out, held: None, tok: Tok::new("element sink") })
    }
}

impl Serialize for E {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        cb(st, |v| Rec::Ser { id: 0, v })?;
        Ok(Chunk::Atom(Atom::U64(self.n)))
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        cb(st, |v| Rec::Fin { id: 0, v })
    }
    fn descriptor(&self) -> &dyn Descriptor {
        sink_desc(0)
    }
}

impl Zoo for E {
    fn arb(g: &mut Gen) -> E {
        E::new(g.r.below(6))
    }
    fn model(&self) -> M {
        M::atom(A::U64(self.n), pdesc(0))
    }
    fn de(n: &N) -> Result<E, Fail> {
        match atom_of(n)? {
            A::U64(x) if *x <= 100 => Ok(E::new(*x)),
            A::U64(x) if *x <= 200 => fail(ErrorKind::OutOfRange, n.start),
            _ => fail(ErrorKind::Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &E) -> bool {
        assert!(o.ok() && self.ok(), "a value that is not alive");
        self == o
    }
}

#[derive(Serialize, Deserialize, Debug)]
pub struct TS {
    pub a: E,
    #[deser(default)]
    pub b: Vec<E>,
    #[deser(flatten)]
    pub f: TF,
    pub g: Option<[E; 2]>,
    pub m: BTreeMap<E, E>,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct TF {
    pub c: E,
    pub d: Option<E>,
    #[deser(flatten)]
    pub o: Option<Box<TG>>,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct TG {
    pub t: (E, E),
    pub u: NT<E>,
}

#[derive(Serialize, Deserialize, Debug, Default)]
#[deser(default)]
pub struct TD {
    pub a: E,
    pub b: Vec<E>,
    pub c: Option<E>,
}

/// A type with a source of streams that fit it.
pub trait Tracked: Deserialize + Serialize + 'static {
    fn stream(g: &mut Gen) -> Tr;
    fn value(g: &mut Gen) -> Self;
}

macro_rules! tracked {
    ($($t:ty),* $(,)?) => {
        $(impl Tracked for $t {
            fn stream(g: &mut Gen) -> Tr { <$t as Zoo>::fit(g) }
            fn value(g: &mut Gen) -> Self { <$t as Zoo>::arb(g) }
        })*
        pub fn visit<V: TVisitor>(v: &mut V) {
            $(v.visit::<$t>(stringify!($t));)*
            v.visit::<TS>("TS");
            v.visit::<TD>("TD");
            v.visit::<NT<Vec<E>>>("NT<Vec<E>>");
        }
    };
}

pub trait TVisitor {
    fn visit<T: Tracked>(&mut self, name: &'static str);
}

tracked!(
    E, Box<E>, Option<E>, Option<Box<E>>, Option<Option<E>>,
    Vec<E>, Vec<Vec<E>>, Vec<Option<E>>, Vec<Box<E>>, Option<Vec<E>>, Box<Vec<E>>,
    [E; 0], [E; 1], [E; 2], [E; 3], [E; 9], [[E; 2]; 3], [Vec<E>; 2], [Option<E>; 3], [(E, E); 2], Vec<[E; 2]>,
    (E,), (E, E), (E, E, E), (E, (E, E), [E; 2]), (Vec<E>, E, [E; 2]), (E, E, E, E, E, E, E, E, E, E, E, E),
    (Option<E>, E), (u8, E, String, E),
    BTreeMap<E, E>, BTreeMap<String, E>, BTreeMap<E, [E; 2]>, BTreeMap<(E, E), Vec<E>>, BTreeMap<String, BTreeMap<String, E>>,
    HashMap<E, E>, HashMap<String, E>, HashMap<E, (E, E)>, Vec<HashMap<E, E>>,
    BTreeSet<E>, HashSet<E>, BTreeSet<(E, E)>, HashSet<Vec<E>>, BTreeSet<BTreeSet<E>>, Vec<BTreeSet<E>>,
    BTreeMap<BTreeSet<E>, E>, Option<[E; 4]>, Box<[E; 2]>, Option<(E, E)>, BTreeMap<Option<E>, Option<E>>,
    BTreeMap<Vec<E>, E>,
);

fn k(s: &str, t: Tr) -> (Tr, Tr) {
    (Tr::A(A::Str(s.into())), t)
}

fn shuffle(g: &mut Gen, mut v: Vec<(Tr, Tr)>) -> Tr {
    for i in (1..v.len()).rev() {
        let j = g.r.idx(i + 1);
        v.swap(i, j);
    }
    if g.r.chance(1, 3) {
        let i = g.r.idx(v.len());
        let x = v[i].clone();
        v.insert(0, x);
    }
    if g.r.chance(1, 4) {
        let i = g.r.idx(v.len());
        v.remove(i);
    }
    if g.r.chance(1, 4) {
        let mut b = 8;
        let t = crate::gen::tree(g.r, 3, &mut b);
        v.push(k("unknown", t));
    }
    Tr::Map(v)
}

impl Tracked for TS {
    fn stream(g: &mut Gen) -> Tr {
        let mut v = vec![
            k("a", E::fit(g)),
            k("b", Vec::<E>::fit(g)),
            k("g", Option::<[E; 2]>::fit(g)),
            k("m", BTreeMap::<E, E>::fit(g)),
            k("c", E::fit(g)),
            k("d", Option::<E>::fit(g)),
        ];
        if g.r.bool() {
            v.push(k("t", <(E, E)>::fit(g)));
            v.push(k("u", E::fit(g)));
        }
        shuffle(g, v)
    }
    fn value(g: &mut Gen) -> TS {
        TS {
            a: E::arb(g),
            b: Vec::arb(g),
            f: TF {
                c: E::arb(g),
                d: Option::arb(g),
                // an absent flattened struct cannot be serialized
                o: Some(Box::new(TG { t: Zoo::arb(g), u: NT(E::arb(g)) })),
            },
            g: Option::arb(g),
            m: BTreeMap::arb(g),
        }
    }
}

impl Tracked for TD {
    fn stream(g: &mut Gen) -> Tr {
        let v = vec![k("a", E::fit(g)), k("b", Vec::<E>::fit(g)), k("c", Option::<E>::fit(g))];
        shuffle(g, v)
    }
    fn value(g: &mut Gen) -> TD {
        TD { a: E::arb(g), b: Vec::arb(g), c: Option::arb(g) }
    }
}

impl Tracked for NT<Vec<E>> {
    fn stream(g: &mut Gen) -> Tr {
        Vec::<E>::fit(g)
    }
    fn value(g: &mut Gen) -> Self {
        NT(Vec::arb(g))
    }
}
