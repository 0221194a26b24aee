//! Hostile values and sinks with as little bookkeeping as possible, for Miri: all of them look
//! at everything they are shown, own heap memory and touch what they borrow when they are
//! dropped, so that anything that is not alive any more is noticed by the interpreter.
#![allow(non_local_definitions)]
use deser::de::{Deserialize, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
};
use deser::{Atom, Descriptor, Error, ErrorKind, Event};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, n: u64) -> Rng {
        Rng((seed ^ n.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_mul(0xbf58476d1ce4e5b9) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545f4914f6cdd1d) >> 11
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
}

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static FAULT: Cell<u64> = const { Cell::new(0) };
    static PANIC: Cell<bool> = const { Cell::new(false) };
    static DROP_FAULT: Cell<u64> = const { Cell::new(0) };
    static SUM: Cell<u64> = const { Cell::new(0) };
    static BITS: Cell<u64> = const { Cell::new(1) };
    /// 0 atom, 1 map, 2 sequence: what the feeder sends next
    static NEXT: Cell<u8> = const { Cell::new(0) };
}

pub fn reset(seed: u64, fault: u64, panics: bool, drop_fault: u64) {
    CALLS.with(|c| c.set(0));
    DROPS.with(|c| c.set(0));
    FAULT.with(|c| c.set(fault));
    PANIC.with(|c| c.set(panics));
    DROP_FAULT.with(|c| c.set(drop_fault));
    BITS.with(|c| c.set(seed | 1));
}

pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
pub fn calm() {
    FAULT.with(|c| c.set(0));
    DROP_FAULT.with(|c| c.set(0));
}
pub fn expect(kind: u8) {
    NEXT.with(|c| c.set(kind));
}

fn bits(n: u64) -> u64 {
    BITS.with(|c| {
        let mut r = Rng(c.get());
        let x = r.below(n);
        c.set(r.0);
        x
    })
}

/// Uses a number so that it has to be read.
pub fn eat(x: u64) {
    SUM.with(|s| s.set(s.get().wrapping_mul(31).wrapping_add(x)));
}
pub fn clear_sum() {
    SUM.with(|s| s.set(0));
}
pub fn sum() -> u64 {
    SUM.with(|s| s.get())
}
pub fn look(b: &[u8]) {
    for x in b {
        eat(*x as u64);
    }
}
pub fn look_desc(d: &dyn Descriptor) {
    if let Some(n) = d.name() {
        look(n.as_bytes());
    }
    eat(d.precision().unwrap_or(0) as u64 + d.unordered() as u64);
}
pub fn look_atom(a: &Atom) {
    match a {
        Atom::Str(s) => {
            look(s.as_bytes());
            assert!(std::str::from_utf8(s.as_bytes()).is_ok(), "UNSOUND: a str that is not UTF-8");
        }
        Atom::Bytes(b) => look(b),
        Atom::U64(x) => eat(*x),
        Atom::I64(x) => eat(*x as u64),
        Atom::F64(x) => eat(x.to_bits()),
        Atom::Bool(x) => eat(*x as u64),
        Atom::Char(x) => eat(*x as u64),
        _ => {}
    }
}
pub fn look_event(e: &Event) {
    if let Event::Atom(a) = e {
        look_atom(a);
    }
}

fn tick() -> Result<(), Error> {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == FAULT.with(|c| c.get()) {
        if PANIC.with(|c| c.get()) {
            std::panic::panic_any("injected");
        }
        return Err(Error::new(ErrorKind::Unexpected, "injected"));
    }
    Ok(())
}

#[derive(Debug, Default)]
pub struct Ext1(pub u64, Option<Box<u64>>);
#[derive(Debug, Default)]
pub struct Ext2(pub u8, pub String);

macro_rules! step {
    ($name:ident, $t:ident) => {
        fn $name(st: &$t) -> Result<(), Error> {
            eat(st.depth() as u64);
            if let Some(d) = st.top_descriptor() {
                look_desc(d);
            }
            match bits(6) {
                0 => {
                    let mut e = st.get_mut::<Ext1>();
                    e.0 += 1;
                    e.1 = Some(Box::new(7));
                }
                1 => eat(st.get::<Ext1>().1.as_ref().map_or(0, |x| **x)),
                2 => st.get_mut::<Ext2>().1.push('x'),
                _ => {}
            }
            tick()
        }
    };
}
step!(step_de, DeserializerState);
step!(step_ser, SerializerState);

/// Heap memory that is looked at when it goes away.
#[derive(Debug, Clone)]
pub struct Heap(Box<u64>);

impl Heap {
    pub fn new() -> Heap {
        Heap(Box::new(0x5afe))
    }
    pub fn look(&self) {
        assert_eq!(*self.0, 0x5afe, "UNSOUND: memory that is not alive");
    }
}
impl Default for Heap {
    fn default() -> Heap {
        Heap::new()
    }
}
impl Drop for Heap {
    fn drop(&mut self) {
        self.look();
        *self.0 = 0xdead;
        let n = DROPS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if n == DROP_FAULT.with(|c| c.get()) && !std::thread::panicking() {
            std::panic::panic_any("injected drop");
        }
    }
}

// ---------------------------------------------------------------- values

#[derive(Debug, Clone)]
pub struct Desc(String);

impl Descriptor for Desc {
    fn name(&self) -> Option<&str> {
        Some(&self.0)
    }
    fn precision(&self) -> Option<usize> {
        Some(self.0.len())
    }
}

#[derive(Debug, Clone)]
pub enum V {
    U(u64, Heap),
    S(String, Heap),
    B(Vec<u8>, Heap),
    Null(Heap),
    Seq(Vec<V>, Heap, u8, Arc<Desc>),
    Map(Vec<(V, V)>, Heap, u8, Arc<Desc>),
    Struct(Vec<(String, V)>, Heap, u8, Arc<Desc>),
}

impl V {
    pub fn look(&self) {
        match self {
            V::U(x, h) => {
                eat(*x);
                h.look()
            }
            V::S(s, h) => {
                look(s.as_bytes());
                h.look()
            }
            V::B(b, h) => {
                look(b);
                h.look()
            }
            V::Null(h) | V::Seq(_, h, ..) | V::Map(_, h, ..) | V::Struct(_, h, ..) => h.look(),
        }
    }
    fn rank(&self) -> (u8, u64, &[u8]) {
        match self {
            V::U(x, _) => (0, *x, &[]),
            V::S(s, _) => (1, 0, s.as_bytes()),
            V::B(b, _) => (2, 0, b),
            V::Null(_) => (3, 0, &[]),
            V::Seq(v, ..) => (4, v.len() as u64, &[]),
            V::Map(v, ..) => (5, v.len() as u64, &[]),
            V::Struct(v, ..) => (6, v.len() as u64, &[]),
        }
    }
    pub fn random(r: &mut Rng, depth: u64) -> V {
        let h = Heap::new();
        let n = r.below(3);
        if depth == 0 || r.chance(1, 4) {
            return match r.below(4) {
                0 => V::U(r.below(9), h),
                1 => V::S("ab".into(), h),
                2 => V::B(vec![1, 2], h),
                _ => V::Null(h),
            };
        }
        let how = r.below(8) as u8;
        let d = Arc::new(Desc("desc".into()));
        match r.below(3) {
            0 => V::Seq((0..n + 1).map(|_| V::random(r, depth - 1)).collect(), h, how, d),
            1 => V::Map((0..n).map(|_| (V::random(r, depth / 2), V::random(r, depth - 1))).collect(), h, how, d),
            _ => V::Struct((0..n + 1).map(|i| (format!("k{}", i), V::random(r, depth - 1))).collect(), h, how, d),
        }
    }
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.rank() == o.rank()
    }
}
impl Eq for V {}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> std::cmp::Ordering {
        self.rank().cmp(&o.rank())
    }
}

/// A value that borrows from the emitter that made it, or from its parent.
struct Lent<'a>(&'a V, Heap, Desc);

impl<'a> Drop for Lent<'a> {
    fn drop(&mut self) {
        self.0.look();
        self.1.look();
    }
}
impl<'a> Serialize for Lent<'a> {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.1.look();
        self.0.serialize(st)
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        self.1.look();
        self.0.finish(st)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.2
    }
}

/// Hands out its children in all possible ways.
struct Em<'a> {
    v: &'a V,
    n: usize,
    how: u8,
    scratch: Option<V>,
    heap: Heap,
}

impl<'a> Drop for Em<'a> {
    fn drop(&mut self) {
        self.v.look();
        self.heap.look();
    }
}

#[derive(Debug)]
struct Nt<T>(T);
impl<T: Serialize> Serialize for Nt<T> {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.0.serialize(st)
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        self.0.finish(st)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
}

fn hand<'b>(c: &'b V, how: u8, scratch: &'b mut Option<V>) -> SerializeHandle<'b> {
    match how {
        0 => SerializeHandle::to(c),
        1 => SerializeHandle::boxed(c.clone()),
        2 => SerializeHandle::boxed(Lent(c, Heap::new(), Desc("lent".into()))),
        3 => {
            let c: &V = scratch.insert(c.clone());
            SerializeHandle::boxed(Lent(c, Heap::new(), Desc("lent".into())))
        }
        4 => SerializeHandle::to(scratch.insert(c.clone())),
        5 => SerializeHandle::boxed(Some(c)),
        6 => SerializeHandle::boxed(Nt(Box::new(Lent(c, Heap::new(), Desc("lent".into()))))),
        _ => SerializeHandle::boxed(deser_path::PathSerializable::wrap_ref(SerializeHandle::to(c))),
    }
}

impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.heap.look();
        step_ser(st)?;
        let V::Seq(v, ..) = self.v else { unreachable!() };
        self.n += 1;
        Ok(v.get(self.n - 1).map(|c| hand(c, (self.how + self.n as u8) % 8, &mut self.scratch)))
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.heap.look();
        step_ser(st)?;
        let V::Map(v, ..) = self.v else { unreachable!() };
        self.n += 1;
        Ok(v.get(self.n - 1).map(|c| hand(&c.0, (self.how + self.n as u8) % 8, &mut self.scratch)))
    }
    fn next_value(&mut self, st: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        self.heap.look();
        step_ser(st)?;
        let V::Map(v, ..) = self.v else { unreachable!() };
        Ok(hand(&v[self.n - 1].1, (self.how + 3 + self.n as u8) % 8, &mut self.scratch))
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, st: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        self.heap.look();
        step_ser(st)?;
        let V::Struct(v, ..) = self.v else { unreachable!() };
        self.n += 1;
        let how = (self.how + self.n as u8) % 8;
        Ok(v.get(self.n - 1).map(|(k, c)| {
            let k = if how % 2 == 0 { Cow::Borrowed(&k[..]) } else { Cow::Owned(k.clone()) };
            (k, hand(c, how, &mut self.scratch))
        }))
    }
}

impl Serialize for V {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.look();
        step_ser(st)?;
        let em = |how: u8| Em { v: self, n: 0, how, scratch: None, heap: Heap::new() };
        Ok(match self {
            V::U(x, _) => Chunk::Atom(Atom::U64(*x)),
            V::S(x, _) => Chunk::Atom(Atom::Str(Cow::Borrowed(x))),
            V::B(x, _) => Chunk::Atom(Atom::Bytes(Cow::Borrowed(x))),
            V::Null(_) => Chunk::Atom(Atom::Null),
            V::Seq(_, _, how, _) => Chunk::Seq(Box::new(em(*how))),
            V::Map(_, _, how, _) => Chunk::Map(Box::new(em(*how))),
            V::Struct(_, _, how, _) => Chunk::Struct(Box::new(em(*how))),
        })
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        self.look();
        step_ser(st)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        match self {
            V::Seq(_, _, _, d) | V::Map(_, _, _, d) | V::Struct(_, _, _, d) => &**d,
            _ => &LeafDesc,
        }
    }
}

struct LeafDesc;
impl Descriptor for LeafDesc {
    fn name(&self) -> Option<&str> {
        Some("leaf")
    }
}

// ---------------------------------------------------------------- sinks

enum Slot {
    V(Option<V>),
    W(Option<W>),
    Opt(Option<Option<W>>),
    Box(Option<Box<V>>),
    New(Option<New>),
    Vec(Option<Vec<W>>),
    VecOpt(Option<Vec<Option<Box<V>>>>),
    Arr(Option<[W; 2]>),
    ArrBox(Option<[Box<V>; 1]>),
    Tup(Option<(W, Option<W>)>),
    Map(Option<BTreeMap<W, W>>),
    Set(Option<BTreeSet<W>>),
    Rec(Option<Rec>),
    RecBox(Option<Box<Rec>>),
    OptRec(Option<Option<Rec>>),
    Num(Option<u64>),
    Str(Option<String>),
    Bytes(Option<Vec<u8>>),
    Own(Option<Own>),
    Nothing,
}

#[derive(Debug, deser::Deserialize, deser::Serialize)]
pub struct New(V);

#[derive(Debug, deser::Deserialize, deser::Serialize)]
pub struct Rec {
    #[deser(default)]
    k0: Vec<W>,
    k1: Option<W>,
    #[deser(flatten)]
    f: Flat,
    #[deser(default)]
    heap: Keep,
}

#[derive(Debug, deser::Deserialize, deser::Serialize, Default)]
#[deser(default)]
pub struct Flat {
    k2: Option<[V; 1]>,
    #[deser(flatten)]
    g: Flat2,
}

#[derive(Debug, deser::Deserialize, deser::Serialize, Default)]
#[deser(default, skip_serializing_optionals)]
pub struct Flat2 {
    k3: Option<Box<V>>,
    heap2: Keep,
}

/// A number with memory.
#[derive(Debug, Default)]
pub struct Keep(Heap);

deser::make_slot_wrapper!(KeepSlot);
impl Sink for KeepSlot<Keep> {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        step_de(st)?;
        look_atom(&a);
        **self = Some(Keep::default());
        Ok(())
    }
}
impl Deserialize for Keep {
    fn deserialize_into(out: &mut Option<Keep>) -> SinkHandle<'_> {
        KeepSlot::make_handle(out)
    }
}
impl Serialize for Keep {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        step_ser(st)?;
        self.0.look();
        Ok(Chunk::Atom(Atom::U64(1)))
    }
}

/// A user's own wrapper over an `OwnedSink`.
#[derive(Debug)]
pub struct Own(#[allow(dead_code)] V);
struct OwnSink<'a> {
    out: &'a mut Option<Own>,
    sink: OwnedSink<V>,
}
impl Deserialize for Own {
    fn deserialize_into(out: &mut Option<Own>) -> SinkHandle<'_> {
        SinkHandle::boxed(OwnSink { out, sink: OwnedSink::deserialize() })
    }
}
impl<'a> Sink for OwnSink<'a> {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().atom(a, st)
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().map(st)
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().seq(st)
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.sink.borrow_mut().next_key(st)
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.sink.borrow_mut().next_value(st)
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().finish(st)?;
        *self.out = self.sink.take().map(Own);
        // looks at the state once more
        step_de(st)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.sink.borrow().descriptor()
    }
}

impl Slot {
    fn handle(&mut self) -> SinkHandle<'_> {
        match self {
            Slot::V(x) => Deserialize::deserialize_into(x),
            Slot::W(x) => Deserialize::deserialize_into(x),
            Slot::Opt(x) => Deserialize::deserialize_into(x),
            Slot::Box(x) => Deserialize::deserialize_into(x),
            Slot::New(x) => Deserialize::deserialize_into(x),
            Slot::Vec(x) => Deserialize::deserialize_into(x),
            Slot::VecOpt(x) => Deserialize::deserialize_into(x),
            Slot::Arr(x) => Deserialize::deserialize_into(x),
            Slot::ArrBox(x) => Deserialize::deserialize_into(x),
            Slot::Tup(x) => Deserialize::deserialize_into(x),
            Slot::Map(x) => Deserialize::deserialize_into(x),
            Slot::Set(x) => Deserialize::deserialize_into(x),
            Slot::Rec(x) => Deserialize::deserialize_into(x),
            Slot::RecBox(x) => Deserialize::deserialize_into(x),
            Slot::OptRec(x) => Deserialize::deserialize_into(x),
            Slot::Num(x) => Deserialize::deserialize_into(x),
            Slot::Str(x) => Deserialize::deserialize_into(x),
            Slot::Bytes(x) => Deserialize::deserialize_into(x),
            Slot::Own(x) => Deserialize::deserialize_into(x),
            Slot::Nothing => SinkHandle::null(),
        }
    }
    /// A slot for what comes next.
    fn random() -> Slot {
        let any = bits(10);
        match any {
            0 => return Slot::Opt(None),
            1 => return Slot::Box(None),
            2 => return Slot::New(None),
            3 => return Slot::Own(None),
            4 => return Slot::Nothing,
            5 => return Slot::V(None),
            6 => return Slot::W(None),
            _ => {}
        }
        match (NEXT.with(|c| c.get()), bits(6)) {
            (0, 0) => Slot::Num(None),
            (0, 1) => Slot::Str(None),
            (0, 2) => Slot::Bytes(None),
            (0, _) => Slot::W(None),
            (1, 0) => Slot::Map(None),
            (1, 1) => Slot::Rec(None),
            (1, 2) => Slot::RecBox(None),
            (1, 3) => Slot::OptRec(None),
            (1, _) => Slot::Rec(None),
            (_, 0) => Slot::Vec(None),
            (_, 1) => Slot::VecOpt(None),
            (_, 2) => Slot::Arr(None),
            (_, 3) => Slot::ArrBox(None),
            (_, 4) => Slot::Tup(None),
            (_, _) => Slot::Set(None),
        }
    }
    fn take(&mut self) -> V {
        match std::mem::replace(self, Slot::Nothing) {
            Slot::V(Some(x)) => x,
            Slot::W(Some(x)) => x.0,
            Slot::Opt(Some(Some(x))) => x.0,
            Slot::Box(Some(x)) => *x,
            Slot::New(Some(x)) => x.0,
            Slot::Own(Some(x)) => x.0,
            Slot::Vec(Some(v)) => V::Seq(v.into_iter().map(|x| x.0).collect(), Heap::new(), 0, desc()),
            Slot::Arr(Some(v)) => V::Seq(v.into_iter().map(|x| x.0).collect(), Heap::new(), 0, desc()),
            Slot::Map(Some(v)) => V::Map(v.into_iter().map(|(a, b)| (a.0, b.0)).collect(), Heap::new(), 0, desc()),
            Slot::Set(Some(v)) => V::Seq(v.into_iter().map(|x| x.0).collect(), Heap::new(), 0, desc()),
            Slot::Num(Some(n)) => V::U(n, Heap::new()),
            Slot::Str(Some(n)) => V::S(n, Heap::new()),
            Slot::Bytes(Some(n)) => V::B(n, Heap::new()),
            Slot::VecOpt(Some(v)) => {
                V::Seq(v.into_iter().map(|x| x.map_or(V::Null(Heap::new()), |x| *x)).collect(), Heap::new(), 0, desc())
            }
            Slot::Tup(Some((a, b))) => V::Seq([Some(a), b].into_iter().flatten().map(|x| x.0).collect(), Heap::new(), 0, desc()),
            _ => V::Null(Heap::new()),
        }
    }
}

fn desc() -> Arc<Desc> {
    Arc::new(Desc("back".into()))
}

/// Accepts everything; children live in its own slot.
struct CS<'a, T: Make> {
    out: &'a mut Option<T>,
    kind: u8,
    atom: Option<V>,
    slot: Slot,
    path: bool,
    key: Option<V>,
    name: Option<String>,
    pairs: Vec<(V, V)>,
    items: Vec<V>,
    heap: Heap,
    desc: Arc<Desc>,
}

impl<'a, T: Make> CS<'a, T> {
    fn settle(&mut self) {
        if matches!(self.slot, Slot::Nothing) && !self.path {
            return;
        }
        let v = self.slot.take();
        v.look();
        self.put(v);
    }
    fn put(&mut self, v: V) {
        if self.kind == 2 {
            self.items.push(v);
        } else if self.kind == 1 {
            match self.key.take() {
                None => {
                    self.name = match &v {
                        V::S(s, _) => Some(s.clone()),
                        _ => None,
                    };
                    self.key = Some(v);
                }
                Some(k) => self.pairs.push((k, v)),
            }
        }
    }
    fn child(&mut self) -> SinkHandle<'_> {
        self.slot = Slot::random();
        self.path = bits(8) == 0;
        let path = self.path;
        let h = self.slot.handle();
        if path {
            SinkHandle::boxed(deser_path::PathSink::wrap_ref(h))
        } else {
            h
        }
    }
}

impl<'a, T: Make> Sink for CS<'a, T> {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        self.heap.look();
        look_atom(&a);
        step_de(st)?;
        self.atom = Some(match a {
            Atom::U64(x) => V::U(x, Heap::new()),
            Atom::Str(s) => V::S(s.into_owned(), Heap::new()),
            Atom::Bytes(s) => V::B(s.into_owned(), Heap::new()),
            _ => V::Null(Heap::new()),
        });
        Ok(())
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.heap.look();
        self.kind = 1;
        step_de(st)
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.heap.look();
        self.kind = 2;
        step_de(st)
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.heap.look();
        self.settle();
        step_de(st)?;
        Ok(self.child())
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.heap.look();
        self.settle();
        step_de(st)?;
        Ok(self.child())
    }
    fn value_for_key(&mut self, key: &str, st: &DeserializerState) -> Result<Option<SinkHandle<'_>>, Error> {
        look(key.as_bytes());
        step_de(st)?;
        self.settle();
        self.kind = 2;
        Ok(Some(self.child()))
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.heap.look();
        self.settle();
        step_de(st)?;
        let h = Heap::new();
        *self.out = Some(T::make(match self.kind {
            0 => self.atom.take().unwrap_or(V::Null(h)),
            1 => V::Map(std::mem::take(&mut self.pairs), h, bits(8) as u8, self.desc.clone()),
            _ => V::Seq(std::mem::take(&mut self.items), h, bits(8) as u8, self.desc.clone()),
        }));
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &*self.desc
    }
    fn expecting(&self) -> Cow<'_, str> {
        "anything".into()
    }
}

impl<'a, T: Make> Drop for CS<'a, T> {
    fn drop(&mut self) {
        self.heap.look();
        // the slot belongs to this sink as long as it is alive
        match self.out.take() {
            Some(v) => {
                v.look();
                *self.out = Some(v);
            }
            None => *self.out = None,
        }
    }
}

trait Make {
    fn make(v: V) -> Self;
    fn look(&self);
}
impl Make for V {
    fn make(v: V) -> V {
        v
    }
    fn look(&self) {
        V::look(self)
    }
}
/// A value with a sink that touches the slot when it is dropped.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub struct W(pub V);
impl Make for W {
    fn make(v: V) -> W {
        W(v)
    }
    fn look(&self) {
        self.0.look()
    }
}
impl Serialize for W {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.0.serialize(st)
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        self.0.finish(st)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
}

fn cs<T: Make>(out: &mut Option<T>) -> SinkHandle<'_> {
    SinkHandle::boxed(CS {
        out,
        kind: 0,
        atom: None,
        slot: Slot::Nothing,
        path: false,
        key: None,
        name: None,
        pairs: vec![],
        items: vec![],
        heap: Heap::new(),
        desc: desc(),
    })
}

impl Deserialize for V {
    fn deserialize_into(out: &mut Option<V>) -> SinkHandle<'_> {
        cs(out)
    }
}
impl Deserialize for W {
    fn deserialize_into(out: &mut Option<W>) -> SinkHandle<'_> {
        cs(out)
    }
}

/// What the events of a feed are.
#[derive(Clone, Copy, Debug)]
pub enum E {
    U(u64),
    S(&'static str),
    Null,
    Bytes,
    Map,
    MapEnd,
    Seq,
    SeqEnd,
}

impl E {
    pub fn event(self) -> Event<'static> {
        match self {
            E::U(x) => x.into(),
            E::S(s) => s.into(),
            E::Null => Event::Atom(Atom::Null),
            E::Bytes => Event::Atom(Atom::Bytes(Cow::Owned(vec![1, 2, 3]))),
            E::Map => Event::MapStart,
            E::MapEnd => Event::MapEnd,
            E::Seq => Event::SeqStart,
            E::SeqEnd => Event::SeqEnd,
        }
    }
    pub fn kind(self) -> u8 {
        match self {
            E::Map => 1,
            E::Seq => 2,
            _ => 0,
        }
    }
}

const KEYS: &[&str] = &["k0", "k1", "k2", "k3", "heap", "heap2", "other"];

pub fn stream(r: &mut Rng, depth: u64, out: &mut Vec<E>) {
    if depth == 0 || r.chance(1, 4) {
        out.push(match r.below(5) {
            0 => E::U(r.below(5)),
            1 => E::S("str"),
            2 => E::Bytes,
            3 => E::Null,
            _ => E::U(300),
        });
        return;
    }
    if r.chance(1, 2) {
        out.push(E::Seq);
        for _ in 0..r.below(4) {
            stream(r, depth - 1, out);
        }
        out.push(E::SeqEnd);
    } else {
        out.push(E::Map);
        for _ in 0..r.below(4) {
            if r.chance(1, 6) {
                stream(r, depth / 2, out);
            } else {
                out.push(E::S(KEYS[r.below(7) as usize]));
            }
            // k0 and k2 want sequences
            match out.last() {
                Some(E::S("k0")) | Some(E::S("k2")) if r.chance(3, 4) => {
                    out.push(E::Seq);
                    stream(r, depth - 1, out);
                    out.push(E::SeqEnd);
                }
                _ => stream(r, depth - 1, out),
            }
        }
        out.push(E::MapEnd);
    }
}
