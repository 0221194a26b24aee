//! C09: call stack use does not depend on the depth of the data.
//!
//! Each case runs a scenario in a process of its own, on a stack whose high water mark is
//! measured: once with shallow data and once with data hundreds of thousands of levels deep.
//! An overflow kills the process, growth shows in the marks, and what comes out is compared
//! with what the same flat description of the data denotes.
use deser::de::{DeserializeDriver, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::{Deserialize, Serialize};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter,
};
use deser::{Atom, Error, ErrorKind, Event};
use deser_path::{Path, PathSerializable, PathSink};
use mon::model::{Ev, A};
use mon::util::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

const SHALLOW: usize = 600;
const STACK: usize = 1 << 20;
/// What the marks may differ by: a few frames of allocator and growth paths.
const SLACK: usize = 12 << 10;

type Outcome = Result<String, String>;

// ---------------------------------------------------------------- flat descriptions

#[derive(Clone, Copy)]
struct Lv {
    /// 0 sequence, 1 map, 2 struct, 3 map with the deep child as key
    kind: u8,
    before: u8,
    after: u8,
    wrap: u8,
}

struct Arena {
    levels: Vec<Lv>,
}

impl Arena {
    fn random(r: &mut Rng, depth: usize, json: bool) -> Arena {
        let fixed = r.chance(1, 3).then(|| r.below(3) as u8);
        let wrap = r.chance(1, 3).then(|| r.below(7) as u8);
        let slim = r.chance(1, 3);
        Arena {
            levels: (0..depth)
                .map(|_| Lv {
                    kind: fixed.unwrap_or_else(|| r.below(if json { 3 } else { 4 }) as u8),
                    before: if slim { 0 } else { r.below(3) as u8 },
                    after: if slim { 0 } else { r.below(3) as u8 },
                    wrap: wrap.unwrap_or_else(|| r.below(7) as u8),
                })
                .collect(),
        }
    }
    fn events(&self) -> Vec<Ev> {
        let mut v = vec![];
        let key = |v: &mut Vec<Ev>, i: u64| v.push(Ev::Atom(A::Str(format!("k{}", i))));
        let atom = |v: &mut Vec<Ev>, i: u64| v.push(Ev::Atom(A::U64(i)));
        for l in &self.levels {
            v.push(if l.kind == 0 { Ev::SeqStart } else { Ev::MapStart });
            for i in 0..l.before as u64 {
                if l.kind != 0 {
                    key(&mut v, i);
                }
                atom(&mut v, i);
            }
            if matches!(l.kind, 1 | 2) {
                key(&mut v, l.before as u64);
            }
        }
        atom(&mut v, self.levels.len() as u64);
        for l in self.levels.iter().rev() {
            if l.kind == 3 {
                atom(&mut v, l.before as u64);
            }
            for i in 0..l.after as u64 {
                let i = i + l.before as u64 + 1;
                if l.kind != 0 {
                    key(&mut v, i);
                }
                atom(&mut v, i);
            }
            v.push(if l.kind == 0 { Ev::SeqEnd } else { Ev::MapEnd });
        }
        v
    }
}

/// JSON for events.
fn text_of(evs: &[Ev]) -> String {
    let mut s = String::new();
    let mut stack: Vec<(bool, usize)> = vec![];
    for e in evs {
        if !matches!(e, Ev::MapEnd | Ev::SeqEnd) {
            if let Some((map, n)) = stack.last_mut() {
                if *map && *n % 2 == 1 {
                    s.push(':');
                } else if *n > 0 {
                    s.push(',');
                }
                *n += 1;
            }
        }
        match e {
            Ev::MapStart => {
                s.push('{');
                stack.push((true, 0));
            }
            Ev::SeqStart => {
                s.push('[');
                stack.push((false, 0));
            }
            Ev::MapEnd => {
                s.push('}');
                stack.pop();
            }
            Ev::SeqEnd => {
                s.push(']');
                stack.pop();
            }
            Ev::Atom(A::U64(x)) => s.push_str(&x.to_string()),
            Ev::Atom(A::Str(x)) => {
                s.push('"');
                s.push_str(x);
                s.push('"');
            }
            Ev::Atom(A::Null) => s.push_str("null"),
            Ev::Atom(A::Bool(b)) => s.push_str(if *b { "true" } else { "false" }),
            Ev::Atom(_) => unreachable!(),
        }
    }
    s
}

fn first_difference(a: &[Ev], b: &[Ev]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
    Some(format!("at event {}: {:?} instead of {:?} ({} and {} events)", i, a.get(i), b.get(i), a.len(), b.len()))
}

// ---------------------------------------------------------------- callbacks

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FAULT: Cell<(u64, bool)> = const { Cell::new((0, false)) };
    static SEEN: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) };
    static SLOTS: Cell<u64> = const { Cell::new(1) };
    static DEPTH: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

fn tick() -> Result<(), Error> {
    CALLS.with(|c| c.set(c.get() + 1));
    let (at, panics) = FAULT.with(|f| f.get());
    if at == CALLS.with(|c| c.get()) {
        if panics {
            std::panic::panic_any("injected");
        }
        return Err(Error::new(ErrorKind::Unexpected, "injected"));
    }
    Ok(())
}

fn arm(at: u64, panics: bool) {
    CALLS.with(|c| c.set(0));
    FAULT.with(|f| f.set((at, panics)));
}

fn seen(e: Ev) {
    SEEN.with(|s| s.borrow_mut().push(e));
}

fn path_len(len: usize, depth: usize) {
    DEPTH.with(|d| {
        let (a, b) = d.get();
        d.set((a.max(len), b.max(depth)));
    });
}

// ---------------------------------------------------------------- values

struct Node<'a> {
    a: &'a Arena,
    at: usize,
}

#[derive(Serialize)]
struct Nt<T>(T);

impl<'a> Serialize for Node<'a> {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        path_len(st.get::<Path>().segments().len(), st.depth());
        tick()?;
        let e = || Em { a: self.a, at: self.at, step: 0, slot: None };
        Ok(match self.a.levels.get(self.at) {
            None => Chunk::Atom(Atom::U64(self.at as u64)),
            Some(Lv { kind: 0, .. }) => Chunk::Seq(Box::new(e())),
            Some(Lv { kind: 2, .. }) => Chunk::Struct(Box::new(e())),
            _ => Chunk::Map(Box::new(e())),
        })
    }
    fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        tick()
    }
}

struct Em<'a> {
    a: &'a Arena,
    at: usize,
    step: u64,
    slot: Option<Node<'a>>,
}

impl<'a> Em<'a> {
    fn lv(&self) -> Lv {
        self.a.levels[self.at]
    }
    fn more(&self) -> bool {
        self.step < self.lv().before as u64 + 1 + self.lv().after as u64
    }
    fn deep(&mut self) -> SerializeHandle<'_> {
        let n = Node { a: self.a, at: self.at + 1 };
        match self.lv().wrap {
            0 => SerializeHandle::boxed(n),
            1 => SerializeHandle::boxed(Some(n)),
            2 => SerializeHandle::boxed(Nt(n)),
            3 => SerializeHandle::boxed(Box::new(n)),
            4 => SerializeHandle::boxed(Nt(Some(Box::new(Nt(n))))),
            5 => SerializeHandle::boxed(&*self.slot.insert(n)),
            _ => SerializeHandle::to(self.slot.insert(n)),
        }
    }
    fn child(&mut self) -> SerializeHandle<'_> {
        if self.step == self.lv().before as u64 && self.lv().kind != 3 {
            self.step += 1;
            self.deep()
        } else {
            self.step += 1;
            SerializeHandle::boxed(self.step - 1)
        }
    }
}

impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        tick()?;
        Ok(if self.more() { Some(self.child()) } else { None })
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        tick()?;
        Ok(if !self.more() {
            None
        } else if self.lv().kind == 3 && self.step == self.lv().before as u64 {
            Some(self.deep())
        } else {
            Some(SerializeHandle::boxed(format!("k{}", self.step)))
        })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        tick()?;
        Ok(self.child())
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        tick()?;
        if !self.more() {
            return Ok(None);
        }
        let k = Cow::Owned(format!("k{}", self.step));
        Ok(Some((k, self.child())))
    }
}

// ---------------------------------------------------------------- sinks

/// Accepts anything; its value is the number of atoms within.
#[derive(Debug)]
struct Count(u64);

#[derive(Deserialize, Debug)]
struct CountNew(Count);

enum Slot {
    Plain(Option<Count>),
    Opt(Option<Option<Count>>),
    Box(Option<Box<Count>>),
    New(Option<CountNew>),
    Nothing,
}

struct CountSink<'a> {
    out: &'a mut Option<Count>,
    kind: u8,
    n: u64,
    slot: Slot,
}

impl<'a> CountSink<'a> {
    fn settle(&mut self) {
        self.n += match std::mem::replace(&mut self.slot, Slot::Nothing) {
            Slot::Plain(Some(x)) => x.0,
            Slot::Opt(Some(Some(x))) => x.0,
            Slot::Opt(Some(None)) => {
                seen(Ev::Atom(A::Null));
                1
            }
            Slot::Box(Some(x)) => x.0,
            Slot::New(Some(x)) => x.0 .0,
            _ => 0,
        };
    }
    fn child(&mut self) -> SinkHandle<'_> {
        self.settle();
        let k = SLOTS.with(|c| {
            c.set(mix(c.get()));
            c.get() % 5
        });
        self.slot = match k {
            0 => Slot::Opt(None),
            1 => Slot::Box(None),
            2 => Slot::New(None),
            _ => Slot::Plain(None),
        };
        match &mut self.slot {
            Slot::Plain(x) => Deserialize::deserialize_into(x),
            Slot::Opt(x) => Deserialize::deserialize_into(x),
            Slot::Box(x) => Deserialize::deserialize_into(x),
            Slot::New(x) => Deserialize::deserialize_into(x),
            Slot::Nothing => unreachable!(),
        }
    }
}

impl<'a> Sink for CountSink<'a> {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        path_len(st.get::<Path>().segments().len(), st.depth());
        seen(Ev::Atom(A::of(&a)));
        self.n += 1;
        tick()
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        path_len(st.get::<Path>().segments().len(), st.depth());
        seen(Ev::MapStart);
        self.kind = 1;
        tick()
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        path_len(st.get::<Path>().segments().len(), st.depth());
        seen(Ev::SeqStart);
        self.kind = 2;
        tick()
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        tick()?;
        Ok(self.child())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        tick()?;
        Ok(self.child())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.settle();
        tick()?;
        match self.kind {
            1 => seen(Ev::MapEnd),
            2 => seen(Ev::SeqEnd),
            _ => {}
        }
        *self.out = Some(Count(self.n));
        Ok(())
    }
}

impl Deserialize for Count {
    fn deserialize_into(out: &mut Option<Count>) -> SinkHandle<'_> {
        SinkHandle::boxed(CountSink { out, kind: 0, n: 0, slot: Slot::Nothing })
    }
}

// ---------------------------------------------------------------- recursive types

trait Deep: Serialize + Deserialize + 'static {
    /// Events around a nested value, and of the innermost one.
    fn shape() -> (Vec<Ev>, Vec<Ev>, Vec<Ev>);
    fn grow(inner: Option<Self>) -> Self;
    fn kids(&mut self, out: &mut Vec<Self>);
}

fn s(x: &str) -> Ev {
    Ev::Atom(A::Str(x.into()))
}
fn u(x: u64) -> Ev {
    Ev::Atom(A::U64(x))
}
const NULL: Ev = Ev::Atom(A::Null);
use Ev::{MapEnd as ME, MapStart as MS, SeqEnd as SE, SeqStart as SS};

/// The harness' own way to take deep data apart: it must not recurse.
macro_rules! flat_drop {
    ($($t:ty),*) => {$(
        impl Drop for $t {
            fn drop(&mut self) {
                let mut todo = vec![];
                self.kids(&mut todo);
                while let Some(mut x) = todo.pop() {
                    x.kids(&mut todo);
                }
            }
        }
    )*};
}

fn levels<T: Deep>(mut v: T) -> usize {
    let mut n = 1;
    let mut todo = vec![];
    v.kids(&mut todo);
    while let Some(mut x) = todo.pop() {
        n += 1;
        x.kids(&mut todo);
    }
    n
}

macro_rules! deep {
    ($t:ty, [$($open:expr),*], [$($leaf:expr),*], [$($close:expr),*], |$inner:ident| $grow:expr, |$this:ident, $o:ident| $kids:expr) => {
        impl Deep for $t {
            fn shape() -> (Vec<Ev>, Vec<Ev>, Vec<Ev>) {
                (vec![$($open),*], vec![$($leaf),*], vec![$($close),*])
            }
            fn grow($inner: Option<Self>) -> Self {
                $grow
            }
            fn kids(&mut self, $o: &mut Vec<Self>) {
                let $this = self;
                $kids
            }
        }
        flat_drop!($t);
    };
}

#[derive(Serialize, Deserialize)]
struct OptBox {
    id: u32,
    next: Option<Box<OptBox>>,
}
deep!(OptBox, [MS, s("id"), u(7), s("next")], [MS, s("id"), u(7), s("next"), NULL, ME], [ME],
    |i| OptBox { id: 7, next: i.map(Box::new) }, |t, o| o.extend(t.next.take().map(|x| *x)));

#[derive(Serialize, Deserialize)]
#[deser(rename_all = "UPPERCASE", skip_serializing_optionals, rename = "Other")]
struct Attrs {
    #[deser(rename = "n", alias = "m")]
    next: Option<Box<Attrs>>,
    #[deser(default)]
    tag: String,
}
deep!(Attrs, [MS, s("n")], [MS, s("TAG"), s("x"), ME], [s("TAG"), s("x"), ME],
    |i| Attrs { tag: "x".into(), next: i.map(Box::new) }, |t, o| o.extend(t.next.take().map(|x| *x)));

#[derive(Serialize, Deserialize)]
struct Items {
    items: Vec<Items>,
    tag: String,
}
deep!(Items, [MS, s("items"), SS], [MS, s("items"), SS, SE, s("tag"), s("t"), ME], [SE, s("tag"), s("t"), ME],
    |i| Items { items: i.into_iter().collect(), tag: "t".into() }, |t, o| o.append(&mut t.items));

#[derive(Serialize, Deserialize)]
struct Lists(Vec<Lists>);
deep!(Lists, [SS], [SS, SE], [SE], |i| Lists(i.into_iter().collect()), |t, o| o.append(&mut t.0));

#[derive(Serialize, Deserialize)]
struct Tree(BTreeMap<String, Tree>);
deep!(Tree, [MS, s("k")], [MS, ME], [ME], |i| Tree(i.into_iter().map(|x| ("k".to_string(), x)).collect()),
    |t, o| o.extend(std::mem::take(&mut t.0).into_values()));

#[derive(Serialize, Deserialize)]
struct Hashed {
    m: HashMap<String, Hashed>,
}
deep!(Hashed, [MS, s("m"), MS, s("k")], [MS, s("m"), MS, ME, ME], [ME, ME],
    |i| Hashed { m: i.into_iter().map(|x| ("k".to_string(), x)).collect() }, |t, o| o.extend(t.m.drain().map(|x| x.1)));

#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
struct Sets(BTreeSet<Sets>);
deep!(Sets, [SS], [SS, SE], [SE], |i| Sets(i.into_iter().collect()), |t, o| o.extend(std::mem::take(&mut t.0)));

#[derive(Serialize, Deserialize)]
struct Tuple((u8, Option<Box<Tuple>>, bool));
deep!(Tuple, [SS, u(1)], [SS, u(1), NULL, Ev::Atom(A::Bool(true)), SE], [Ev::Atom(A::Bool(true)), SE],
    |i| Tuple((1, i.map(Box::new), true)), |t, o| o.extend(t.0 .1.take().map(|x| *x)));

#[derive(Serialize, Deserialize)]
struct Array {
    a: [Option<Box<Array>>; 2],
}
deep!(Array, [MS, s("a"), SS, NULL], [MS, s("a"), SS, NULL, NULL, SE, ME], [SE, ME],
    |i| Array { a: [None, i.map(Box::new)] }, |t, o| for x in &mut t.a { o.extend(x.take().map(|x| *x)) });

#[derive(Serialize, Deserialize)]
struct FlatInner {
    x: u8,
    next: Option<Box<Flat>>,
}
#[derive(Serialize, Deserialize)]
struct Flat {
    a: u8,
    #[deser(flatten)]
    f: FlatInner,
    z: u8,
}
deep!(Flat, [MS, s("a"), u(1), s("x"), u(2), s("next")], [MS, s("a"), u(1), s("x"), u(2), s("next"), NULL, s("z"), u(3), ME],
    [s("z"), u(3), ME], |i| Flat { a: 1, f: FlatInner { x: 2, next: i.map(Box::new) }, z: 3 },
    |t, o| o.extend(t.f.next.take().map(|x| *x)));

#[derive(Serialize, Deserialize)]
struct Boxes {
    b: Box<Option<Box<Vec<Option<Boxes>>>>>,
}
deep!(Boxes, [MS, s("b"), SS], [MS, s("b"), NULL, ME], [SE, ME],
    |i| Boxes { b: Box::new(i.map(|x| Box::new(vec![Some(x)]))) },
    |t, o| if let Some(v) = t.b.take() { o.extend(v.into_iter().flatten()) });

#[derive(Serialize, Deserialize)]
struct Gen<T> {
    v: T,
}
#[derive(Serialize, Deserialize)]
struct ViaGen {
    #[deser(default)]
    g: Option<Gen<Vec<(ViaGen,)>>>,
}
deep!(ViaGen, [MS, s("g"), MS, s("v"), SS, SS], [MS, s("g"), NULL, ME], [SE, SE, ME, ME],
    |i| ViaGen { g: i.map(|x| Gen { v: vec![(x,)] }) },
    |t, o| if let Some(g) = t.g.take() { o.extend(g.v.into_iter().map(|x| x.0)) });

fn deep_events<T: Deep>(depth: usize) -> Vec<Ev> {
    let (open, leaf, close) = T::shape();
    let mut v = vec![];
    for _ in 0..depth {
        v.extend_from_slice(&open);
    }
    v.extend(leaf);
    for _ in 0..depth {
        v.extend_from_slice(&close);
    }
    v
}

fn deep_value<T: Deep>(depth: usize) -> T {
    let mut v = T::grow(None);
    for _ in 0..depth {
        v = T::grow(Some(v));
    }
    v
}

// ---------------------------------------------------------------- running

fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| match p.downcast_ref::<&str>() {
        Some(s) => s.to_string(),
        None => p.downcast_ref::<String>().cloned().unwrap_or_default(),
    })
}

fn drive(v: &dyn Serialize, cut: usize) -> Result<Vec<Ev>, Error> {
    let mut d = SerializeDriver::new(v);
    let mut evs = vec![];
    while evs.len() < cut {
        match d.next()? {
            None => break,
            Some((e, _, _)) => evs.push(Ev::of(&e)),
        }
    }
    Ok(evs)
}

fn feed(d: &mut DeserializeDriver, evs: &[Ev]) -> Result<(), (usize, Error)> {
    for (i, e) in evs.iter().enumerate() {
        d.emit(e.event()).map_err(|x| (i, x))?;
    }
    Ok(())
}

/// The whole of it, cut, or with a fault; always at the depth of the data or on the way.
fn place(r: &mut Rng, n: usize) -> usize {
    match r.below(4) {
        0 => n / 2,
        1 => n / 2 + n / 16,
        2 => n - n / 8,
        _ => n / 8 + r.below(n as u64 - n as u64 / 8) as usize,
    }
}

fn ser_value(r: &mut Rng, v: &dyn Serialize, want: &[Ev], what: &str) -> Outcome {
    match what {
        "full" => {
            arm(0, false);
            match drive(v, usize::MAX) {
                Err(e) => return Err(format!("failed: {}", e)),
                Ok(evs) => {
                    if let Some(x) = first_difference(&evs, want) {
                        return Err(x);
                    }
                }
            }
        }
        "cut" => {
            arm(0, false);
            let n = place(r, want.len());
            let evs = drive(v, n).map_err(|e| format!("failed: {}", e))?;
            if let Some(x) = first_difference(&evs, &want[..n]) {
                return Err(x);
            }
        }
        _ => {
            arm(0, false);
            drive(v, usize::MAX).map_err(|e| format!("failed: {}", e))?;
            let n = place(r, CALLS.with(|c| c.get()) as usize);
            arm(n as u64, what == "panic");
            match caught(|| drive(v, usize::MAX)) {
                Ok(Err(_)) if what == "error" => {}
                Err(p) if what == "panic" && p == "injected" => {}
                Ok(Ok(_)) => return Err("the fault got lost".into()),
                Ok(Err(e)) => return Err(format!("unexpected error {}", e)),
                Err(p) => return Err(format!("unexpected panic {}", p)),
            }
            arm(0, false);
        }
    }
    Ok(format!("{} events", want.len()))
}

fn de_any(r: &mut Rng, evs: &[Ev], what: &str, path: bool) -> Outcome {
    SEEN.with(|s| s.borrow_mut().clear());
    SEEN.with(|s| s.borrow_mut().reserve(evs.len()));
    SLOTS.with(|s| s.set(r.u64()));
    let n = place(r, evs.len());
    match what {
        "error" => arm(n as u64, false),
        "panic" => arm(n as u64, true),
        _ => arm(0, false),
    }
    let upto = if what == "cut" || what == "wrong end" { n } else { evs.len() };
    let mut out = None::<Count>;
    let rv = caught(|| {
        let mut owned = None;
        let mut d = if path {
            DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(Count::deserialize_into(&mut out))))
        } else if r.chance(1, 3) {
            DeserializeDriver::from_sink(SinkHandle::to(owned.insert(OwnedSink::<Count>::deserialize()).borrow_mut()))
        } else {
            DeserializeDriver::new(&mut out)
        };
        let rv = feed(&mut d, &evs[..upto]);
        if what == "wrong end" {
            let _ = caught(|| d.emit(Event::MapEnd));
            let _ = caught(|| d.emit(Event::SeqEnd));
        }
        drop(d);
        if let Some(mut o) = owned {
            out = o.take();
        }
        rv
    });
    arm(0, false);
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    match (what, rv) {
        ("full", Ok(Ok(()))) => {
            if let Some(x) = first_difference(&seen, evs) {
                return Err(x);
            }
            let atoms = evs.iter().filter(|e| matches!(e, Ev::Atom(_))).count() as u64;
            if out.as_ref().map(|x| x.0) != Some(atoms) {
                return Err(format!("result {:?} instead of {} atoms", out, atoms));
            }
        }
        ("cut", Ok(Ok(()))) | ("wrong end", _) => {
            if what == "cut" {
                if let Some(x) = first_difference(&seen, &evs[..upto]) {
                    return Err(x);
                }
            }
        }
        ("error", Ok(Err(_))) => {}
        ("panic", Err(p)) if p == "injected" => {}
        (_, Ok(Ok(()))) => return Err("the fault got lost".into()),
        (_, Ok(Err((i, e)))) => return Err(format!("event {} failed: {}", i, e)),
        (_, Err(p)) => return Err(format!("panic {}", p)),
    }
    Ok(format!("{} events", evs.len()))
}

fn de_typed<T: Deep>(r: &mut Rng, depth: usize, what: &str, path: bool) -> Outcome {
    let mut evs = deep_events::<T>(depth);
    let n = place(r, evs.len());
    match what {
        "cut" => evs.truncate(n),
        "error" => evs[n] = Ev::Atom(A::Bytes(vec![1])),
        _ => {}
    }
    let mut out = None::<T>;
    let rv = caught(|| {
        let mut d = if path {
            DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out))))
        } else {
            DeserializeDriver::new(&mut out)
        };
        feed(&mut d, &evs)
    });
    match (what, rv) {
        ("full", Ok(Ok(()))) => match out {
            None => return Err("no result".into()),
            Some(x) => {
                let n = levels(x);
                if n != depth + 1 {
                    return Err(format!("{} levels instead of {}", n, depth + 1));
                }
            }
        },
        ("full", Ok(Err((i, e)))) => return Err(format!("event {} failed: {}", i, e)),
        ("full", Err(p)) => return Err(format!("panic {}", p)),
        ("cut", Ok(Ok(()))) => {
            if out.is_some() {
                return Err("a result of a cut stream".into());
            }
        }
        ("cut", x) => return Err(format!("{:?}", x)),
        _ => {}
    }
    Ok(format!("{} events", evs.len()))
}

fn json_read<T: Deserialize>(text: &[u8]) -> Result<T, Error> {
    deser_json::Deserializer::new(text).deserialize::<T>()
}

/// The text whole, or damaged at a place.
fn damage(r: &mut Rng, text: &mut Vec<u8>, what: &str) {
    let n = place(r, text.len());
    match what {
        "cut" => text.truncate(n),
        "bad" => text[n] = [b'!', b']', b'}', b'\\', 0xff][r.below(5) as usize],
        _ => {}
    }
}

/// Whitespace of all kinds between the tokens (strings have none of these characters).
fn airy(r: &mut Rng, text: &str) -> Vec<u8> {
    let mut v = vec![];
    for b in text.bytes() {
        let gap = matches!(b, b'{' | b'}' | b'[' | b']' | b',' | b':') && r.chance(1, 8);
        if gap {
            v.push(b" \t\r\n"[r.below(4) as usize]);
        }
        v.push(b);
        if gap {
            v.push(b" \t\r\n"[r.below(4) as usize]);
        }
    }
    v
}

fn json_any(r: &mut Rng, evs: &[Ev], what: &str) -> Outcome {
    let mut text = airy(r, &text_of(evs));
    damage(r, &mut text, what);
    SEEN.with(|s| s.borrow_mut().clear());
    SLOTS.with(|s| s.set(r.u64()));
    arm(0, false);
    let rv = caught(|| json_read::<Count>(&text));
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    match (what, rv) {
        (_, Err(p)) => return Err(format!("panic {}", p)),
        ("full", Ok(Err(e))) => return Err(format!("failed: {}", e)),
        ("full", Ok(Ok(x))) => {
            if let Some(x) = first_difference(&seen, evs) {
                return Err(x);
            }
            let atoms = evs.iter().filter(|e| matches!(e, Ev::Atom(_))).count() as u64;
            if x.0 != atoms {
                return Err(format!("result {} instead of {} atoms", x.0, atoms));
            }
        }
        ("cut", Ok(Ok(_))) => return Err("a cut text was accepted".into()),
        _ => {}
    }
    Ok(format!("{} bytes", text.len()))
}

#[derive(Deserialize)]
struct Skipper {
    a: u64,
    b: u64,
}

fn skip(r: &mut Rng, evs: &[Ev], json: bool, path: bool) -> Outcome {
    let mut all = vec![MS, s("a"), u(1), s("unknown")];
    all.extend_from_slice(evs);
    all.extend([s("b"), u(2), s("unknown"), u(3), ME]);
    let mut out = None::<Skipper>;
    if json {
        let text = airy(r, &text_of(&all));
        out = Some(json_read(&text).map_err(|e| format!("failed: {}", e))?);
    } else {
        let mut d = if path {
            DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(Skipper::deserialize_into(&mut out))))
        } else {
            DeserializeDriver::new(&mut out)
        };
        feed(&mut d, &all).map_err(|x| format!("event {} failed: {}", x.0, x.1))?;
        drop(d);
        let mut d = DeserializeDriver::from_sink(SinkHandle::null());
        feed(&mut d, &all).map_err(|x| format!("event {} failed: {}", x.0, x.1))?;
        let mut d = DeserializeDriver::from_sink(SinkHandle::null());
        feed(&mut d, &all[..place(r, all.len())]).map_err(|x| format!("event {} failed: {}", x.0, x.1))?;
    }
    match out {
        Some(Skipper { a: 1, b: 2 }) => Ok(format!("{} events", all.len())),
        _ => Err("wrong result".into()),
    }
}

// ---------------------------------------------------------------- scenarios

type Scenario = (String, Box<dyn Fn(&mut Rng, usize) -> Outcome>);

fn typed<T: Deep>(name: &str, list: &mut Vec<Scenario>) {
    let mut add = |what: &str, f: Box<dyn Fn(&mut Rng, usize) -> Outcome>| list.push((format!("{} {}", name, what), f));
    for path in [false, true] {
        let tag = if path { " tracked" } else { "" };
        for what in ["full", "cut", "error"] {
            add(&format!("de {}{}", what, tag), Box::new(move |r, n| de_typed::<T>(r, n, what, path)));
        }
        for what in ["full", "cut"] {
            add(&format!("ser {}{}", what, tag), Box::new(move |r, n| {
                let v = deep_value::<T>(n);
                let want = deep_events::<T>(n);
                if path {
                    ser_value(r, &PathSerializable::wrap(&v), &want, what)
                } else {
                    ser_value(r, &v, &want, what)
                }
            }));
        }
    }
    add("json write", Box::new(|_, n| {
        let v = deep_value::<T>(n);
        let text = deser_json::to_string(&v).map_err(|e| format!("failed: {}", e))?;
        if text != text_of(&deep_events::<T>(n)) {
            return Err("wrong text".into());
        }
        Ok(format!("{} bytes", text.len()))
    }));
    for what in ["full", "cut", "bad"] {
        add(&format!("json read {}", what), Box::new(move |r, n| {
            let mut text = airy(r, &text_of(&deep_events::<T>(n)));
            damage(r, &mut text, what);
            match (what, caught(|| json_read::<T>(&text))) {
                (_, Err(p)) => return Err(format!("panic {}", p)),
                ("full", Ok(Err(e))) => return Err(format!("failed: {}", e)),
                ("full", Ok(Ok(x))) => {
                    let m = levels(x);
                    if m != n + 1 {
                        return Err(format!("{} levels instead of {}", m, n + 1));
                    }
                }
                ("cut", Ok(Ok(_))) => return Err("a cut text was accepted".into()),
                _ => {}
            }
            Ok(format!("{} bytes", text.len()))
        }));
    }
}

fn scenarios() -> Vec<Scenario> {
    let mut list: Vec<Scenario> = vec![];
    for path in [false, true] {
        let tag = if path { " tracked" } else { "" };
        for what in ["full", "cut", "error", "panic"] {
            list.push((format!("ser {}{}", what, tag), Box::new(move |r, n| {
                let a = Arena::random(r, n, false);
                let want = a.events();
                let v = Node { a: &a, at: 0 };
                DEPTH.with(|d| d.set((0, 0)));
                let rv = if path {
                    ser_value(r, &PathSerializable::wrap(&v), &want, what)
                } else {
                    ser_value(r, &v, &want, what)
                };
                let keys = a.levels.iter().any(|l| l.kind == 3);
                let d = DEPTH.with(|d| d.get());
                if what == "full" && (d.1 != n || (path && !keys && d.0 != n)) {
                    return Err(format!("depth {} and path length {} seen at depth {}", d.1, d.0, n));
                }
                rv
            })));
            list.push((format!("de {}{}", what, tag), Box::new(move |r, n| {
                let a = Arena::random(r, n, false);
                DEPTH.with(|d| d.set((0, 0)));
                let rv = de_any(r, &a.events(), what, path);
                let keys = a.levels.iter().any(|l| l.kind == 3);
                let d = DEPTH.with(|d| d.get());
                if what == "full" && (d.1 != n || (path && !keys && d.0 != n)) {
                    return Err(format!("depth {} and path length {} seen at depth {}", d.1, d.0, n));
                }
                rv
            })));
        }
        list.push((format!("de wrong end{}", tag), Box::new(move |r, n| {
            let a = Arena::random(r, n, false);
            de_any(r, &a.events(), "wrong end", path)
        })));
        list.push((format!("skip{}", tag), Box::new(move |r, n| {
            let a = Arena::random(r, n, false);
            skip(r, &a.events(), false, path)
        })));
    }
    list.push(("json skip".into(), Box::new(|r, n| {
        let a = Arena::random(r, n, true);
        skip(r, &a.events(), true, false)
    })));
    for what in ["full", "cut", "bad"] {
        list.push((format!("json read {}", what), Box::new(move |r, n| {
            let a = Arena::random(r, n, true);
            json_any(r, &a.events(), what)
        })));
    }
    for what in ["full", "error", "panic"] {
        list.push((format!("json write {}", what), Box::new(move |r, n| {
            let a = Arena::random(r, n, true);
            let want = text_of(&a.events());
            let v = Node { a: &a, at: 0 };
            let k = place(r, want.len() / 8) as u64;
            arm(if what == "full" { 0 } else { k }, what == "panic");
            let rv = caught(|| deser_json::to_string(&v));
            arm(0, false);
            match (what, rv) {
                ("full", Ok(Ok(t))) if t == want => {}
                ("error", Ok(Err(_))) => {}
                ("panic", Err(p)) if p == "injected" => {}
                (_, Ok(x)) => return Err(format!("wrong outcome, {}", if x.is_ok() { "text" } else { "error" })),
                (_, Err(p)) => return Err(format!("panic {}", p)),
            }
            Ok(format!("{} bytes", want.len()))
        })));
    }
    list.push(("json brackets".into(), Box::new(|r, n| {
        // nothing but the start of containers
        for open in ["[", "{\"a\":"] {
            let text = open.repeat(n);
            for rv in [caught(|| json_read::<Count>(text.as_bytes()).is_ok()), caught(|| json_read::<Lists>(text.as_bytes()).is_ok())] {
                if rv != Ok(false) {
                    return Err(format!("{:?}", rv));
                }
            }
        }
        arm(0, false);
        SLOTS.with(|s| s.set(r.u64()));
        Ok(format!("{} brackets", n))
    })));
    typed::<OptBox>("OptBox", &mut list);
    typed::<Attrs>("Attrs", &mut list);
    typed::<Items>("Items", &mut list);
    typed::<Lists>("Lists", &mut list);
    typed::<Tree>("Tree", &mut list);
    typed::<Hashed>("Hashed", &mut list);
    typed::<Sets>("Sets", &mut list);
    typed::<Tuple>("Tuple", &mut list);
    typed::<Array>("Array", &mut list);
    typed::<Flat>("Flat", &mut list);
    typed::<Boxes>("Boxes", &mut list);
    typed::<ViaGen>("ViaGen", &mut list);
    list
}

// ---------------------------------------------------------------- the measured stack

struct Job<'a> {
    run: &'a dyn Fn() -> Outcome,
    outcome: Option<Outcome>,
}

extern "C" fn entry(p: *mut libc::c_void) -> *mut libc::c_void {
    let job = unsafe { &mut *(p as *mut Job) };
    job.outcome = Some(match caught(|| (job.run)()) {
        Ok(x) => x,
        Err(p) => Err(format!("panic: {}", p)),
    });
    std::ptr::null_mut()
}

/// Runs on a fresh stack; the result and how much of the stack was ever used.
fn on_stack(run: &dyn Fn() -> Outcome) -> (Outcome, usize) {
    unsafe {
        let guard = 1 << 20;
        let base = libc::mmap(
            std::ptr::null_mut(),
            STACK + guard,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u8;
        assert!(base as isize != -1);
        let low = base.add(guard);
        assert_eq!(libc::mprotect(low as _, STACK, libc::PROT_READ | libc::PROT_WRITE), 0);
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        assert_eq!(libc::pthread_attr_init(&mut attr), 0);
        assert_eq!(libc::pthread_attr_setstack(&mut attr, low as _, STACK), 0);
        let mut job = Job { run, outcome: None };
        let mut t: libc::pthread_t = std::mem::zeroed();
        assert_eq!(libc::pthread_create(&mut t, &attr, entry, &mut job as *mut Job as _), 0);
        libc::pthread_join(t, std::ptr::null_mut());
        let bytes = std::slice::from_raw_parts(low, STACK);
        let untouched = bytes.iter().position(|b| *b != 0).unwrap_or(STACK);
        libc::munmap(base as _, STACK + guard);
        (job.outcome.unwrap(), STACK - untouched)
    }
}

fn child(spec: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let p: Vec<&str> = spec.split(':').collect();
    let (index, seed, depth): (usize, u64, usize) = (p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap());
    let list = scenarios();
    let (_, f) = &list[index];
    let run = |n: usize| on_stack(&|| f(&mut Rng::new(seed), n));
    // warm up: lazily made things are there afterwards
    let (first, _) = run(SHALLOW);
    let (a, shallow) = run(SHALLOW);
    let (b, deep) = run(depth);
    for x in [first, a, b] {
        match x {
            Err(e) => {
                println!("BAD {}", e);
                std::process::exit(3);
            }
            Ok(t) => println!("OK {}", t),
        }
    }
    println!("MARKS {} {}", shallow, deep);
    std::process::exit(0)
}

fn main() {
    if let Ok(spec) = std::env::var("MON_CHILD") {
        child(&spec);
    }
    let ctx = Ctx::new("C09");
    let names: Vec<String> = scenarios().into_iter().map(|x| x.0).collect();
    let depths: &[usize] = if ctx.tier == Tier::Quick { &[200_000] } else { &[200_000, 1_500_000] };
    let seed = ctx.seed;
    let n = names.len() as u64;
    for depth in depths {
        let rounds = if *depth > 500_000 { 2 } else { ctx.n(2, 12) };
        ctx.group(&format!("depth {}", depth), n * rounds, |case| {
            let i = (case.idx % n) as usize;
            case.label = names[i].clone();
            let spec = format!("{}:{}:{}", i, mix(seed ^ mix(case.idx)), depth);
            let out = std::process::Command::new("timeout")
                .args(["-s", "KILL", "200"])
                .arg(std::env::current_exe().unwrap())
                .env("MON_CHILD", &spec)
                .output()
                .unwrap();
            let text = String::from_utf8_lossy(&out.stdout).into_owned();
            let err = String::from_utf8_lossy(&out.stderr).into_owned();
            if let Some(x) = text.lines().find(|l| l.starts_with("BAD ")) {
                case.violation(&format!("data {} levels deep is not processed correctly: {} (child {})", depth, &x[4..], spec));
                return;
            }
            let marks = text.lines().find(|l| l.starts_with("MARKS ")).map(|l| {
                let v: Vec<usize> = l[6..].split(' ').map(|x| x.parse().unwrap()).collect();
                (v[0], v[1])
            });
            match marks {
                None => {
                    let ran = text.lines().count();
                    case.violation(&format!(
                        "data {} levels deep on a stack of {} bytes: the process ended with {} after {} parts (child {}) {}",
                        depth, STACK, out.status, ran, spec, err
                    ));
                }
                Some((a, b)) => {
                    case.eval(Some(mix(i as u64 ^ mix(case.idx) ^ *depth as u64)));
                    case.count("levels", *depth as u64);
                    case.count("stack bytes, shallow", a as u64);
                    case.count("stack bytes, deep", b as u64);
                    if case.idx % 37 == 3 {
                        case.ctx.count(&format!("sample {}: stack {} -> {}", names[i], a, b), 1);
                    }
                    case.sample(|| format!("{}: {} bytes of stack at depth {}, {} at depth {}", names[i], a, SHALLOW, b, depth));
                    case.check(b <= a + SLACK, || {
                        format!("the stack grows with the depth: {} bytes at depth {}, {} bytes at depth {} (child {})", a, SHALLOW, b, depth, spec)
                    });
                }
            }
        });
    }
    ctx.finish()
}
