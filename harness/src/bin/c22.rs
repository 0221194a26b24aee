//! C22: work and memory are proportional to the data, and passing data through takes no memory.
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Error};
use deser_path::{PathSerializable, PathSink};
use mon::gen;
use mon::json::{self, Any};
use mon::model::*;
use mon::uservalue::{self, V};
use mon::util::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ---------------------------------------------------------------- values without memory

/// How the items of a wide value are handed out.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Borrowed,
    Boxed,
    Built,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Outer {
    Seq,
    Map,
    Struct,
}

/// The same item `n` times, which exists only once.
struct Wide<'a> {
    n: usize,
    item: &'a V,
    how: How,
    outer: Outer,
}

struct WideEm<'a>(&'a Wide<'a>, usize);

impl<'a> WideEm<'a> {
    fn hand(&self) -> SerializeHandle<'_> {
        match self.0.how {
            How::Borrowed => SerializeHandle::to(self.0.item),
            How::Boxed => SerializeHandle::boxed(self.0.item),
            How::Built => SerializeHandle::boxed(vec![Some(Box::new(self.0.item)), None]),
        }
    }
    fn more(&mut self) -> bool {
        self.1 += 1;
        self.1 <= self.0.n
    }
}

impl<'a> SeqEmitter for WideEm<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(if self.more() { Some(self.hand()) } else { None })
    }
}
impl<'a> MapEmitter for WideEm<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(if self.more() { Some(SerializeHandle::boxed(format!("key {}", self.1 % 1000))) } else { None })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        Ok(self.hand())
    }
}
impl<'a> StructEmitter for WideEm<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        if !self.more() {
            return Ok(None);
        }
        let key = if self.1 % 2 == 0 { Cow::Borrowed("a key") } else { Cow::Owned(format!("key {}", self.1 % 1000)) };
        Ok(Some((key, self.hand())))
    }
}

impl<'a> Serialize for Wide<'a> {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(match self.outer {
            Outer::Seq => Chunk::Seq(Box::new(WideEm(self, 0))),
            Outer::Map => Chunk::Map(Box::new(WideEm(self, 0))),
            Outer::Struct => Chunk::Struct(Box::new(WideEm(self, 0))),
        })
    }
}

/// `d` levels that exist only while they are visited.
struct Deep<'a>(usize, &'a V, Outer);
struct DeepEm<'a>(&'a Deep<'a>, bool);
impl<'a> DeepEm<'a> {
    fn hand(&self) -> SerializeHandle<'_> {
        let d = self.0;
        if d.0 == 0 {
            SerializeHandle::to(d.1)
        } else {
            SerializeHandle::boxed(Deep(d.0 - 1, d.1, d.2))
        }
    }
    fn more(&mut self) -> bool {
        !std::mem::replace(&mut self.1, true)
    }
}
impl<'a> SeqEmitter for DeepEm<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(if self.more() { Some(self.hand()) } else { None })
    }
}
impl<'a> MapEmitter for DeepEm<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(if self.more() { Some(SerializeHandle::to(&"k")) } else { None })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        Ok(self.hand())
    }
}
impl<'a> StructEmitter for DeepEm<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        Ok(if self.more() { Some(("k".into(), self.hand())) } else { None })
    }
}
impl<'a> Serialize for Deep<'a> {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(match self.2 {
            Outer::Seq => Chunk::Seq(Box::new(DeepEm(self, false))),
            Outer::Map => Chunk::Map(Box::new(DeepEm(self, false))),
            Outer::Struct => Chunk::Struct(Box::new(DeepEm(self, false))),
        })
    }
}

fn drain(v: &dyn Serialize, limit: usize) -> u64 {
    let mut d = SerializeDriver::new(v);
    let mut n = 0;
    while let Some((e, _, _)) = d.next().unwrap() {
        std::hint::black_box(&e);
        n += 1;
        if n as usize >= limit {
            break;
        }
    }
    n
}

// ---------------------------------------------------------------- sinks without memory

/// Counts what it gets.
#[derive(Default)]
struct Count {
    atoms: u64,
    bytes: u64,
    boxed: bool,
}
struct CountRef<'a>(&'a mut Count);

fn counted(c: &mut Count, a: &Atom) {
    c.atoms += 1;
    if let Atom::Str(s) = a {
        c.bytes += s.len() as u64;
    }
}

macro_rules! counting {
    ($t:ty, |$s:ident| $c:expr, |$s2:ident| $hand:expr) => {
        fn atom(&mut self, a: Atom, _: &DeserializerState) -> Result<(), Error> {
            let $s = self;
            counted($c, &a);
            Ok(())
        }
        fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
            Ok(())
        }
        fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
            Ok(())
        }
        fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
            let $s2 = self;
            Ok($hand)
        }
        fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
            let $s2 = self;
            Ok($hand)
        }
    };
}

impl Sink for Count {
    counting!(Count, |s| s, |s| if s.boxed { SinkHandle::boxed(CountRef(s)) } else { SinkHandle::to(s) });
}
impl<'a> Sink for CountRef<'a> {
    counting!(CountRef, |s| s.0, |s| if s.0.boxed { SinkHandle::boxed(CountRef(s.0)) } else { SinkHandle::to(s.0) });
}

/// Any document, of which nothing is kept.
struct Nothing;
struct NothingSink<'a>(&'a mut Option<Nothing>, Count);
impl<'a> Sink for NothingSink<'a> {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        self.1.atom(a, st)
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        Ok(SinkHandle::to(&mut self.1))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        Ok(SinkHandle::to(&mut self.1))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        *self.0 = Some(Nothing);
        Ok(())
    }
}
impl Deserialize for Nothing {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(NothingSink(out, Count::default()))
    }
}

#[derive(deser::Deserialize, deser::Serialize)]
struct Known {
    #[deser(default)]
    known: Option<Nil>,
    #[deser(flatten)]
    more: Flat,
    #[deser(alias = "also")]
    last: Option<Box<Nil>>,
}
#[derive(deser::Deserialize, deser::Serialize, Default)]
struct Flat {
    #[deser(default)]
    flat: Vec<Nil>,
    #[deser(default)]
    set: BTreeSet<Nil>,
}
type Nil = ();

// ---------------------------------------------------------------- experiments

/// An experiment of a size; returns something that depends on all of it.
struct Exp<'a> {
    name: String,
    run: Box<dyn Fn(usize) -> u64 + 'a>,
    /// the memory that the result itself takes
    own: Box<dyn Fn(usize) -> i64 + 'a>,
}

fn repeat(d: &mut DeserializeDriver, n: usize, item: &[Ev], map: u8) {
    d.emit(if map > 0 { Ev::MapStart.event() } else { Ev::SeqStart.event() }).unwrap();
    for i in 0..n {
        match map {
            1 => d.emit("known").unwrap(),
            2 => d.emit(format!("key {}", i % 1000)).unwrap(),
            3 => d.emit(i as u64 % 10).unwrap(),
            4 => d.emit(["flat", "also", "set", "last", "known", "unknown"][i % 6]).unwrap(),
            _ => {}
        }
        if map == 4 && matches!(i % 6, 0 | 2) {
            d.emit(Ev::SeqStart.event()).unwrap();
            d.emit(()).unwrap();
            d.emit(Ev::SeqEnd.event()).unwrap();
        } else if map == 4 && i % 6 != 5 {
            d.emit(()).unwrap();
        } else {
            for e in item {
                d.emit(e.event()).unwrap();
            }
        }
    }
    d.emit(if map > 0 { Ev::MapEnd.event() } else { Ev::SeqEnd.event() }).unwrap();
}

fn through<T: Deserialize>(n: usize, item: &[Ev], map: u8, tracked: bool) -> u64 {
    let mut out = None::<T>;
    {
        let sink = T::deserialize_into(&mut out);
        let mut path;
        let mut d = if tracked {
            path = PathSink::wrap_ref(sink);
            DeserializeDriver::from_sink(SinkHandle::to(&mut path))
        } else {
            DeserializeDriver::from_sink(sink)
        };
        repeat(&mut d, n, item, map);
    }
    out.is_some() as u64
}

/// Work that passes data through: all sizes take the same memory.
fn passing<'a>(r: &mut Rng, item: &'a V, tree: &'a T, evs: &'a [Ev]) -> Exp<'a> {
    let none = || Box::new(|_: usize| 0i64);
    let tracked = r.bool();
    let how = *r.pick(&[How::Borrowed, How::Boxed, How::Built]);
    let outer = *r.pick(&[Outer::Seq, Outer::Map, Outer::Struct]);
    let atom: &'static [Ev] = &[Ev::Atom(A::Null)];
    macro_rules! de {
        ($t:ty, $item:expr, $map:expr) => {
            Exp {
                name: format!("events into {} tracked {} as {}", std::any::type_name::<$t>(), tracked, $map),
                run: Box::new(move |n| through::<$t>(n, $item, $map, tracked)),
                own: none(),
            }
        };
    }
    match r.below(22) {
        0 | 1 => Exp {
            name: format!("serialize {:?} {:?} tracked {}", how, outer, tracked),
            run: Box::new(move |n| {
                let w = Wide { n, item, how, outer };
                if tracked {
                    drain(&PathSerializable::wrap(&w), usize::MAX)
                } else {
                    drain(&w, usize::MAX)
                }
            }),
            own: none(),
        },
        2 => Exp {
            name: format!("serialize without end {:?} {:?} tracked {}", how, outer, tracked),
            run: Box::new(move |n| {
                let w = Wide { n: usize::MAX, item, how, outer };
                if tracked {
                    drain(&PathSerializable::wrap(&w), n * 4)
                } else {
                    drain(&w, n * 4)
                }
            }),
            own: none(),
        },
        3 | 4 => {
            let boxed = r.bool();
            let map = r.below(3) as u8;
            Exp {
                name: format!("count events boxed {} as {} tracked {}", boxed, map, tracked),
                run: Box::new(move |n| {
                    let mut c = Count { boxed, ..Count::default() };
                    {
                        let sink = SinkHandle::to(&mut c);
                        let mut path;
                        let mut d = if tracked {
                            path = PathSink::wrap_ref(sink);
                            DeserializeDriver::from_sink(SinkHandle::to(&mut path))
                        } else {
                            DeserializeDriver::from_sink(sink)
                        };
                        repeat(&mut d, n, evs, map);
                    }
                    c.atoms
                }),
                own: none(),
            }
        }
        5 => {
            let map = r.below(3) as u8;
            Exp {
                name: format!("null sink as {}", map),
                run: Box::new(move |n| {
                    let mut d = DeserializeDriver::from_sink(SinkHandle::null());
                    repeat(&mut d, n, evs, map);
                    0
                }),
                own: none(),
            }
        }
        6 => de!(Known, evs, 2),
        7 => de!(Known, atom, 1),
        8 => de!(Known, evs, 4),
        9 => de!(Option<Box<Known>>, evs, 2),
        10 => de!(BTreeMap<u8, Nothing>, evs, 3),
        11 => de!(HashMap<u8, Nothing>, evs, 3),
        12 => de!(Vec<()>, atom, 0),
        13 => de!(BTreeSet<()>, atom, 0),
        14 => de!(Nothing, evs, 0),
        15 => de!(BTreeMap<u64, Option<()>>, atom, 3),
        16 => de!(HashSet<Option<()>>, atom, 0),
        // the writer needs memory for its text only
        17 | 18 => {
            let plain = json::jsonable(tree.clone());
            let item = uservalue::plain(&plain);
            let item: &'a V = Box::leak(Box::new(item));
            Exp {
                name: format!("write JSON {:?} {:?} tracked {}", how, outer, tracked),
                run: Box::new(move |n| {
                    let w = Wide { n, item, how, outer };
                    let s = if tracked {
                        deser_json::to_string(&PathSerializable::wrap(&w)).unwrap()
                    } else {
                        deser_json::to_string(&w).unwrap()
                    };
                    s.capacity().max(s.len() * 21 / 10) as u64
                }),
                own: Box::new(|n| n as i64),
            }
        }
        // the reader needs none
        k => {
            let plain = json::jsonable(tree.clone());
            let one = json::spell(r, &plain.events(), 1);
            let map = k == 21 || r.bool();
            let text = move |n: usize| {
                let mut s = String::with_capacity((one.len() + 12) * n + 2);
                s.push(if map { '{' } else { '[' });
                for i in 0..n {
                    if i > 0 {
                        s.push(',');
                    }
                    if map {
                        s += ["\"x\":", "\"y\\n\":", "\"unknown\": "][i % 3];
                    }
                    s += &one;
                }
                s.push(if map { '}' } else { ']' });
                s
            };
            let known = k == 21;
            Exp {
                name: format!("read JSON map {} known {}", map, known),
                run: Box::new(move |n| {
                    let s = unaccounted(|| text(n));
                    let ok = if known {
                        deser_json::from_str::<Known>(&s).is_ok()
                    } else {
                        deser_json::from_str::<Nothing>(&s).is_ok()
                    };
                    unaccounted(|| drop(s));
                    assert!(ok);
                    0
                }),
                own: none(),
            }
        }
    }
}

fn pass(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut b = *r.pick(&[1, 3, 8, 20]);
    let tree = gen::tree(&mut r, 4, &mut b);
    let evs = tree.events();
    let volume: usize = evs
        .iter()
        .map(|e| match e {
            Ev::Atom(A::Str(s)) => s.len(),
            Ev::Atom(A::Bytes(s)) => s.len(),
            _ => 1,
        })
        .sum();
    if volume > 1500 {
        return;
    }
    let item = uservalue::plain(&tree);
    let mut r2 = r.clone();
    let e = passing(&mut r2, &item, &tree, &evs);
    let small = r.range(100, 400) as usize;
    let large = small * 12;
    case.label = e.name.clone();
    case.eval(Some(fingerprint(&evs) ^ hash_bytes(e.name.as_bytes())));
    // caches and thread locals that come to life on first use are not meant
    (e.run)(3);
    let (base, _) = measure(|| (e.run)(3));
    let (a, _) = measure(|| (e.run)(small));
    let (b, result) = measure(|| (e.run)(large));
    let own = if (e.own)(1) > 0 { result as i64 } else { 0 };
    case.count("items passed", (small + large) as u64);
    case.count("blocks allocated", (a.blocks + b.blocks) as u64);
    case.sample(|| format!("{} of {}: {:?} for {}, {:?} for {}", e.name, show(&evs), a, small, b, large));
    let allowed = if own > 0 { own + base.peak + 2048 } else { a.peak + 1024 };
    case.check(b.peak <= allowed, || {
        format!("{} items of {} take up to {} bytes, {} items {} bytes; the text {}", small, show(&evs), a.peak, large, b.peak, own)
    });
    case.check(a.kept == 0 && b.kept == 0, || {
        format!("{} items of {} leave {} bytes behind, {} items {}", small, show(&evs), a.kept, large, b.kept)
    });
    case.check(b.bytes <= a.bytes * 13 * 5 / 2 + 4096, || {
        format!("{} items of {} allocate {} bytes altogether, {} items {}", small, show(&evs), a.bytes, large, b.bytes)
    });
    case.check(b.blocks <= a.blocks * 13 + 100, || {
        format!("{} items of {} take {} allocations, {} items {}", small, show(&evs), a.blocks, large, b.blocks)
    });
}

// ---------------------------------------------------------------- growth

/// Work whose result or nesting grows with its size.
fn growing(r: &mut Rng, which: u64) -> (&'static str, usize, Box<dyn Fn(usize) -> u64>) {
    let unit: &'static V = Box::leak(Box::new(uservalue::plain(&T::A(A::U64(1)))));
    let outer = *r.pick(&[Outer::Seq, Outer::Map, Outer::Struct]);
    let map = r.bool();
    fn nest(n: usize, map: bool, d: &mut DeserializeDriver) {
        for _ in 0..n {
            if map {
                d.emit(Ev::MapStart.event()).unwrap();
                d.emit("k").unwrap();
            } else {
                d.emit(Ev::SeqStart.event()).unwrap();
            }
        }
        d.emit(1u64).unwrap();
        for _ in 0..n {
            d.emit(if map { Ev::MapEnd.event() } else { Ev::SeqEnd.event() }).unwrap();
        }
    }
    fn nested_json(n: usize, map: bool) -> String {
        if map {
            "{\"k\":".repeat(n) + "1" + &"}".repeat(n)
        } else {
            "[".repeat(n) + &"]".repeat(n)
        }
    }
    fn collect<T: Deserialize>(n: usize, f: &dyn Fn(usize, &mut DeserializeDriver), map: bool) -> u64 {
        let mut out = None::<T>;
        {
            let mut d = DeserializeDriver::new(&mut out);
            d.emit(if map { Ev::MapStart.event() } else { Ev::SeqStart.event() }).unwrap();
            for i in 0..n {
                f(i, &mut d);
            }
            d.emit(if map { Ev::MapEnd.event() } else { Ev::SeqEnd.event() }).unwrap();
        }
        let kept = out.unwrap();
        std::hint::black_box(&kept);
        1
    }
    match which {
        0 => ("serialize nested", 1000, Box::new(move |n| drain(&Deep(n, unit, outer), usize::MAX))),
        1 => ("serialize nested, tracked", 1000, Box::new(move |n| drain(&PathSerializable::wrap(&Deep(n, unit, outer)), usize::MAX))),
        2 => ("write nested JSON", 1000, Box::new(move |n| deser_json::to_string(&Deep(n, unit, outer)).unwrap().len() as u64)),
        3 => ("ignore nested events", 1000, Box::new(move |n| {
            nest(n, map, &mut DeserializeDriver::from_sink(SinkHandle::null()));
            0
        })),
        4 => ("count nested events", 1000, Box::new(move |n| {
            let mut c = Count { boxed: map, ..Count::default() };
            nest(n, map, &mut DeserializeDriver::from_sink(SinkHandle::to(&mut c)));
            c.atoms
        })),
        5 => ("count nested events, tracked", 1000, Box::new(move |n| {
            let mut c = Count::default();
            {
                let mut p = PathSink::wrap(&mut c);
                nest(n, map, &mut DeserializeDriver::from_sink(SinkHandle::to(&mut p)));
            }
            c.atoms
        })),
        6 => ("abandon nested events", 1000, Box::new(move |n| {
            let mut d = DeserializeDriver::from_sink(SinkHandle::null());
            for _ in 0..n {
                d.emit(Ev::SeqStart.event()).unwrap();
            }
            0
        })),
        7 => ("read nested JSON", 1000, Box::new(move |n| {
            let s = nested_json(n, map);
            deser_json::from_str::<Nothing>(&s).unwrap();
            0
        })),
        8 => ("read integers", 3000, Box::new(|n| {
            let s = format!("[{}0]", "123456,".repeat(n));
            deser_json::from_str::<Vec<u64>>(&s).unwrap().len() as u64
        })),
        9 => ("read floats", 1000, Box::new(|n| {
            let s = format!("[{}0]", "1.25e3,".repeat(n));
            deser_json::from_str::<Vec<f64>>(&s).unwrap().len() as u64
        })),
        10 => ("read one string", 20000, Box::new(|n| {
            let s = format!("\"{}\"", "a\\n\u{e9}\\u0041".repeat(n));
            deser_json::from_str::<String>(&s).unwrap().len() as u64
        })),
        11 => ("read many strings", 2000, Box::new(|n| {
            let s = format!("[{}\"\"]", "\"a\\nb\",\"plain\",".repeat(n));
            deser_json::from_str::<Vec<String>>(&s).unwrap().len() as u64
        })),
        12 => ("write one string", 20000, Box::new(|n| deser_json::to_string(&"a\n\u{e9}\"".repeat(n)).unwrap().len() as u64)),
        13 => ("write integers", 3000, Box::new(|n| deser_json::to_string(&(0..n).collect::<Vec<usize>>()).unwrap().len() as u64)),
        14 => ("collect a vector", 3000, Box::new(|n| collect::<Vec<u64>>(n, &|i, d| d.emit(i as u64).unwrap(), false))),
        15 => ("collect bytes", 20000, Box::new(|n| collect::<Vec<u8>>(n, &|i, d| d.emit(i as u64 % 256).unwrap(), false))),
        16 => ("collect a map", 1000, Box::new(|n| {
            collect::<BTreeMap<u64, String>>(n, &|i, d| {
                d.emit(i as u64).unwrap();
                d.emit("value").unwrap()
            }, true)
        })),
        17 => ("collect a hash map", 1000, Box::new(|n| {
            collect::<HashMap<u64, u64>>(n, &|i, d| {
                d.emit(i as u64).unwrap();
                d.emit(i as u64).unwrap()
            }, true)
        })),
        18 => ("collect a set", 1000, Box::new(|n| collect::<BTreeSet<u64>>(n, &|i, d| d.emit(i as u64).unwrap(), false))),
        19 => ("collect a hash set", 1000, Box::new(|n| collect::<HashSet<u64>>(n, &|i, d| d.emit(i as u64).unwrap(), false))),
        20 => ("collect strings", 2000, Box::new(|n| collect::<Vec<Option<String>>>(n, &|_, d| d.emit("text").unwrap(), false))),
        21 => ("serialize a vector", 3000, Box::new(|n| drain(&vec![Some(1u64); n], usize::MAX))),
        22 => ("serialize a map", 1000, Box::new(|n| drain(&(0..n as u64).map(|x| (x, x)).collect::<BTreeMap<_, _>>(), usize::MAX))),
        23 => ("serialize a hash map", 1000, Box::new(|n| drain(&(0..n as u64).map(|x| (x, x)).collect::<HashMap<_, _>>(), usize::MAX))),
        24 => ("serialize a hash set, tracked", 1000, Box::new(|n| {
            drain(&PathSerializable::wrap(&(0..n as u64).collect::<HashSet<_>>()), usize::MAX)
        })),
        25 => ("read structs", 1000, Box::new(|n| {
            let s = format!("[{}{{}}]", "{\"known\":null,\"flat\":[null],\"x\":{\"y\":[1]}},".repeat(n));
            deser_json::from_str::<Vec<Known>>(&s).unwrap().len() as u64
        })),
        26 => ("read any document", 1000, Box::new(|n| {
            let s = format!("[{}null]", "{\"a\":[1,\"b\"]},".repeat(n));
            deser_json::from_str::<Any>(&s).unwrap().0.len() as u64
        })),
        27 => ("write structs", 1000, Box::new(|n| {
            let v: Vec<Known> = (0..n).map(|_| Known { known: None, more: Flat::default(), last: None }).collect();
            deser_json::to_string(&v).unwrap().len() as u64
        })),
        28 => ("debug output", 1000, Box::new(|n| format!("{:?}", deser_debug::ToDebug::new(&vec![Some((1u8, "x")); n])).len() as u64)),
        29 => ("pretty debug output", 1000, Box::new(|n| {
            format!("{:#?}", deser_debug::ToDebug::new(&(0..n).map(|x| (x, vec![x])).collect::<BTreeMap<_, _>>())).len() as u64
        })),
        30 => ("skip white space", 20000, Box::new(|n| {
            deser_json::from_str::<Vec<u8>>(&format!("{}[{}]{}", " ".repeat(n), "\n".repeat(n), "\t".repeat(n))).unwrap().len() as u64
        })),
        31 => ("read long numbers", 5000, Box::new(|n| {
            let mut n = deser_json::from_str::<f64>(&format!("0.{}", "3".repeat(n))).is_ok() as u64;
            n += deser_json::from_str::<f64>(&format!("{}e-5", "7".repeat(200))).is_ok() as u64;
            n
        })),
        32 => ("fail late", 1000, Box::new(|n| {
            let s = format!("[{}\"x\"]", "1,".repeat(n));
            deser_json::from_str::<Vec<u64>>(&s).is_err() as u64
        })),
        _ => ("abandon a nested value", 1000, Box::new(move |n| drain(&Deep(n, unit, outer), n / 2))),
    }
}
const GROWING: u64 = 34;

fn grow(case: &mut Case) {
    let mut r = case.rng.clone();
    let (name, base, run) = growing(&mut r, case.idx % GROWING);
    case.label = name.to_string();
    let small = base + r.below(base as u64 / 4) as usize;
    const K: usize = 16;
    let large = small * K;
    case.eval(Some(hash_bytes(name.as_bytes()) ^ mix(small as u64)));
    run(10);
    let (a, x) = measure(|| run(small));
    let (b, y) = measure(|| run(large));
    std::hint::black_box((x, y));
    case.count("blocks allocated", (a.blocks + b.blocks) as u64);
    case.sample(|| format!("{}: {:?} for {}, {:?} for {}", name, a, small, b, large));
    // growing by doubling may be just before or after a step
    let k = K as i64;
    case.check(b.peak <= a.peak * k * 5 / 2 + 4096, || {
        format!("size {} takes up to {} bytes, size {} {} bytes", small, a.peak, large, b.peak)
    });
    case.check(b.blocks <= a.blocks * k * 5 / 4 + 100, || {
        format!("size {} takes {} allocations, size {} {}", small, a.blocks, large, b.blocks)
    });
    case.check(b.bytes <= a.bytes * k * 5 / 2 + 4096, || {
        format!("size {} allocates {} bytes altogether, size {} {} bytes", small, a.bytes, large, b.bytes)
    });
    case.check(a.kept == 0 && b.kept == 0, || format!("{} and {} bytes are left behind", a.kept, b.kept));
    // time is only an estimate: the best of several runs, and quadratic work would be K times worse
    let best = |n: usize, times: usize| (0..times).map(|_| measure(|| run(n)).0.cpu).min().unwrap();
    let (mut s, mut l) = (a.cpu.max(1), b.cpu);
    let limit = |s: u64| (s.max(20_000)) * K as u64 * 6;
    for _ in 0..4 {
        if l <= limit(s) {
            break;
        }
        s = s.max(best(small, 5));
        l = l.min(best(large, 3));
    }
    case.count("CPU ratio x100 over linear, summed", l * 100 / (s * K as u64));
    case.check(l <= limit(s), || format!("size {} takes {} us, size {} {} us", small, s / 1000, large, l / 1000));
}

fn main() {
    let ctx = Ctx::new("C22");
    ctx.group("pass", ctx.n(6_000, 300_000), pass);
    ctx.group("grow", GROWING * ctx.n(6, 150), grow);
    ctx.finish()
}
