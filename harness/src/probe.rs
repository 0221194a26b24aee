//! Shared context of the probe values: log, fault plan, ledger, extension model.
use crate::model::*;
use crate::util::{mix, Injected, Rng};
use deser::de::DeserializerState;
use deser::ser::SerializerState;
use deser::{Descriptor, Error, ErrorKind};
use deser_path::{Path, PathSegment};
use std::cell::{Ref, RefCell, RefMut};
use std::collections::HashMap;
use std::fmt::Debug;

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    U,
    I(u64),
    K(String),
}

pub fn segs(p: &Path) -> Vec<Seg> {
    p.segments()
        .iter()
        .map(|s| match s {
            PathSegment::Unknown => Seg::U,
            PathSegment::Index(i) => Seg::I(*i as u64),
            PathSegment::Key(k) => Seg::K(k.clone()),
        })
        .collect()
}

/// What the state showed.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct View {
    pub depth: usize,
    pub top: Option<D>,
    pub path: Option<Vec<Seg>>,
}

/// Both driver states.
pub trait St {
    fn depth(&self) -> usize;
    fn top(&self) -> Option<D>;
    fn get<T: Default + Debug + 'static>(&self) -> Ref<'_, T>;
    fn get_mut<T: Default + Debug + 'static>(&self) -> RefMut<'_, T>;
}

macro_rules! st {
    ($t:ident) => {
        impl<'a> St for $t<'a> {
            fn depth(&self) -> usize {
                $t::depth(self)
            }
            fn top(&self) -> Option<D> {
                self.top_descriptor().map(D::of)
            }
            fn get<T: Default + Debug + 'static>(&self) -> Ref<'_, T> {
                $t::get(self)
            }
            fn get_mut<T: Default + Debug + 'static>(&self) -> RefMut<'_, T> {
                $t::get_mut(self)
            }
        }
    };
}
st!(SerializerState);
st!(DeserializerState);

#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    // serialization
    Ser { id: usize, v: View },
    Fin { id: usize, v: View },
    Next { id: usize, what: char, v: View },
    DropEmitter { id: usize },
    DropValue { id: usize },
    Event { ev: Ev, d: D, v: View },
    // deserialization
    Atom { id: usize, a: A, v: View },
    Map { id: usize, v: View },
    Seq { id: usize, v: View },
    Key { id: usize, v: View },
    Val { id: usize, v: View },
    ForKey { id: usize, key: String, hit: bool, v: View },
    SinkFin { id: usize, v: View },
    DropSink { id: usize },
    // both
    Fault,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Err(ErrorKind),
    Panic,
    /// of a drop, not of a callback
    Drop,
}

pub struct Cx {
    pub on: bool,
    pub log: Vec<Rec>,
    pub calls: u64,
    pub fault: Option<(u64, FaultKind)>,
    pub fired: bool,
    /// the drop of a tracked thing that panics
    pub drop_fault: Option<u64>,
    drops: u64,
    pub next_id: usize,
    pub with_path: bool,
    /// decides about handles and wrappers of child sinks
    pub salt: u64,
    /// handles and wrappers of the children of probe sinks
    pub plan: HashMap<(usize, usize), crate::probe_de::Kind>,
    live: HashMap<u64, &'static str>,
    next_tok: u64,
    made: u64,
    pub errors: Vec<String>,
    /// draws for extension accesses
    pub ext: Option<Box<Ext>>,
}

impl Cx {
    const fn none() -> Option<Cx> {
        None
    }
}

thread_local! {
    static CX: RefCell<Option<Cx>> = const { RefCell::new(Cx::none()) };
}

pub fn begin(salt: u64) {
    CX.with(|c| {
        *c.borrow_mut() = Some(Cx {
            on: true,
            log: vec![],
            calls: 0,
            fault: None,
            fired: false,
            drop_fault: None,
            drops: 0,
            next_id: 0,
            with_path: false,
            salt,
            plan: HashMap::new(),
            live: HashMap::new(),
            next_tok: 1,
            made: 0,
            errors: vec![],
            ext: None,
        })
    });
}

pub fn with<R>(f: impl FnOnce(&mut Cx) -> R) -> R {
    CX.with(|c| f(c.borrow_mut().as_mut().expect("no probe context")))
}

/// How many tracked things of that kind are alive.
pub fn live(what: &str) -> usize {
    with(|c| c.live.values().filter(|x| **x == what).count())
}

/// All tracked things that are alive.
pub fn live_all() -> usize {
    with(|c| c.live.len())
}

pub struct Ended {
    pub log: Vec<Rec>,
    pub calls: u64,
    pub fired: bool,
    /// ledger violations
    pub errors: Vec<String>,
    pub tracked: u64,
    pub ext: Option<Box<Ext>>,
}

/// Ends the context; whatever is still alive was leaked.
pub fn end() -> Ended {
    let cx = CX.with(|c| c.borrow_mut().take()).expect("no probe context");
    let mut errors = cx.errors;
    if !cx.live.is_empty() {
        let mut k: Vec<_> = cx.live.values().collect();
        k.sort();
        errors.push(format!("never dropped: {:?}", k));
    }
    Ended { log: cx.log, calls: cx.calls, fired: cx.fired, errors, tracked: cx.made, ext: cx.ext }
}

pub fn put(r: Rec) {
    CX.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            if c.on {
                c.log.push(r)
            }
        }
    })
}

pub fn new_id() -> usize {
    with(|c| {
        c.next_id += 1;
        c.next_id - 1
    })
}

/// Something that has to be dropped exactly once.
#[derive(Debug)]
pub struct Tok {
    n: u64,
    check: u64,
}

impl Tok {
    pub fn new(what: &'static str) -> Tok {
        CX.with(|c| match c.borrow_mut().as_mut() {
            Some(c) => {
                let n = c.next_tok;
                c.next_tok += 1;
                c.made += 1;
                c.live.insert(n, what);
                Tok { n, check: mix(n) }
            }
            None => Tok { n: 0, check: mix(0) },
        })
    }
    pub fn assert_alive(&self, what: &str) {
        if !self.intact() {
            with(|c| c.errors.push(format!("a callback on a dropped {}", what)));
        }
    }
    /// The memory still holds this very token.
    pub fn intact(&self) -> bool {
        self.check == mix(self.n)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let (n, ok) = (self.n, self.intact());
        self.check = !self.check;
        let boom = CX.with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                if let Some(c) = c.as_mut() {
                    if !ok {
                        c.errors.push("dropped something that is not a live value".into());
                    } else if n != 0 && c.live.remove(&n).is_none() {
                        c.errors.push("dropped twice".into());
                    }
                    c.drops += 1;
                    if c.drop_fault == Some(c.drops) && !std::thread::panicking() {
                        c.fired = true;
                        return true;
                    }
                }
            }
            false
        });
        if boom {
            std::panic::panic_any(Injected);
        }
    }
}

pub fn view<S: St>(st: &S) -> View {
    let with_path = with(|c| c.with_path);
    View {
        depth: st.depth(),
        top: st.top(),
        path: if with_path { Some(segs(&st.get::<Path>())) } else { None },
    }
}

pub const FAULT_MSG: &str = "injected fault";

/// Every callback of a probe goes through here.
pub fn cb<S: St>(st: &S, f: impl FnOnce(View) -> Rec) -> Result<(), Error> {
    let v = view(st);
    let r = f(v);
    ext_step(st);
    let fault = with(|c| {
        if c.on {
            c.log.push(r);
        }
        c.calls += 1;
        match c.fault {
            Some((at, k)) if at == c.calls => {
                c.fired = true;
                if c.on {
                    c.log.push(Rec::Fault);
                }
                Some(k)
            }
            _ => None,
        }
    });
    match fault {
        Some(FaultKind::Err(k)) => Err(Error::new(k, FAULT_MSG)),
        Some(FaultKind::Panic | FaultKind::Drop) => std::panic::panic_any(Injected),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- extensions

/// K makes types of different sizes, T different types of the same size.
pub struct ExtVal<const K: usize, const G: u8> {
    pub val: u64,
    // a different size for every type
    _pad: [u8; K],
    _tok: Tok,
}

impl<const K: usize, const G: u8> Debug for ExtVal<K, G> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val)
    }
}

/// What a fresh extension of that type holds; unique per creation so that a second
/// initialisation is seen.
impl<const K: usize, const G: u8> Default for ExtVal<K, G> {
    fn default() -> Self {
        let val = CX.with(|c| {
            let mut c = c.borrow_mut();
            match c.as_mut().and_then(|c| c.ext.as_mut()) {
                Some(e) => {
                    e.fresh += 1;
                    e.created.push((K * 256 + G as usize, e.fresh | 1 << 40));
                    e.fresh | 1 << 40
                }
                None => 0,
            }
        });
        ExtVal { val, _pad: [K as u8; K], _tok: Tok::new("extension value") }
    }
}

/// The sequential model of the extension values of all drivers.
pub struct Ext {
    pub rng: Rng,
    pub model: HashMap<(usize, usize), u64>,
    /// driver whose callbacks run at the moment
    pub cur: usize,
    pub fresh: u64,
    pub created: Vec<(usize, u64)>,
    pub ops: u64,
    pub reads: u64,
    pub errors: Vec<String>,
    pub history: u64,
    /// values of types without size
    pub nothings: Vec<(u8, u64)>,
    /// more types than any table starts with
    pub wide: bool,
}

impl Ext {
    pub fn new(mut rng: Rng) -> Box<Ext> {
        Box::new(Ext {
            wide: rng.chance(1, 24),
            rng,
            model: HashMap::new(),
            cur: 0,
            fresh: 0,
            created: vec![],
            ops: 0,
            reads: 0,
            errors: vec![],
            history: 0,
            nothings: vec![],
        })
    }
}

fn access<S: St, const K: usize, const G: u8>(st: &S, write: Option<u64>, by_mut: bool) -> u64 {
    match write {
        Some(x) => {
            let mut r = st.get_mut::<ExtVal<K, G>>();
            let old = r.val;
            r.val = x;
            old
        }
        None if by_mut => st.get_mut::<ExtVal<K, G>>().val,
        None => st.get::<ExtVal<K, G>>().val,
    }
}

/// Two types that only differ in where they are declared; their names are the same.
fn twin<S: St>(st: &S, second: bool, write: Option<u64>, by_mut: bool) -> u64 {
    macro_rules! twin {
        () => {{
            #[derive(Debug, Default)]
            struct Twin(ExtVal<8, 3>);
            match write {
                Some(x) => std::mem::replace(&mut st.get_mut::<Twin>().0.val, x),
                None if by_mut => st.get_mut::<Twin>().0.val,
                None => st.get::<Twin>().0.val,
            }
        }};
    }
    if second {
        twin!()
    } else {
        twin!()
    }
}

/// A type of no size: only the creations and drops can be seen.
#[derive(Debug)]
pub struct Nothing<const G: u8>;

impl<const G: u8> Default for Nothing<G> {
    fn default() -> Self {
        CX.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                c.next_tok += 1;
                c.made += 1;
                let key = c.next_tok - 1;
                c.live.insert(key, "extension value");
                if let Some(e) = &mut c.ext {
                    e.fresh += 1;
                    e.created.push((usize::MAX - G as usize, 0));
                    e.nothings.push((G, key));
                }
            }
        });
        Nothing
    }
}

impl<const G: u8> Drop for Nothing<G> {
    fn drop(&mut self) {
        CX.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                let mut key = None;
                if let Some(e) = &mut c.ext {
                    if let Some(i) = e.nothings.iter().position(|x| x.0 == G) {
                        key = Some(e.nothings.swap_remove(i).1);
                    }
                }
                match key {
                    Some(k) => {
                        c.live.remove(&k);
                    }
                    None => c.errors.push("an extension value without size is dropped twice".into()),
                }
            }
        });
    }
}

fn nothing<S: St, const G: u8>(st: &S, write: Option<u64>, by_mut: bool) -> u64 {
    if write.is_some() || by_mut {
        drop(st.get_mut::<Nothing<G>>());
    } else {
        drop(st.get::<Nothing<G>>());
    }
    0
}

/// Types beyond the first few.
pub const MORE: usize = 140;
fn more<S: St>(st: &S, which: usize, write: Option<u64>, by_mut: bool) -> u64 {
    macro_rules! each {
        ($($n:literal)*) => {
            match which {
                $($n => access::<S, 16, $n>(st, write, by_mut),)*
                _ => unreachable!(),
            }
        };
    }
    each!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34
        35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67
        68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100
        101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125
        126 127 128 129 130 131 132 133 134 135 136 137 138 139)
}

/// Random accesses, compared with the model.
pub fn ext_step<S: St>(st: &S) {
    let n = CX.with(|c| match c.borrow_mut().as_mut().and_then(|c| c.ext.as_mut()) {
        Some(e) if e.wide => e.rng.below(24),
        Some(e) => e.rng.below(4),
        None => 0,
    });
    for _ in 0..n {
        let (cur, k, write, by_mut) = with(|c| {
            let e = c.ext.as_mut().unwrap();
            e.created.clear();
            let k = e.rng.idx(if e.wide { 12 + MORE } else { 12 });
            let write = if e.rng.bool() { Some(e.rng.below(1 << 30)) } else { None };
            (e.cur, k, write, e.rng.bool())
        });
        let got = match k {
            0 => access::<S, 0, 0>(st, write, by_mut),
            1 => access::<S, 1, 0>(st, write, by_mut),
            2 => access::<S, 8, 0>(st, write, by_mut),
            3 => access::<S, 40, 0>(st, write, by_mut),
            4 => access::<S, 300, 0>(st, write, by_mut),
            5 => access::<S, 0, 1>(st, write, by_mut),
            6 => access::<S, 8, 1>(st, write, by_mut),
            7 => access::<S, 8, 2>(st, write, by_mut),
            10 => nothing::<S, 0>(st, write, by_mut),
            11 => nothing::<S, 1>(st, write, by_mut),
            8 | 9 => twin(st, k == 9, write, by_mut),
            k => more(st, k - 12, write, by_mut),
        };
        let size = if k >= 12 { 16 * 256 + k - 12 } else { [0, 256, 8 * 256, 40 * 256, 300 * 256, 1, 8 * 256 + 1, 8 * 256 + 2, 8 * 256 + 3, 8 * 256 + 3, usize::MAX, usize::MAX - 1]
            [k] };
        let write = write.filter(|_| k < 10 || k >= 12);
        with(|c| {
            let e = c.ext.as_mut().unwrap();
            e.ops += 1;
            e.reads += 1;
            e.history = mix(e.history ^ ((k as u64) << 3 | (write.is_some() as u64) << 1 | by_mut as u64));
            let created = std::mem::take(&mut e.created);
            match e.model.get(&(cur, k)) {
                Some(x) => {
                    if !created.is_empty() {
                        e.errors.push(format!("driver {} type {}: initialised again", cur, k));
                    } else if *x != got {
                        e.errors.push(format!("driver {} type {}: read {} but {} was written", cur, k, got, x));
                    }
                }
                None => {
                    if created.iter().filter(|x| x.0 == size).count() != 1 || created.last().map(|x| x.1) != Some(got) {
                        e.errors.push(format!(
                            "driver {} type {}: the first access did not see a fresh default but {} ({:?})",
                            cur, k, got, created
                        ));
                    }
                }
            }
            e.model.insert((cur, k), write.unwrap_or(got));
        });
    }
}

// ---------------------------------------------------------------- descriptors

#[derive(Debug, Clone, PartialEq)]
pub struct PDesc(pub D);

impl Descriptor for PDesc {
    fn name(&self) -> Option<&str> {
        self.0.name.as_deref()
    }
    fn precision(&self) -> Option<usize> {
        self.0.precision
    }
    fn unordered(&self) -> bool {
        self.0.unordered
    }
}

pub fn pdesc(id: usize) -> D {
    // some have no name and some share one
    let shared = id % 4 == 3;
    D {
        name: if id % 5 == 4 {
            None
        } else if shared {
            Some("shared".into())
        } else {
            Some(format!("p{}", id))
        },
        precision: if id % 3 == 1 || shared { Some(id) } else { None },
        unordered: id % 2 == 1,
    }
}

static DESCS: std::sync::OnceLock<Vec<PDesc>> = std::sync::OnceLock::new();

const N_DESCS: usize = if cfg!(miri) { 64 } else { 4096 };

/// Descriptor of a sink probe; static because a sink that is mutated while its own
/// descriptor is borrowed by the driver is a finding of its own.
pub fn sink_desc(id: usize) -> &'static PDesc {
    let d = DESCS.get_or_init(|| (0..N_DESCS).map(|i| PDesc(pdesc(i))).collect());
    &d[id % N_DESCS]
}
