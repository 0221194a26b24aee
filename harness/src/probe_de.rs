//! Probe sinks for deserialization: every callback is logged and simulated.
use crate::gen;
use crate::model::*;
use crate::probe::*;
use crate::probe_ser::{matches, show_log, NT};
use crate::util::Rng;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, ErrorKind};
use deser_path::PathSink;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, HashSet};

/// Where the sink of a child comes from and what is in between.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Plain,
    Opt,
    Boxed,
    New,
    OptBoxNew,
    NewOpt,
    Path,
    Owned,
    Inline,
    Null,
    // built-in containers, only for nodes that fit
    Vec,
    Tup,
    Arr,
    BTree,
    Hash,
    Outer,
    Outer2,
    Outer3,
    Outer4,
    OptOuter,
    OptVec,
    // a type whose sink takes everything and stores nothing
    Sil,
    SilBox,
    SilOpt,
    SilNew,
    SilVec,
}

impl Kind {
    fn opt(self) -> bool {
        matches!(self, Kind::Opt | Kind::OptBoxNew | Kind::NewOpt | Kind::OptOuter | Kind::OptVec | Kind::SilOpt)
    }
    fn silent(self) -> bool {
        matches!(self, Kind::Sil | Kind::SilBox | Kind::SilNew)
    }
    fn keeps_sink(self) -> bool {
        matches!(self, Kind::Owned | Kind::Inline)
    }
}

/// A deserialized probe.
#[derive(Debug)]
pub struct P {
    pub id: usize,
    pub val: PV,
    _tok: Tok,
}

#[derive(Debug)]
pub enum PV {
    Atom(A),
    Seq(Vec<Got>),
    Map(Vec<(Got, Got)>),
}

#[derive(deser::Deserialize, Debug)]
pub struct Outer {
    pub a: P,
    #[deser(flatten)]
    pub f: FP<'f'>,
    pub z: Option<P>,
}

#[derive(deser::Deserialize, Debug)]
pub struct Outer2 {
    #[deser(flatten)]
    pub o: Outer,
    pub b: P,
}

#[derive(deser::Deserialize, Debug)]
pub struct Outer3 {
    #[deser(flatten)]
    pub f: Box<FP<'f'>>,
    pub a: P,
    #[deser(flatten)]
    pub g: Option<FP<'g'>>,
}

/// Flattened fields after many others.
#[derive(deser::Deserialize, Debug)]
pub struct Outer4 {
    pub p0: Option<P>,
    pub p1: Option<P>,
    pub p2: Option<P>,
    pub p3: Option<P>,
    pub p4: Option<P>,
    pub p5: Option<P>,
    pub p6: Option<P>,
    pub p7: Option<P>,
    pub p8: Option<P>,
    #[deser(flatten)]
    pub f: FP<'f'>,
    pub a: P,
    #[deser(flatten)]
    pub g: Option<FP<'g'>>,
    pub p9: Option<P>,
}

/// What came out of a child.
#[derive(Debug)]
pub enum Got {
    Nothing,
    Absent,
    Ignored,
    P(P),
    List(Vec<P>),
    Dict(Vec<(String, P)>),
    Outer(Outer),
    Outer2(Outer2),
    Outer3(Outer3),
    Outer4(Box<Outer4>),
}

/// The same without tokens, for comparison.
#[derive(Debug, Clone, PartialEq)]
pub enum X {
    Nothing,
    Absent,
    Ignored,
    Atom(usize, A),
    Seq(usize, Vec<X>),
    Map(usize, Vec<(X, X)>),
    List(Vec<X>),
    Dict(Vec<(String, X)>),
}

impl P {
    pub fn x(&self) -> X {
        if !self._tok.intact() {
            with(|c| c.errors.push("a result that is not alive".into()));
        }
        match &self.val {
            PV::Atom(a) => X::Atom(self.id, a.clone()),
            PV::Seq(v) => X::Seq(self.id, v.iter().map(|x| x.x()).collect()),
            PV::Map(v) => X::Map(self.id, v.iter().map(|(a, b)| (a.x(), b.x())).collect()),
        }
    }
}

fn outer_x(o: &Outer) -> Vec<(String, X)> {
    vec![
        ("a".into(), o.a.x()),
        ("f".into(), o.f.x()),
        ("z".into(), o.z.as_ref().map_or(X::Absent, |x| x.x())),
    ]
}

impl Got {
    pub fn x(&self) -> X {
        match self {
            Got::Nothing => X::Nothing,
            Got::Absent => X::Absent,
            Got::Ignored => X::Ignored,
            Got::P(p) => p.x(),
            Got::List(v) => X::List(v.iter().map(|x| x.x()).collect()),
            Got::Dict(v) => X::Dict(v.iter().map(|(k, x)| (k.clone(), x.x())).collect()),
            Got::Outer(o) => X::Dict(outer_x(o)),
            Got::Outer2(o) => {
                let mut v = outer_x(&o.o);
                v.push(("b".into(), o.b.x()));
                X::Dict(v)
            }
            Got::Outer4(o) => {
                let mut v: Vec<(String, X)> = [&o.p0, &o.p1, &o.p2, &o.p3, &o.p4, &o.p5, &o.p6, &o.p7, &o.p8, &o.p9]
                    .iter()
                    .enumerate()
                    .map(|(i, p)| (format!("p{}", i), p.as_ref().map_or(X::Absent, |x| x.x())))
                    .collect();
                v.push(("f".into(), o.f.x()));
                v.push(("a".into(), o.a.x()));
                v.push(("g".into(), o.g.as_ref().map_or(X::Absent, |x| x.x())));
                X::Dict(v)
            }
            Got::Outer3(o) => X::Dict(vec![
                ("f".into(), o.f.x()),
                ("a".into(), o.a.x()),
                ("g".into(), o.g.as_ref().map_or(X::Absent, |x| x.x())),
            ]),
        }
    }
}

// ---------------------------------------------------------------- slots

#[derive(Default)]
pub struct Slot {
    kind: Option<Kind>,
    p: Option<P>,
    opt: Option<Option<P>>,
    bx: Option<Box<P>>,
    nt: Option<NT<P>>,
    obn: Option<Option<Box<NT<P>>>>,
    nto: Option<NT<Option<P>>>,
    own: Option<OwnedSink<P>>,
    inline: Option<Box<Core>>,
    vec: Option<Vec<P>>,
    tup: Option<(P, P)>,
    arr: Option<[P; 2]>,
    btree: Option<BTreeMap<String, P>>,
    hash: Option<HashMap<String, P>>,
    outer: Option<Outer>,
    outer2: Option<Outer2>,
    outer3: Option<Outer3>,
    outer4: Option<Outer4>,
    oo: Option<Option<Outer>>,
    ov: Option<Option<Vec<P>>>,
    sil: Option<Sil>,
    silb: Option<Box<Sil>>,
    silo: Option<Option<Box<Sil>>>,
    siln: Option<NT<Sil>>,
    silv: Option<Vec<Sil>>,
}

fn into<T: Deserialize>(s: &mut Option<T>) -> SinkHandle<'_> {
    T::deserialize_into(s)
}

impl Slot {
    pub fn handle(&mut self, k: Kind) -> SinkHandle<'_> {
        self.kind = Some(k);
        match k {
            Kind::Plain => into(&mut self.p),
            Kind::Opt => into(&mut self.opt),
            Kind::Boxed => into(&mut self.bx),
            Kind::New => into(&mut self.nt),
            Kind::OptBoxNew => into(&mut self.obn),
            Kind::NewOpt => into(&mut self.nto),
            Kind::Path => SinkHandle::boxed(PathSink::wrap_ref(into(&mut self.p))),
            Kind::Owned => {
                self.own = None;
                SinkHandle::to(self.own.insert(OwnedSink::deserialize()).borrow_mut())
            }
            Kind::Inline => {
                self.inline = None;
                SinkHandle::to(&mut **self.inline.insert(Box::new(Core::new())))
            }
            Kind::Null => SinkHandle::null(),
            Kind::Vec => into(&mut self.vec),
            Kind::Tup => into(&mut self.tup),
            Kind::Arr => into(&mut self.arr),
            Kind::BTree => into(&mut self.btree),
            Kind::Hash => into(&mut self.hash),
            Kind::Outer => into(&mut self.outer),
            Kind::Outer2 => into(&mut self.outer2),
            Kind::Outer3 => into(&mut self.outer3),
            Kind::Outer4 => into(&mut self.outer4),
            Kind::OptOuter => into(&mut self.oo),
            Kind::OptVec => into(&mut self.ov),
            Kind::Sil => into(&mut self.sil),
            Kind::SilBox => into(&mut self.silb),
            Kind::SilOpt => into(&mut self.silo),
            Kind::SilNew => into(&mut self.siln),
            Kind::SilVec => into(&mut self.silv),
        }
    }
    /// Takes what the last handle produced.
    pub fn harvest(&mut self) -> Got {
        fn silent(some: bool) -> Got {
            if some {
                with(|c| c.errors.push("a value where none was stored".into()));
            }
            Got::Nothing
        }
        fn one(p: Option<P>) -> Got {
            p.map_or(Got::Nothing, Got::P)
        }
        fn opt(p: Option<Option<P>>) -> Got {
            match p {
                None => Got::Nothing,
                Some(None) => Got::Absent,
                Some(Some(x)) => Got::P(x),
            }
        }
        match self.kind.take() {
            None => Got::Nothing,
            Some(Kind::Null) => Got::Ignored,
            Some(Kind::Plain) | Some(Kind::Path) => one(self.p.take()),
            Some(Kind::Opt) => opt(self.opt.take()),
            Some(Kind::Boxed) => one(self.bx.take().map(|x| *x)),
            Some(Kind::New) => one(self.nt.take().map(|x| x.0)),
            Some(Kind::OptBoxNew) => opt(self.obn.take().map(|x| x.map(|x| x.0))),
            Some(Kind::NewOpt) => opt(self.nto.take().map(|x| x.0)),
            Some(Kind::Owned) => one(self.own.as_mut().and_then(|x| x.take())),
            Some(Kind::Inline) => one(self.inline.as_mut().and_then(|x| x.result())),
            Some(Kind::Vec) => self.vec.take().map_or(Got::Nothing, Got::List),
            Some(Kind::Tup) => self.tup.take().map_or(Got::Nothing, |(a, b)| Got::List(vec![a, b])),
            Some(Kind::Arr) => self.arr.take().map_or(Got::Nothing, |x| Got::List(x.into())),
            Some(Kind::BTree) => {
                self.btree.take().map_or(Got::Nothing, |x| Got::Dict(x.into_iter().collect()))
            }
            Some(Kind::Hash) => self.hash.take().map_or(Got::Nothing, |x| {
                let mut v: Vec<_> = x.into_iter().collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                Got::Dict(v)
            }),
            Some(Kind::Outer) => self.outer.take().map_or(Got::Nothing, Got::Outer),
            Some(Kind::Outer2) => self.outer2.take().map_or(Got::Nothing, Got::Outer2),
            Some(Kind::Outer3) => self.outer3.take().map_or(Got::Nothing, Got::Outer3),
            Some(Kind::Outer4) => self.outer4.take().map_or(Got::Nothing, |x| Got::Outer4(Box::new(x))),
            Some(Kind::OptOuter) => match self.oo.take() {
                None => Got::Nothing,
                Some(None) => Got::Absent,
                Some(Some(x)) => Got::Outer(x),
            },
            Some(Kind::OptVec) => match self.ov.take() {
                None => Got::Nothing,
                Some(None) => Got::Absent,
                Some(Some(x)) => Got::List(x),
            },
            Some(Kind::Sil) => silent(self.sil.take().is_some()),
            Some(Kind::SilBox) => silent(self.silb.take().is_some()),
            Some(Kind::SilNew) => silent(self.siln.take().is_some()),
            Some(Kind::SilOpt) => match self.silo.take() {
                None => Got::Nothing,
                Some(None) => Got::Absent,
                Some(Some(_)) => silent(true),
            },
            Some(Kind::SilVec) => match self.silv.take() {
                None => Got::Nothing,
                Some(x) => {
                    silent(!x.is_empty());
                    Got::List(vec![])
                }
            },
        }
    }
}

// ---------------------------------------------------------------- sinks

/// The sink of all probes.
pub struct Core {
    id: Option<usize>,
    val: Option<PV>,
    slot: Slot,
    key: Option<Got>,
    n: usize,
    done: bool,
    tok: Tok,
}

fn plan(id: usize, n: usize) -> Kind {
    with(|c| c.plan.get(&(id, n)).copied().unwrap_or(Kind::Plain))
}

impl Core {
    fn new() -> Core {
        Core { id: None, val: None, slot: Slot::default(), key: None, n: 0, done: false, tok: Tok::new("sink") }
    }
    fn id(&mut self) -> usize {
        if !self.tok.intact() {
            with(|c| c.errors.push("callback on a sink that is not alive".into()));
        }
        match self.id {
            Some(x) => x,
            None => {
                let x = new_id();
                self.id = Some(x);
                x
            }
        }
    }
    fn child(&mut self) -> SinkHandle<'_> {
        let k = plan(self.id.unwrap_or(usize::MAX), self.n);
        self.n += 1;
        self.slot.handle(k)
    }
    fn collect(&mut self) {
        let got = self.slot.harvest();
        match &mut self.val {
            Some(PV::Seq(v)) => {
                if !matches!(got, Got::Nothing) {
                    v.push(got)
                }
            }
            Some(PV::Map(v)) => match self.key.take() {
                Some(k) => v.push((k, got)),
                None => {}
            },
            _ => {}
        }
    }
    fn result(&mut self) -> Option<P> {
        if !self.done {
            return None;
        }
        Some(P { id: self.id?, val: self.val.take()?, _tok: Tok::new("probe") })
    }
}

impl Drop for Core {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            put(Rec::DropSink { id });
        }
    }
}

impl Sink for Core {
    fn atom(&mut self, atom: Atom, st: &DeserializerState) -> Result<(), Error> {
        let id = self.id();
        let a = A::of(&atom);
        self.val = Some(PV::Atom(a.clone()));
        cb(st, |v| Rec::Atom { id, a, v })
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        let id = self.id();
        self.val = Some(PV::Map(vec![]));
        cb(st, |v| Rec::Map { id, v })
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        let id = self.id();
        self.val = Some(PV::Seq(vec![]));
        cb(st, |v| Rec::Seq { id, v })
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        let id = self.id();
        self.collect();
        cb(st, |v| Rec::Key { id, v })?;
        Ok(self.child())
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        let id = self.id();
        if let Some(PV::Map(_)) = self.val {
            self.key = Some(self.slot.harvest());
        } else {
            self.collect();
        }
        cb(st, |v| Rec::Val { id, v })?;
        Ok(self.child())
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        let id = self.id();
        if self.slot.kind.is_some() {
            self.collect();
        }
        cb(st, |v| Rec::SinkFin { id, v })?;
        self.done = true;
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        match self.id {
            Some(id) => sink_desc(id),
            None => sink_desc(0),
        }
    }
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Borrowed("a probe")
    }
}

struct PSink<'a> {
    core: Core,
    out: &'a mut Option<P>,
}

impl<'a> Sink for PSink<'a> {
    fn atom(&mut self, atom: Atom, st: &DeserializerState) -> Result<(), Error> {
        self.core.atom(atom, st)
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.core.map(st)
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.core.seq(st)
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        self.core.next_key(st)
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        self.core.next_value(st)
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.core.finish(st)?;
        *self.out = self.core.result();
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.core.descriptor()
    }
    fn expecting(&self) -> Cow<'_, str> {
        self.core.expecting()
    }
}

impl Deserialize for P {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(PSink { core: Core::new(), out })
    }
}

/// Never comes to be: its sink stores nothing.
#[derive(Debug)]
pub enum Sil {}

struct SilSink(Core);

impl Sink for SilSink {
    fn atom(&mut self, atom: Atom, st: &DeserializerState) -> Result<(), Error> {
        self.0.atom(atom, st)
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.0.map(st)
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.0.seq(st)
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        self.0.next_key(st)
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        self.0.next_value(st)
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        self.0.finish(st)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
    fn expecting(&self) -> Cow<'_, str> {
        self.0.expecting()
    }
}

impl Deserialize for Sil {
    fn deserialize_into(_: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(SilSink(Core::new()))
    }
}

/// A probe to be flattened: it claims all keys that start with `C`.
#[derive(Debug)]
pub struct FP<const C: char> {
    pub id: usize,
    pub items: Vec<(String, Got)>,
    _tok: Tok,
}

impl<const C: char> FP<C> {
    fn x(&self) -> X {
        X::Map(
            self.id,
            self.items.iter().map(|(k, v)| (X::Atom(0, A::Str(k.clone())), v.x())).collect(),
        )
    }
}

struct FSink<'a, const C: char> {
    id: Option<usize>,
    out: &'a mut Option<FP<C>>,
    items: Vec<(String, Got)>,
    key: Option<String>,
    slot: Slot,
    n: usize,
    tok: Tok,
}

impl<'a, const C: char> FSink<'a, C> {
    fn id(&mut self) -> usize {
        if !self.tok.intact() {
            with(|c| c.errors.push("callback on a sink that is not alive".into()));
        }
        match self.id {
            Some(x) => x,
            None => {
                let x = new_id();
                self.id = Some(x);
                x
            }
        }
    }
    fn collect(&mut self) {
        if let Some(k) = self.key.take() {
            let got = self.slot.harvest();
            self.items.push((k, got));
        }
    }
}

impl<'a, const C: char> Drop for FSink<'a, C> {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            put(Rec::DropSink { id });
        }
    }
}

impl<'a, const C: char> Sink for FSink<'a, C> {
    fn value_for_key(&mut self, key: &str, st: &DeserializerState) -> Result<Option<SinkHandle>, Error> {
        if !key.starts_with(C) {
            return Ok(None);
        }
        let id = self.id();
        self.collect();
        cb(st, |v| Rec::ForKey { id, key: key.to_string(), hit: true, v })?;
        self.key = Some(key.to_string());
        let k = plan(id, self.n);
        self.n += 1;
        Ok(Some(self.slot.handle(k)))
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        if C == 'g' && self.id.is_none() {
            // below an option; whether an untouched sink is finished is open
            return Ok(());
        }
        let id = self.id();
        self.collect();
        cb(st, |v| Rec::SinkFin { id, v })?;
        *self.out = Some(FP { id, items: std::mem::take(&mut self.items), _tok: Tok::new("flattened") });
        Ok(())
    }
}

impl<const C: char> Deserialize for FP<C> {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(FSink {
            id: None,
            out,
            items: vec![],
            key: None,
            slot: Slot::default(),
            n: 0,
            tok: Tok::new("flat sink"),
        })
    }
}

// ---------------------------------------------------------------- simulation

pub struct Sim {
    pub log: Vec<Rec>,
    pub plan: HashMap<(usize, usize), Kind>,
    /// probe parent of a probe, and whether its sink goes away before the parent's next callback
    pub parent: HashMap<usize, (usize, bool)>,
    pub result: X,
    pub kind: Kind,
    next_id: usize,
    stack: Vec<D>,
    path: Option<Vec<Seg>>,
    blur: usize,
    rng: Rng,
    parents: Vec<(usize, bool)>,
    pub kinds: HashSet<Kind>,
}

const ANY: usize = usize::MAX;

/// The fields of `Outer4` that may be absent.
const PS: &[&str] = &["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9"];

fn is_str(n: &N) -> Option<&str> {
    match &n.k {
        NK::Atom(A::Str(s)) => Some(s),
        _ => None,
    }
}

impl Sim {
    /// Simulates a whole well-formed stream; picks the kinds of all sinks on the way.
    pub fn new(evs: &[Ev], rng: Rng, path: bool, root: Option<Kind>) -> Sim {
        let n = N::parse(evs);
        let mut s = Sim {
            log: vec![],
            plan: HashMap::new(),
            parent: HashMap::new(),
            result: X::Nothing,
            kind: Kind::Plain,
            next_id: 0,
            stack: vec![],
            path: if path { Some(vec![]) } else { None },
            blur: 0,
            rng,
            parents: vec![],
            kinds: HashSet::new(),
        };
        loop {
            s.kind = root.unwrap_or_else(|| s.choose(&n));
            if root.is_some() || (s.kind != Kind::Null && !s.kind.silent()) {
                break;
            }
        }
        s.result = s.node(&n, s.kind);
        s
    }

    fn choose(&mut self, n: &N) -> Kind {
        let base = [
            Kind::Plain,
            Kind::Plain,
            Kind::Opt,
            Kind::Boxed,
            Kind::New,
            Kind::OptBoxNew,
            Kind::NewOpt,
            Kind::Path,
            Kind::Owned,
            Kind::Inline,
            Kind::Null,
            Kind::Sil,
            Kind::SilBox,
            Kind::SilOpt,
            Kind::SilNew,
        ];
        loop {
            if self.rng.bool() {
                let k = match &n.k {
                    NK::Atom(_) => *self.rng.pick(&base),
                    NK::Seq(v) => {
                        if v.len() == 2 {
                            *self.rng.pick(&[Kind::Tup, Kind::Arr, Kind::Vec, Kind::OptVec, Kind::SilVec])
                        } else {
                            *self.rng.pick(&[Kind::Vec, Kind::OptVec, Kind::SilVec])
                        }
                    }
                    NK::Map(v) => {
                        if !v.iter().all(|x| is_str(&x.0).is_some()) {
                            continue;
                        }
                        let has = |k: &str| v.iter().any(|x| is_str(&x.0) == Some(k));
                        match self.rng.below(7) {
                            0 => Kind::BTree,
                            1 => Kind::Hash,
                            2 if has("a") => Kind::Outer,
                            3 if has("a") && has("b") => Kind::Outer2,
                            4 if has("a") => Kind::Outer3,
                            5 if has("a") => Kind::OptOuter,
                            6 if has("a") => Kind::Outer4,
                            _ => continue,
                        }
                    }
                };
                return k;
            }
            let k = *self.rng.pick(&base);
            if k == Kind::Path && self.path.is_some() {
                continue;
            }
            return k;
        }
    }

    fn v(&self) -> View {
        View {
            depth: self.stack.len(),
            top: self.stack.last().cloned(),
            path: if self.blur > 0 { None } else { self.path.clone() },
        }
    }
    fn v_end(&self) -> View {
        View { depth: ANY, ..self.v() }
    }
    fn at(&mut self, seg: Option<Seg>, f: impl FnOnce(&mut Sim) -> X) -> X {
        let path = self.path.is_some();
        match (&seg, &mut self.path) {
            (Some(s), Some(p)) => p.push(s.clone()),
            (None, _) => self.blur += 1,
            _ => {}
        }
        let x = f(self);
        match (&seg, &mut self.path) {
            (Some(_), Some(p)) => {
                p.pop();
            }
            (None, _) => self.blur -= 1,
            _ => {}
        }
        let _ = path;
        x
    }
    fn seg_of(k: &N) -> Option<Seg> {
        match &k.k {
            NK::Atom(A::Str(s)) => Some(Seg::K(s.clone())),
            NK::Atom(A::U64(x)) => Some(Seg::I(*x)),
            // a signed event may stand for an unsigned key
            NK::Atom(A::I64(x)) if *x >= 0 => None,
            NK::Atom(A::Char(_)) => None,
            _ => Some(Seg::U),
        }
    }
    fn key(&mut self, k: &N, kind: Kind) -> X {
        let composite = !matches!(k.k, NK::Atom(_));
        if composite {
            self.blur += 1;
        }
        let x = self.node(k, kind);
        if composite {
            self.blur -= 1;
        }
        x
    }
    fn fresh(&mut self) -> usize {
        let id = self.next_id;
        self.next_id += 1;
        if let Some(p) = self.parents.last() {
            self.parent.insert(id, *p);
        }
        id
    }
    fn pick(&mut self, id: usize, n: usize, node: &N) -> Kind {
        let k = self.choose(node);
        self.plan.insert((id, n), k);
        self.parents.push((id, !k.keeps_sink()));
        k
    }

    fn node(&mut self, n: &N, kind: Kind) -> X {
        self.kinds.insert(kind);
        if kind == Kind::Null {
            return X::Ignored;
        }
        if kind.opt() {
            if let NK::Atom(A::Null) = n.k {
                return X::Absent;
            }
        }
        match kind {
            Kind::Sil | Kind::SilBox | Kind::SilNew => {
                self.probe(n);
                X::Nothing
            }
            Kind::SilOpt => {
                self.probe(n);
                X::Absent
            }
            Kind::Vec | Kind::Tup | Kind::Arr | Kind::OptVec | Kind::SilVec => {
                let v = match &n.k {
                    NK::Seq(v) => v,
                    _ => unreachable!(),
                };
                let child = if kind == Kind::SilVec { Kind::Sil } else { Kind::Plain };
                self.stack.push(D::named(match kind {
                    Kind::Tup => "tuple",
                    Kind::Arr => "array",
                    _ => "vec",
                }));
                let r = v
                    .iter()
                    .enumerate()
                    .map(|(i, x)| self.at(Some(Seg::I(i as u64)), |s| s.node(x, child)))
                    .filter(|x| *x != X::Nothing)
                    .collect();
                self.stack.pop();
                X::List(r)
            }
            Kind::BTree | Kind::Hash => {
                let v = match &n.k {
                    NK::Map(v) => v,
                    _ => unreachable!(),
                };
                self.stack.push(D::unord("map"));
                let mut m = BTreeMap::new();
                for (k, x) in v {
                    let key = is_str(k).unwrap().to_string();
                    let x = self.at(Some(Seg::K(key.clone())), |s| s.node(x, Kind::Plain));
                    m.insert(key, x);
                }
                self.stack.pop();
                X::Dict(m.into_iter().collect())
            }
            Kind::Outer | Kind::OptOuter | Kind::Outer2 | Kind::Outer3 | Kind::Outer4 => self.outer(n, kind),
            _ => self.probe(n),
        }
    }

    fn outer(&mut self, n: &N, kind: Kind) -> X {
        let items = match &n.k {
            NK::Map(v) => v,
            _ => unreachable!(),
        };
        let (name, plain, opt, flats): (_, &[&str], &[&str], &[char]) = match kind {
            Kind::Outer | Kind::OptOuter => ("Outer", &["a"], &["z"], &['f']),
            Kind::Outer2 => ("Outer2", &["a", "b"], &["z"], &['f']),
            Kind::Outer4 => ("Outer4", &["a"], PS, &['f', 'g']),
            _ => ("Outer3", &["a"], &[], &['f', 'g']),
        };
        self.stack.push(D::named(name));
        let mut fields: BTreeMap<String, X> = BTreeMap::new();
        let mut flat: BTreeMap<char, (usize, Vec<(X, X)>)> = BTreeMap::new();
        for (k, v) in items {
            let key = is_str(k).unwrap();
            let seg = Some(Seg::K(key.to_string()));
            if plain.contains(&key) {
                let x = self.at(seg, |s| s.node(v, Kind::Plain));
                fields.insert(key.into(), x);
            } else if opt.contains(&key) {
                let x = self.at(seg, |s| s.node(v, Kind::Opt));
                fields.insert(key.into(), x);
            } else if let Some(c) = key.chars().next().filter(|c| flats.contains(c)) {
                let id = match flat.get(&c) {
                    Some(x) => x.0,
                    None => {
                        let id = self.fresh();
                        flat.insert(c, (id, vec![]));
                        id
                    }
                };
                let view = self.v();
                self.log.push(Rec::ForKey { id, key: key.to_string(), hit: true, v: view });
                let nth = flat[&c].1.len();
                let kind = self.pick(id, nth, v);
                let x = self.at(seg, |s| s.node(v, kind));
                self.parents.pop();
                flat.get_mut(&c).unwrap().1.push((X::Atom(0, A::Str(key.into())), x));
            }
        }
        // flattened sinks are finished with the struct
        let mut done: HashMap<char, X> = HashMap::new();
        for c in flats {
            let (id, items) = match flat.remove(c) {
                Some(x) => x,
                None if *c == 'g' => {
                    done.insert(*c, X::Absent);
                    continue;
                }
                None => (self.fresh(), vec![]),
            };
            let v = self.v_end();
            self.log.push(Rec::SinkFin { id, v });
            done.insert(*c, X::Map(id, items));
        }
        self.stack.pop();
        let f = |k: &str| fields.get(k).cloned().unwrap_or(X::Absent);
        X::Dict(match kind {
            Kind::Outer4 => {
                let mut v: Vec<(String, X)> = PS.iter().map(|k| (k.to_string(), f(k))).collect();
                v.push(("f".into(), done[&'f'].clone()));
                v.push(("a".into(), f("a")));
                v.push(("g".into(), done[&'g'].clone()));
                v
            }
            Kind::Outer3 => vec![
                ("f".into(), done[&'f'].clone()),
                ("a".into(), f("a")),
                ("g".into(), done[&'g'].clone()),
            ],
            _ => {
                let mut v = vec![("a".into(), f("a")), ("f".into(), done[&'f'].clone()), ("z".into(), f("z"))];
                if kind == Kind::Outer2 {
                    v.push(("b".into(), f("b")));
                }
                v
            }
        })
    }

    fn probe(&mut self, n: &N) -> X {
        let id = self.fresh();
        let v = self.v();
        let x = match &n.k {
            NK::Atom(a) => {
                self.log.push(Rec::Atom { id, a: a.clone(), v: v.clone() });
                self.log.push(Rec::SinkFin { id, v });
                return X::Atom(id, a.clone());
            }
            NK::Seq(items) => {
                self.log.push(Rec::Seq { id, v });
                self.stack.push(pdesc(id));
                let mut r = vec![];
                for (i, x) in items.iter().enumerate() {
                    let v = self.v();
                    self.log.push(Rec::Val { id, v });
                    let k = self.pick(id, i, x);
                    let x = self.at(Some(Seg::I(i as u64)), |s| s.node(x, k));
                    if x != X::Nothing {
                        r.push(x);
                    }
                    self.parents.pop();
                }
                X::Seq(id, r)
            }
            NK::Map(items) => {
                self.log.push(Rec::Map { id, v });
                self.stack.push(pdesc(id));
                let mut r = vec![];
                for (i, (k, x)) in items.iter().enumerate() {
                    let v = self.v();
                    self.log.push(Rec::Key { id, v });
                    let kk = self.pick(id, i * 2, k);
                    let xk = self.key(k, kk);
                    self.parents.pop();
                    let v = self.v();
                    self.log.push(Rec::Val { id, v });
                    let kind = self.pick(id, i * 2 + 1, x);
                    let xv = self.at(Sim::seg_of(k), |s| s.node(x, kind));
                    self.parents.pop();
                    r.push((xk, xv));
                }
                X::Map(id, r)
            }
        };
        let v = self.v_end();
        self.log.push(Rec::SinkFin { id, v });
        self.stack.pop();
        x
    }
}

/// A tree with struct like maps; a few are nested deeply.
pub fn deep_ptree(r: &mut Rng, depth: usize, budget: &mut i64) -> T {
    let mut t = ptree(r, depth, budget);
    if r.chance(1, 150) {
        for _ in 0..r.long(1024, 40).min(120 + r.below(200)) {
            t = match r.below(4) {
                0 => T::Seq(vec![t]),
                1 => T::Seq(vec![T::A(gen::atom(r)), t]),
                2 => T::Map(vec![(T::A(A::Str("a".into())), t)]),
                _ => T::Map(vec![(T::A(A::Str((*r.pick(&["f1", "q", "z"])).into())), t), (T::A(A::Str("a".into())), T::A(gen::atom(r)))]),
            };
        }
    }
    t
}

/// A tree with struct like maps.
pub fn ptree(r: &mut Rng, depth: usize, budget: &mut i64) -> T {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || r.chance(1, 4) {
        return T::A(if r.chance(1, 6) { A::Null } else { gen::atom(r) });
    }
    let n = *r.pick(&[0u64, 1, 2, 2, 2, 3, 4, 6]);
    match r.below(3) {
        0 => T::Seq((0..n).map(|_| ptree(r, depth - 1, budget)).collect()),
        1 => {
            let mut keys = vec![];
            for k in ["a", "b", "z", "f1", "f2", "g1", "q", "a", "f1", "p0", "p7", "p9"] {
                if r.bool() {
                    keys.push(k.to_string());
                }
            }
            for i in (1..keys.len()).rev() {
                let j = r.idx(i + 1);
                keys.swap(i, j);
            }
            T::Map(keys.into_iter().map(|k| (T::A(A::Str(k)), ptree(r, depth - 1, budget))).collect())
        }
        _ => T::Map(
            (0..n)
                .map(|_| {
                    let k = match r.below(8) {
                        0 => ptree(r, depth - 1, budget),
                        1 => T::A(gen::atom(r)),
                        2 => T::A(A::U64(gen::int_u64(r))),
                        3 => T::A(A::I64(gen::int_i64(r))),
                        _ => T::A(A::Str(gen::key(r))),
                    };
                    (k, ptree(r, depth - 1, budget))
                })
                .collect(),
        ),
    }
}

// ---------------------------------------------------------------- running

pub struct Ran {
    pub out: X,
    pub err: Option<(Error, usize)>,
    /// panicked; true if it was the injected panic
    pub panic: Option<bool>,
}

pub enum After {
    Drop,
    /// keep sending what is left of the stream after an error
    Continue,
}

/// Feeds the first `cut` events into the probe; the context is active and has the plan.
pub fn run(evs: &[Ev], kind: Kind, cut: usize, path: bool, after: After) -> Ran {
    let mut slot = Slot::default();
    let mut err = None;
    let rv = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let sink = slot.handle(kind);
        let sink = if path { SinkHandle::boxed(PathSink::wrap_ref(sink)) } else { sink };
        let mut d = DeserializeDriver::from_sink(sink);
        for (i, e) in evs.iter().take(cut).enumerate() {
            if let Err(e) = d.emit(e.event()) {
                if err.is_none() {
                    err = Some((e, i));
                }
                match after {
                    After::Drop => break,
                    After::Continue => {}
                }
            }
        }
        if err.is_none() && cut >= evs.len() {
            let st = d.state();
            if st.depth() != 0 || st.top_descriptor().is_some() {
                with(|c| c.errors.push("open containers after the value".into()));
            }
            if path {
                let p = segs(&st.get::<deser_path::Path>());
                if !p.is_empty() {
                    with(|c| c.errors.push(format!("the path is {:?} after the value", p)));
                }
            }
        }
    }));
    with(|c| c.drop_fault = None);
    let panic = rv.err().map(|p| p.is::<crate::util::Injected>());
    let out = slot.harvest();
    let x = out.x();
    drop(out);
    Ran { out: x, err, panic }
}

/// Compares a log without drops with the simulation; `complete` if it must be all of it.
pub fn compare(got: &[Rec], want: &[Rec], complete: bool) -> Result<(), String> {
    crate::probe_ser::compare(got, want, complete)
}

/// Order of drops: nothing is called on a dropped sink, and a parent is only called when
/// the sinks it handed out are gone.
pub fn check_drops(sim: &Sim, got: &[Rec]) -> Result<(), String> {
    let mut alive: HashSet<usize> = HashSet::new();
    let mut gone: HashSet<usize> = HashSet::new();
    let mut children: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, r) in got.iter().enumerate() {
        let id = match r {
            Rec::Atom { id, .. }
            | Rec::Map { id, .. }
            | Rec::Seq { id, .. }
            | Rec::Key { id, .. }
            | Rec::Val { id, .. }
            | Rec::ForKey { id, .. }
            | Rec::SinkFin { id, .. } => *id,
            Rec::DropSink { id } => {
                if !gone.insert(*id) {
                    return Err(format!("sink {} dropped twice", id));
                }
                alive.remove(id);
                // everything below goes first
                if let Some(c) = children.get(id).and_then(|c| c.iter().find(|x| alive.contains(x))) {
                    if sim.parent.get(c).is_some_and(|p| p.1) {
                        return Err(format!(
                            "sink {} dropped while sink {} borrowed from it is alive{}",
                            id,
                            c,
                            show_log(got, i)
                        ));
                    }
                }
                continue;
            }
            _ => continue,
        };
        if gone.contains(&id) {
            return Err(format!("{:?} after the sink was dropped", r));
        }
        if alive.insert(id) {
            if let Some((p, true)) = sim.parent.get(&id) {
                children.entry(*p).or_default().push(id);
            }
        }
        if let Some(c) = children.get(&id).and_then(|c| c.iter().find(|x| alive.contains(x))) {
            return Err(format!("{:?} while sink {} borrowed from it is alive{}", r, c, show_log(got, i)));
        }
    }
    Ok(())
}

pub fn same(got: &Rec, want: &Rec) -> bool {
    matches(got, want)
}

pub const KINDS: &[ErrorKind] = &[ErrorKind::Unexpected, ErrorKind::MissingField, ErrorKind::OutOfRange];
