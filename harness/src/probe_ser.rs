//! Probe values for serialization: every callback is logged.
use crate::gen;
use crate::model::*;
use crate::probe::*;
use crate::util::Rng;
use crate::zoo::Zoo;
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState, StructEmitter,
};
use deser::{Atom, Descriptor, Error};
use deser_path::PathSerializable;
use std::borrow::Cow;

pub struct Node {
    pub id: usize,
    pub shape: Shape,
    pub desc: PDesc,
    /// emit owned atoms
    pub owned: bool,
    /// says that it is optional
    pub opt: bool,
    _tok: Tok,
}

pub enum Shape {
    Atom(A),
    Seq(Vec<Child>),
    Map(Vec<(Child, Child)>),
    /// key, kind of cow
    Struct(Vec<(String, u8, Child)>),
    /// a container of the library around probes, which itself is not logged
    Built(Built, Vec<Child>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Built {
    Vec,
    Slice,
    Array2,
    Tuple1,
    Tuple3,
    BTreeMap,
    HashMap,
    Derived,
    DerivedSkip,
    /// children 1, 3, 4 are flattened
    Flat,
    /// the only field is flattened
    FlatLast,
    /// a flattened struct in a flattened struct
    FlatDeep,
    /// children 9, 12 are flattened
    Many,
    Tuple12,
    Array9,
}

const BUILT: &[Built] = &[
    Built::Vec,
    Built::Slice,
    Built::Array2,
    Built::Tuple1,
    Built::Tuple3,
    Built::BTreeMap,
    Built::HashMap,
    Built::Derived,
    Built::DerivedSkip,
    Built::Flat,
    Built::Flat,
    Built::FlatLast,
    Built::FlatDeep,
    Built::Many,
    Built::Tuple12,
    Built::Array9,
];

impl Built {
    fn flattened(self, i: usize) -> bool {
        match self {
            Built::Flat => matches!(i, 1 | 3 | 4),
            Built::FlatLast => i == 0,
            Built::FlatDeep => matches!(i, 1 | 2),
            Built::Many => matches!(i, 9 | 12),
            _ => false,
        }
    }
    fn len(self, r: &mut Rng) -> usize {
        match self {
            Built::Vec | Built::Slice | Built::BTreeMap if r.chance(1, 30) => r.long(256, 3) as usize,
            Built::Vec | Built::Slice | Built::BTreeMap => r.below(4) as usize,
            Built::Many => 14,
            Built::Tuple12 => 12,
            Built::Array9 => 9,
            Built::HashMap | Built::Tuple1 | Built::FlatLast => 1,
            Built::Array2 => 2,
            Built::Tuple3 | Built::Derived | Built::DerivedSkip => 3,
            Built::Flat => 6,
            Built::FlatDeep => 4,
        }
    }
    fn desc(self) -> D {
        match self {
            Built::Vec => D::named("Vec"),
            Built::Slice => D::named("slice"),
            Built::Array2 | Built::Array9 => D::named("array"),
            Built::Many => D::named("BM"),
            Built::Tuple1 | Built::Tuple3 | Built::Tuple12 => D::named("tuple"),
            Built::BTreeMap => D::named("BTreeMap"),
            Built::HashMap => D::unord("HashMap"),
            Built::Derived => D::named("B3"),
            Built::DerivedSkip => D::named("Skip"),
            Built::Flat => D::named("BF"),
            Built::FlatLast => D::named("BL"),
            Built::FlatDeep => D::named("BD"),
        }
    }
}

#[derive(deser::Serialize)]
struct B3<'a> {
    a: Dyn<'a>,
    b: Dyn<'a>,
    c: Dyn<'a>,
}
#[derive(deser::Serialize)]
#[deser(rename = "Skip", skip_serializing_optionals)]
struct BSkip<'a> {
    z: Option<Dyn<'a>>,
    a: Option<Dyn<'a>>,
    b: Dyn<'a>,
    #[deser(rename = "c")]
    see: Box<Dyn<'a>>,
    y: Option<u8>,
}
#[derive(deser::Serialize)]
struct BF<'a> {
    a: Dyn<'a>,
    #[deser(flatten)]
    b: Dyn<'a>,
    c: Dyn<'a>,
    #[deser(flatten)]
    d: Box<Dyn<'a>>,
    #[deser(flatten)]
    e: NT<Dyn<'a>>,
    f: Dyn<'a>,
}
#[derive(deser::Serialize)]
struct BL<'a> {
    #[deser(flatten)]
    a: Dyn<'a>,
}
#[derive(deser::Serialize)]
struct BDI<'a> {
    #[deser(flatten)]
    b: Dyn<'a>,
    #[deser(flatten)]
    c: Dyn<'a>,
}
#[derive(deser::Serialize)]
struct BD<'a> {
    a: Dyn<'a>,
    #[deser(flatten)]
    i: BDI<'a>,
    d: Dyn<'a>,
}

#[derive(deser::Serialize)]
struct BM<'a> {
    a: Dyn<'a>,
    b: Dyn<'a>,
    c: Dyn<'a>,
    d: Dyn<'a>,
    e: Dyn<'a>,
    f: Dyn<'a>,
    g: Dyn<'a>,
    h: Dyn<'a>,
    i: Dyn<'a>,
    #[deser(flatten)]
    j: Dyn<'a>,
    k: Dyn<'a>,
    l: Dyn<'a>,
    #[deser(flatten)]
    m: Box<Dyn<'a>>,
    n: Dyn<'a>,
}

fn built<'a>(b: Built, items: &'a [Child]) -> Box<dyn Serialize + 'a> {
    let mut v = items.iter().map(|c| Dyn(value(c)));
    let mut n = || v.next().unwrap();
    match b {
        Built::Vec => Box::new(items.iter().map(|c| Dyn(value(c))).collect::<Vec<_>>()),
        Built::Slice => Box::new(SliceOf::new(Box::new(items.iter().map(|c| Dyn(value(c))).collect()))),
        Built::Array2 => Box::new([n(), n()]),
        Built::Tuple1 => Box::new((n(),)),
        Built::Tuple3 => Box::new((n(), n(), n())),
        Built::BTreeMap => Box::new(
            items.iter().enumerate().map(|(i, c)| (format!("k{:05}", i), Dyn(value(c)))).collect::<std::collections::BTreeMap<_, _>>(),
        ),
        Built::HashMap => Box::new(
            items.iter().enumerate().map(|(i, c)| (i as u64, Dyn(value(c)))).collect::<std::collections::HashMap<_, _>>(),
        ),
        Built::Derived => Box::new(B3 { a: n(), b: n(), c: n() }),
        Built::DerivedSkip => Box::new(BSkip { z: None, a: Some(n()), b: n(), see: Box::new(n()), y: None }),
        Built::Flat => Box::new(BF { a: n(), b: n(), c: n(), d: Box::new(n()), e: NT(n()), f: n() }),
        Built::FlatLast => Box::new(BL { a: n() }),
        Built::Many => Box::new(BM {
            a: n(),
            b: n(),
            c: n(),
            d: n(),
            e: n(),
            f: n(),
            g: n(),
            h: n(),
            i: n(),
            j: n(),
            k: n(),
            l: n(),
            m: Box::new(n()),
            n: n(),
        }),
        Built::Tuple12 => Box::new((n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n(), n())),
        Built::Array9 => Box::new([n(), n(), n(), n(), n(), n(), n(), n(), n()]),
        Built::FlatDeep => Box::new(BD { a: n(), i: BDI { b: n(), c: n() }, d: n() }),
    }
}

pub struct Child {
    pub node: Node,
    pub how: How,
    pub wraps: Vec<W>,
}

impl Child {
    /// Whether the wrapped value calls itself optional.
    fn optional(&self) -> bool {
        self.node.opt && !matches!(self.node.shape, Shape::Built(..)) && !self.wraps.contains(&W::Some)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    /// a plain reference into the tree
    Borrow,
    /// a boxed reference
    Ref,
    /// a boxed value that logs its drop
    Boxed,
    /// a value stored in the emitter and replaced by the next one
    Scratch,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Box,
    Some,
    New,
    Path,
    Ref,
    Mut,
}

/// A derived newtype.
#[derive(deser::Serialize, deser::Deserialize, Debug)]
pub struct NT<T>(pub T);

impl Node {
    pub fn new(shape: Shape, owned: bool) -> Node {
        let id = new_id();
        Node { id, shape, desc: PDesc(pdesc(id)), owned, opt: false, _tok: Tok::new("node") }
    }
    pub fn leaf(a: A) -> Node {
        Node::new(Shape::Atom(a), false)
    }
    fn chunk<'a>(&'a self, buf: Option<&'a str>) -> Chunk<'a> {
        match &self.shape {
            Shape::Atom(a) => {
                let atom = match buf {
                    Some(b) if !self.owned => Atom::Str(Cow::Borrowed(b)),
                    _ => a.atom(),
                };
                Chunk::Atom(if self.owned { atom.to_static() } else { atom })
            }
            Shape::Seq(_) => Chunk::Seq(Box::new(Em::new(self))),
            Shape::Map(_) => Chunk::Map(Box::new(Em::new(self))),
            Shape::Struct(_) => Chunk::Struct(Box::new(Em::new(self))),
            Shape::Built(..) => unreachable!(),
        }
    }
    pub fn count(&self) -> usize {
        1 + match &self.shape {
            Shape::Atom(_) => 0,
            Shape::Seq(v) => v.iter().map(|x| x.node.count()).sum(),
            Shape::Map(v) => v.iter().map(|(a, b)| a.node.count() + b.node.count()).sum(),
            Shape::Struct(v) => v.iter().map(|x| x.2.node.count()).sum(),
            Shape::Built(_, v) => v.iter().map(|x| x.node.count()).sum(),
        }
    }
}

impl Serialize for Node {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        cb(state, |v| Rec::Ser { id: self.id, v })?;
        Ok(self.chunk(None))
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        cb(state, |v| Rec::Fin { id: self.id, v })
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
    fn is_optional(&self) -> bool {
        self.opt
    }
}

/// Lives in a box of the driver or inside an emitter.
struct Held<'a> {
    node: &'a Node,
    buf: Option<String>,
    desc: PDesc,
    _tok: Tok,
}

impl<'a> Held<'a> {
    fn new(node: &'a Node) -> Held<'a> {
        let buf = match &node.shape {
            Shape::Atom(A::Str(s)) => Some(s.clone()),
            _ => None,
        };
        Held { node, buf, desc: node.desc.clone(), _tok: Tok::new("held value") }
    }
}

impl<'a> Serialize for Held<'a> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        assert_intact(&self._tok);
        cb(state, |v| Rec::Ser { id: self.node.id, v })?;
        Ok(self.node.chunk(self.buf.as_deref()))
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        assert_intact(&self._tok);
        cb(state, |v| Rec::Fin { id: self.node.id, v })
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
    fn is_optional(&self) -> bool {
        self.node.opt
    }
}

impl<'a> Drop for Held<'a> {
    fn drop(&mut self) {
        put(Rec::DropValue { id: self.node.id });
        // whoever still looks at this value sees garbage
        if let Some(b) = &mut self.buf {
            b.clear();
            b.push_str("dropped");
        }
        self.desc.0 = D::named("dropped");
    }
}

fn assert_intact(t: &Tok) {
    if !t.intact() {
        with(|c| c.errors.push("callback on a value that is not alive".into()));
    }
}

pub struct Dyn<'a>(pub Box<dyn Serialize + 'a>);

impl<'a> Serialize for Dyn<'a> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        self.0.serialize(state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.0.finish(state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
    fn is_optional(&self) -> bool {
        self.0.is_optional()
    }
}

struct By<'a>(&'a dyn Serialize);

impl<'a> Serialize for By<'a> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        self.0.serialize(state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.0.finish(state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
    fn is_optional(&self) -> bool {
        self.0.is_optional()
    }
}

/// Serializes a value through a reference to it, which it owns.
macro_rules! through {
    ($name:ident, $r:ty, $make:expr, $t:ty) => {
        struct $name<'a> {
            r: $r,
            own: *mut $t,
        }
        impl<'a> $name<'a> {
            fn new(x: Box<$t>) -> $name<'a> {
                let own = Box::into_raw(x);
                let make: unsafe fn(*mut $t) -> $r = $make;
                $name { r: unsafe { make(own) }, own }
            }
        }
        impl<'a> Drop for $name<'a> {
            fn drop(&mut self) {
                drop(unsafe { Box::from_raw(self.own) });
            }
        }
        impl<'a> Serialize for $name<'a> {
            fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
                <$r as Serialize>::serialize(&self.r, state)
            }
            fn finish(&self, state: &SerializerState) -> Result<(), Error> {
                <$r as Serialize>::finish(&self.r, state)
            }
            fn descriptor(&self) -> &dyn Descriptor {
                <$r as Serialize>::descriptor(&self.r)
            }
            fn is_optional(&self) -> bool {
                <$r as Serialize>::is_optional(&self.r)
            }
        }
    };
}
through!(RefTo, &'a Dyn<'a>, |p| unsafe { &*p }, Dyn<'a>);
through!(MutTo, &'a mut Dyn<'a>, |p| unsafe { &mut *p }, Dyn<'a>);
through!(SliceOf, &'a [Dyn<'a>], |p| unsafe { (&*p).as_slice() }, Vec<Dyn<'a>>);

pub fn wrap<'a>(mut b: Box<dyn Serialize + 'a>, wraps: &[W]) -> Box<dyn Serialize + 'a> {
    for w in wraps {
        b = match w {
            W::Box => Box::new(Box::new(Dyn(b))),
            W::Some => Box::new(Some(Dyn(b))),
            W::New => Box::new(NT(Dyn(b))),
            W::Ref => Box::new(RefTo::new(Box::new(Dyn(b)))),
            W::Mut => Box::new(MutTo::new(Box::new(Dyn(b)))),
            W::Path => Box::new(PathSerializable::wrap_ref(SerializeHandle::Owned(b))),
        };
    }
    b
}

/// The emitter of all containers.
struct Em<'a> {
    node: &'a Node,
    pos: usize,
    scratch: Option<Held<'a>>,
    key: String,
    _tok: Tok,
}

impl<'a> Em<'a> {
    fn new(node: &'a Node) -> Em<'a> {
        Em { node, pos: 0, scratch: None, key: String::new(), _tok: Tok::new("emitter") }
    }
    fn handle<'b>(&'b mut self, c: &'a Child) -> SerializeHandle<'b> {
        assert_intact(&self._tok);
        if matches!(c.node.shape, Shape::Built(..)) {
            return SerializeHandle::Owned(value(c));
        }
        match c.how {
            How::Borrow if c.wraps.is_empty() => SerializeHandle::to(&c.node),
            How::Borrow => SerializeHandle::Owned(wrap(Box::new(By(&c.node)), &c.wraps)),
            How::Ref if c.wraps.is_empty() => SerializeHandle::boxed(&c.node),
            How::Ref => SerializeHandle::Owned(wrap(Box::new(&c.node), &c.wraps)),
            How::Boxed => SerializeHandle::Owned(wrap(Box::new(Held::new(&c.node)), &c.wraps)),
            How::Scratch => {
                self.scratch = None;
                let held = self.scratch.insert(Held::new(&c.node));
                if c.wraps.is_empty() {
                    SerializeHandle::to(held)
                } else {
                    SerializeHandle::Owned(wrap(Box::new(By(held)), &c.wraps))
                }
            }
        }
    }
}

impl<'a> Drop for Em<'a> {
    fn drop(&mut self) {
        put(Rec::DropEmitter { id: self.node.id });
    }
}

impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        cb(state, |v| Rec::Next { id: self.node.id, what: 'i', v })?;
        let v = match &self.node.shape {
            Shape::Seq(v) => v,
            _ => unreachable!(),
        };
        self.pos += 1;
        Ok(v.get(self.pos - 1).map(|c| self.handle(c)))
    }
}

impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        cb(state, |v| Rec::Next { id: self.node.id, what: 'k', v })?;
        let v = match &self.node.shape {
            Shape::Map(v) => v,
            _ => unreachable!(),
        };
        self.pos += 1;
        Ok(v.get(self.pos - 1).map(|c| self.handle(&c.0)))
    }
    fn next_value(&mut self, state: &SerializerState) -> Result<SerializeHandle, Error> {
        cb(state, |v| Rec::Next { id: self.node.id, what: 'v', v })?;
        let v = match &self.node.shape {
            Shape::Map(v) => v,
            _ => unreachable!(),
        };
        Ok(self.handle(&v[self.pos - 1].1))
    }
}

impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        cb(state, |v| Rec::Next { id: self.node.id, what: 'f', v })?;
        let v = match &self.node.shape {
            Shape::Struct(v) => v,
            _ => unreachable!(),
        };
        self.pos += 1;
        let (key, kind, c) = match v.get(self.pos - 1) {
            Some(x) => x,
            None => return Ok(None),
        };
        match kind {
            0 => Ok(Some((Cow::Borrowed(key), self.handle(c)))),
            1 => Ok(Some((Cow::Owned(key.clone()), self.handle(c)))),
            _ => {
                // a key that only lives in the emitter until the next one
                self.key.clear();
                self.key.shrink_to_fit();
                self.key.push_str(key);
                // the handle must not use the scratch slot here (both borrow the emitter)
                let h: SerializeHandle = match c.how {
                    _ if matches!(c.node.shape, Shape::Built(..)) => SerializeHandle::Owned(value(c)),
                    How::Ref => SerializeHandle::Owned(wrap(Box::new(&c.node), &c.wraps)),
                    How::Boxed | How::Scratch => {
                        SerializeHandle::Owned(wrap(Box::new(Held::new(&c.node)), &c.wraps))
                    }
                    How::Borrow => SerializeHandle::Owned(wrap(Box::new(By(&c.node)), &c.wraps)),
                };
                Ok(Some((Cow::Borrowed(&self.key), h)))
            }
        }
    }
}

// ---------------------------------------------------------------- generation

pub struct TreeCfg {
    pub depth: usize,
    pub budget: i64,
    pub path_wraps: bool,
    /// only keys that JSON can write, no bytes
    pub json: bool,
}

fn wraps(r: &mut Rng, cfg: &TreeCfg) -> Vec<W> {
    let n = if r.bool() { 0 } else { r.below(4) };
    (0..n)
        .map(|_| match r.below(6) {
            0 => W::Box,
            4 => W::Ref,
            5 => W::Mut,
            1 => W::Some,
            2 => W::New,
            _ if cfg.path_wraps => W::Path,
            _ => W::Box,
        })
        .collect()
}

fn jatom(r: &mut Rng, cfg: &TreeCfg) -> A {
    loop {
        let a = gen::atom(r);
        match a {
            A::Bytes(_) if cfg.json => continue,
            A::F64(x) if cfg.json && !x.is_finite() => continue,
            a => return a,
        }
    }
}

pub fn child(r: &mut Rng, cfg: &mut TreeCfg) -> Child {
    let how = *r.pick(&[How::Borrow, How::Ref, How::Boxed, How::Scratch]);
    let wraps = wraps(r, cfg);
    let mut node = node(r, cfg);
    node.opt = r.chance(1, 4);
    Child { node, how, wraps }
}

/// A child of which a few are nested deeply.
pub fn deep_child(r: &mut Rng, cfg: &mut TreeCfg) -> Child {
    let mut c = child(r, cfg);
    if r.chance(1, 150) {
        for _ in 0..r.long(1024, 40).min(120 + r.below(200)) {
            let mut items = vec![c];
            if r.chance(1, 4) {
                items.insert(0, Child { node: Node::leaf(gen::atom(r)), how: How::Boxed, wraps: vec![] });
            }
            let shape = match r.below(4) {
                0 => Shape::Seq(items),
                1 => Shape::Struct(items.into_iter().map(|x| (gen::key(r), r.below(3) as u8, x)).collect()),
                2 => Shape::Built(*r.pick(&[Built::Vec, Built::BTreeMap]), items),
                _ => Shape::Map(
                    items
                        .into_iter()
                        .map(|x| (Child { node: Node::leaf(A::Str(gen::key(r))), how: How::Borrow, wraps: vec![] }, x))
                        .collect(),
                ),
            };
            let how = *r.pick(&[How::Borrow, How::Ref, How::Boxed, How::Scratch]);
            c = Child { node: Node::new(shape, false), how, wraps: wraps(r, cfg) };
            c.node.opt = r.chance(1, 4);
        }
    }
    c
}

fn key_child(r: &mut Rng, cfg: &mut TreeCfg) -> Child {
    let how = *r.pick(&[How::Borrow, How::Ref, How::Boxed, How::Scratch]);
    let wraps = wraps(r, cfg);
    let node = if cfg.json {
        let a = if r.chance(1, 6) { A::Char(gen::ch(r)) } else { A::Str(gen::key(r)) };
        Node::new(Shape::Atom(a), r.bool())
    } else {
        match r.below(8) {
            0 => node(r, cfg),
            1 => Node::new(Shape::Atom(gen::atom(r)), r.bool()),
            2 => Node::new(Shape::Atom(A::U64(gen::int_u64(r))), false),
            3 => Node::new(Shape::Atom(A::I64(gen::int_i64(r))), false),
            _ => Node::new(Shape::Atom(A::Str(gen::key(r))), r.bool()),
        }
    };
    Child { node, how, wraps }
}

pub fn node(r: &mut Rng, cfg: &mut TreeCfg) -> Node {
    cfg.budget -= 1;
    if cfg.depth == 0 || cfg.budget <= 0 || r.chance(1, 3) {
        let a = jatom(r, cfg);
        return Node::new(Shape::Atom(a), r.chance(1, 4));
    }
    let n = match r.below(8) {
        0 | 1 => 0,
        2 => 1,
        3..=6 => r.range(2, 4),
        _ => r.range(0, 9),
    };
    cfg.depth -= 1;
    // reserve the id of the container first so that ids follow document order
    let shape = match r.below(5) {
        3 | 4 => {
            let b = *r.pick(BUILT);
            let n = b.len(r);
            Shape::Built(
                b,
                (0..n)
                    .map(|i| {
                        let mut c = child(r, cfg);
                        if b.flattened(i) {
                            // something that can be flattened: a struct
                            c.wraps.retain(|w| matches!(w, W::Box | W::New | W::Ref | W::Mut));
                            let n = r.below(4) as usize;
                            let fields = (0..n).map(|_| (gen::key(r), r.below(3) as u8, child(r, cfg))).collect();
                            c.node = Node::new(Shape::Struct(fields), false);
                        }
                        c
                    })
                    .collect(),
            )
        }
        0 => Shape::Seq((0..n).map(|_| child(r, cfg)).collect()),
        1 => Shape::Map((0..n).map(|_| (key_child(r, cfg), child(r, cfg))).collect()),
        _ => Shape::Struct((0..n).map(|_| (gen::key(r), r.below(3) as u8, child(r, cfg))).collect()),
    };
    cfg.depth += 1;
    Node::new(shape, false)
}

// ---------------------------------------------------------------- expectation

/// Where a view is not specified.
pub fn any_path(v: &mut View) {
    v.path = None;
}

struct Exp {
    out: Vec<Rec>,
    stack: Vec<D>,
    path: Option<Vec<Seg>>,
    /// inside a composite key the path is unspecified
    blur: usize,
}

impl Exp {
    fn v(&self) -> View {
        View {
            depth: self.stack.len(),
            top: self.stack.last().cloned(),
            path: if self.blur > 0 { None } else { self.path.clone() },
        }
    }
    fn seg(&mut self, s: Seg) {
        if let Some(p) = &mut self.path {
            p.push(s)
        }
    }
    fn unseg(&mut self) {
        if let Some(p) = &mut self.path {
            p.pop();
        }
    }
    fn visit(&mut self, c: &Child) {
        let d = match &c.node.shape {
            _ if c.wraps.contains(&W::Some) => D::named("optional"),
            Shape::Built(b, _) => b.desc(),
            _ => c.node.desc.0.clone(),
        };
        self.visit_as(c, d)
    }
    fn visit_as(&mut self, c: &Child, d: D) {
        self.visit_node(&c.node, d)
    }
    fn built(&mut self, b: Built, items: &[Child], d: D) {
        let seq = matches!(
            b,
            Built::Vec | Built::Slice | Built::Array2 | Built::Array9 | Built::Tuple1 | Built::Tuple3 | Built::Tuple12
        );
        self.stack.push(d.clone());
        let v = self.v();
        self.out.push(Rec::Event { ev: if seq { Ev::SeqStart } else { Ev::MapStart }, d: d.clone(), v });
        for (i, c) in items.iter().enumerate() {
            if seq {
                self.seg(Seg::I(i as u64));
                self.visit(c);
                self.unseg();
            } else if b == Built::DerivedSkip && i > 0 && c.optional() {
                // left out
            } else if b.flattened(i) {
                let Shape::Struct(fields) = &c.node.shape else { unreachable!() };
                let v = self.v();
                self.out.push(Rec::Ser { id: c.node.id, v });
                self.fields(c.node.id, fields);
                let v = self.v();
                self.out.push(Rec::Fin { id: c.node.id, v });
            } else {
                let (key, kd) = match b {
                    Built::BTreeMap => (A::Str(format!("k{:05}", i)), D::named("String")),
                    Built::HashMap => (A::U64(i as u64), 0u64.model().d),
                    _ => (A::Str(["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"][i].into()), D::named("str")),
                };
                let seg = match &key {
                    A::Str(s) => Seg::K(s.clone()),
                    _ => Seg::I(i as u64),
                };
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::Atom(key), d: kd, v });
                self.seg(seg);
                if (b, i) == (Built::DerivedSkip, 0) {
                    self.visit_as(c, D::named("optional"));
                } else {
                    self.visit(c);
                }
                self.unseg();
            }
        }
        self.stack.pop();
        let v = self.v();
        self.out.push(Rec::Event { ev: if seq { Ev::SeqEnd } else { Ev::MapEnd }, d, v });
    }
    fn fields(&mut self, id: usize, items: &[(String, u8, Child)]) {
        for (k, _, x) in items.iter() {
            let v = self.v();
            self.out.push(Rec::Next { id, what: 'f', v });
            let v = self.v();
            self.out.push(Rec::Event { ev: Ev::Atom(A::Str(k.clone())), d: D::named("str"), v });
            self.seg(Seg::K(k.clone()));
            self.visit(x);
            self.unseg();
        }
        let v = self.v();
        self.out.push(Rec::Next { id, what: 'f', v });
    }
    fn visit_node(&mut self, n: &Node, d: D) {
        if let Shape::Built(b, items) = &n.shape {
            return self.built(*b, items, d);
        }
        let v = self.v();
        self.out.push(Rec::Ser { id: n.id, v });
        match &n.shape {
            Shape::Atom(a) => {
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::Atom(a.clone()), d, v });
            }
            Shape::Seq(items) => {
                self.stack.push(d.clone());
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::SeqStart, d: d.clone(), v });
                for (i, x) in items.iter().enumerate() {
                    let v = self.v();
                    self.out.push(Rec::Next { id: n.id, what: 'i', v });
                    self.seg(Seg::I(i as u64));
                    self.visit(x);
                    self.unseg();
                }
                let v = self.v();
                self.out.push(Rec::Next { id: n.id, what: 'i', v });
                self.stack.pop();
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::SeqEnd, d, v });
            }
            Shape::Map(items) => {
                self.stack.push(d.clone());
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::MapStart, d: d.clone(), v });
                for (k, x) in items.iter() {
                    let v = self.v();
                    self.out.push(Rec::Next { id: n.id, what: 'k', v });
                    let seg = match &k.node.shape {
                        Shape::Atom(a) => match a {
                            A::Str(s) => Seg::K(s.clone()),
                            A::U64(x) => Seg::I(*x),
                            _ => Seg::U,
                        },
                        _ => Seg::U,
                    };
                    let composite = !matches!(k.node.shape, Shape::Atom(_));
                    if composite {
                        self.blur += 1;
                    }
                    self.visit(k);
                    if composite {
                        self.blur -= 1;
                    }
                    let v = self.v();
                    self.out.push(Rec::Next { id: n.id, what: 'v', v });
                    self.seg(seg);
                    self.visit(x);
                    self.unseg();
                }
                let v = self.v();
                self.out.push(Rec::Next { id: n.id, what: 'k', v });
                self.stack.pop();
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::MapEnd, d, v });
            }
            Shape::Struct(items) => {
                self.stack.push(d.clone());
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::MapStart, d: d.clone(), v });
                self.fields(n.id, items);
                self.stack.pop();
                let v = self.v();
                self.out.push(Rec::Event { ev: Ev::MapEnd, d, v });
            }
            Shape::Built(..) => unreachable!(),
        }
        let v = self.v();
        self.out.push(Rec::Fin { id: n.id, v });
    }
}

/// The complete log (without drops) of a run to the end.
pub fn expected(root: &Child, path: bool) -> Vec<Rec> {
    let mut e = Exp { out: vec![], stack: vec![], path: if path { Some(vec![]) } else { None }, blur: 0 };
    e.visit(root);
    e.out
}

/// Whether a record is as expected; paths that are not specified match all.
pub fn matches(got: &Rec, want: &Rec) -> bool {
    fn vm(g: &View, w: &View) -> bool {
        (w.depth == usize::MAX || (g.depth == w.depth && g.top == w.top)) && (w.path.is_none() || g.path == w.path)
    }
    match (got, want) {
        (Rec::Ser { id: a, v: g }, Rec::Ser { id: b, v: w }) => a == b && vm(g, w),
        (Rec::Fin { id: a, v: g }, Rec::Fin { id: b, v: w }) => a == b && vm(g, w),
        (Rec::Next { id: a, what: c, v: g }, Rec::Next { id: b, what: d, v: w }) => a == b && c == d && vm(g, w),
        (Rec::Event { ev: a, d: c, v: g }, Rec::Event { ev: b, d, v: w }) => a == b && c == d && vm(g, w),
        (Rec::Atom { id: a, a: c, v: g }, Rec::Atom { id: b, a: d, v: w }) => a == b && c == d && vm(g, w),
        (Rec::Map { id: a, v: g }, Rec::Map { id: b, v: w })
        | (Rec::Seq { id: a, v: g }, Rec::Seq { id: b, v: w })
        | (Rec::Key { id: a, v: g }, Rec::Key { id: b, v: w })
        | (Rec::Val { id: a, v: g }, Rec::Val { id: b, v: w })
        | (Rec::SinkFin { id: a, v: g }, Rec::SinkFin { id: b, v: w }) => a == b && vm(g, w),
        (Rec::ForKey { id: a, key: k, v: g, .. }, Rec::ForKey { id: b, key: l, v: w, .. }) => {
            a == b && k == l && vm(g, w)
        }
        _ => got == want,
    }
}

pub fn is_drop(r: &Rec) -> bool {
    matches!(r, Rec::DropEmitter { .. } | Rec::DropValue { .. } | Rec::DropSink { .. })
}

/// How a run of the driver ended.
#[derive(Debug)]
pub enum Stop {
    Done,
    Err(Error),
    Cut,
    Panic(bool),
    Runaway,
}

/// Drives `root` for at most `cut` events and drops the driver.  Every event is logged.
pub fn drive(root: &dyn Serialize, cut: usize, cap: usize) -> Stop {
    let rv = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut d = SerializeDriver::new(root);
        let mut n = 0;
        loop {
            if n >= cut {
                return Stop::Cut;
            }
            if n > cap {
                return Stop::Runaway;
            }
            match d.next() {
                Err(e) => return Stop::Err(e),
                Ok(None) => break,
                Ok(Some((ev, desc, st))) => {
                    let ev = Ev::of(&ev);
                    let dd = D::of(desc);
                    let v = view(st);
                    ext_step(st);
                    put(Rec::Event { ev, d: dd, v });
                }
            }
            n += 1;
        }
        // nothing may follow
        for _ in 0..2 {
            if !matches!(d.next(), Ok(None)) {
                return Stop::Runaway;
            }
        }
        if with(|c| c.with_path) {
            let v = view(d.state());
            if v.path != Some(vec![]) {
                with(|c| c.errors.push(format!("the path is {:?} after the value", v.path)));
            }
        }
        if d.state().depth() != 0 {
            with(|c| c.errors.push("open containers after the value".into()));
        }
        Stop::Done
    }));
    match rv {
        Ok(x) => x,
        Err(p) => Stop::Panic(p.is::<crate::util::Injected>()),
    }
}

pub fn show_log(log: &[Rec], around: usize) -> String {
    let lo = around.saturating_sub(6);
    log.iter().enumerate().skip(lo).take(12).map(|(i, r)| format!("\n    {}: {:?}", i, r)).collect()
}

/// Compares a log (drops removed) with the expectation; the log may stop early.
pub fn compare(got: &[Rec], want: &[Rec], complete: bool) -> Result<(), String> {
    let g: Vec<Rec> = got.iter().filter(|r| !is_drop(r) && !matches!(r, Rec::Fault)).cloned().collect();
    for (i, r) in g.iter().enumerate() {
        match want.get(i) {
            Some(w) if matches(r, w) => {}
            w => {
                return Err(format!(
                    "record {} is {:?}, expected {:?}; log around it:{}",
                    i,
                    r,
                    w,
                    show_log(&g, i)
                ))
            }
        }
    }
    if complete && g.len() != want.len() {
        return Err(format!("log ends after {} records, expected next: {:?}", g.len(), want[g.len()]));
    }
    Ok(())
}

/// Order of drops: a value outlives its own callbacks, an emitter outlives all values it
/// handed out.
pub fn check_drops(root: &Child, got: &[Rec]) -> Result<(), String> {
    use std::collections::{HashMap, HashSet};
    let mut parent = HashMap::new();
    fn walk(n: &Node, p: &mut HashMap<usize, usize>) {
        let mut f = |c: &Child| {
            p.insert(c.node.id, n.id);
            walk(&c.node, p);
        };
        match &n.shape {
            Shape::Atom(_) => {}
            Shape::Seq(v) => v.iter().for_each(&mut f),
            Shape::Map(v) => v.iter().for_each(|(a, b)| {
                f(a);
                f(b)
            }),
            Shape::Struct(v) => v.iter().for_each(|x| f(&x.2)),
            Shape::Built(_, v) => v.iter().for_each(f),
        }
    }
    walk(&root.node, &mut parent);
    let mut gone_values = HashSet::new();
    let mut gone_emitters = HashSet::new();
    for r in got {
        match r {
            Rec::Ser { id, .. } | Rec::Fin { id, .. } | Rec::Next { id, .. } => {
                if gone_values.contains(id) {
                    return Err(format!("{:?} after the value was dropped", r));
                }
                if matches!(r, Rec::Next { .. }) && gone_emitters.contains(id) {
                    return Err(format!("{:?} after the emitter was dropped", r));
                }
            }
            Rec::DropValue { id } => {
                if gone_emitters.contains(id) {
                    // fine: emitters go first
                }
                if !gone_values.insert(*id) {
                    return Err(format!("{:?} twice", r));
                }
                if let Some(p) = parent.get(id) {
                    // values stored in the emitter go down with it, others must be gone before
                    if gone_emitters.contains(p) {
                        let c = find(&root.node, *id);
                        if !matches!(c.map(|c| c.how), Some(How::Scratch)) {
                            return Err(format!("value {} dropped after the emitter of {} that made it", id, p));
                        }
                    }
                }
            }
            Rec::DropEmitter { id } => {
                if !gone_emitters.insert(*id) {
                    return Err(format!("{:?} twice", r));
                }
                if gone_values.contains(id) {
                    return Err(format!("value {} dropped before its emitter", id));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn find(n: &Node, id: usize) -> Option<&Child> {
    let mut all: Vec<&Child> = vec![];
    match &n.shape {
        Shape::Atom(_) => {}
        Shape::Seq(v) => all.extend(v.iter()),
        Shape::Map(v) => v.iter().for_each(|(a, b)| all.extend([a, b])),
        Shape::Struct(v) => all.extend(v.iter().map(|x| &x.2)),
        Shape::Built(_, v) => all.extend(v),
    }
    for c in all {
        if c.node.id == id {
            return Some(c);
        }
        if let Some(x) = find(&c.node, id) {
            return Some(x);
        }
    }
    None
}

/// The value of a child with all its wrappers.
pub fn value<'a>(c: &'a Child) -> Box<dyn Serialize + 'a> {
    if let Shape::Built(b, items) = &c.node.shape {
        return wrap(built(*b, items), &c.wraps);
    }
    match c.how {
        How::Borrow => wrap(Box::new(By(&c.node)), &c.wraps),
        How::Ref => wrap(Box::new(&c.node), &c.wraps),
        How::Boxed | How::Scratch => wrap(Box::new(Held::new(&c.node)), &c.wraps),
    }
}

/// Keeps pulling after errors; only memory matters here.
pub fn drive_on(root: &dyn Serialize, more: usize, cap: usize) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut d = SerializeDriver::new(root);
        let mut left = more;
        let mut n = 0;
        while left > 0 && n < cap {
            n += 1;
            let rv = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match d.next() {
                Err(_) => None,
                Ok(None) => Some(false),
                Ok(Some((ev, desc, st))) => {
                    let _ = (Ev::of(&ev), D::of(desc), st.depth(), st.top_descriptor().map(D::of));
                    Some(true)
                }
            }));
            match rv {
                Ok(Some(true)) => {}
                Ok(Some(false)) => left = left.min(2) - 1,
                Ok(None) | Err(_) => left -= 1,
            }
        }
    }));
}
