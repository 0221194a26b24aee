//! Types with a reference model of both directions.
use crate::gen::{self, Gen};
use crate::model::{T as Tr, *};
use deser::{Deserialize, ErrorKind::*, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;

pub trait Zoo: Serialize + Deserialize + Sized + 'static {
    /// false if the declaration is not invertible
    const RT: bool = true;
    const IS_OPTION: bool = false;
    fn name() -> String {
        std::any::type_name::<Self>()
            .replace("alloc::", "")
            .replace("collections::", "")
            .replace("std::", "")
            .replace("core::", "")
    }
    fn arb(g: &mut Gen) -> Self;
    /// What serialization has to produce.
    fn model(&self) -> M;
    /// A stream that this type should usually accept.
    fn fit(g: &mut Gen) -> Tr {
        Tr::of_events(&Self::arb(g).model().events())
    }
    /// What deserialization has to produce.
    fn de(n: &N) -> Result<Self, Fail>;
    /// Equality; an absent option equals an absent option nested in it.
    fn eqv(&self, o: &Self) -> bool;
    /// Equality up to what the data model cannot tell apart.
    fn same(&self, o: &Self) -> bool {
        self.eqv(o)
    }
    fn is_opt(&self) -> bool {
        false
    }
    /// Value of a struct field that is missing and has no default.
    fn missing() -> Option<Self> {
        None
    }
    /// Name in the descriptor of the sink (lower case, container types only).
    fn de_desc() -> D {
        D::default()
    }
}

pub fn atom_of(n: &N) -> Result<&A, Fail> {
    match &n.k {
        NK::Atom(a) => Ok(a),
        _ => fail(Unexpected, n.start),
    }
}
pub fn seq_of(n: &N) -> Result<&Vec<N>, Fail> {
    match &n.k {
        NK::Seq(a) => Ok(a),
        _ => fail(Unexpected, n.start),
    }
}
pub fn map_of(n: &N) -> Result<&Vec<(N, N)>, Fail> {
    match &n.k {
        NK::Map(a) => Ok(a),
        _ => fail(Unexpected, n.start),
    }
}

impl Zoo for () {
    fn arb(_: &mut Gen) {}
    fn model(&self) -> M {
        M::atom(A::Null, D::named("null"))
    }
    fn de(n: &N) -> Result<(), Fail> {
        match atom_of(n)? {
            A::Null => Ok(()),
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, _: &()) -> bool {
        true
    }
    fn is_opt(&self) -> bool {
        true
    }
}

impl Zoo for bool {
    fn arb(g: &mut Gen) -> bool {
        g.r.bool()
    }
    fn model(&self) -> M {
        M::atom(A::Bool(*self), D::named("bool"))
    }
    fn de(n: &N) -> Result<bool, Fail> {
        match atom_of(n)? {
            A::Bool(x) => Ok(*x),
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &bool) -> bool {
        self == o
    }
}

impl Zoo for char {
    fn arb(g: &mut Gen) -> char {
        gen::ch(g.r)
    }
    fn model(&self) -> M {
        M::atom(A::Char(*self), D::named("char"))
    }
    fn fit(g: &mut Gen) -> Tr {
        let c = gen::ch(g.r);
        Tr::A(if g.r.bool() { A::Char(c) } else { A::Str(c.to_string()) })
    }
    fn de(n: &N) -> Result<char, Fail> {
        match atom_of(n)? {
            A::Char(x) => Ok(*x),
            A::Str(s) if s.chars().count() == 1 => Ok(s.chars().next().unwrap()),
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &char) -> bool {
        self == o
    }
}

impl Zoo for String {
    fn arb(g: &mut Gen) -> String {
        if g.r.bool() {
            gen::key(g.r)
        } else {
            gen::string(g.r)
        }
    }
    fn model(&self) -> M {
        M::atom(A::Str(self.clone()), D::named("String"))
    }
    fn de(n: &N) -> Result<String, Fail> {
        match atom_of(n)? {
            A::Str(x) => Ok(x.clone()),
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &String) -> bool {
        self == o
    }
}

macro_rules! int {
    ($t:ident, $atom:ident, $wide:ident, $gen:ident) => {
        impl Zoo for $t {
            fn arb(g: &mut Gen) -> $t {
                match g.r.below(8) {
                    0 => $t::MIN,
                    1 => $t::MAX,
                    2 => $t::MAX - 1,
                    3 => (g.r.below(3) as i64 - 1).max(0) as $t,
                    _ => gen::$gen(g.r) as $t,
                }
            }
            fn model(&self) -> M {
                M::atom(A::$atom(*self as $wide), D::num(stringify!($t), std::mem::size_of::<$t>() * 8))
            }
            fn fit(g: &mut Gen) -> Tr {
                let v = $t::arb(g);
                if g.r.chance(1, 3) {
                    if let Ok(x) = i64::try_from(v) {
                        return Tr::A(A::I64(x));
                    }
                    return Tr::A(A::U64(v as u64));
                }
                match u64::try_from(v) {
                    Ok(x) => Tr::A(A::U64(x)),
                    Err(_) => Tr::A(A::I64(v as i64)),
                }
            }
            fn de(n: &N) -> Result<$t, Fail> {
                let v: i128 = match atom_of(n)? {
                    A::U64(x) => *x as i128,
                    A::I64(x) => *x as i128,
                    _ => return fail(Unexpected, n.start),
                };
                if v < $t::MIN as i128 || v > $t::MAX as i128 {
                    return fail(OutOfRange, n.start);
                }
                Ok(v as $t)
            }
            fn eqv(&self, o: &$t) -> bool {
                self == o
            }
        }
    };
}
int!(u8, U64, u64, int_u64);
int!(u16, U64, u64, int_u64);
int!(u32, U64, u64, int_u64);
int!(u64, U64, u64, int_u64);
int!(usize, U64, u64, int_u64);
int!(i8, I64, i64, int_i64);
int!(i16, I64, i64, int_i64);
int!(i32, I64, i64, int_i64);
int!(i64, I64, i64, int_i64);
int!(isize, I64, i64, int_i64);

macro_rules! float {
    ($t:ident, $p:expr) => {
        impl Zoo for $t {
            fn arb(g: &mut Gen) -> $t {
                if g.json {
                    loop {
                        let f = gen::finite(g.r) as $t;
                        if f.is_finite() {
                            return f;
                        }
                    }
                }
                gen::float(g.r) as $t
            }
            fn model(&self) -> M {
                M::atom(A::F64(*self as f64), D::num(stringify!($t), $p))
            }
            fn fit(g: &mut Gen) -> Tr {
                Tr::A(match g.r.below(4) {
                    0 => A::U64(gen::int_u64(g.r)),
                    1 => A::I64(gen::int_i64(g.r)),
                    _ => A::F64($t::arb(g) as f64),
                })
            }
            fn de(n: &N) -> Result<$t, Fail> {
                match atom_of(n)? {
                    A::U64(x) => Ok(*x as $t),
                    A::I64(x) => Ok(*x as $t),
                    A::F64(x) => Ok(*x as $t),
                    _ => fail(Unexpected, n.start),
                }
            }
            fn eqv(&self, o: &$t) -> bool {
                self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) || (*self == 0.0 && *o == 0.0)
            }
        }
    };
}
float!(f32, 32);
float!(f64, 64);

/// u8 elements are special.
fn is_u8<T: 'static>() -> bool {
    std::any::TypeId::of::<T>() == std::any::TypeId::of::<u8>()
}

fn as_u8<T: Zoo>(v: &[T]) -> Option<Vec<u8>> {
    if !is_u8::<T>() {
        return None;
    }
    Some(
        v.iter()
            .map(|x| match x.model().k {
                MK::Atom(A::U64(x)) => x as u8,
                _ => unreachable!(),
            })
            .collect(),
    )
}

fn from_u8<T: Zoo>(b: &[u8], at: usize) -> Vec<T> {
    b.iter()
        .map(|x| T::de(&N { k: NK::Atom(A::U64(*x as u64)), start: at, end: at }).ok().unwrap())
        .collect()
}

fn all<T: Zoo>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| f(a, b))
}

impl<T: Zoo> Zoo for Vec<T> {
    const RT: bool = T::RT;
    fn arb(g: &mut Gen) -> Vec<T> {
        let mut n = g.len();
        if std::mem::size_of::<T>() == 1 && g.budget > 0 && g.r.chance(1, 200) {
            // cheap elements, so that very long vectors are possible
            n = g.r.long(65536, n as u64) as usize;
        }
        (0..n).map(|_| T::arb(g)).collect()
    }
    fn model(&self) -> M {
        match as_u8(self) {
            Some(b) => M::atom(A::Bytes(b), D::named("ByteVec")),
            None => M { k: MK::Seq(self.iter().map(|x| x.model()).collect()), d: D::named("Vec") },
        }
    }
    fn fit(g: &mut Gen) -> Tr {
        if is_u8::<T>() && g.r.bool() {
            return Tr::A(A::Bytes(gen::bytes(g.r)));
        }
        let n = g.len();
        Tr::Seq((0..n).map(|_| T::fit(g)).collect())
    }
    fn de(n: &N) -> Result<Vec<T>, Fail> {
        match &n.k {
            NK::Atom(A::Bytes(b)) if is_u8::<T>() => Ok(from_u8(b, n.start)),
            NK::Seq(v) => v.iter().map(T::de).collect(),
            _ => fail(Unexpected, n.start),
        }
    }
    fn eqv(&self, o: &Self) -> bool {
        all(self, o, T::eqv)
    }
    fn same(&self, o: &Self) -> bool {
        all(self, o, T::same)
    }
    fn de_desc() -> D {
        D::named(if is_u8::<T>() { "bytes" } else { "vec" })
    }
}

impl<T: Zoo, const K: usize> Zoo for [T; K] {
    const RT: bool = T::RT;
    fn arb(g: &mut Gen) -> [T; K] {
        std::array::from_fn(|_| T::arb(g))
    }
    fn model(&self) -> M {
        match as_u8(self) {
            Some(b) => M::atom(A::Bytes(b), D::named("array")),
            None => M { k: MK::Seq(self.iter().map(|x| x.model()).collect()), d: D::named("array") },
        }
    }
    fn fit(g: &mut Gen) -> Tr {
        if is_u8::<T>() && g.r.bool() {
            return Tr::A(A::Bytes((0..K).map(|_| g.r.u64() as u8).collect()));
        }
        Tr::Seq((0..K).map(|_| T::fit(g)).collect())
    }
    fn de(n: &N) -> Result<[T; K], Fail> {
        let v: Vec<T> = match &n.k {
            NK::Atom(A::Bytes(b)) if is_u8::<T>() => {
                if b.len() != K {
                    return fail(WrongLength, n.start);
                }
                from_u8(b, n.start)
            }
            NK::Seq(v) => {
                let mut r = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i >= K {
                        return fail(WrongLength, x.start);
                    }
                    r.push(T::de(x)?);
                }
                if r.len() != K {
                    return fail(WrongLength, n.end);
                }
                r
            }
            _ => return fail(Unexpected, n.start),
        };
        Ok(v.try_into().ok().unwrap())
    }
    fn eqv(&self, o: &Self) -> bool {
        all(self, o, T::eqv)
    }
    fn same(&self, o: &Self) -> bool {
        all(self, o, T::same)
    }
    fn de_desc() -> D {
        D::named("array")
    }
}

impl<T: Zoo> Zoo for Option<T> {
    const RT: bool = T::RT;
    const IS_OPTION: bool = true;
    fn arb(g: &mut Gen) -> Option<T> {
        if g.r.chance(1, 3) {
            None
        } else {
            Some(T::arb(g))
        }
    }
    fn model(&self) -> M {
        let d = D::named("optional");
        match self {
            None => M::atom(A::Null, d),
            Some(x) => M { k: x.model().k, d },
        }
    }
    fn fit(g: &mut Gen) -> Tr {
        if g.r.chance(1, 3) {
            Tr::A(A::Null)
        } else {
            T::fit(g)
        }
    }
    fn de(n: &N) -> Result<Option<T>, Fail> {
        match &n.k {
            NK::Atom(A::Null) => Ok(None),
            _ => Ok(Some(T::de(n)?)),
        }
    }
    fn eqv(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.eqv(b),
            (None, Some(x)) | (Some(x), None) => T::IS_OPTION && x.model().is_null(),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            (None, Some(x)) | (Some(x), None) => x.model().is_null(),
        }
    }
    fn is_opt(&self) -> bool {
        self.is_none()
    }
    fn missing() -> Option<Self> {
        Some(None)
    }
    fn de_desc() -> D {
        T::de_desc()
    }
}

impl<T: Zoo> Zoo for Box<T> {
    const RT: bool = T::RT;
    fn arb(g: &mut Gen) -> Box<T> {
        Box::new(T::arb(g))
    }
    fn model(&self) -> M {
        (**self).model()
    }
    fn fit(g: &mut Gen) -> Tr {
        T::fit(g)
    }
    fn de(n: &N) -> Result<Box<T>, Fail> {
        T::de(n).map(Box::new)
    }
    fn eqv(&self, o: &Self) -> bool {
        (**self).eqv(o)
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
    fn is_opt(&self) -> bool {
        (**self).is_opt()
    }
    fn de_desc() -> D {
        T::de_desc()
    }
}

/// Map keys and set elements.
pub trait Key: Zoo + Ord + Hash + Clone {}
impl<T: Zoo + Ord + Hash + Clone> Key for T {}

fn map_model<'a, K: Zoo, V: Zoo>(i: impl Iterator<Item = (&'a K, &'a V)>, d: D) -> M {
    M { k: MK::Map(i.map(|(k, v)| (k.model(), v.model())).collect()), d }
}

fn map_de<K: Zoo, V: Zoo, C>(n: &N, mut c: C, mut put: impl FnMut(&mut C, K, V)) -> Result<C, Fail> {
    for (k, v) in map_of(n)? {
        let k = K::de(k)?;
        let v = V::de(v)?;
        put(&mut c, k, v);
    }
    Ok(c)
}

impl<K: Key, V: Zoo> Zoo for BTreeMap<K, V> {
    const RT: bool = K::RT && V::RT;
    fn arb(g: &mut Gen) -> Self {
        let n = g.len();
        (0..n).map(|_| (K::arb(g), V::arb(g))).collect()
    }
    fn model(&self) -> M {
        map_model(self.iter(), D::named("BTreeMap"))
    }
    fn fit(g: &mut Gen) -> Tr {
        let n = g.len();
        Tr::Map((0..n).map(|_| (K::fit(g), V::fit(g))).collect())
    }
    fn de(n: &N) -> Result<Self, Fail> {
        map_de(n, BTreeMap::new(), |m, k, v| {
            m.insert(k, v);
        })
    }
    fn eqv(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|((a, b), (c, d))| a.eqv(c) && b.eqv(d))
    }
    fn same(&self, o: &Self) -> bool {
        // keys that only differ in what cannot be told apart collapse
        if self.len() == o.len() {
            self.iter().zip(o).all(|((a, b), (c, d))| a.same(c) && b.same(d))
        } else {
            o.iter().all(|(k, v)| self.iter().any(|(a, b)| a.same(k) && b.same(v)))
                && self.iter().all(|(a, _)| o.iter().any(|(k, _)| a.same(k)))
        }
    }
    fn de_desc() -> D {
        D::unord("map")
    }
}

impl<K: Key, V: Zoo> Zoo for HashMap<K, V> {
    const RT: bool = K::RT && V::RT;
    fn arb(g: &mut Gen) -> Self {
        let n = g.len();
        (0..n).map(|_| (K::arb(g), V::arb(g))).collect()
    }
    fn model(&self) -> M {
        map_model(self.iter(), D::unord("HashMap"))
    }
    fn fit(g: &mut Gen) -> Tr {
        let n = g.len();
        Tr::Map((0..n).map(|_| (K::fit(g), V::fit(g))).collect())
    }
    fn de(n: &N) -> Result<Self, Fail> {
        map_de(n, HashMap::new(), |m, k, v| {
            m.insert(k, v);
        })
    }
    fn eqv(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|x| v.eqv(x)))
    }
    fn same(&self, o: &Self) -> bool {
        o.iter().all(|(k, v)| self.iter().any(|(a, b)| a.same(k) && b.same(v)))
            && self.iter().all(|(a, _)| o.iter().any(|(k, _)| a.same(k)))
    }
    fn de_desc() -> D {
        D::unord("map")
    }
}

impl<K: Key> Zoo for BTreeSet<K> {
    const RT: bool = K::RT;
    fn arb(g: &mut Gen) -> Self {
        let n = g.len();
        (0..n).map(|_| K::arb(g)).collect()
    }
    fn model(&self) -> M {
        M { k: MK::Seq(self.iter().map(|x| x.model()).collect()), d: D::named("BTreeSet") }
    }
    fn fit(g: &mut Gen) -> Tr {
        let n = g.len();
        Tr::Seq((0..n).map(|_| K::fit(g)).collect())
    }
    fn de(n: &N) -> Result<Self, Fail> {
        seq_of(n)?.iter().map(K::de).collect()
    }
    fn eqv(&self, o: &Self) -> bool {
        self == o
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().all(|a| o.iter().any(|b| a.same(b))) && o.iter().all(|a| self.iter().any(|b| a.same(b)))
    }
    fn de_desc() -> D {
        D::unord("BTreeSet")
    }
}

impl<K: Key> Zoo for HashSet<K> {
    const RT: bool = K::RT;
    fn arb(g: &mut Gen) -> Self {
        let n = g.len();
        (0..n).map(|_| K::arb(g)).collect()
    }
    fn model(&self) -> M {
        M { k: MK::Seq(self.iter().map(|x| x.model()).collect()), d: D::unord("HashSet") }
    }
    fn fit(g: &mut Gen) -> Tr {
        let n = g.len();
        Tr::Seq((0..n).map(|_| K::fit(g)).collect())
    }
    fn de(n: &N) -> Result<Self, Fail> {
        seq_of(n)?.iter().map(K::de).collect()
    }
    fn eqv(&self, o: &Self) -> bool {
        self == o
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().all(|a| o.iter().any(|b| a.same(b))) && o.iter().all(|a| self.iter().any(|b| a.same(b)))
    }
    fn de_desc() -> D {
        D::unord("HashSet")
    }
}

macro_rules! count {
    () => { 0 };
    ($a:ident $($r:ident)*) => { 1 + count!($($r)*) };
}

macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Zoo),*> Zoo for ($($t,)*) {
            const RT: bool = $($t::RT &&)* true;
            fn arb(g: &mut Gen) -> Self {
                ($($t::arb(g),)*)
            }
            fn model(&self) -> M {
                M { k: MK::Seq(vec![$(self.$i.model()),*]), d: D::named("tuple") }
            }
            fn fit(g: &mut Gen) -> Tr {
                Tr::Seq(vec![$($t::fit(g)),*])
            }
            fn de(n: &N) -> Result<Self, Fail> {
                let v = seq_of(n)?;
                // elements in order, then the first one too many, then the end
                let r = ($(match v.get($i) { Some(x) => Some($t::de(x)?), None => None },)*);
                if let Some(x) = v.get(count!($($t)*)) {
                    return fail(WrongLength, x.start);
                }
                Ok(($(match r.$i { Some(x) => x, None => return fail(WrongLength, n.end) },)*))
            }
            fn eqv(&self, o: &Self) -> bool {
                $(self.$i.eqv(&o.$i) &&)* true
            }
            fn same(&self, o: &Self) -> bool {
                $(self.$i.same(&o.$i) &&)* true
            }
            fn de_desc() -> D {
                D::named("tuple")
            }
        }
    };
}
tuple!(T0 0);
tuple!(T0 0, T1 1);
tuple!(T0 0, T1 1, T2 2);
tuple!(T0 0, T1 1, T2 2, T3 3);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10);
tuple!(T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11);

// ---------------------------------------------------------------- structs

/// Reference behaviour of structs, split so that they can be flattened.
pub trait StructRef: Zoo {
    type Slots: Default;
    /// All keys with their aliases and a source of fitting values.
    fn leaves() -> Vec<Leaf>;
    /// key, value, and whether the value is an absent optional
    fn fields(&self) -> Vec<(String, M, bool)>;
    /// Offers a key; true if it is one of this struct.
    fn offer(s: &mut Self::Slots, key: &str, v: &N) -> Result<bool, Fail>;
    fn complete(s: Self::Slots, end: usize) -> Result<Self, Fail>;
}

pub struct Leaf {
    pub names: Vec<&'static str>,
    pub fit: fn(&mut Gen) -> Tr,
}

/// A stream with the fields in any order, some missing, some repeated, and unknown keys.
pub fn struct_fit<S: StructRef>(g: &mut Gen) -> Tr {
    let mut v = vec![];
    let full = g.r.bool();
    g.budget -= 2;
    for leaf in S::leaves() {
        if !full && g.r.chance(1, 6) {
            continue;
        }
        let times = if g.r.chance(1, 12) { 2 } else { 1 };
        for _ in 0..times {
            let name = leaf.names[if g.r.bool() { 0 } else { g.r.idx(leaf.names.len()) }];
            v.push((Tr::A(A::Str(name.to_string())), (leaf.fit)(g)));
        }
    }
    if g.r.chance(1, 3) {
        for _ in 0..g.r.range(1, 3) {
            let mut b = 12;
            let t = gen::tree(g.r, 4, &mut b);
            v.push((Tr::A(A::Str(gen::key(g.r) + "?")), t));
        }
    }
    if g.r.chance(2, 3) {
        for i in (1..v.len()).rev() {
            let j = g.r.idx(i + 1);
            v.swap(i, j);
        }
    }
    Tr::Map(v)
}

pub fn struct_model<S: StructRef>(s: &S, name: &str) -> M {
    M {
        k: MK::Map(s.fields().into_iter().map(|(k, v, _)| (M::atom(A::Str(k), D::named("str")), v)).collect()),
        d: D::named(name),
    }
}

pub fn struct_de<S: StructRef>(n: &N) -> Result<S, Fail> {
    let mut slots = S::Slots::default();
    for (k, v) in map_of(n)? {
        let key = String::de(k)?;
        S::offer(&mut slots, &key, v)?;
    }
    S::complete(slots, n.end)
}

impl<S: StructRef> StructRef for Box<S> {
    type Slots = S::Slots;
    fn leaves() -> Vec<Leaf> {
        S::leaves()
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        (**self).fields()
    }
    fn offer(s: &mut S::Slots, key: &str, v: &N) -> Result<bool, Fail> {
        S::offer(s, key, v)
    }
    fn complete(s: S::Slots, end: usize) -> Result<Self, Fail> {
        S::complete(s, end).map(Box::new)
    }
}

impl<S: StructRef> StructRef for Option<S> {
    type Slots = (bool, S::Slots);
    fn leaves() -> Vec<Leaf> {
        S::leaves()
    }
    fn fields(&self) -> Vec<(String, M, bool)> {
        self.as_ref().expect("flattening an absent struct").fields()
    }
    fn offer(s: &mut (bool, S::Slots), key: &str, v: &N) -> Result<bool, Fail> {
        // the key is claimed before its value is read
        let rv = S::offer(&mut s.1, key, v)?;
        s.0 |= rv;
        Ok(rv)
    }
    fn complete(s: (bool, S::Slots), end: usize) -> Result<Self, Fail> {
        if s.0 {
            S::complete(s.1, end).map(Some)
        } else {
            Ok(None)
        }
    }
}

// ---------------------------------------------------------------- the list

pub trait Visitor {
    fn visit<T: Zoo>(&mut self);
}

macro_rules! visit_list {
    ($f:ident: $($t:ty),* $(,)?) => {
        pub fn $f<V: Visitor>(v: &mut V) {
            $(v.visit::<$t>();)*
        }
    };
}

visit_list!(visit_prims:
    (), bool, char, String,
    u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64,
);

visit_list!(visit_containers:
    Vec<u8>, Vec<i8>, Vec<bool>, Vec<String>, Vec<f64>, Vec<u64>, Vec<()>, Vec<char>,
    Vec<Vec<u8>>, Vec<Vec<i32>>, Vec<Vec<Vec<bool>>>, Vec<Option<u8>>, Vec<Option<Vec<u8>>>,
    Vec<(u8, String)>, Vec<[u8; 3]>, Vec<Box<u8>>, Vec<BTreeMap<String, u8>>, Vec<HashSet<u8>>,
    Option<u8>, Option<()>, Option<String>, Option<Vec<u8>>, Option<Vec<String>>, Option<Option<u8>>,
    Option<Option<Option<String>>>, Option<Box<Option<bool>>>, Option<(u8, bool)>, Option<[i16; 2]>,
    Option<BTreeMap<String, u32>>, Option<HashMap<u8, bool>>, Option<f64>, Option<char>,
    Option<BTreeSet<i64>>, Option<Box<Vec<Option<i8>>>>,
    Box<u8>, Box<String>, Box<Vec<u8>>, Box<Vec<u32>>, Box<Box<bool>>, Box<Option<u16>>, Box<(u8, u8)>,
    Box<BTreeMap<u8, String>>, Box<[u8; 2]>, Box<HashSet<String>>, Box<Box<Box<Vec<Box<i64>>>>>,
    (u8,), (bool, u8), (u8, u16, u32), (String, Option<u8>, Vec<u8>, char), ((u8, u8), (bool,)),
    (u8, u8, u8, u8, u8), (i8, i16, i32, i64, isize, f32), (u8, u8, u8, u8, u8, u8, u8),
    (u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, bool),
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, String), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, char),
    (u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, String, Vec<u8>),
    (Option<u8>, Option<String>), (Vec<u8>, Vec<Vec<u8>>, BTreeMap<String, (u8, u8)>),
    [u8; 0], [u8; 1], [u8; 5], [u8; 33], [bool; 0], [u16; 1], [String; 2], [Option<u8>; 3], [[u8; 2]; 2],
    [Vec<u8>; 2], [(u8, bool); 2], [Box<i32>; 3], [i8; 17], [[String; 1]; 3],
    BTreeMap<String, u8>, BTreeMap<u8, String>, BTreeMap<i64, bool>, BTreeMap<char, u8>, BTreeMap<bool, Vec<u8>>,
    BTreeMap<(u8, bool), String>, BTreeMap<Option<u8>, u8>, BTreeMap<Vec<u8>, u8>, BTreeMap<Vec<u16>, u8>,
    BTreeMap<String, BTreeMap<String, u8>>, BTreeMap<String, Option<Vec<u8>>>, BTreeMap<[u8; 2], f64>,
    BTreeMap<Box<String>, Box<u8>>, BTreeMap<BTreeSet<u8>, u8>, BTreeMap<(), u8>,
    HashMap<String, u8>, HashMap<u64, String>, HashMap<char, Vec<u8>>, HashMap<(u8, u8), u8>,
    HashMap<String, HashMap<String, u8>>, HashMap<bool, Option<u8>>, HashMap<i8, [u8; 2]>,
    BTreeSet<u8>, BTreeSet<String>, BTreeSet<(u8, bool)>, BTreeSet<Vec<u8>>, BTreeSet<Option<u8>>,
    BTreeSet<BTreeSet<u8>>, BTreeSet<char>,
    HashSet<u8>, HashSet<String>, HashSet<Vec<u16>>, HashSet<Option<bool>>, HashSet<i64>,
);

pub fn visit_all<V: Visitor>(v: &mut V) {
    visit_prims(v);
    visit_containers(v);
    crate::derived_zoo::visit(v);
}
