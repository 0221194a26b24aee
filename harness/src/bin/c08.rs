//! C08: integers keep their value.
use deser::{Deserialize, ErrorKind, Serialize};
use mon::derived_ints::*;
use mon::drive::*;
use mon::gen;
use mon::json;
use mon::model::*;
use mon::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;

trait Int: Serialize + Deserialize + Copy + Default + Ord + Hash + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const MIN: i128;
    const MAX: i128;
    fn int(self) -> i128;
    fn of(x: i128) -> Option<Self>;
}

macro_rules! ints {
    ($($t:ident)*) => {$(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const MIN: i128 = $t::MIN as i128;
            const MAX: i128 = $t::MAX as i128;
            fn int(self) -> i128 { self as i128 }
            fn of(x: i128) -> Option<$t> { $t::try_from(x).ok() }
        }
    )*
    fn each(f: &mut dyn FnMut(Ops)) { $(f(ops::<$t>());)* }
    };
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

/// One way to put an integer into a stream and to find it in the result.
struct Context<T> {
    name: &'static str,
    feed: fn(&[Ev]) -> Result<Vec<T>, ErrorKind>,
    read: fn(&str) -> Result<Vec<T>, ErrorKind>,
    /// events with holes: None is the integer
    tmpl: Vec<Option<Ev>>,
    json: Option<&'static str>,
    holes: usize,
}

fn run<C: Deserialize>(evs: &[Ev]) -> Result<C, ErrorKind> {
    let fed = feed::<C>(evs);
    match (fed.out, fed.err) {
        (Some(x), None) => Ok(x),
        (None, None) => panic!("neither a value nor an error"),
        (_, Some((e, _))) => Err(e.kind()),
    }
}

fn text<C: Deserialize>(s: &str) -> Result<C, ErrorKind> {
    json::read::<C>(s.as_bytes()).map_err(|e| e.kind())
}

fn s(x: &str) -> Option<Ev> {
    Some(Ev::Atom(A::Str(x.into())))
}

fn contexts<T: Int>() -> Vec<Context<T>> {
    let (ss, se, ms, me) = (Some(Ev::SeqStart), Some(Ev::SeqEnd), Some(Ev::MapStart), Some(Ev::MapEnd));
    let mut v = vec![];
    macro_rules! ctx {
        ($name:expr, $c:ty, $get:expr, $json:expr, [$($e:expr),*]) => {{
            let tmpl: Vec<Option<Ev>> = vec![$($e.clone()),*];
            v.push(Context {
                name: $name,
                feed: |e| run::<$c>(e).map($get),
                read: |e| text::<$c>(e).map($get),
                holes: tmpl.iter().filter(|x| x.is_none()).count(),
                tmpl,
                json: $json,
            });
        }};
    }
    let h = None::<Ev>;
    ctx!("bare", T, |x| vec![x], Some("@"), [h]);
    ctx!("option", Option<T>, |x| vec![x.unwrap()], Some("@"), [h]);
    ctx!("box", Box<T>, |x| vec![*x], Some("@"), [h]);
    ctx!("newtype", New<T>, |x| vec![x.0], Some("@"), [h]);
    ctx!("boxed option of newtype", Box<Option<New<T>>>, |x| vec![x.unwrap().0], Some("@"), [h]);
    ctx!("vec", Vec<T>, |x| x, Some("[@]"), [ss, h, se]);
    ctx!("vec of two", Vec<T>, |x| x, Some("[@,@]"), [ss, h, h, se]);
    ctx!("vec of options", Vec<Option<T>>, |x| x.into_iter().flatten().collect(), Some("[null,@]"),
        [ss, Some(Ev::Atom(A::Null)), h, se]);
    ctx!("vec of vecs", Vec<Vec<T>>, |x| x.concat(), Some("[[], [@] ,[@,@]]"), [ss, ss, se, ss, h, se, ss, h, h, se, se]);
    ctx!("tuple", (T, bool, T), |x| vec![x.0, x.2], Some("[@,true,@]"), [ss, h, Some(Ev::Atom(A::Bool(true))), h, se]);
    ctx!("single", (T,), |x| vec![x.0], Some("[@]"), [ss, h, se]);
    ctx!("array", [T; 2], |x| x.to_vec(), Some("[@,@]"), [ss, h, h, se]);
    ctx!("array of one", [T; 1], |x| x.to_vec(), Some("[@]"), [ss, h, se]);
    ctx!("map value", BTreeMap<String, T>, |x| x.into_values().collect(), Some("{\"a\":@}"), [ms, s("a"), h, me]);
    ctx!("hash map value", HashMap<String, Vec<T>>, |x| x.into_values().flatten().collect(), Some("{\"a\":[@]}"),
        [ms, s("a"), ss, h, se, me]);
    ctx!("map key", BTreeMap<T, T>, |x| x.into_iter().flat_map(|(a, b)| [a, b]).collect(), None, [ms, h, h, me]);
    ctx!("hash map key", HashMap<T, bool>, |x| x.into_keys().collect(), None,
        [ms, h, Some(Ev::Atom(A::Bool(true))), me]);
    ctx!("set", BTreeSet<T>, |x| x.into_iter().collect(), Some("[@]"), [ss, h, se]);
    ctx!("hash set", HashSet<T>, |x| x.into_iter().collect(), Some("[@]"), [ss, h, se]);
    ctx!("field", Field<T>, |x| vec![x.n], Some("{\"x\":[],\"n\":@}"), [ms, s("x"), ss, se, s("n"), h, me]);
    ctx!("optional field", OptField<T>, |x| vec![x.n.unwrap()], Some("{\"n\":@}"), [ms, s("n"), h, me]);
    ctx!("flattened field", Outer<T>, |x| vec![x.f.n], Some("{\"s\":\"\",\"n\":@}"),
        [ms, s("s"), s(""), s("n"), h, me]);
    ctx!("field with default", Def<T>, |x| vec![x.x], Some("{\"m\":@}"), [ms, s("m"), h, me]);
    v
}

fn sources(x: i128) -> Vec<Ev> {
    let mut v = vec![];
    if let Ok(y) = u64::try_from(x) {
        v.push(Ev::Atom(A::U64(y)));
    }
    if let Ok(y) = i64::try_from(x) {
        v.push(Ev::Atom(A::I64(y)));
    }
    v
}

fn deserialized<T: Int>(case: &mut Case, c: &Context<T>, x: i128) {
    let want = |wide: bool| match T::of(x) {
        Some(t) => Ok(t),
        None if wide => Err(ErrorKind::Unexpected),
        None => Err(ErrorKind::OutOfRange),
    };
    let mut judge = |what: &str, got: Result<Vec<T>, ErrorKind>, wide: bool| {
        case.eval(Some(mix(x as u64 ^ hash_bytes(c.name.as_bytes())) ^ hash_bytes(T::NAME.as_bytes()) ^ hash_bytes(what.as_bytes())));
        let ok = match (want(wide), &got) {
            (Ok(t), Ok(v)) => {
                // duplicates of sets and map keys collapse
                !v.is_empty() && v.len() <= c.holes && v.iter().all(|y| *y == t)
            }
            (Err(a), Err(b)) => a == *b,
            _ => false,
        };
        case.check(ok, || format!("{} {} as {} is {:?}, expected {:?}", what, x, c.name, got, want(wide)));
    };
    for ev in sources(x) {
        let evs: Vec<Ev> = c.tmpl.iter().map(|e| e.clone().unwrap_or_else(|| ev.clone())).collect();
        let kind = if matches!(ev, Ev::Atom(A::U64(_))) { "unsigned event" } else { "signed event" };
        judge(kind, (c.feed)(&evs), false);
    }
    if let Some(t) = c.json {
        let wide = x > u64::MAX as i128 || x < i64::MIN as i128;
        judge("JSON", (c.read)(&t.replace('@', &x.to_string())), wide);
        if x == 0 {
            judge("JSON", (c.read)(&t.replace('@', "-0")), false);
        }
    }
}

fn exact(ev: &Ev, x: i128) -> bool {
    match ev {
        Ev::Atom(A::U64(y)) => *y as i128 == x,
        Ev::Atom(A::I64(y)) => *y as i128 == x,
        _ => false,
    }
}

fn serialized<T: Int>(case: &mut Case, x: i128) {
    let Some(t) = T::of(x) else { return };
    let mut judge = |what: &str, v: &dyn Serialize, holes: usize| {
        case.eval(Some(mix(x as u64 ^ hash_bytes(what.as_bytes())) ^ hash_bytes(T::NAME.as_bytes())));
        match ser_events(v) {
            Ok(evs) => {
                let n = evs.iter().filter(|e| exact(e, x)).count();
                let others = evs.iter().filter(|e| matches!(e, Ev::Atom(A::U64(_) | A::I64(_) | A::F64(_) | A::Char(_)))).count();
                case.check(n == holes && others == holes, || {
                    format!("{} as {} serializes to {}", x, what, show(&evs))
                });
            }
            Err(e) => case.violation(&format!("{} as {} fails with {}", x, what, e)),
        }
    };
    judge("bare", &t, 1);
    judge("reference", &&t, 1);
    judge("mutable reference", &&mut { t }, 1);
    judge("option", &Some(t), 1);
    judge("box", &Box::new(t), 1);
    judge("newtype", &New(t), 1);
    if T::NAME != "u8" {
        judge("vec", &vec![t, t], 2);
        judge("array", &[t], 1);
        judge("slice", &&[t, t, t][..], 3);
    } else {
        // these are raw bytes
        let b = t.int() as u8;
        for v in [&vec![t, t] as &dyn Serialize, &[t, t], &&[t, t][..]] {
            let evs = ser_events(v).unwrap_or_default();
            case.check(evs == [Ev::Atom(A::Bytes(vec![b, b]))], || format!("bytes {} serialize to {}", x, show(&evs)));
        }
    }
    let mut judge = |what: &str, v: &dyn Serialize, holes: usize| {
        case.eval(None);
        let evs = ser_events(v).unwrap_or_default();
        let n = evs.iter().filter(|e| exact(e, x)).count();
        case.check(n == holes, || format!("{} as {} serializes to {}", x, what, show(&evs)));
        // and as text
        if !["map key"].contains(&what) {
            let want = x.to_string();
            match deser_json::to_string(v) {
                Ok(s) => {
                    let found = s.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|y| **y == *want).count();
                    case.check(found == holes, || format!("{} as {} is written as {}", x, what, s));
                }
                Err(e) => case.violation(&format!("{} as {} is not written: {}", x, what, e)),
            }
        }
    };
    judge("single", &(t,), 1);
    judge("tuple", &(t, true, t), 2);
    judge("map value", &BTreeMap::from([("a", t), ("b", t)]), 2);
    judge("map key", &BTreeMap::from([(t, t)]), 2);
    judge("set", &BTreeSet::from([t]), 1);
    judge("hash set", &HashSet::from([t]), 1);
    judge("field", &Field { a: None, n: t }, 1);
    judge("flattened field", &Outer { f: Field { a: Some(true), n: t }, s: String::new() }, 1);
    judge("optional field", &OptField { n: Some(t) }, 1);
}

/// Events and chunks made from integers by conversion.
fn converted(case: &mut Case, x: i128) {
    use deser::ser::Chunk;
    use deser::{Atom, Event};
    fn of_event(e: Event) -> Option<i128> {
        match e {
            Event::Atom(a) => of_atom(a),
            _ => None,
        }
    }
    fn of_atom(a: Atom) -> Option<i128> {
        match a {
            Atom::U64(y) => Some(y as i128),
            Atom::I64(y) => Some(y as i128),
            _ => None,
        }
    }
    fn of_chunk(c: Chunk) -> Option<i128> {
        match c {
            Chunk::Atom(a) => of_atom(a),
            _ => None,
        }
    }
    macro_rules! conv {
        ($($t:ident)*) => {$(
            if let Ok(y) = $t::try_from(x) {
                case.eval(Some(mix(x as u64 ^ hash_bytes(stringify!($t).as_bytes()) ^ 77)));
                for (what, got) in [
                    ("event", of_event(Event::from(y))),
                    ("static event", of_event(Event::from(y).to_static())),
                    ("chunk", of_chunk(Chunk::from(y))),
                ] {
                    case.check(got == Some(x), || format!("{} of {}: {} became {:?}", what, stringify!($t), x, got));
                }
            }
        )*};
    }
    conv!(u64 i64 usize isize);
}

/// The operations of one type.
struct Ops {
    name: &'static str,
    min: i128,
    max: i128,
    de_bare: fn(&mut Case, i128),
    de_all: fn(&mut Case, i128),
    ser: fn(&mut Case, i128),
}

fn ops<T: Int>() -> Ops {
    Ops {
        name: T::NAME,
        min: T::MIN,
        max: T::MAX,
        de_bare: |case, x| {
            let c = &contexts::<T>()[0];
            deserialized(case, c, x)
        },
        de_all: |case, x| {
            for c in contexts::<T>() {
                deserialized(case, &c, x);
            }
        },
        ser: serialized::<T>,
    }
}

fn interesting() -> Vec<i128> {
    let mut v = BTreeSet::new();
    for b in 0..=66 {
        for d in -3..=3 {
            v.insert((1i128 << b) + d);
            v.insert(-(1i128 << b) + d);
        }
    }
    for p in 0..=21 {
        for d in -2..=2 {
            v.insert(10i128.pow(p) + d);
            v.insert(-10i128.pow(p) + d);
        }
    }
    for f in [3, 5, 7, 11, 100, 255] {
        v.insert(u64::MAX as i128 / f);
        v.insert(i64::MIN as i128 / f);
        v.insert(u32::MAX as i128 * f + 1);
        v.insert(u64::MAX as i128 * f + 1);
    }
    v.into_iter().collect()
}

fn main() {
    let ctx = Ctx::new("C08");
    let mut all = vec![];
    each(&mut |o| all.push(o));
    let n = all.len() as u64;
    let special = interesting();
    // all values of the small types and their surroundings, and around the limits of all
    ctx.group("exhaustive", n * 64, |case| {
        let o = &all[(case.idx % n) as usize];
        case.label = o.name.to_string();
        let part = (case.idx / n) as i128;
        for x in -70_016 + part * 2188..(-70_016 + (part + 1) * 2188).min(70_017) {
            (o.de_bare)(case, x);
            case.count("small integers", 1);
        }
    });
    ctx.group("limits", n, |case| {
        let o = &all[case.idx as usize];
        case.label = o.name.to_string();
        for base in [o.min, o.max, 0] {
            for d in -300..=300 {
                (o.de_bare)(case, base + d);
                (o.ser)(case, base + d);
            }
        }
        case.sample(|| format!("{} {}..{}", o.name, o.min, o.max));
    });
    ctx.group("contexts", n * 16, |case| {
        let o = &all[(case.idx % n) as usize];
        case.label = o.name.to_string();
        for x in special.iter().skip((case.idx / n) as usize).step_by(16) {
            (o.de_all)(case, *x);
            (o.ser)(case, *x);
            case.count("boundaries in all contexts", 1);
        }
    });
    ctx.group("conversions", 64, |case| {
        for x in special.iter().skip(case.idx as usize).step_by(64) {
            converted(case, *x);
        }
        let mut r = case.rng.clone();
        for _ in 0..200 {
            converted(case, gen::int_u64(&mut r) as i128);
            converted(case, gen::int_i64(&mut r) as i128);
        }
    });
    ctx.group("serialized", n * 32, |case| {
        let o = &all[(case.idx % n) as usize];
        case.label = o.name.to_string();
        for x in (-32768 + (case.idx / n) as i128..=65535).step_by(if ctx.tier == Tier::Quick { 1024 } else { 32 }) {
            (o.ser)(case, x);
        }
    });
    ctx.group("random", ctx.n(10_000, 1_000_000), |case| {
        let o = &all[(case.idx % n) as usize];
        case.label = o.name.to_string();
        let mut r = case.rng.clone();
        let x = match r.below(4) {
            0 => gen::int_u64(&mut r) as i128,
            1 => gen::int_i64(&mut r) as i128,
            2 => (r.u64() >> r.below(64)) as i128 * if r.bool() { 1 } else { -1 },
            _ => (r.u64() as i128) << r.below(60),
        };
        (o.de_all)(case, x);
        (o.ser)(case, x);
    });
    ctx.finish()
}
