//! C14: derived deserialization follows its declaration.
use mon::drive::*;
use mon::gen::{self, Gen};
use mon::model::*;
use mon::skip;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::Zoo;

#[cfg(feature = "gen")]
#[path = "../../gen_run.rs"]
mod gen_run;

fn judge<T: Zoo>(case: &mut Case, evs: &[Ev]) {
    skip::take_hits();
    let want = T::de(&N::parse(evs));
    let want_hits = skip::take_hits();
    let got = feed::<T>(evs);
    let got_hits = skip::take_hits();
    case.eval(Some(fingerprint(evs) ^ hash_bytes(case.label.as_bytes())));
    case.count("events", evs.len() as u64);
    let text = || show(evs);
    match (&want, &got.err, &got.out) {
        (Ok(w), None, Some(x)) => {
            case.count("accepted", 1);
            case.check(w.eqv(x), || {
                format!("{} gives {}, expected {}", text(), show(&x.model().events()), show(&w.model().events()))
            });
        }
        (Ok(_), None, None) => case.violation(&format!("{} gives nothing", text())),
        (Ok(_), Some((e, at)), _) => {
            case.violation(&format!("{} is refused at {}: {}, but it fits", text(), at, e))
        }
        (Err(f), None, _) => case.violation(&format!("{} is accepted, expected {:?}", text(), f)),
        (Err(f), Some((e, at)), _) => {
            case.count(&format!("refused as {:?}", f.kind), 1);
            case.check(f.kind == e.kind() && f.at == *at, || {
                format!("{} fails at {} with {:?} ({}), expected {:?}", text(), at, e.kind(), e, f)
            });
        }
    }
    // defaults are computed only when something is missing
    let missing = matches!(&want, Err(f) if f.kind == deser::ErrorKind::MissingField);
    let hit = |h: &[u32], i: usize| h.get(i).is_some_and(|x| *x > 0);
    for i in 0..want_hits.len().max(got_hits.len()) {
        if hit(&want_hits, i) {
            case.count("defaults that were needed", 1);
        }
        if hit(&got_hits, i) && !hit(&want_hits, i) && !missing {
            case.violation(&format!("{} computes default {} although nothing needs it", text(), i));
        }
        if !hit(&got_hits, i) && hit(&want_hits, i) && want.is_ok() {
            case.violation(&format!("{} does not compute default {}", text(), i));
        }
    }
    if evs.len() > 3 {
        case.sample(text);
    }
}

fn fit<T: Zoo>(rng: &mut Rng) -> T2 {
    let budget = *rng.pick(&[6, 20, 60, 200]);
    T::fit(&mut Gen { r: rng, budget, json: false })
}

use mon::model::T as T2;

/// A name nearly like the given one.
fn near(r: &mut Rng, s: &str) -> String {
    match r.below(9) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.replace('_', "-"),
        3 => s.replace(['_', '-'], ""),
        4 => format!("{}_", s),
        5 => format!(" {}", s),
        6 => {
            let mut c = s.chars();
            c.next_back();
            c.as_str().to_string()
        }
        7 => {
            let mut c = s.chars();
            match c.next() {
                Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
                None => "_".into(),
            }
        }
        _ => format!("r#{}", s),
    }
}

/// Changes the keys of one map of the tree.
fn rekey(r: &mut Rng, t: &mut T2, pool: &[String]) {
    match t {
        T2::A(_) => {}
        T2::Seq(v) => {
            if !v.is_empty() {
                let i = r.idx(v.len());
                rekey(r, &mut v[i], pool)
            }
        }
        T2::Map(v) => {
            if !v.is_empty() && r.chance(1, 3) {
                let i = r.idx(v.len());
                return rekey(r, &mut v[i].1, pool);
            }
            let s = |x: &str| T2::A(A::Str(x.to_string()));
            match r.below(9) {
                // an entry is missing
                0 if !v.is_empty() => {
                    let i = r.idx(v.len());
                    v.remove(i);
                }
                // an entry comes twice, with different or equal values
                1 if !v.is_empty() => {
                    let e = v[r.idx(v.len())].clone();
                    let i = r.idx(v.len() + 1);
                    v.insert(i, e);
                }
                // two keys change places
                2 if v.len() > 1 => {
                    let (i, j) = (r.idx(v.len()), r.idx(v.len()));
                    let k = v[i].0.clone();
                    v[i].0 = std::mem::replace(&mut v[j].0, k);
                }
                // an unknown key whose value looks like this very map
                3 => {
                    let mut me = T2::Map(v.clone());
                    if r.chance(1, 10) {
                        me = gen::deep(r, me);
                    }
                    let i = r.idx(v.len() + 1);
                    v.insert(i, (s(&(gen::key(r) + "?!")), me));
                }
                // a key that is nearly right
                4 if !v.is_empty() => {
                    let i = r.idx(v.len());
                    if let T2::A(A::Str(k)) = &v[i].0 {
                        let k = near(r, k);
                        v[i].0 = s(&k)
                    }
                }
                5 if !v.is_empty() => {
                    let mut e = v[r.idx(v.len())].clone();
                    if let T2::A(A::Str(k)) = &e.0 {
                        e.0 = s(&near(r, k));
                    }
                    let i = r.idx(v.len() + 1);
                    v.insert(i, e);
                }
                // a name that means something elsewhere
                6 => {
                    let mut b = 8;
                    let mut e = (s(r.pick(pool).as_str()), gen::tree(r, 3, &mut b));
                    if r.chance(1, 20) {
                        e.1 = gen::deep(r, e.1);
                    }
                    let i = r.idx(v.len() + 1);
                    v.insert(i, e);
                }
                // a key that is no string
                7 => {
                    let mut b = 4;
                    let e = (gen::tree(r, 2, &mut b), gen::tree(r, 1, &mut b));
                    let i = r.idx(v.len() + 1);
                    v.insert(i, e);
                }
                _ => {
                    for i in (1..v.len()).rev() {
                        v.swap(i, r.idx(i + 1));
                    }
                }
            }
        }
    }
}

fn pool() -> &'static [String] {
    static P: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<String> = vec![];
        for n in NAMES {
            for u in [n.to_string(), n.to_uppercase(), n.replace('_', "-"), n.to_uppercase().replace('_', "-")] {
                v.push(u)
            }
            for first in [false, true] {
                v.push(
                    n.split('_')
                        .enumerate()
                        .map(|(i, w)| {
                            let mut c = w.chars();
                            match c.next() {
                                Some(f) if i > 0 || first => f.to_uppercase().collect::<String>() + c.as_str(),
                                Some(f) => f.to_string() + c.as_str(),
                                None => String::new(),
                            }
                        })
                        .collect(),
                )
            }
        }
        v.extend(["", "re name", "$ref", "a.b", "Ünï", "q\"t", "back\\slash", "_", "unused", "renamed"].map(String::from));
        v
    })
}

const NAMES: &[&str] = &[
    "id", "name", "user_id", "first_name", "is_active", "x", "y1", "max_len_of", "a_b_c", "type", "match", "value",
    "trail_", "two__us", "line2_col3", "fn", "kind", "big_int", "self_", "data", "n0", "longer_field_name_here",
    "async", "slot", "key", "out", "sink", "state", "index", "field_x", "nested_emitter", "descriptor",
];

struct Fit;

impl TypeCheck for Fit {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let mut tree = fit::<T>(&mut rng);
        match rng.below(10) {
            0..=2 => {}
            3..=6 => {
                for _ in 0..rng.range(1, 4) {
                    rekey(&mut rng, &mut tree, pool())
                }
            }
            7 | 8 => gen::mutate(&mut rng, &mut tree),
            _ => {
                rekey(&mut rng, &mut tree, pool());
                gen::mutate(&mut rng, &mut tree)
            }
        }
        judge::<T>(case, &tree.events());
    }
}

/// Every subset of the entries of a stream, and every rotation and transposition.
struct Subsets;

impl TypeCheck for Subsets {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let mut tree = fit::<T>(&mut rng);
        for _ in 0..6 {
            let other = fit::<T>(&mut rng);
            if other.size() < 400 && matches!((&tree, &other), (T2::Map(a), T2::Map(b)) if b.len() > a.len()) {
                tree = other;
            }
        }
        let T2::Map(v) = &tree else { return judge::<T>(case, &tree.events()) };
        let put = |case: &mut Case, v: Vec<(T2, T2)>| judge::<T>(case, &T2::Map(v).events());
        let n = v.len();
        if tree.size() > 2000 || n > 60 {
            return judge::<T>(case, &tree.events());
        }
        if n <= 7 {
            for mask in 0..1u32 << n {
                put(case, (0..n).filter(|i| mask >> i & 1 == 1).map(|i| v[i].clone()).collect());
            }
        } else {
            for i in 0..n {
                let mut w = v.clone();
                w.remove(i);
                put(case, w);
                put(case, vec![v[i].clone()]);
            }
            for _ in 0..40 {
                put(case, v.iter().filter(|_| rng.bool()).cloned().collect());
            }
        }
        for i in 0..n {
            let mut w = v.clone();
            w.rotate_left(i);
            put(case, w);
            // the same key again with a value taken from elsewhere
            let mut w = v.clone();
            w.insert(rng.idx(n + 1), (v[i].0.clone(), v[rng.idx(n)].1.clone()));
            put(case, w);
            let mut w = v.clone();
            w.push((v[i].0.clone(), T2::A(A::Null)));
            put(case, w);
        }
    }
}

/// The same strings and small streams for every type.
struct Small;

impl TypeCheck for Small {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let mut names: Vec<String> = VARIANTS.iter().map(|x| x.to_string()).collect();
        for v in VARIANTS {
            let mut low = String::new();
            for (i, c) in v.chars().enumerate() {
                if i > 0 && c.is_uppercase() {
                    low.push('_');
                }
                low.push(c.to_ascii_lowercase());
            }
            let mut c = v.chars();
            let camel = c.next().map(|f| f.to_ascii_lowercase().to_string() + c.as_str()).unwrap_or_default();
            for x in [low.clone(), low.to_uppercase(), low.replace('_', "-"), low.to_uppercase().replace('_', "-"),
                      v.to_lowercase(), v.to_uppercase(), camel, format!("{}2", v), format!("{}_alias0", v), format!("{}_alias1", v)] {
                names.push(x);
            }
        }
        for _ in 0..20 {
            let n = rng.pick(&names).clone();
            names.push(near(&mut rng, &n));
        }
        for n in &names {
            let a = Ev::Atom(A::Str(n.clone()));
            judge::<T>(case, &[a.clone()]);
        }
        for n in pool() {
            let a = Ev::Atom(A::Str(n.clone()));
            judge::<T>(case, &[a.clone()]);
            judge::<T>(case, &[Ev::MapStart, a, Ev::Atom(A::Null), Ev::MapEnd]);
        }
        for a in [A::Null, A::Bool(true), A::U64(0), A::I64(-1), A::F64(0.5), A::Char('A'), A::Char('x'), A::Bytes(b"A".to_vec()), A::Bytes(b"Done".to_vec())] {
            judge::<T>(case, &[Ev::Atom(a.clone())]);
            judge::<T>(case, &[Ev::SeqStart, Ev::Atom(a.clone()), Ev::SeqEnd]);
            judge::<T>(case, &[Ev::MapStart, Ev::Atom(a.clone()), Ev::Atom(a), Ev::MapEnd]);
        }
        judge::<T>(case, &[Ev::SeqStart, Ev::SeqEnd]);
        judge::<T>(case, &[Ev::MapStart, Ev::MapEnd]);
        judge::<T>(case, &[Ev::MapStart, Ev::MapStart, Ev::MapEnd, Ev::Atom(A::Null), Ev::MapEnd]);
    }
}

const VARIANTS: &[&str] = &[
    "A", "Bb", "HttpServer", "HTTPServer", "Value1", "R2D2", "InProgress", "Done", "XAxis", "Other", "Unknown", "NoOp",
    "ABC", "lower", "Mixed_Case", "", "re", "with space", "Ünïcode", "q\"uote",
];

fn build<C: TypeCheck>() -> table::Table {
    let mut b = table::Build::<C>::default();
    mon::derived_zoo::visit(&mut b);
    #[cfg(feature = "gen")]
    gen_run::visit(&mut b);
    b.0
}

/// Structs in which several fields would take the same key: the own field comes first, then the flattened
/// structs in their order.
trait Overlap: deser::Deserialize + 'static {
    /// The field that gets the value of a key.
    const ROUTES: &'static [(&'static str, usize)];
    /// The fields that have to be there; the others are 0 without.
    const REQUIRED: &'static [bool];
    fn fields(&self) -> Vec<u64>;
}

macro_rules! overlap {
    ($($name:ident [$($req:literal),*] [$($key:literal => $slot:literal),*] |$s:ident| $fields:expr;)*) => {
        $(impl Overlap for $name {
            const ROUTES: &'static [(&'static str, usize)] = &[$(($key, $slot)),*];
            const REQUIRED: &'static [bool] = &[$($req != 0),*];
            fn fields(&self) -> Vec<u64> { let $s = self; $fields.to_vec() }
        })*
        fn overlaps() -> Vec<(&'static str, fn(&mut Case))> {
            vec![$((stringify!($name), overlap::<$name>)),*]
        }
    };
}

#[derive(deser::Deserialize)]
struct InA {
    #[deser(default)]
    name: u64,
    #[deser(alias = "also")]
    a: u64,
}
#[derive(deser::Deserialize)]
struct InB {
    #[deser(default)]
    a: u64,
    #[deser(default)]
    name: u64,
    b: u64,
}
#[derive(deser::Deserialize)]
struct Outer {
    name: u64,
    #[deser(flatten)]
    x: InA,
}
#[derive(deser::Deserialize)]
struct OuterLast {
    #[deser(flatten)]
    x: InA,
    #[deser(rename = "name")]
    other: u64,
}
#[derive(deser::Deserialize)]
struct OuterAlias {
    #[deser(flatten)]
    x: InA,
    #[deser(alias = "name", default)]
    also: u64,
}
#[derive(deser::Deserialize)]
struct TwoFlat {
    #[deser(flatten)]
    x: InA,
    #[deser(flatten)]
    y: InB,
}
#[derive(deser::Deserialize)]
struct TwoFlatBack {
    #[deser(flatten)]
    y: InB,
    #[deser(flatten)]
    x: InC,
    c: u64,
}
#[derive(deser::Deserialize)]
struct InC {
    #[deser(default)]
    b: u64,
    d: u64,
    #[deser(default)]
    c: u64,
}
#[derive(deser::Deserialize)]
struct DeepFlat {
    #[deser(flatten)]
    o: Box<TwoFlat>,
    a: u64,
    #[deser(flatten)]
    p: InC2,
}
#[derive(deser::Deserialize)]
struct InC2 {
    #[deser(flatten)]
    inner: InC,
    #[deser(default)]
    c: u64,
    #[deser(default)]
    also: u64,
}

overlap! {
    Outer [1, 0, 1] ["name" => 0, "a" => 2, "also" => 2] |s| [s.name, s.x.name, s.x.a];
    OuterLast [1, 0, 1] ["name" => 0, "a" => 2, "also" => 2] |s| [s.other, s.x.name, s.x.a];
    OuterAlias [0, 0, 1] ["also" => 0, "name" => 0, "a" => 2] |s| [s.also, s.x.name, s.x.a];
    TwoFlat [0, 1, 0, 0, 1] ["name" => 0, "a" => 1, "also" => 1, "b" => 4]
        |s| [s.x.name, s.x.a, s.y.a, s.y.name, s.y.b];
    TwoFlatBack [0, 0, 1, 0, 1, 0, 1] ["a" => 0, "name" => 1, "b" => 2, "d" => 4, "c" => 6]
        |s| [s.y.a, s.y.name, s.y.b, s.x.b, s.x.d, s.x.c, s.c];
    DeepFlat [0, 1, 0, 0, 1, 1, 0, 1, 0, 0, 0] ["name" => 0, "a" => 5, "also" => 1, "b" => 4, "d" => 7, "c" => 8]
        |s| [s.o.x.name, s.o.x.a, s.o.y.a, s.o.y.name, s.o.y.b, s.a, s.p.inner.b, s.p.inner.d, s.p.c, s.p.inner.c, s.p.also];
}

fn overlap<T: Overlap>(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut keys: Vec<(String, u64)> = T::ROUTES
        .iter()
        .filter(|_| r.chance(9, 10))
        .map(|x| x.0.to_string())
        .collect::<Vec<_>>()
        .into_iter()
        .map(|k| (k, 0))
        .collect();
    for _ in 0..r.below(4) {
        let k = if r.bool() { r.pick(T::ROUTES).0.to_string() } else { gen::key(&mut r) };
        keys.push((k, 0));
    }
    for i in (1..keys.len()).rev() {
        keys.swap(i, r.idx(i + 1));
    }
    for k in &mut keys {
        k.1 = 1 + r.below(1000);
    }
    let mut want = vec![None; T::REQUIRED.len()];
    let mut evs = vec![Ev::MapStart];
    for (k, v) in &keys {
        evs.push(Ev::Atom(A::Str(k.clone())));
        evs.push(Ev::Atom(A::U64(*v)));
        if let Some((_, i)) = T::ROUTES.iter().find(|x| x.0 == k) {
            want[*i] = Some(*v);
        }
    }
    evs.push(Ev::MapEnd);
    let missing = want.iter().zip(T::REQUIRED).any(|(w, r)| *r && w.is_none());
    let want: Vec<u64> = want.into_iter().map(|x| x.unwrap_or(0)).collect();
    let got = feed::<T>(&evs);
    case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes())));
    case.count(if missing { "streams with contested keys, incomplete" } else { "streams with contested keys" }, 1);
    case.check(
        match (&got.out, &got.err) {
            (Some(x), None) => !missing && x.fields() == want,
            (None, Some((e, _))) => missing && e.kind() == deser::ErrorKind::MissingField,
            _ => false,
        },
        || {
            format!(
                "{} gives {:?} ({:?}), expected {}",
                show(&evs),
                got.out.as_ref().map(|x| x.fields()),
                got.err.as_ref().map(|x| x.0.to_string()),
                if missing { "that a field is missing".to_string() } else { format!("{:?}", want) }
            )
        },
    );
}

fn main() {
    let ctx = Ctx::new("C14");
    table::run(ctx, "small", &build::<Small>(), 1);
    table::run(ctx, "subsets", &build::<Subsets>(), ctx.n(150, 600));
    table::run(ctx, "fit", &build::<Fit>(), ctx.n(6000, 30000));
    let o = overlaps();
    ctx.group("overlap", ctx.n(20_000, 1_000_000), |case| {
        let (name, f) = o[case.idx as usize % o.len()];
        case.label = name.to_string();
        f(case)
    });
    ctx.finish()
}
