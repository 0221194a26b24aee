//! C13: built-in types accept exactly what they stand for.
use mon::drive::*;
use mon::gen::{self, Gen};
use mon::model::*;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::{self, Zoo};

pub fn judge<T: Zoo>(case: &mut Case, evs: &[Ev]) {
    let want = T::de(&N::parse(evs));
    let got = feed::<T>(evs);
    case.eval(Some(fingerprint(evs) ^ hash_bytes(case.label.as_bytes())));
    case.count("events", evs.len() as u64);
    let text = || show(evs);
    match (&want, &got.err, &got.out) {
        (Ok(w), None, Some(x)) => {
            case.count("accepted", 1);
            case.check(w.eqv(x), || {
                format!("{} gives {}, expected {}", text(), show(&x.model().events()), show(&w.model().events()))
            });
        }
        (Ok(_), None, None) => case.violation(&format!("{} gives nothing", text())),
        (Ok(_), Some((e, at)), _) => {
            case.violation(&format!("{} is refused at {}: {}, but it fits", text(), at, e))
        }
        (Err(f), None, _) => case.violation(&format!("{} is accepted, expected {:?}", text(), f)),
        (Err(f), Some((e, at)), _) => {
            case.count(&format!("refused as {:?}", f.kind), 1);
            case.check(f.kind == e.kind() && f.at == *at, || {
                format!("{} fails at {} with {:?} ({}), expected {:?}", text(), at, e.kind(), e, f)
            });
        }
    }
    if evs.len() > 3 {
        case.sample(text);
    }
}

struct Fit;

impl TypeCheck for Fit {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let budget = *rng.pick(&[6, 20, 60, 200]);
        let mut tree = T::fit(&mut Gen { r: &mut rng, budget, json: false });
        match rng.below(10) {
            0..=2 => {}
            3..=7 => gen::mutate(&mut rng, &mut tree),
            8 => {
                for _ in 0..rng.range(2, 4) {
                    gen::mutate(&mut rng, &mut tree)
                }
            }
            _ => {
                let mut b = 12;
                tree = gen::tree(&mut rng, 3, &mut b);
            }
        }
        judge::<T>(case, &tree.events());
    }
}

/// All types with the same small streams.
struct Small;

pub fn small(i: u64) -> Option<Vec<Ev>> {
    let atoms = [
        A::Null,
        A::Bool(true),
        A::Str("".into()),
        A::Str("x".into()),
        A::Str("\u{1F600}".into()),
        A::Str("e\u{301}".into()),
        A::Str("ab".into()),
        A::Str("true".into()),
        A::Str("1".into()),
        A::Bytes(vec![]),
        A::Bytes(vec![1]),
        A::Bytes(vec![1, 2, 3]),
        A::Char('y'),
        A::Char('\u{1F600}'),
        A::U64(0),
        A::U64(1),
        A::U64(127),
        A::U64(128),
        A::U64(255),
        A::U64(256),
        A::U64(32767),
        A::U64(32768),
        A::U64(65535),
        A::U64(65536),
        A::U64(i32::MAX as u64),
        A::U64(1 << 31),
        A::U64(u32::MAX as u64),
        A::U64(1 << 32),
        A::U64(i64::MAX as u64),
        A::U64(1 << 63),
        A::U64(u64::MAX),
        A::I64(0),
        A::I64(7),
        A::I64(-1),
        A::I64(-128),
        A::I64(-129),
        A::I64(127),
        A::I64(128),
        A::I64(255),
        A::I64(256),
        A::I64(-32768),
        A::I64(-32769),
        A::I64(i32::MIN as i64),
        A::I64(i32::MIN as i64 - 1),
        A::I64(i64::MAX),
        A::I64(i64::MIN),
        A::F64(0.0),
        A::F64(1.0),
        A::F64(-0.5),
        A::F64(f64::NAN),
        A::F64(f64::INFINITY),
        A::F64(1e300),
    ];
    let n = atoms.len() as u64;
    let a = |i: u64| Ev::Atom(atoms[i as usize].clone());
    let mut i = i;
    if i < n {
        return Some(vec![a(i)]);
    }
    i -= n;
    if i == 0 {
        return Some(vec![Ev::SeqStart, Ev::SeqEnd]);
    }
    if i == 1 {
        return Some(vec![Ev::MapStart, Ev::MapEnd]);
    }
    i -= 2;
    if i < n {
        return Some(vec![Ev::SeqStart, a(i), Ev::SeqEnd]);
    }
    i -= n;
    if i < n * n {
        return Some(vec![Ev::SeqStart, a(i / n), a(i % n), Ev::SeqEnd]);
    }
    i -= n * n;
    if i < n * n {
        return Some(vec![Ev::MapStart, a(i / n), a(i % n), Ev::MapEnd]);
    }
    i -= n * n;
    let s = |k: u64, v: Vec<Ev>| {
        let mut o = vec![if k == 0 { Ev::SeqStart } else { Ev::MapStart }];
        o.extend(v);
        o.push(if k == 0 { Ev::SeqEnd } else { Ev::MapEnd });
        o
    };
    let inner: Vec<Vec<Ev>> = vec![
        s(0, vec![]),
        s(1, vec![]),
        s(0, vec![a(15)]),
        s(0, vec![a(15), a(1)]),
        s(0, vec![a(3), a(2)]),
        s(0, vec![a(15), a(15), a(16)]),
        s(1, vec![a(3), a(15)]),
        s(1, vec![a(15), a(3)]),
    ];
    let m = inner.len() as u64;
    if i < m * m {
        return Some(s(0, [inner[(i / m) as usize].clone(), inner[(i % m) as usize].clone()].concat()));
    }
    i -= m * m;
    if i < m * m {
        return Some(s(1, [inner[(i / m) as usize].clone(), inner[(i % m) as usize].clone()].concat()));
    }
    i -= m * m;
    if i < m * n {
        return Some(s(1, [vec![a(i / m)], inner[(i % m) as usize].clone()].concat()));
    }
    i -= m * n;
    // sequences of every length up to 40
    if i < 41 {
        return Some(s(0, (0..i).map(|k| a(14 + k % 2)).collect()));
    }
    None
}

impl TypeCheck for Small {
    fn run<T: Zoo>(case: &mut Case) {
        let mut i = 0;
        while let Some(evs) = small(i) {
            judge::<T>(case, &evs);
            i += 1;
        }
    }
}

/// Containers, strings and bytes far longer than all others.
fn long(case: &mut Case) {
    use std::collections::*;
    let mut r = case.rng.clone();
    let kind = case.idx % 10;
    let base = *r.pick(&[65_535usize, 65_536, 131_072, 262_144, 524_288, 1 << 20]);
    let n = base - 2 + r.idx(5) + if r.bool() { r.idx(base / 4) } else { 0 };
    case.count("items of long containers", n as u64);
    // all of a kind, so that the reference is small
    fn feed_all<T: deser::Deserialize>(evs: impl Iterator<Item = Ev>) -> Result<Option<T>, deser::Error> {
        let mut out = None;
        {
            let mut d = deser::de::DeserializeDriver::new(&mut out);
            for e in evs {
                d.emit(e.event())?;
            }
        }
        Ok(out)
    }
    let seq = |f: &dyn Fn(usize) -> Ev| -> Vec<Ev> {
        std::iter::once(Ev::SeqStart).chain((0..n).map(f)).chain(std::iter::once(Ev::SeqEnd)).collect()
    };
    let map = |f: &dyn Fn(usize) -> [Ev; 2]| -> Vec<Ev> {
        std::iter::once(Ev::MapStart).chain((0..n).flat_map(f)).chain(std::iter::once(Ev::MapEnd)).collect()
    };
    let salt = r.u64();
    let num = move |i: usize| (i as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ salt;
    let ev = |x: u64| Ev::Atom(A::U64(x));
    macro_rules! compare {
        ($t:ty, $evs:expr, $want:expr) => {{
            let evs: Vec<Ev> = $evs;
            case.eval(Some(mix(n as u64 ^ kind << 40)));
            match feed_all::<$t>(evs.into_iter()) {
                Ok(Some(x)) => {
                    let want: $t = $want;
                    case.check(x == want, || format!("{} of {} items is wrong", stringify!($t), n));
                }
                Ok(None) => case.violation(&format!("{} of {} items gives nothing", stringify!($t), n)),
                Err(e) => case.violation(&format!("{} of {} items is refused: {}", stringify!($t), n, e)),
            }
        }};
    }
    match kind {
        0 => compare!(Vec<u64>, seq(&|i| ev(num(i))), (0..n).map(num).collect()),
        1 => compare!(Vec<Option<bool>>, seq(&|_| Ev::Atom(A::Null)), vec![None; n]),
        2 => compare!(Vec<u8>, seq(&|i| ev(num(i) & 255)), (0..n).map(|i| num(i) as u8).collect()),
        3 => compare!(BTreeSet<u64>, seq(&|i| ev(num(i))), (0..n).map(num).collect()),
        4 => compare!(HashSet<u64>, seq(&|i| ev(num(i))), (0..n).map(num).collect()),
        5 => compare!(
            BTreeMap<u64, u64>,
            map(&|i| [ev(num(i / 2)), ev(i as u64)]),
            (0..n).map(|i| (num(i / 2), i as u64)).collect()
        ),
        6 => compare!(
            HashMap<u64, u64>,
            map(&|i| [ev(num(i / 2)), ev(i as u64)]),
            (0..n).map(|i| (num(i / 2), i as u64)).collect()
        ),
        7 => {
            let s: String = (0..n).map(|i| char::from_u32(0xd0 + (num(i) >> 50) as u32 % 4000).unwrap()).collect();
            compare!(String, vec![Ev::Atom(A::Str(s.clone()))], s)
        }
        8 => {
            let b: Vec<u8> = (0..n).map(|i| num(i) as u8).collect();
            compare!(Vec<u8>, vec![Ev::Atom(A::Bytes(b.clone()))], b)
        }
        _ => compare!(
            Vec<Vec<(u8, bool)>>,
            {
                let one = [Ev::SeqStart, Ev::SeqStart, ev(7), Ev::Atom(A::Bool(true)), Ev::SeqEnd, Ev::SeqEnd];
                let mut v = vec![Ev::SeqStart];
                for _ in 0..n / 4 {
                    v.extend_from_slice(&one);
                }
                v.push(Ev::SeqEnd);
                v
            },
            vec![vec![(7, true)]; n / 4]
        ),
    }
}

/// Arrays of all sizes against lengths around their own.
fn arrays(case: &mut Case) {
    fn go<T: deser::Deserialize + Copy + PartialEq, const N: usize>(case: &mut Case, name: &str, item: fn(u64) -> (T, A), bytes: bool) {
        let mut r = case.rng.clone();
        let len = match r.below(10) {
            0 => 0,
            1 => N / 2,
            2 => N.saturating_sub(1),
            3 | 4 => N + 1,
            5 => N + 2 + r.idx(20),
            6 => N * 2 + 1,
            7 => N + 65_536,
            _ => N,
        };
        let salt = r.u64();
        let items: Vec<(T, A)> = (0..len).map(|i| item(mix(salt ^ i as u64))).collect();
        let as_bytes = bytes && r.bool();
        let evs: Vec<Ev> = if as_bytes {
            let b = items.iter().map(|x| if let A::U64(x) = x.1 { x as u8 } else { unreachable!() }).collect();
            vec![Ev::Atom(A::Bytes(b))]
        } else {
            std::iter::once(Ev::SeqStart)
                .chain(items.iter().map(|x| Ev::Atom(x.1.clone())))
                .chain(std::iter::once(Ev::SeqEnd))
                .collect()
        };
        case.eval(Some(fingerprint(&evs) ^ mix(N as u64) ^ hash_bytes(name.as_bytes())));
        let what = || format!("{} {} for [{}; {}]", len, if as_bytes { "bytes" } else { "items" }, name, N);
        // refused right where it does not fit any more
        let at = if as_bytes { 0 } else if len > N { N + 1 } else { len + 1 };
        let fed = feed::<Box<[T; N]>>(&evs);
        match (len == N, &fed.err, &fed.out) {
            (true, None, Some(x)) => {
                case.count("arrays of the right length", 1);
                case.check(x.iter().zip(&items).all(|(a, b)| *a == b.0), || format!("{}: wrong items", what()));
            }
            (true, ..) => case.violation(&format!("{} are refused: {:?}", what(), fed.err)),
            (false, Some((e, pos)), None) => {
                case.count("arrays of the wrong length", 1);
                case.check(e.kind() == deser::ErrorKind::WrongLength && *pos == at, || {
                    format!("{} fail at {} with {}, expected WrongLength at {}", what(), pos, e, at)
                });
            }
            (false, ..) => case.violation(&format!("{} are accepted", what())),
        }
    }
    fn byte(x: u64) -> (u8, A) {
        (x as u8, A::U64(x & 255))
    }
    fn boolean(x: u64) -> (bool, A) {
        (x & 1 == 1, A::Bool(x & 1 == 1))
    }
    fn short(x: u64) -> (u16, A) {
        (x as u16, A::U64(x & 0xffff))
    }
    fn int(x: u64) -> (i8, A) {
        (x as i8, A::I64(x as i8 as i64))
    }
    fn pair(x: u64) -> (Option<u32>, A) {
        if x & 3 == 0 {
            (None, A::Null)
        } else {
            (Some(x as u32), A::U64(x as u32 as u64))
        }
    }
    macro_rules! sizes {
        ($($i:literal: $n:literal)*) => {
            match case.idx % [$($i),*].len() as u64 {
                $($i => match case.idx / 17 % 7 {
                    0..=2 => go::<u8, $n>(case, "u8", byte, true),
                    3 => go::<bool, $n>(case, "bool", boolean, false),
                    4 => go::<u16, $n>(case, "u16", short, false),
                    5 => go::<i8, $n>(case, "i8", int, false),
                    _ => go::<Option<u32>, $n>(case, "Option<u32>", pair, false),
                },)*
                _ => unreachable!(),
            }
        };
    }
    sizes! { 0: 0 1: 1 2: 2 3: 15 4: 16 5: 17 6: 31 7: 32 8: 33 9: 64 10: 255 11: 256 12: 257 13: 1024 14: 4097 15: 65535 16: 65536 }
}

fn build<C: TypeCheck>() -> table::Table {
    let mut b = table::Build::<C>::default();
    zoo::visit_prims(&mut b);
    zoo::visit_containers(&mut b);
    b.0
}

fn main() {
    let ctx = Ctx::new("C13");
    table::run(ctx, "small", &build::<Small>(), 1);
    table::run(ctx, "fit", &build::<Fit>(), ctx.n(12000, 300000));
    ctx.group("long", ctx.n(60, 2000), long);
    ctx.group("arrays", ctx.n(3000, 120_000), arrays);
    ctx.finish()
}
