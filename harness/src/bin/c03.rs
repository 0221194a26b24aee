//! C03: events of a value give the value back.
use mon::drive::*;
use mon::gen::Gen;
use mon::model::*;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::Zoo;

struct RoundTrip;

impl TypeCheck for RoundTrip {
    fn wants<T: Zoo>() -> bool {
        T::RT
    }
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let budget = *rng.pick(&[6, 20, 60, 200]);
        let v = T::arb(&mut Gen { r: &mut rng, budget, json: false });
        let evs = match ser_events(&v) {
            Ok(e) => e,
            Err(e) => return case.violation(&format!("serialize fails: {}", e)),
        };
        let fed = feed::<T>(&evs);
        case.eval(if evs.len() > 1 { Some(fingerprint(&evs)) } else { Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes())) });
        case.count("events", evs.len() as u64);
        case.sample(|| format!("{}: {}", T::name(), show(&evs)));
        match (fed.out, fed.err) {
            (_, Some((e, at))) => {
                case.violation(&format!("own events are refused at {}: {}; events: {}", at, e, show(&evs)))
            }
            (None, None) => case.violation(&format!("no value after own events: {}", show(&evs))),
            (Some(x), None) => {
                case.check(v.same(&x), || {
                    format!("different value: {} became {}", show(&evs), show(&x.model().events()))
                });
                // and once more: the result serializes to an equal value again
                if evs.len() < 200 {
                    if let Ok(e2) = ser_events(&x) {
                        let f2 = feed::<T>(&e2);
                        case.check(f2.out.as_ref().is_some_and(|y| x.same(y)), || {
                            format!("second round trip differs: {}", show(&e2))
                        });
                    }
                }
            }
        }
    }
}

/// Values with far more items than the others.
fn long(case: &mut Case) {
    let mut r = case.rng.clone();
    fn back<T: deser::Serialize + deser::Deserialize + PartialEq>(case: &mut Case, v: T, what: &str) {
        let evs = match ser_events(&v) {
            Ok(e) => e,
            Err(e) => return case.violation(&format!("{}: serialize fails: {}", what, e)),
        };
        case.eval(Some(fingerprint(&evs)));
        case.count("events", evs.len() as u64);
        match feed::<T>(&evs) {
            Fed { err: Some((e, at)), .. } => case.violation(&format!("{}: own events are refused at {}: {}", what, at, e)),
            Fed { out: None, .. } => case.violation(&format!("{}: no value after own events", what)),
            Fed { out: Some(x), .. } => {
                case.check(x == v, || format!("{}: a different value comes back", what));
            }
        }
    }
    macro_rules! arrays {
        ($($i:literal $t:ty, $n:literal, $e:expr;)*) => {
            const COUNT: u64 = [$($i),*].len() as u64;
            match case.idx % (COUNT + 4) {
                $($i => {
                    let mut f: Box<dyn FnMut() -> $t> = Box::new($e);
                    let v: Vec<$t> = (0..$n).map(|_| f()).collect();
                    let v: Box<[$t; $n]> = v.try_into().ok().unwrap();
                    drop(f);
                    back(case, v, concat!("[", stringify!($t), "; ", stringify!($n), "]"));
                })*
                k => {
                    let n = *r.pick(&[255usize, 256, 257, 1000, 4095, 4096, 4097, 65_535, 65_536, 70_000]) + r.idx(3);
                    match k - COUNT {
                        0 => back(case, (0..n).map(|_| r.u64() as u16).collect::<Vec<_>>(), "long Vec"),
                        1 => back(case, (0..n).map(|_| r.u64() as u8).collect::<Vec<_>>(), "long bytes"),
                        2 => back(
                            case,
                            (0..n).map(|i| (i as u32 ^ 0x5555, r.u64())).collect::<std::collections::BTreeMap<_, _>>(),
                            "long BTreeMap",
                        ),
                        _ => back(case, (0..n).map(|i| i as u32 * 7).collect::<std::collections::HashSet<_>>(), "long HashSet"),
                    }
                }
            }
        };
    }
    arrays! {
        0 u16, 255, || r.u64() as u16;
        1 u16, 256, || r.u64() as u16;
        2 u64, 257, || r.u64();
        3 Option<u32>, 1000, || r.bool().then(|| r.u64() as u32);
        4 u32, 4096, || r.u64() as u32;
        5 i64, 4097, || r.u64() as i64;
        6 bool, 5000, || r.bool();
        7 String, 4100, || format!("{}", r.u64());
        8 u8, 255, || r.u64() as u8;
        9 u8, 256, || r.u64() as u8;
        10 u8, 257, || r.u64() as u8;
        11 u8, 4097, || r.u64() as u8;
        12 u8, 70_000, || r.u64() as u8;
        13 u16, 65_535, || r.u64() as u16;
        14 u16, 65_536, || r.u64() as u16;
        15 u32, 70_000, || r.u64() as u32;
        16 (u8, char), 300, || (r.u64() as u8, mon::gen::ch(&mut r));
        17 [u16; 33], 129, || std::array::from_fn(|_| r.u64() as u16);
        18 Vec<u8>, 2049, || vec![r.u64() as u8; r.idx(3)];
    }
}

fn main() {
    let ctx = Ctx::new("C03");
    let t = table::table::<RoundTrip>();
    table::run(ctx, "roundtrip", &t, ctx.n(15000, 400000));
    ctx.group("long", ctx.n(46, 2300), long);
    ctx.finish()
}
