//! C20: errors reach the caller and leave no results.
use deser::de::{Deserialize, DeserializeDriver};
use deser::ErrorKind;
use mon::drive::*;
use mon::gen::{self, Gen};
use mon::json;
use mon::model::*;
use mon::probe::{self, FaultKind, FAULT_MSG};
use mon::table::{self, TypeCheck};
use mon::tracked::{self, *};
use mon::util::*;
use mon::work::{self, *};
use mon::zoo::Zoo;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn optional<T>() -> bool {
    let n = std::any::type_name::<T>();
    let mut n = n;
    while let Some(x) = n.strip_prefix("alloc::boxed::Box<") {
        n = x;
    }
    n.starts_with("core::option::Option<")
}

fn fitting<T: Zoo>(r: &mut Rng, json: bool) -> mon::model::T {
    let budget = *r.pick(&[4, 10, 25, 60]);
    T::fit(&mut Gen { r, budget, json })
}

/// Streams cut at every position, and refused streams.
struct Cut;

impl TypeCheck for Cut {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let mut t = fitting::<T>(&mut r, false);
        let broken = r.bool();
        if broken {
            gen::mutate(&mut r, &mut t);
        }
        let evs = t.events();
        let fp = fingerprint(&evs) ^ hash_bytes(case.label.as_bytes());
        case.sample(|| show(&evs));
        let opt = optional::<T>();
        let cuts: Vec<usize> = if evs.len() <= 24 {
            (0..evs.len()).collect()
        } else {
            (0..24).map(|_| r.idx(evs.len())).collect()
        };
        for n in cuts {
            case.eval(Some(fp ^ mix(n as u64)));
            case.count("cuts", 1);
            let f = feed::<T>(&evs[..n]);
            if f.out.is_some() && !opt {
                return case.violation(&format!(
                    "a result after {} events ({:?}): {}",
                    n,
                    f.err.map(|e| e.0.to_string()),
                    show(&evs)
                ));
            }
        }
        if broken {
            let want = T::de(&N::parse(&evs));
            let f = feed::<T>(&evs);
            case.eval(Some(fp));
            if let (Err(_), true) = (&want, f.out.is_some() && !opt) {
                return case.violation(&format!("a result although the stream does not fit: {}", show(&evs)));
            }
            if want.is_err() && f.err.is_none() {
                case.violation(&format!("no error for {}, expected {:?}", show(&evs), want.err()));
            }
        }
    }
}

/// Ends that do not match, and events after the end.
struct Stray;

impl TypeCheck for Stray {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let evs = fitting::<T>(&mut r, false).events();
        if T::de(&N::parse(&evs)).is_err() {
            return;
        }
        let opt = optional::<T>();
        // everything in order, then one more
        let extra = [
            Ev::MapEnd,
            Ev::SeqEnd,
            Ev::MapStart,
            Ev::SeqStart,
            Ev::Atom(A::Null),
            Ev::Atom(A::U64(1)),
            Ev::Atom(A::Str("x".into())),
        ];
        let x = r.pick(&extra).clone();
        let mut out = None::<T>;
        let mut reached = false;
        let res = {
            let mut d = DeserializeDriver::new(&mut out);
            if feed_driver(&mut d, &evs).is_some() {
                return;
            }
            reached |= true;
            catch_unwind(AssertUnwindSafe(|| d.emit(x.event())))
        };
        let _ = reached;
        drop(last_panic());
        case.eval(Some(fingerprint(&evs) ^ fingerprint(&[x.clone()]) ^ hash_bytes(case.label.as_bytes())));
        case.count("stray events", 1);
        if let Ok(rv) = res {
            return case.violation(&format!("{:?} after the end of {} is {:?}", x, show(&evs), rv));
        }
        let want = T::de(&N::parse(&evs)).ok().unwrap();
        if !out.as_ref().is_some_and(|o| want.eqv(o)) {
            return case.violation(&format!("{:?} after the end of {} changed the result", x, show(&evs)));
        }
        // a wrong end somewhere inside
        let at = r.idx(evs.len());
        let mut stack = vec![];
        for e in &evs[..at] {
            match e {
                Ev::MapStart | Ev::SeqStart => stack.push(*e == Ev::MapStart),
                Ev::MapEnd | Ev::SeqEnd => drop(stack.pop()),
                _ => {}
            }
        }
        let x = match stack.last() {
            Some(true) => Ev::SeqEnd,
            Some(false) => Ev::MapEnd,
            None => {
                if r.bool() {
                    Ev::SeqEnd
                } else {
                    Ev::MapEnd
                }
            }
        };
        let mut out = None::<T>;
        let res = {
            let mut d = DeserializeDriver::new(&mut out);
            if feed_driver(&mut d, &evs[..at]).is_some() {
                return;
            }
            catch_unwind(AssertUnwindSafe(|| d.emit(x.event())))
        };
        drop(last_panic());
        case.eval(Some(fingerprint(&evs) ^ mix(at as u64) ^ hash_bytes(case.label.as_bytes())));
        if let Ok(rv) = res {
            return case.violation(&format!("{:?} is {:?} after {} events of {}", x, rv, at, show(&evs)));
        }
        if out.is_some() && !opt {
            case.violation(&format!("a result after {:?} at {} in {}", x, at, show(&evs)));
        }
    }
}

/// The reader says what the type says.
struct Json;

impl TypeCheck for Json {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let mut t = fitting::<T>(&mut r, true);
        for _ in 0..r.below(3) {
            gen::mutate(&mut r, &mut t);
        }
        let t = json::jsonable(t);
        let text = json::spell(&mut r, &t.events(), 1);
        let doc = json::parse(text.as_bytes()).unwrap_or_else(|e| panic!("{:?} in {}", e, text));
        let evs = json::events(&doc).unwrap();
        case.eval(Some(hash_bytes(text.as_bytes()) ^ hash_bytes(case.label.as_bytes())));
        case.sample(|| text.clone());
        let want = T::de(&N::parse(&evs));
        let got = json::read::<T>(text.as_bytes());
        let by_str = deser_json::from_str::<T>(&text);
        match (&want, &got) {
            (Ok(w), Ok(g)) => {
                case.count("documents accepted", 1);
                case.check(w.eqv(g), || format!("{} gives {}", text, show(&g.model().events())));
            }
            (Err(f), Err(e)) => {
                case.count("documents refused", 1);
                if f.kind != e.kind() {
                    return case.violation(&format!("{} fails with {}, expected {:?}", text, e, f.kind));
                }
                // the same error as without JSON in between
                if let Some((direct, _)) = feed::<T>(&evs).err {
                    case.check(direct.to_string() == e.to_string() && direct.kind() == e.kind(), || {
                        format!("{} fails with {}, but the sink said {}", text, e, direct)
                    });
                }
            }
            (w, g) => {
                return case.violation(&format!(
                    "{} is {:?}, expected {:?}",
                    text,
                    g.as_ref().map(|x| show(&x.model().events())).map_err(|e| e.to_string()),
                    w.as_ref().map(|x| show(&x.model().events()))
                ))
            }
        }
        if got.is_ok() != by_str.is_ok() {
            return case.violation(&format!("from_str and Deserializer disagree about {}", text));
        }
        // strict prefixes
        let b = text.as_bytes();
        let lead = b.iter().position(|c| !b" \t\r\n".contains(c)).unwrap();
        if matches!(b[lead], b'[' | b'{' | b'"') {
            let end = b.iter().rposition(|c| !b" \t\r\n".contains(c)).unwrap();
            for k in 0..12 {
                let n = match k {
                    0 => end,
                    1 => lead + 1,
                    _ => r.idx(end + 1),
                };
                let n = n.min(end);
                case.count("prefixes", 1);
                if let Ok(x) = json::read::<T>(&b[..n]) {
                    return case.violation(&format!(
                        "the prefix {:?} gives {}",
                        String::from_utf8_lossy(&b[..n]),
                        show(&x.model().events())
                    ));
                }
                if json::read::<json::Any>(&b[..n]).is_ok() {
                    return case.violation(&format!("the prefix {:?} is accepted", String::from_utf8_lossy(&b[..n])));
                }
            }
        }
    }
}

/// Failing callbacks below the convenience functions.
fn faults<T: Tracked>(case: &mut Case) {
    let mut r = case.rng.clone();
    let kind = *r.pick(KINDS);
    let early = r.bool();
    tracked::set_early(early);
    // an element that is alone in its slot is there as soon as its own sink put it there
    let lone = early && std::any::TypeId::of::<T>() == std::any::TypeId::of::<E>();
    probe::begin(0);
    let v = T::value(&mut Gen { r: &mut r, budget: 12, json: true });
    let t = json::jsonable(T::stream(&mut Gen { r: &mut r, budget: 12, json: true }));
    let text = json::spell(&mut r, &t.events(), 1);
    let mut problems = vec![];
    macro_rules! judge {
        ($name:expr, $run:expr) => {{
            // how many callbacks are there
            probe::with(|c| {
                c.on = false;
                c.calls = 0;
                c.fault = None;
            });
            let plain: Result<(), deser::Error> = $run;
            let calls = probe::with(|c| c.calls);
            case.count("callbacks", calls);
            for at in 1..=calls.min(40) {
                probe::with(|c| {
                    c.calls = 0;
                    c.fired = false;
                    c.fault = Some((at, FaultKind::Err(kind)));
                });
                let rv: Result<(), deser::Error> = $run;
                case.count("faults", 1);
                case.eval(Some(hash_bytes(text.as_bytes()) ^ mix(at) ^ hash_bytes(case.label.as_bytes()) ^ hash_bytes($name.as_bytes())));
                match &rv {
                    Err(e) if e.kind() == kind && e.to_string().contains(FAULT_MSG) => {}
                    rv => {
                        problems.push(format!("{}: the error {:?} of callback {} became {:?} (without it {:?}); {}",
                            $name, kind, at, rv, plain.as_ref().err(), text));
                        break;
                    }
                }
                probe::with(|c| {
                    c.calls = 0;
                    c.fault = Some((at, FaultKind::Panic));
                });
                let rv = catch_unwind(AssertUnwindSafe(|| { let x: Result<(), deser::Error> = $run; x }));
                drop(last_panic());
                match rv {
                    Err(p) if p.is::<Injected>() => {}
                    rv => {
                        problems.push(format!("{}: the panic of callback {} became {:?}; {}", $name, at, rv.map_err(|_| "another panic"), text));
                        break;
                    }
                }
            }
            probe::with(|c| c.fault = None);
        }};
    }
    judge!("to_string", deser_json::to_string(&v).map(|_| ()));
    judge!("Serializer", deser_json::Serializer::new().serialize(&v).map(|_| ()));
    judge!("from_str", deser_json::from_str::<T>(&text).map(|_| ()));
    judge!("events", ser_events(&v).map(|_| ()));
    judge!("tracked path", ser_events(&deser_path::PathSerializable::wrap(&v)).map(|_| ()));
    let evs = t.events();
    judge!("driver", {
        let mut out = None::<T>;
        let err = {
            let mut d = DeserializeDriver::new(&mut out);
            feed_driver(&mut d, &evs)
        };
        match err {
            Some((e, _)) => {
                if out.is_some() && !optional::<T>() && !lone {
                    problems.push("a result after an error".to_string());
                }
                Err(e)
            }
            None => Ok(()),
        }
    });
    drop(v);
    drop(probe::end());
    for p in problems {
        case.violation(&p);
    }
}

struct Build(Vec<(&'static str, fn(&mut Case))>);
impl TVisitor for Build {
    fn visit<T: Tracked>(&mut self, name: &'static str) {
        self.0.push((name, faults::<T>));
    }
}

/// Errors keep what they were given.
fn error_values(case: &mut Case) {
    let mut r = case.rng.clone();
    let kind = *r.pick(KINDS);
    let msg = gen::string(&mut r);
    let e = deser::Error::new(kind, msg.clone());
    case.eval(Some(hash_bytes(msg.as_bytes()) ^ kind as u64));
    case.check(e.kind() == kind && e.to_string().ends_with(&msg), || format!("{:?} from {:?} {:?}", e, kind, msg));
    let inner = deser::Error::new(ErrorKind::OutOfRange, "inner");
    let e = e.with_source(inner);
    let s = std::error::Error::source(&e).map(|x| x.to_string());
    case.check(e.kind() == kind && e.to_string().ends_with(&msg) && s.is_some_and(|s| s.ends_with("inner")), || {
        format!("the source of {:?}", e)
    });
}

fn main() {
    let ctx = Ctx::new("C20");
    let t = table::table::<Cut>();
    table::run(ctx, "cut", &t, ctx.n(700, 20000));
    let t = table::table::<Stray>();
    table::run(ctx, "stray", &t, ctx.n(400, 20000));
    let t = table::table::<Json>();
    table::run(ctx, "json", &t, ctx.n(1000, 30000));
    ctx.group("error values", 200, error_values);
    let mut b = Build(vec![]);
    tracked::visit(&mut b);
    let n = b.0.len() as u64;
    ctx.group("faults", n * ctx.n(300, 8000), |case| {
        let (name, f) = b.0[(case.idx % n) as usize];
        case.label = name.to_string();
        f(case)
    });
    let j = Judge { errors: true, ..Judge::default() };
    for (name, hazard, quick, thorough) in [
        ("complete", Hazard::None, 10_000, 500_000),
        ("abandon", Hazard::Cut, 20_000, 1_000_000),
        ("error", Hazard::Err, 30_000, 1_000_000),
        ("panic", Hazard::Panic, 15_000, 1_000_000),
    ] {
        for path in [false, true] {
            let tag = if path { "tracked " } else { "" };
            ctx.group(&format!("ser {}{}", tag, name), ctx.n(quick, thorough) / 2, |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::ser(case, &Opts { judge: j, hazard, depth, budget, path });
            });
            ctx.group(&format!("de {}{}", tag, name), ctx.n(quick, thorough) / 2, |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::de(case, &Opts { judge: j, hazard, depth, budget, path });
            });
        }
    }
    ctx.finish()
}
