//! C01: no undefined behaviour.  Runs under Miri, under AddressSanitizer and as it is.
use deser::ser::Serialize;
use mon::gen::{self, Gen};
use mon::heapwork::{self, Build, Plain};
use mon::json::{self, Any};
use mon::jsonwork::*;
use mon::model::*;
use mon::table::{self, TypeCheck};
use mon::tracked;
use mon::uservalue;
use mon::util::*;
use mon::work::{self, *};
use mon::zoo::Zoo;
use std::sync::atomic::Ordering::Relaxed;

/// A str that the library handed out.
fn utf8(case: &mut Case, s: &str, what: &str, input: &[u8]) {
    case.count("strs looked at", 1);
    if std::str::from_utf8(s.as_bytes()).is_err() {
        case.violation(&format!("{}: a str with the bytes {:?} for the input {:?}", what, s.as_bytes(), input));
    }
}

fn text_in(case: &mut Case, b: &[u8]) {
    case.eval(Some(hash_bytes(b)));
    if let Ok(x) = guarded(b, json::read::<Any>) {
        case.count("documents accepted", 1);
        for e in &x.0 {
            if let Ev::Atom(A::Str(s)) = e {
                utf8(case, s, "the JSON reader", b);
            }
        }
    }
    if let Ok(s) = guarded(b, json::read::<String>) {
        utf8(case, &s, "the JSON reader", b);
    }
}

/// Reading a text as some type.
struct Docs;

impl TypeCheck for Docs {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let mut b = if r.bool() {
            document(&mut r)
        } else {
            let mut t = T::fit(&mut Gen { r: &mut r, budget: 12, json: true });
            if r.chance(1, 3) {
                gen::mutate(&mut r, &mut t);
            }
            json::spell(&mut r, &json::jsonable(t).events(), 1).into_bytes()
        };
        for _ in 0..r.below(3) {
            damage(&mut r, &mut b);
        }
        case.eval(Some(hash_bytes(&b)));
        mon::skip::take_hits();
        let ok = guarded(&b, json::read::<T>).is_ok();
        mon::skip::take_hits();
        case.count("documents accepted", ok as u64);
        case.sample(|| String::from_utf8_lossy(&b).into_owned());
    }
}

fn writers(case: &mut Case, v: &dyn Serialize) {
    for how in 0..4 {
        let s = match how {
            0 => deser_json::to_string(v).ok(),
            1 => deser_json::Serializer::new().serialize(v).ok(),
            2 => Some(format!("{:?}", deser_debug::ToDebug::new(v))),
            _ => Some(format!("{:#?}", deser_debug::ToDebug::new(v))),
        };
        if let Some(s) = s {
            utf8(case, &s, ["to_string", "Serializer", "debug", "pretty debug"][how], &[]);
        }
    }
}

struct Texts;

impl TypeCheck for Texts {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let v = T::arb(&mut Gen { r: &mut r, budget: 12, json: true });
        case.eval(Some(fingerprint(&v.model().events())));
        writers(case, &v);
    }
}

fn users(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut budget = *r.pick(&[3, 8, 20]);
    let t = gen::tree(&mut r, 4, &mut budget);
    case.eval(Some(fingerprint(&t.events())));
    let v = uservalue::plain(&t);
    writers(case, &v);
}

/// Strings of pieces, raw in a document, and complete documents of tokens.
fn pieces(case: &mut Case) {
    let mut r = case.rng.clone();
    let n = r.range(0, 7);
    let mut b = vec![];
    let set: &[&[u8]] = match r.below(4) {
        0 => TOKENS,
        1 => NUMBERS,
        2 => STRINGS,
        _ => UTF8,
    };
    let quote = set.len() == STRINGS.len() || set.len() == UTF8.len();
    if quote {
        b.push(b'"');
    }
    for _ in 0..n {
        b.extend_from_slice(r.pick::<&[u8]>(set));
    }
    if quote && r.chance(7, 8) {
        b.push(b'"');
    }
    let b = wrap(&mut r, &b);
    text_in(case, &b);
}

/// Several drivers on several threads, and values shared by threads.
fn threads(case: &mut Case) {
    let mut r = case.rng.clone();
    let v = <Vec<(String, std::collections::BTreeMap<u8, Option<f64>>)> as Zoo>::arb(&mut Gen {
        r: &mut r,
        budget: 12,
        json: true,
    });
    let w = <mon::derived_zoo::S2 as Zoo>::arb(&mut Gen { r: &mut r, budget: 12, json: true });
    let want = (mon::drive::ser_events(&v).map(|x| x.len()).ok(), format!("{:?}", deser_debug::ToDebug::new(&w)));
    let n = r.range(2, 3);
    let text = deser_json::to_string(&v).ok();
    case.eval(Some(r.u64()));
    case.count("threads", n);
    let got: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (v, w, text) = (&v, &w, &text);
                s.spawn(move || {
                    if i % 2 == 1 {
                        std::thread::yield_now();
                    }
                    let a = mon::drive::ser_events(v).map(|x| x.len()).ok();
                    let b = format!("{:?}", deser_debug::ToDebug::new(w));
                    let p = mon::drive::ser_events(&deser_path::PathSerializable::wrap(v)).map(|x| x.len()).ok();
                    if let Some(t) = text {
                        let _ = json::read::<Any>(t.as_bytes());
                    }
                    (a, b, p == a)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for g in got {
        match g {
            Ok((a, b, p)) => {
                case.check((a, b) == want && p, || "threads sharing a value see different data".to_string());
            }
            Err(_) => {
                let (loc, msg) = last_panic();
                case.violation(&format!("panic on a thread at {}: {}", loc, msg));
            }
        }
    }
}

fn main() {
    let ctx = Ctx::new("C01");
    heapwork::SAFETY_ONLY.store(true, Relaxed);
    let j = Judge { safety: true, ..Judge::default() };
    let hazards = [
        ("complete", Hazard::None),
        ("abandon", Hazard::Cut),
        ("error", Hazard::Err),
        ("panic", Hazard::Panic),
        ("drop", Hazard::Drop),
        ("continue", Hazard::Continue),
    ];
    for (name, hazard) in hazards {
        for path in [false, true] {
            let tag = if path { "tracked " } else { "" };
            let size = move |r: &mut Rng| {
                if cfg!(miri) {
                    *r.pick(&[(2, 5), (3, 8), (3, 12), (6, 16)])
                } else {
                    work::sizes(r)
                }
            };
            ctx.group(&format!("ser {}{}", tag, name), ctx.n(6_000, 300_000), |case| {
                let (depth, budget) = size(&mut case.rng);
                work::ser(case, &Opts { judge: j, hazard, depth, budget, path });
            });
            ctx.group(&format!("de {}{}", tag, name), ctx.n(6_000, 300_000), |case| {
                let (depth, budget) = size(&mut case.rng);
                work::de(case, &Opts { judge: j, hazard, depth, budget, path });
            });
        }
    }
    let mut b = Build(vec![]);
    tracked::visit(&mut b);
    let n = b.0.len() as u64;
    for (k, name, quick, thorough) in
        [(0, "elements", 2000, 100_000), (1, "elements ser", 400, 20_000), (2, "elements json", 400, 20_000)]
    {
        ctx.group(name, n * ctx.n(quick, thorough), |case| {
            let (name, f) = b.0[(case.idx % n) as usize];
            case.label = name.to_string();
            f[k](case)
        });
    }
    table::run(ctx, "types", &table::table::<Plain>(), ctx.n(300, 10_000));
    table::run(ctx, "documents", &table::table::<Docs>(), ctx.n(500, 20_000));
    table::run(ctx, "texts", &table::table::<Texts>(), ctx.n(100, 5_000));
    ctx.group("users", ctx.n(10_000, 500_000), users);
    ctx.group("pieces", ctx.n(100_000, 5_000_000), pieces);
    ctx.group("any document", ctx.n(50_000, 2_000_000), |case| {
        let mut r = case.rng.clone();
        let mut d = document(&mut r);
        for _ in 0..r.below(3) {
            damage(&mut r, &mut d);
        }
        text_in(case, &d);
    });
    ctx.group("threads", ctx.n(400, 20_000), threads);
    ctx.finish()
}
