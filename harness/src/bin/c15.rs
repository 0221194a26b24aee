//! C15: derived serialization follows its declaration.
use deser::Serialize;
use mon::drive::*;
use mon::gen::Gen;
use mon::model::*;
use mon::skip;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::Zoo;
use std::borrow::Cow;

#[cfg(feature = "gen")]
#[path = "../../gen_run.rs"]
mod gen_run;

fn judge(case: &mut Case, v: &dyn Serialize, m: &M) {
    let want = m.trace();
    skip::take_hits();
    let got = ser_run(v, want.len() + 5);
    let hits = skip::take_hits();
    let evs: Vec<Ev> = got.trace.iter().map(|t| t.ev.clone()).collect();
    case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes())));
    case.count("events", evs.len() as u64);
    if let Some(e) = got.err {
        return case.violation(&format!("serialize fails after {}: {}", show(&evs), e));
    }
    if got.runaway {
        return case.violation(&format!("events or open state after the end: {}", show(&evs)));
    }
    for (i, (g, w)) in got.trace.iter().zip(&want).enumerate() {
        if g != w {
            return case.violation(&format!("event {} of {} is {:?}, expected {:?}", i, show(&evs), g, w));
        }
    }
    case.check(evs.len() == want.len(), || {
        format!("{} ends early, expected {}", show(&evs), show(&m.events()))
    });
    case.check(D::of(v.descriptor()) == m.d, || format!("descriptor {:?}, expected {:?}", D::of(v.descriptor()), m.d));
    case.check(hits.iter().all(|x| *x == 0), || format!("defaults are computed to serialize {}", show(&evs)));
    if evs.len() > 3 {
        case.sample(|| show(&evs));
    }
}

struct Trace;

impl TypeCheck for Trace {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let budget = *rng.pick(&[6, 20, 60, 300]);
        let v = T::arb(&mut Gen { r: &mut rng, budget, json: false });
        let m = v.model();
        judge(case, &v, &m);
        case.check(v.is_optional() == v.is_opt(), || format!("is_optional of {}", show(&m.events())));
        if rng.chance(1, 8) {
            // the same value several times over, interleaved
            let mut a = deser::ser::SerializeDriver::new(&v);
            let mut b = deser::ser::SerializeDriver::new(&v);
            let (mut ea, mut eb) = (vec![], vec![]);
            let want = m.events();
            let (mut da, mut db) = (false, false);
            while !(da && db) && ea.len() + eb.len() < 3 * want.len() + 10 {
                let (d, e, end) = if rng.bool() { (&mut a, &mut ea, &mut da) } else { (&mut b, &mut eb, &mut db) };
                match d.next() {
                    Ok(Some((ev, _, _))) => e.push(Ev::of(&ev)),
                    _ => *end = true,
                }
            }
            case.count("interleaved pairs", 1);
            case.check(ea == want && eb == want, || {
                format!("interleaved: {} and {}, expected {}", show(&ea), show(&eb), show(&want))
            });
        }
    }
}

// ------------------------------------------------ declarations that only serialize

#[derive(Serialize)]
#[deser(rename_all = "camelCase", skip_serializing_optionals)]
struct Borrowing<'a, T> {
    first_part: &'a str,
    the_rest: Option<&'a T>,
    all_of_it: &'a [T],
    #[deser(flatten)]
    more_of_it: &'a Inner<'a>,
    #[deser(skip_serializing_if = "Option::is_none", rename = "")]
    last: &'a Option<bool>,
}

#[derive(Serialize)]
#[deser(rename = "I")]
struct Inner<'b> {
    cow: Cow<'b, str>,
    #[deser(flatten)]
    deep: Box<Deep>,
    zero: (),
}

#[derive(Serialize)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
struct Deep {
    a_b: Option<u8>,
    #[deser(alias = "A-B", default)]
    c_d: Vec<u8>,
}

#[derive(Serialize)]
#[deser(rename = "not seen")]
struct Wrap<'a, T>(&'a T);

#[derive(Serialize)]
struct Many<const LEN: usize, T>
where
    T: Clone,
{
    data: [T; LEN],
    #[deser(flatten)]
    one: Wrap<'static, Deep>,
}

fn atom(a: A, d: D) -> M {
    M::atom(a, d)
}

fn entry(k: &str, v: M) -> (M, M) {
    (atom(A::Str(k.into()), D::named("str")), v)
}

fn deep_fields(d: &Deep, skip: bool) -> Vec<(M, M)> {
    let mut v = vec![];
    if !(skip && d.a_b.is_none()) {
        v.push(entry("A-B", d.a_b.model()));
    }
    v.push(entry("C-D", d.c_d.model()));
    v
}

fn borrowed(case: &mut Case) {
    let mut rng = case.rng.clone();
    let mut g = Gen::new(&mut rng, 40);
    let deep = Deep { a_b: Zoo::arb(&mut g), c_d: Zoo::arb(&mut g) };
    static DEEP: Deep = Deep { a_b: None, c_d: Vec::new() };
    let deep2 = &DEEP;
    let (s, t): (String, String) = (Zoo::arb(&mut g), Zoo::arb(&mut g));
    let all: Vec<i32> = Zoo::arb(&mut g);
    let last: Option<bool> = Zoo::arb(&mut g);
    let inner = Inner { cow: if g.r.bool() { Cow::Borrowed(&s) } else { Cow::Owned(s.clone()) }, deep: Box::new(deep), zero: () };
    let b = Borrowing { first_part: &t, the_rest: all.first(), all_of_it: &all, more_of_it: &inner, last: &last };
    let str_m = |s: &str| atom(A::Str(s.into()), D::named("str"));
    let mut f = vec![entry("firstPart", str_m(&t))];
    if let Some(x) = all.first() {
        // an option shows the descriptor of options
        let mut m = Some(*x).model();
        m.k = x.model().k;
        f.push(entry("theRest", m));
    }
    f.push(entry(
        "allOfIt",
        M { k: MK::Seq(all.iter().map(|x| x.model()).collect()), d: D::named("slice") },
    ));
    f.push(entry("cow", str_m(&s)));
    f.extend(deep_fields(&inner.deep, true));
    if last.is_some() {
        f.push(entry("", last.model()));
    }
    judge(case, &b, &M { k: MK::Map(f.clone()), d: D::named("Borrowing") });
    judge(case, &Wrap(&b), &M { k: MK::Map(f), d: D::named("Borrowing") });
    let many = Many::<3, u16> { data: Zoo::arb(&mut g), one: Wrap(deep2) };
    let mut f = vec![entry("data", many.data.model())];
    f.extend(deep_fields(deep2, false));
    judge(case, &many, &M { k: MK::Map(f), d: D::named("Many") });
}

fn build<C: TypeCheck>() -> table::Table {
    let mut b = table::Build::<C>::default();
    mon::derived_zoo::visit(&mut b);
    #[cfg(feature = "gen")]
    gen_run::visit(&mut b);
    b.0
}

fn main() {
    let ctx = Ctx::new("C15");
    ctx.group("borrowed", ctx.n(20000, 500000), borrowed);
    table::run(ctx, "types", &build::<Trace>(), ctx.n(8000, 40000));
    ctx.finish()
}
