//! C10: one well-formed event tree with true metadata.
use mon::drive::*;
use mon::gen::Gen;
use mon::model::*;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::work::{self, *};
use mon::zoo::Zoo;
use deser::ser::Serialize;

fn judge(case: &mut Case, v: &dyn Serialize, m: &M) {
    let want = m.trace();
    let got = ser_run(v, want.len() + 5);
    if let Some(e) = got.err {
        return case.violation(&format!("serialize fails: {}", e));
    }
    let evs: Vec<Ev> = got.trace.iter().map(|t| t.ev.clone()).collect();
    case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes())));
    case.count("events", evs.len() as u64);
    case.sample(|| show(&evs));
    let mut g = Grammar::default();
    for e in &evs {
        if let Err(m) = g.step(e) {
            return case.violation(&format!("{} in {}", m, show(&evs)));
        }
    }
    if got.runaway {
        return case.violation(&format!("events or open state after the end: {}", show(&evs)));
    }
    if !g.complete() {
        return case.violation(&format!("the stream is not complete: {}", show(&evs)));
    }
    for (i, (g, w)) in got.trace.iter().zip(&want).enumerate() {
        if g != w {
            return case.violation(&format!("event {} is {:?}, expected {:?}", i, g, w));
        }
    }
    case.check(evs.len() == want.len(), || format!("{} events, expected {}", evs.len(), want.len()));
}

struct Trace;

impl TypeCheck for Trace {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let budget = *rng.pick(&[6, 20, 60, 300]);
        let v = T::arb(&mut Gen { r: &mut rng, budget, json: false });
        judge(case, &v, &v.model());
    }
}

fn main() {
    let ctx = Ctx::new("C10");
    let t = table::table::<Trace>();
    table::run(ctx, "types", &t, ctx.n(2500, 40000));
    ctx.group("borrowed", ctx.n(20000, 300000), |case| {
        let mut r = case.rng.clone();
        mon::extra::each(&mut r, false, &mut |name, v, m| {
            case.label = name.to_string();
            judge(case, v, &m);
        });
    });
    let j = Judge { meta: true, ..Judge::default() };
    for (name, hazard, quick, thorough) in [
        ("probes", Hazard::None, 100_000, 3_000_000),
        ("abandon", Hazard::Cut, 10_000, 300_000),
        ("error", Hazard::Err, 10_000, 300_000),
    ] {
        ctx.group(name, ctx.n(quick, thorough), |case| {
            let (depth, budget) = work::sizes(&mut case.rng);
            work::ser(case, &Opts { judge: j, hazard, depth, budget, path: false });
        });
    }
    ctx.finish()
}
