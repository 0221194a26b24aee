//! C02: everything is dropped exactly once and the heap is back to its size.
use mon::heapwork::*;
use mon::table;
use mon::tracked;
use mon::util::*;
use mon::work::{self, *};

fn main() {
    let ctx = Ctx::new("C02");
    let mut b = Build(vec![]);
    tracked::visit(&mut b);
    let n = b.0.len() as u64;
    ctx.count("tracked element types", n);
    for (k, name, quick, thorough) in
        [(0, "elements", 8000, 300_000), (1, "elements ser", 1500, 50_000), (2, "elements json", 1500, 50_000)]
    {
        ctx.group(name, n * ctx.n(quick, thorough), |case| {
            let (name, f) = b.0[(case.idx % n) as usize];
            case.label = name.to_string();
            f[k](case)
        });
    }
    let t = table::table::<Plain>();
    table::run(ctx, "types", &t, ctx.n(1500, 40000));
    let j = Judge { memory: true, ..Judge::default() };
    for (name, hazard, quick, thorough) in [
        ("complete", Hazard::None, 15_000, 500_000),
        ("abandon", Hazard::Cut, 25_000, 1_000_000),
        ("error", Hazard::Err, 25_000, 1_000_000),
        ("panic", Hazard::Panic, 25_000, 1_000_000),
        ("continue", Hazard::Continue, 25_000, 1_000_000),
    ] {
        for path in [false, true] {
            let tag = if path { "tracked " } else { "" };
            ctx.group(&format!("ser {}{}", tag, name), ctx.n(quick, thorough) / 2, |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::ser(case, &Opts { judge: j, hazard, depth, budget, path });
            });
            ctx.group(&format!("de {}{}", tag, name), ctx.n(quick, thorough) / 2, |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::de(case, &Opts { judge: j, hazard, depth, budget, path });
            });
        }
    }
    ctx.finish()
}
