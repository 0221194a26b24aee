use mon::util::*;
use mon::work::{self, *};

fn main() {
    let ctx = Ctx::new("C11");
    let judge = Judge { log: true, meta: false, ..Judge::default() };
    for (name, hazard, path, quick, thorough) in [
        ("run", Hazard::None, false, 100_000, 3_000_000),
        ("run-path", Hazard::None, true, 40_000, 1_000_000),
        ("abandon", Hazard::Cut, false, 20_000, 500_000),
        ("error", Hazard::Err, false, 30_000, 1_000_000),
        ("error-path", Hazard::Err, true, 10_000, 200_000),
        ("panic", Hazard::Panic, false, 10_000, 300_000),
    ] {
        ctx.group(name, ctx.n(quick, thorough), |case| {
            let (depth, budget) = work::sizes(&mut case.rng);
            work::ser(case, &Opts { judge, hazard, depth, budget, path });
        });
    }
    ctx.finish()
}
