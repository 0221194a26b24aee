//! C04: JSON text of a value gives the value back.
use mon::gen::Gen;
use mon::json;
use mon::jsonwork::guarded;
use mon::model::*;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::{self, Zoo};

fn judge<T: Zoo>(case: &mut Case, v: &T) {
    let evs = v.model().events();
    case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes())));
    let text = match deser_json::to_string(v) {
        Ok(t) => t,
        Err(e) => {
            // not for JSON; that this is right is another property
            case.count("values that are not for JSON", 1);
            let _ = e;
            return;
        }
    };
    case.count("round trips", 1);
    case.count("bytes", text.len() as u64);
    case.sample(|| text.clone());
    match guarded(text.as_bytes(), json::read::<T>) {
        Ok(x) => {
            case.check(v.same(&x), || format!("{} of {} is read as {}", text, show(&evs), show(&x.model().events())));
        }
        Err(e) => case.violation(&format!("{} of {} is refused: {}", text, show(&evs), e)),
    }
}

struct Types;

impl TypeCheck for Types {
    fn wants<T: Zoo>() -> bool {
        T::RT
    }
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let budget = *r.pick(&[4, 12, 40, 120]);
        let v = T::arb(&mut Gen { r: &mut r, budget, json: true });
        judge(case, &v);
    }
}

/// Dense values of the primitive types.
struct Prims;

impl TypeCheck for Prims {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        for _ in 0..30 {
            let v = T::arb(&mut Gen { r: &mut r, budget: 30, json: true });
            judge(case, &v);
        }
    }
}

/// Finite floats come back bit by bit, up to the sign of zero.
fn floats(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut v: Vec<f64> = vec![];
    while v.len() < 60 {
        let f = match r.below(6) {
            0 => f64::from_bits(r.u64()),
            1 => f64::from_bits(r.u64() >> r.below(60)),
            2 => f64::from_bits((r.below(2048) << 52).wrapping_add(r.below(8)).wrapping_sub(4)),
            3 => (r.u64() >> r.below(64)) as f64,
            4 => 10f64.powi(r.below(640) as i32 - 325) * r.below(1000) as f64,
            _ => mon::gen::finite(&mut r),
        };
        if f.is_finite() {
            v.push(f);
        }
    }
    for f in &v {
        judge(case, f);
        let s = *f as f32;
        if s.is_finite() {
            judge(case, &s);
        }
    }
    judge(case, &v);
}

fn integers(case: &mut Case) {
    let base = 1u64.checked_shl(case.idx as u32).unwrap_or(0);
    for d in 0..200u64 {
        let x = base.wrapping_add(d).wrapping_sub(100);
        judge(case, &x);
        judge(case, &(x as i64));
        judge(case, &(x as i64).wrapping_neg());
        judge(case, &(x as u32));
        judge(case, &(x as i32));
        judge(case, &(x as u16));
        judge(case, &(x as i16));
        judge(case, &(x as u8));
        judge(case, &(x as i8));
        judge(case, &(x as usize));
        judge(case, &(x as isize));
    }
}

fn characters(case: &mut Case) {
    let base = case.idx as u32 * 0x400;
    let cs: Vec<char> = (base..base + 0x400).filter_map(char::from_u32).collect();
    case.count("characters", cs.len() as u64);
    judge(case, &cs);
    judge(case, &cs.iter().collect::<String>());
    judge(case, &cs.iter().map(|c| format!("{0}x{0}", c)).collect::<Vec<_>>());
    let m: std::collections::BTreeMap<char, char> = cs.iter().map(|c| (*c, *c)).collect();
    judge(case, &m);
    let m: std::collections::BTreeMap<String, ()> = cs.iter().map(|c| (format!("\\{}\"", c), ())).collect();
    judge(case, &m);
}

fn main() {
    let ctx = Ctx::new("C04");
    ctx.group("integers", 66, integers);
    ctx.group("characters", 0x110000 / 0x400, characters);
    ctx.group("floats", ctx.n(6000, 500_000), floats);
    let mut b = table::Build::<Prims>::default();
    zoo::visit_prims(&mut b);
    table::run(ctx, "primitives", &b.0, ctx.n(500, 40_000));
    let t = table::table::<Types>();
    table::run(ctx, "types", &t, ctx.n(6000, 200_000));
    ctx.finish()
}
