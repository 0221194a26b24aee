//! C07: the writer emits JSON that means the value.
use mon::extra;
use mon::gen::{self, Gen};
use mon::jsonwork::*;
use mon::model::{T as Tr, *};
use mon::table::{self, TypeCheck};
use mon::uservalue::plain;
use mon::util::*;
use mon::zoo::Zoo;

struct Types;

impl TypeCheck for Types {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let budget = *r.pick(&[4, 20, 60]);
        let json = r.chance(3, 4);
        let v = T::arb(&mut Gen { r: &mut r, budget, json });
        judge_writer(case, &v, &v.model().events());
    }
}

fn borrowed(case: &mut Case) {
    let mut r = case.rng.clone();
    let json = r.bool();
    extra::each(&mut r, json, &mut |name, v, m| {
        case.label = name.to_string();
        judge_writer(case, v, &m.events());
    });
}

fn user(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut budget = *r.pick(&[3, 12, 40]);
    let depth = *r.pick(&[3, 6, 30]);
    let t = if r.chance(2, 3) {
        gen::json_tree(&mut r, depth, &mut budget)
    } else {
        gen::tree(&mut r, depth, &mut budget)
    };
    let t = if r.bool() { mostly(&mut r, t) } else { t };
    judge_writer(case, &plain(&t), &t.events());
}

/// Containers in containers, with something before, after, both or neither, on each level.
fn deep(case: &mut Case) {
    let mut r = case.rng.clone();
    let leaf = |r: &mut Rng| match r.below(6) {
        0 => Tr::Seq(vec![]),
        1 => Tr::Map(vec![]),
        2 => Tr::A(A::Str(gen::key(r))),
        3 => Tr::A(A::Null),
        4 => Tr::Seq(vec![Tr::A(A::U64(1)), Tr::Seq(vec![])]),
        _ => Tr::A(A::U64(r.below(9))),
    };
    let n = match r.below(4) {
        0 => r.range(1, 20),
        1 => r.range(20, 300),
        2 => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) + r.below(2),
        _ => r.long(1200, 300),
    };
    // all the same, or each as it comes
    let fixed = if r.bool() { Some((r.below(2), r.below(4))) } else { None };
    let mut t = leaf(&mut r);
    for i in 0..n {
        let (kind, around) = fixed.unwrap_or_else(|| (r.below(2), r.below(4)));
        let mut v = vec![];
        if around & 1 == 1 {
            v.push(leaf(&mut r));
        }
        v.push(t);
        if around & 2 == 2 {
            v.push(leaf(&mut r));
        }
        t = if kind == 0 {
            Tr::Seq(v)
        } else {
            Tr::Map(
                v.into_iter()
                    .enumerate()
                    .map(|(j, x)| {
                        (if (i + j as u64) % 3 == 0 { Tr::A(A::Char('k')) } else { Tr::A(A::Str(format!("k{}", j))) }, x)
                    })
                    .collect(),
            )
        };
    }
    case.count("levels in deep values", n);
    judge_writer(case, &plain(&t), &t.events());
}

/// Turns some strings and keys into chars.
fn mostly(r: &mut Rng, t: Tr) -> Tr {
    match t {
        Tr::A(A::Str(_)) if r.chance(1, 3) => Tr::A(A::Char(gen::ch(r))),
        Tr::A(A::F64(_)) => Tr::A(A::F64(gen::float(r))),
        Tr::A(a) => Tr::A(a),
        Tr::Seq(v) => Tr::Seq(v.into_iter().map(|x| mostly(r, x)).collect()),
        Tr::Map(v) => Tr::Map(v.into_iter().map(|(a, b)| (mostly(r, a), mostly(r, b))).collect()),
    }
}

/// Every kind of key and value once, alone and among others.
fn kinds(case: &mut Case) {
    let atoms = [
        A::Null,
        A::Bool(true),
        A::Bool(false),
        A::Str("s".into()),
        A::Str(String::new()),
        A::Bytes(vec![]),
        A::Bytes(vec![1]),
        A::Char('c'),
        A::Char('"'),
        A::U64(1),
        A::I64(-1),
        A::F64(0.5),
        A::F64(f64::NAN),
    ];
    let mut some: Vec<Tr> = atoms.iter().cloned().map(Tr::A).collect();
    some.push(Tr::Seq(vec![]));
    some.push(Tr::Map(vec![]));
    let s = |x: &str| Tr::A(A::Str(x.into()));
    for k in &some {
        for v in &some {
            for t in [
                Tr::Map(vec![(k.clone(), v.clone())]),
                Tr::Map(vec![(s("a"), v.clone()), (k.clone(), s("b"))]),
                Tr::Map(vec![(s("a"), Tr::Map(vec![(k.clone(), v.clone())])), (s("c"), k.clone())]),
                Tr::Seq(vec![k.clone(), v.clone()]),
                Tr::Seq(vec![Tr::Seq(vec![k.clone()]), v.clone(), Tr::Map(vec![(s(""), v.clone())]), k.clone()]),
            ] {
                judge_writer(case, &plain(&t), &t.events());
            }
        }
    }
}

fn characters(case: &mut Case) {
    let base = case.idx as u32 * 0x400;
    let cs: Vec<char> = (base..base + 0x400).filter_map(char::from_u32).collect();
    if cs.is_empty() {
        return;
    }
    case.count("characters", cs.len() as u64);
    let chars = Tr::Seq(cs.iter().map(|c| Tr::A(A::Char(*c))).collect());
    let strs = Tr::Seq(cs.iter().map(|c| Tr::A(A::Str(format!("a{}b{}", c, c)))).collect());
    let keys = Tr::Map(
        cs.iter()
            .enumerate()
            .map(|(i, c)| (if i % 2 == 0 { Tr::A(A::Char(*c)) } else { Tr::A(A::Str(c.to_string())) }, Tr::A(A::Null)))
            .collect(),
    );
    let one = Tr::A(A::Str(cs.iter().collect()));
    for t in [chars, strs, keys, one] {
        judge_writer(case, &plain(&t), &t.events());
    }
}

fn numbers(case: &mut Case) {
    let mut r = case.rng.clone();
    let v: Vec<Tr> = (0..40)
        .map(|_| {
            Tr::A(match r.below(8) {
                0 => A::U64(gen::int_u64(&mut r)),
                1 => A::I64(gen::int_i64(&mut r)),
                2 => A::F64(gen::float(&mut r)),
                3 => A::F64(f64::from_bits(r.u64() >> r.below(63))),
                4 => A::F64(10f64.powi(r.below(700) as i32 - 350) * (r.below(100) as f64)),
                5 => A::F64((r.u64() >> r.below(64)) as f64),
                6 => A::F64(f32::from_bits(r.u64() as u32) as f64),
                _ => A::F64(f64::from_bits(r.u64())),
            })
        })
        .collect();
    for x in &v {
        judge_writer(case, &plain(x), &x.events());
    }
    let t = Tr::Seq(v);
    judge_writer(case, &plain(&t), &t.events());
    let (a, b, c, d) = (r.u64(), r.u64() as i64, f64::from_bits(r.u64()), f32::from_bits(r.u64() as u32));
    judge_writer(case, &a, &a.model().events());
    judge_writer(case, &b, &b.model().events());
    judge_writer(case, &c, &c.model().events());
    judge_writer(case, &d, &d.model().events());
}

fn integers(case: &mut Case) {
    for d in 0..5u64 {
        let x = (1u64 << (case.idx % 64)).wrapping_add(d).wrapping_sub(2);
        for t in [Tr::A(A::U64(x)), Tr::A(A::I64(x as i64)), Tr::A(A::I64((x as i64).wrapping_neg()))] {
            judge_writer(case, &plain(&t), &t.events());
        }
        judge_writer(case, &x, &[Ev::Atom(A::U64(x))]);
        judge_writer(case, &(x as i64), &[Ev::Atom(A::I64(x as i64))]);
        judge_writer(case, &(x as u32), &[Ev::Atom(A::U64(x as u32 as u64))]);
        judge_writer(case, &(x as i8), &[Ev::Atom(A::I64(x as i8 as i64))]);
    }
    let p = 10u64.pow(case.idx as u32 % 20);
    for x in [p - 1, p, p + 1] {
        judge_writer(case, &x, &[Ev::Atom(A::U64(x))]);
    }
}

fn main() {
    let ctx = Ctx::new("C07");
    ctx.group("kinds", 1, kinds);
    ctx.group("integers", 64, integers);
    ctx.group("characters", 0x110000 / 0x400, characters);
    ctx.group("numbers", ctx.n(6000, 400_000), numbers);
    ctx.group("deep", ctx.n(1500, 60_000), deep);
    ctx.group("borrowed", ctx.n(4000, 200_000), borrowed);
    let t = table::table::<Types>();
    table::run(ctx, "types", &t, ctx.n(2500, 80_000));
    ctx.group("user", ctx.n(150_000, 8_000_000), user);
    ctx.finish()
}
