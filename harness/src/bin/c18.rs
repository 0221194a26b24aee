//! C18: debug output shows the value.
use deser::ser::Serialize;
use deser_debug::ToDebug;
use mon::extra;
use mon::gen::{self, Gen};
use mon::model::*;
use mon::uservalue::value;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::Zoo;
use std::fmt::{self, Write};

// ---------------------------------------------------------------- reference

fn atom(a: &A) -> String {
    match a {
        A::Null => "()".into(),
        A::Bool(x) => format!("{:?}", x),
        A::Str(x) => format!("{:?}", x),
        A::Char(x) => format!("{:?}", x),
        A::U64(x) => x.to_string(),
        A::I64(x) => x.to_string(),
        A::F64(x) => format!("{:?}", x),
        A::Bytes(b) => {
            let mut s = String::from("b\"");
            for &x in b {
                match x {
                    b'\n' => s += "\\n",
                    b'\r' => s += "\\r",
                    b'\t' => s += "\\t",
                    b'\\' => s += "\\\\",
                    b'"' => s += "\\\"",
                    0 => s += "\\0",
                    32..=126 => s.push(x as char),
                    _ => {
                        s += "\\x";
                        s.push(char::from_digit(x as u32 / 16, 16).unwrap());
                        s.push(char::from_digit(x as u32 % 16, 16).unwrap());
                    }
                }
            }
            s + "\""
        }
    }
}

/// Appends the rendering; `indent` is the number of levels around it, if pretty.
fn render(m: &M, indent: Option<usize>, o: &mut String) {
    let (open, close, n) = match &m.k {
        MK::Atom(a) => {
            *o += &atom(a);
            return;
        }
        MK::Map(v) => ('{', '}', v.len()),
        MK::Seq(v) => ('[', ']', v.len()),
    };
    if let Some(name) = &m.d.name {
        if open == '{' || (name != "Vec" && name != "slice") {
            *o += name;
            o.push(' ');
        }
    }
    o.push(open);
    let inner = indent.map(|x| x + 1);
    for i in 0..n {
        match inner {
            Some(k) => {
                o.push('\n');
                for _ in 0..k {
                    *o += "    ";
                }
            }
            None if i > 0 => *o += ", ",
            None => {}
        }
        match &m.k {
            MK::Map(v) => {
                render(&v[i].0, inner, o);
                *o += ": ";
                render(&v[i].1, inner, o);
            }
            MK::Seq(v) => render(&v[i], inner, o),
            MK::Atom(_) => unreachable!(),
        }
        if inner.is_some() {
            o.push(',');
        }
    }
    if let (Some(k), true) = (indent, n > 0) {
        o.push('\n');
        for _ in 0..k {
            *o += "    ";
        }
    }
    o.push(close);
}

/// The same by the builders of the standard library, for the flags of numbers.
struct Ref<'a>(&'a M);

impl fmt::Debug for Ref<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let name = self.0.d.name.as_deref();
        match &self.0.k {
            MK::Atom(A::U64(x)) => fmt::Debug::fmt(x, f),
            MK::Atom(A::I64(x)) => fmt::Debug::fmt(x, f),
            MK::Atom(A::F64(x)) => fmt::Debug::fmt(x, f),
            MK::Atom(a) => f.write_str(&atom(a)),
            MK::Map(v) => {
                if let Some(name) = name {
                    write!(f, "{} ", name)?;
                }
                f.debug_map().entries(v.iter().map(|(a, b)| (Ref(a), Ref(b)))).finish()
            }
            MK::Seq(v) => {
                if let Some(name) = name.filter(|x| *x != "Vec" && *x != "slice") {
                    write!(f, "{} ", name)?;
                }
                f.debug_list().entries(v.iter().map(Ref)).finish()
            }
        }
    }
}

/// What flags do to anything but numbers is open.
fn flaggable(m: &M) -> bool {
    match &m.k {
        MK::Atom(a) => !matches!(a, A::Bool(_) | A::Null),
        MK::Map(v) => v.iter().all(|(a, b)| flaggable(a) && flaggable(b)),
        MK::Seq(v) => v.iter().all(flaggable),
    }
}

fn flags(case: &mut Case, td: &ToDebug, m: &M) {
    if !flaggable(m) {
        return;
    }
    let w = Ref(m);
    macro_rules! compare {
        ($($f:literal)*) => {$(
            let (got, want) = (format!($f, td), format!($f, w));
            if got != want {
                return case.violation(&format!("{} gives {}, expected {}", $f, got, want));
            }
        )*};
    }
    case.count("texts with flags", 8);
    compare!("{:?}" "{:#?}" "{:.2?}" "{:#.0?}" "{:+?}" "{:+#.7?}" "{:x?}" "{:#X?}");
}

// ---------------------------------------------------------------- writers

#[derive(Clone, Copy, Debug)]
enum Fail {
    /// no room after so many bytes
    Bytes(usize),
    /// the n-th write fails, and all later ones
    Call(usize),
    /// only the n-th write fails
    Once(usize),
}

struct Writer {
    text: String,
    calls: usize,
    failed: bool,
    fail: Option<Fail>,
}

impl Write for Writer {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        let bad = match self.fail {
            None => false,
            Some(Fail::Bytes(n)) => self.text.len() + s.len() > n,
            Some(Fail::Call(n)) => self.calls > n,
            Some(Fail::Once(n)) => self.calls == n + 1,
        };
        if bad {
            self.failed = true;
            return Err(fmt::Error);
        }
        if !self.failed {
            self.text.push_str(s);
        }
        Ok(())
    }
}

fn write(td: &ToDebug, form: usize, fail: Option<Fail>) -> (Writer, fmt::Result) {
    let mut w = Writer { text: String::new(), calls: 0, failed: false, fail };
    let rv = match form {
        0 => write!(w, "{:?}", td),
        1 => write!(w, "{:#?}", td),
        2 => write!(w, "{}", td),
        _ => write!(w, "{:#}", td),
    };
    (w, rv)
}

fn judge(case: &mut Case, v: &dyn Serialize, m: &M, r: &mut Rng) {
    let td = ToDebug::new(v);
    let mut want = [String::new(), String::new()];
    render(m, None, &mut want[0]);
    render(m, Some(0), &mut want[1]);
    case.count("texts", 4);
    case.count("bytes of text", (want[0].len() + want[1].len()) as u64);
    case.eval(Some(hash_bytes(want[0].as_bytes())));
    case.sample(|| want[0].clone());
    flags(case, &td, m);
    for form in 0..4 {
        let want = &want[form % 2];
        let (w, rv) = write(&td, form, None);
        if rv.is_err() || w.text != *want {
            return case.violation(&format!("form {} is {:?} {}, expected {}", form, rv, w.text, want));
        }
        let again = match form {
            0 => format!("{:?}", td),
            1 => format!("{:#?}", td),
            2 => td.to_string(),
            _ => format!("{:#}", td),
        };
        if again != *want {
            return case.violation(&format!("formatting again gives {}, expected {}", again, want));
        }
        let calls = w.calls;
        let mut fails = vec![];
        if calls <= 25 {
            fails.extend((0..calls).map(Fail::Call));
            fails.extend((0..calls).map(Fail::Once));
        }
        for _ in 0..6 {
            fails.push(Fail::Bytes(r.idx(want.len())));
            fails.push(Fail::Call(r.idx(calls)));
            fails.push(Fail::Once(r.idx(calls)));
        }
        for f in fails {
            let (w, rv) = write(&td, form, Some(f));
            case.count("failing writers", 1);
            if rv.is_ok() {
                return case.violation(&format!("form {} succeeds although the writer failed ({:?}): {}", form, f, want));
            }
            if !w.failed {
                return case.violation(&format!("form {} fails although the writer did not ({:?}): {}", form, f, want));
            }
            if !want.starts_with(&w.text) {
                return case.violation(&format!("form {} wrote {} before the failure, expected {}", form, w.text, want));
            }
        }
        let (w, rv) = write(&td, form, None);
        if rv.is_err() || w.text != *want {
            return case.violation(&format!("after failures: {:?} {}, expected {}", rv, w.text, want));
        }
    }
}

// ---------------------------------------------------------------- values

struct Types;

impl TypeCheck for Types {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let budget = *r.pick(&[6, 20, 60]);
        let v = T::arb(&mut Gen { r: &mut r, budget, json: false });
        let m = v.model();
        judge(case, &v, &m, &mut r);
    }
}

fn named(r: &mut Rng, t: &T) -> M {
    let name = match r.below(10) {
        0 | 1 => None,
        2 => Some("Vec"),
        3 => Some("slice"),
        4 => Some("Vector"),
        5 => Some("vec"),
        6 => Some("Ünï {x}"),
        _ => Some("Name"),
    };
    let d = D { name: name.map(|x| x.to_string()), precision: None, unordered: r.bool() };
    let k = match t {
        T::A(a) => MK::Atom(a.clone()),
        T::Seq(v) => MK::Seq(v.iter().map(|x| named(r, x)).collect()),
        T::Map(v) => MK::Map(
            v.iter()
                .map(|(a, b)| {
                    let a = named(r, a);
                    (a, named(r, b))
                })
                .collect(),
        ),
    };
    M { k, d }
}

fn users(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut budget = *r.pick(&[3, 10, 30, 90]);
    let depth = *r.pick(&[3, 6, 40]);
    let t = gen::tree(&mut r, depth, &mut budget);
    let m = named(&mut r, &t);
    judge(case, &value(&m), &m, &mut r);
}

fn borrowed(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut s = Rng::new(r.u64());
    extra::each(&mut r, false, &mut |name, v, m| {
        case.label = name.to_string();
        judge(case, v, &m, &mut s);
    });
}

/// Every byte, every char class, long chains and wide containers.
fn fixed(case: &mut Case) {
    let mut r = case.rng.clone();
    let all: Vec<u8> = (0..=255).collect();
    let mut ms = vec![M::atom(A::Bytes(all.clone()), D::named("bytes"))];
    for x in all {
        ms.push(M::atom(A::Bytes(vec![x]), D::default()));
        ms.push(M::atom(A::Bytes(vec![b'1', x, b'2']), D::default()));
    }
    for c in gen::CHARS {
        ms.push(M::atom(A::Char(*c), D::default()));
        ms.push(M::atom(A::Str(c.to_string()), D::default()));
    }
    let mut deep = M::atom(A::U64(7), D::default());
    for i in 0..120 {
        deep = M {
            d: D::named(if i % 3 == 0 { "Vec" } else { "X" }),
            k: match i % 4 {
                0 | 1 => MK::Seq(vec![deep]),
                2 => MK::Map(vec![(M::atom(A::Null, D::default()), deep)]),
                _ => MK::Map(vec![(deep, M::atom(A::Null, D::default()))]),
            },
        };
    }
    ms.push(deep);
    ms.push(M { k: MK::Seq((0..3000).map(|i| M::atom(A::I64(-i), D::default())).collect()), d: D::default() });
    for m in ms {
        judge(case, &value(&m), &m, &mut r);
    }
}

fn threads(case: &mut Case) {
    let mut r = case.rng.clone();
    let t = gen::tree(&mut r, 4, &mut 30);
    let m = named(&mut r, &t);
    let td = ToDebug::new(&value(&m));
    let mut want = String::new();
    render(&m, Some(0), &mut want);
    let (td, want) = (&td, &want);
    let same = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4).map(|_| s.spawn(move || (0..20).all(|_| format!("{:#?}", td) == *want))).collect();
        hs.into_iter().all(|h| h.join().unwrap())
    });
    case.eval(Some(hash_bytes(want.as_bytes())));
    case.check(same, || format!("formatting on several threads differs: {}", want));
}

fn main() {
    let ctx = Ctx::new("C18");
    ctx.group("fixed", 1, fixed);
    let t = table::table::<Types>();
    table::run(ctx, "types", &t, ctx.n(500, 15000));
    ctx.group("borrowed", ctx.n(2000, 100_000), borrowed);
    ctx.group("users", ctx.n(60_000, 3_000_000), users);
    ctx.group("threads", ctx.n(300, 10_000), threads);
    ctx.finish()
}
