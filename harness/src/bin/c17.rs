//! C17: wrappers are transparent.
use deser::de::{Deserialize, DeserializeDriver, OwnedSink, SinkHandle};
use deser::ser::{Serialize, SerializeHandle};
use deser::ErrorKind;
use deser_path::{PathSerializable, PathSink};
use mon::derived_wrap::*;
use mon::drive::*;
use mon::gen::{self, Gen};
use mon::model::*;
use mon::probe_ser::NT;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::work::{self, *};
use mon::zoo::Zoo;

// ---------------------------------------------------------------- serialization

struct Seen {
    trace: Vec<Traced>,
    err: Option<(ErrorKind, String)>,
    desc: D,
    opt: bool,
}

fn see(v: &dyn Serialize) -> Seen {
    let r = ser_run(v, 1 << 22);
    Seen {
        trace: r.trace,
        err: r.err.map(|e| (e.kind(), e.to_string())),
        desc: D::of(v.descriptor()),
        opt: v.is_optional(),
    }
}

/// The trace of `Some(value)`.
fn optional(s: &Seen) -> Seen {
    let mut t: Vec<Traced> = s.trace.clone();
    let d = D::named("optional");
    let n = t.len();
    for (i, e) in t.iter_mut().enumerate() {
        if i == 0 || i + 1 == n {
            e.d = d.clone();
        }
        // the outermost container is the option; its descriptor is visible directly below
        if e.depth == 1 {
            e.top = Some(d.clone());
        }
    }
    Seen { trace: t, err: s.err.clone(), desc: d, opt: false }
}

fn same_ser(case: &mut Case, what: &str, got: &Seen, want: &Seen) -> bool {
    case.count("wrapped serializations", 1);
    if got.err != want.err {
        case.violation(&format!("{}: error {:?}, alone {:?}", what, got.err, want.err));
        return false;
    }
    if let Some(i) = (0..got.trace.len().max(want.trace.len())).find(|&i| got.trace.get(i) != want.trace.get(i)) {
        case.violation(&format!(
            "{}: event {} is {:?}, alone {:?}",
            what,
            i,
            got.trace.get(i),
            want.trace.get(i)
        ));
        return false;
    }
    if got.desc != want.desc || got.opt != want.opt {
        case.violation(&format!(
            "{}: descriptor {:?} optional {}, alone {:?} {}",
            what, got.desc, got.opt, want.desc, want.opt
        ));
        return false;
    }
    true
}

fn ser_type<T: Zoo>(case: &mut Case, mut v: T) {
    let base = see(&v);
    let evs: Vec<Ev> = base.trace.iter().map(|t| t.ev.clone()).collect();
    case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes())));
    let mut list: Vec<(&str, Seen)> = vec![
        ("&T", see(&&v)),
        ("&&T", see(&&&v)),
        ("SerializeHandle::to", see(&*SerializeHandle::to(&v))),
        ("SerializeHandle::boxed", see(&*SerializeHandle::boxed(&v))),
        ("PathSerializable", see(&PathSerializable::wrap(&v))),
        ("PathSerializable of a handle", see(&PathSerializable::wrap_ref(SerializeHandle::boxed(&v)))),
        ("PathSerializable twice", see(&PathSerializable::wrap(&PathSerializable::wrap(&v)))),
        ("Box<&T>", see(&Box::new(&v))),
    ];
    let tuple = see(&(&v,));
    let so = see(&SO { a: 1, b: &v, c: None });
    let some_ref = see(&Some(&v));
    list.push(("&mut T", see(&&mut v)));
    let b = Box::new(v);
    list.push(("Box<T>", see(&b)));
    list.push(("Box<Box<T>>", see(&Box::new(&b))));
    let so_b = SO { a: 1, b, c: None };
    let so_seen = see(&so_b);
    let t = (so_b.b,);
    let tuple_b = see(&t);
    let n = NT(*t.0);
    list.push(("newtype", see(&n)));
    let nb = NT(Box::new(n));
    list.push(("newtype of box of newtype", see(&nb)));
    let n = *nb.0;
    let tn = (n,);
    let tuple_n = see(&tn);
    let so_n = SO { a: 1, b: tn.0, c: None };
    let so_new = see(&so_n);
    let v = so_n.b.0;
    let tv = (v,);
    let tuple_v = see(&tv);
    let so_v = SO { a: 1, b: tv.0, c: None };
    let so_plain = see(&so_v);
    let some = Some(so_v.b);
    let some_v = see(&some);
    for (name, s) in &list {
        if !same_ser(case, name, s, &base) {
            return;
        }
    }
    let o = optional(&base);
    let _ = same_ser(case, "Some(T)", &some_v, &o)
        && same_ser(case, "Some(&T)", &some_ref, &o)
        && same_ser(case, "(&T,)", &tuple, &tuple_v)
        && same_ser(case, "(Box<T>,)", &tuple_b, &tuple_v)
        && same_ser(case, "(newtype,)", &tuple_n, &tuple_v)
        && same_ser(case, "skipped &T", &so, &so_plain)
        && same_ser(case, "skipped Box<T>", &so_seen, &so_plain)
        && same_ser(case, "skipped newtype", &so_new, &so_plain);
}

// ---------------------------------------------------------------- deserialization

#[derive(Debug, PartialEq, Clone)]
struct Told {
    err: Option<(ErrorKind, String, usize)>,
    /// depth and innermost container after every event
    views: Vec<(usize, Option<D>)>,
    desc: Option<D>,
    expecting: String,
}

fn tell(sink: SinkHandle<'_>, evs: &[Ev]) -> Told {
    let desc = Some(D::of(sink.descriptor()));
    let expecting = sink.expecting().to_string();
    let mut d = DeserializeDriver::from_sink(sink);
    let mut views = vec![];
    let mut err = None;
    for (i, e) in evs.iter().enumerate() {
        if let Err(e) = d.emit(e.event()) {
            err = Some((e.kind(), e.to_string(), i));
            break;
        }
        views.push((d.state().depth(), d.state().top_descriptor().map(D::of)));
    }
    Told { err, views, desc, expecting }
}

fn into<T: Deserialize>(evs: &[Ev]) -> (Told, Option<T>) {
    let mut out = None;
    let t = tell(T::deserialize_into(&mut out), evs);
    (t, out)
}

fn same_de(case: &mut Case, what: &str, evs: &[Ev], got: &Told, want: &Told, meta: bool) -> bool {
    case.count("wrapped deserializations", 1);
    if got.err != want.err {
        case.violation(&format!("{}: {:?}, alone {:?}; events {}", what, got.err, want.err, show(evs)));
        return false;
    }
    if got.views != want.views {
        case.violation(&format!(
            "{}: the state shows {:?}, alone {:?}; events {}",
            what,
            got.views,
            want.views,
            show(evs)
        ));
        return false;
    }
    if meta && (got.desc != want.desc || got.expecting != want.expecting) {
        case.violation(&format!(
            "{}: descriptor {:?} expecting {:?}, alone {:?} {:?}",
            what, got.desc, got.expecting, want.desc, want.expecting
        ));
        return false;
    }
    true
}

fn same_val<T: Zoo>(case: &mut Case, what: &str, evs: &[Ev], got: Option<&T>, want: Option<&T>) -> bool {
    let ok = match (got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => a.eqv(b),
        _ => false,
    };
    case.check(ok, || {
        format!(
            "{} gives {:?}, alone {:?}; events {}",
            what,
            got.map(|x| show(&x.model().events())),
            want.map(|x| show(&x.model().events())),
            show(evs)
        )
    })
}

fn de_type<T: Zoo>(case: &mut Case, evs: &[Ev]) {
    case.eval(Some(fingerprint(evs) ^ hash_bytes(case.label.as_bytes()) ^ 1));
    case.sample(|| show(evs));
    let (want, v) = into::<T>(evs);
    let v = if want.err.is_some() { None } else { v };
    let w = v.as_ref();
    let done = want.err.is_none();

    let (t, x) = into::<Box<T>>(evs);
    let x = x.filter(|_| done);
    if !same_de(case, "Box<T>", evs, &t, &want, true) || !same_val(case, "Box<T>", evs, x.as_deref(), w) {
        return;
    }
    let (t, x) = into::<NT<T>>(evs);
    let x = x.filter(|_| done);
    if !same_de(case, "newtype", evs, &t, &want, true)
        || !same_val(case, "newtype", evs, x.as_ref().map(|x| &x.0), w)
    {
        return;
    }
    let (t, x) = into::<NT<Box<T>>>(evs);
    let x = x.filter(|_| done);
    if !same_de(case, "newtype of box", evs, &t, &want, true)
        || !same_val(case, "newtype of box", evs, x.as_ref().map(|x| &*x.0), w)
    {
        return;
    }
    if evs[0] != Ev::Atom(A::Null) {
        let (t, x) = into::<Option<T>>(evs);
        let x = x.filter(|_| done).flatten();
        if !same_de(case, "Option<T>", evs, &t, &want, false) || !same_val(case, "Option<T>", evs, x.as_ref(), w) {
            return;
        }
    }
    let mut out = None::<T>;
    let t = tell(SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out))), evs);
    let out = out.filter(|_| done);
    if !same_de(case, "PathSink", evs, &t, &want, true) || !same_val(case, "PathSink", evs, out.as_ref(), w) {
        return;
    }
    let mut out = None::<T>;
    let t = {
        let mut h = T::deserialize_into(&mut out);
        let mut p = PathSink::wrap(&mut *h);
        tell(SinkHandle::to(&mut p), evs)
    };
    let out = out.filter(|_| done);
    if !same_de(case, "PathSink::wrap", evs, &t, &want, true)
        || !same_val(case, "PathSink::wrap", evs, out.as_ref(), w)
    {
        return;
    }
    let mut o = OwnedSink::<T>::deserialize();
    let t = tell(SinkHandle::to(o.borrow_mut()), evs);
    let out = o.take().filter(|_| done);
    if !same_de(case, "OwnedSink", evs, &t, &want, true) || !same_val(case, "OwnedSink", evs, out.as_ref(), w) {
        return;
    }
    // one level down
    let nested: Vec<Ev> = [&[Ev::SeqStart][..], evs, &[Ev::SeqEnd]].concat();
    let (want, _) = into::<(T,)>(&nested);
    let (t, _) = into::<(Box<T>,)>(&nested);
    if !same_de(case, "(Box<T>,)", &nested, &t, &want, true) {
        return;
    }
    let (t, _) = into::<(NT<T>,)>(&nested);
    same_de(case, "(newtype,)", &nested, &t, &want, true);
}

struct Types;

impl TypeCheck for Types {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let budget = *rng.pick(&[4, 10, 40, 120]);
        if rng.chance(2, 5) {
            ser_type(case, T::arb(&mut Gen { r: &mut rng, budget, json: false }));
        } else {
            let mut tree = T::fit(&mut Gen { r: &mut rng, budget, json: false });
            match rng.below(4) {
                0 | 1 => {}
                2 => gen::mutate(&mut rng, &mut tree),
                _ => {
                    gen::mutate(&mut rng, &mut tree);
                    gen::mutate(&mut rng, &mut tree);
                }
            }
            de_type::<T>(case, &tree.events());
        }
    }
}

// ---------------------------------------------------------------- flattening

fn inner(r: &mut Rng) -> Inner2 {
    Inner2 {
        e: r.u64() as u8,
        i: Inner {
            a: r.u64() as u8,
            b: if r.bool() { Some(gen::string(r)) } else { None },
            c: (0..r.below(4)).map(|x| x as u16).collect(),
            d: (r.bool(), -3),
        },
        z: (0..r.below(3)).map(|_| gen::key(r)).collect(),
    }
}

fn flat_ser(case: &mut Case) {
    let mut r = case.rng.clone();
    let x = r.u64() as u8;
    let y = if r.bool() { Some(r.u64() as u8) } else { None };
    let i = inner(&mut r);
    let base = see(&FlSer { x, i: &i, y });
    case.eval(Some(fingerprint(&base.trace.iter().map(|t| t.ev.clone()).collect::<Vec<_>>())));
    let mut v: Vec<(&str, Seen)> = vec![
        ("flattened &&T", see(&FlSer { x, i: &&i, y })),
        ("flattened Box<&T>", see(&FlSer { x, i: Box::new(&i), y })),
        ("flattened newtype of &T", see(&FlSer { x, i: NT(&i), y })),
        ("flattened Some(&T)", see(&FlSer { x, i: Some(&i), y })),
        ("flattened Some(Box<&T>)", see(&FlSer { x, i: Some(Box::new(&i)), y })),
    ];
    v.push(("flattened path serializable", see(&PathSerializable::wrap(&FlSer { x, i: NT(Box::new(&i)), y }))));
    let p = Fl { x, i: NT(Box::new(Box::new(i))), y };
    v.push(("flattened newtype of boxes", see(&p)));
    let p: FlBox = Fl { x, i: *p.i.0, y };
    v.push(("flattened Box<T>", see(&p)));
    let p: FlPlain = Fl { x, i: *p.i, y };
    v.push(("flattened T", see(&p)));
    for (name, s) in &v {
        if !same_ser(case, name, s, &base) {
            return;
        }
    }
}

fn flat_de(case: &mut Case) {
    let mut r = case.rng.clone();
    let i = inner(&mut r);
    let p: FlPlain = Fl { x: 1, i, y: Some(2) };
    let mut m = match T::of_events(&ser_events(&p).unwrap()) {
        T::Map(m) => m,
        _ => unreachable!(),
    };
    for n in (1..m.len()).rev() {
        let j = r.idx(n + 1);
        m.swap(n, j);
    }
    if r.chance(1, 3) {
        let n = r.idx(m.len());
        m.remove(n);
    }
    if r.chance(1, 3) {
        let n = r.idx(m.len());
        let x = m[n].clone();
        m.insert(0, x);
    }
    if r.chance(1, 3) {
        let mut b = 9;
        let t = gen::tree(&mut r, 3, &mut b);
        m.insert(r.idx(m.len()), (T::A(A::Str("unknown".into())), t));
    }
    let mut t = T::Map(m);
    if r.chance(1, 3) {
        gen::mutate(&mut r, &mut t);
    }
    let evs = t.events();
    case.eval(Some(fingerprint(&evs)));
    let (want, v) = into::<FlPlain>(&evs);
    let v = v.filter(|_| want.err.is_none()).map(|v| (v.x, v.i, v.y));
    macro_rules! go {
        ($name:expr, $t:ty, $i:ident, $get:expr) => {
            let (t, x) = into::<$t>(&evs);
            if !same_de(case, $name, &evs, &t, &want, true) {
                return;
            }
            if want.err.is_none() {
                let x = x.map(|x| {
                    let $i = x.i;
                    (x.x, $get, x.y)
                });
                case.check(x == v, || format!("{} gives {:?}, alone {:?}; events {}", $name, x, v, show(&evs)));
            }
        };
    }
    go!("flattened Box", FlBox, i, *i);
    go!("flattened newtype", FlNew, i, i.0);
    go!("flattened box of newtype", FlBoxNew, i, i.0);
    go!("flattened newtype of boxes", FlNewBox, i, **i.0);
    // an option is only like its content if there is something
    let inner_keys = ["e", "a", "b", "c", "dd", "d", "z"];
    let any = matches!(&t, T::Map(m) if m.iter().any(|(k, _)| matches!(k, T::A(A::Str(s)) if inner_keys.contains(&s.as_str()))));
    if any {
        let unwrap = |x: Option<Inner2>| x;
        let v2 = v.map(|v| (v.0, Some(v.1), v.2));
        macro_rules! opt {
            ($name:expr, $t:ty, $i:ident, $get:expr) => {
                let (t, x) = into::<$t>(&evs);
                if !same_de(case, $name, &evs, &t, &want, true) {
                    return;
                }
                if want.err.is_none() {
                    let x = x.map(|x| {
                        let $i = x.i;
                        (x.x, $get, x.y)
                    });
                    case.check(x == v2, || {
                        format!("{} gives {:?}, alone {:?}; events {}", $name, x, v2, show(&evs))
                    });
                }
            };
        }
        opt!("flattened Option", FlOpt, i, unwrap(i));
        opt!("flattened Option<Box>", FlOptBox, i, unwrap(i.map(|x| *x)));
    }
    // all of it through path tracking
    let mut out = None::<FlBox>;
    let t = tell(SinkHandle::boxed(PathSink::wrap_ref(FlBox::deserialize_into(&mut out))), &evs);
    same_de(case, "path tracking of a flattened Box", &evs, &t, &want, true);
}

fn main() {
    let ctx = Ctx::new("C17");
    let t = table::table::<Types>();
    table::run(ctx, "types", &t, ctx.n(1500, 40000));
    ctx.group("flat ser", ctx.n(20000, 500000), flat_ser);
    ctx.group("flat de", ctx.n(40000, 1000000), flat_de);
    ctx.group("borrowed", ctx.n(3000, 100000), |case| {
        let mut r = case.rng.clone();
        mon::extra::each(&mut r, false, &mut |name, v, _| {
            case.label = name.to_string();
            let base = see(v);
            case.eval(Some(fingerprint(&base.trace.iter().map(|t| t.ev.clone()).collect::<Vec<_>>())));
            let h = SerializeHandle::Borrowed(v);
            let _ = same_ser(case, "PathSerializable", &see(&PathSerializable::wrap(v)), &base)
                && same_ser(case, "handle", &see(&*h), &base)
                && same_ser(case, "PathSerializable of a handle", &see(&PathSerializable::wrap_ref(h)), &base);
        });
    });
    let j = Judge { log: true, meta: true, ..Judge::default() };
    for (name, hazard, quick, thorough) in [
        ("probes", Hazard::None, 40_000, 1_500_000),
        ("error", Hazard::Err, 5_000, 200_000),
    ] {
        for path in [false, true] {
            let tag = if path { "tracked " } else { "" };
            ctx.group(&format!("ser {}{}", tag, name), ctx.n(quick, thorough), |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::ser(case, &Opts { judge: j, hazard, depth, budget, path });
            });
            ctx.group(&format!("de {}{}", tag, name), ctx.n(quick, thorough), |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::de(case, &Opts { judge: j, hazard, depth, budget, path });
            });
        }
    }
    ctx.finish()
}
