//! C16: the tracked path is the location.
use deser::de::{DeserializeDriver, SinkHandle};
use deser::ser::SerializeDriver;
use deser::Deserialize;
use deser_path::{Path, PathSerializable, PathSink};
use mon::gen::{self, Gen};
use mon::model::*;
use mon::probe::{segs, Seg};
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::work::{self, *};
use mon::zoo::Zoo;

/// One segment; None if it is not specified.
type Loc = Vec<Option<Seg>>;

struct Frame {
    map: bool,
    index: u64,
    key: bool,
    seg: Option<Seg>,
    /// this container is (inside of) a key
    in_key: bool,
}

/// Follows a stream; gives the location of every event and the location after it.
#[derive(Default)]
struct Walk {
    stack: Vec<Frame>,
    path: Loc,
}

impl Walk {
    /// (location of the value the event belongs to, is it specified)
    fn step(&mut self, e: &Ev) -> (Loc, bool) {
        match e {
            Ev::MapEnd | Ev::SeqEnd => {
                let loc = self.path.clone();
                let f = self.stack.pop().unwrap();
                let inside = f.in_key;
                self.done(inside, None);
                return (loc, !inside);
            }
            _ => {}
        }
        // a value begins
        let mut in_key = false;
        let mut is_key = false;
        if let Some(f) = self.stack.last_mut() {
            in_key = f.in_key;
            if f.map && f.key {
                is_key = true;
            } else if f.map {
                let s = f.seg.clone();
                self.path.push(s);
            } else {
                self.path.push(Some(Seg::I(f.index)));
                f.index += 1;
            }
        }
        let loc = self.path.clone();
        let spec = !in_key && !(is_key && !matches!(e, Ev::Atom(_)));
        match e {
            Ev::Atom(a) => {
                let seg = match a {
                    A::Str(s) => Some(Seg::K(s.clone())),
                    A::U64(x) => Some(Seg::I(*x)),
                    A::I64(x) if *x < 0 => Some(Seg::U),
                    A::Bool(_) => Some(Seg::U),
                    _ => None,
                };
                self.done(false, if is_key { Some(seg) } else { None });
            }
            _ => self.stack.push(Frame {
                map: matches!(e, Ev::MapStart),
                index: 0,
                key: true,
                seg: None,
                in_key: in_key || is_key,
            }),
        }
        (loc, spec)
    }

    fn done(&mut self, _inside: bool, atom_key: Option<Option<Seg>>) {
        if let Some(f) = self.stack.last_mut() {
            if f.map && f.key {
                f.seg = match atom_key {
                    Some(s) => s,
                    None => Some(Seg::U),
                };
                f.key = false;
            } else {
                if f.map {
                    f.key = true;
                }
                self.path.pop();
            }
        }
    }

    fn specified(&self) -> bool {
        self.stack.last().map_or(true, |f| !f.in_key)
    }
}

fn fits(got: &[Seg], want: &Loc) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| w.as_ref().map_or(true, |w| w == g))
}

fn ser_path(case: &mut Case, v: &dyn deser::Serialize, evs: &[Ev]) {
    let p = PathSerializable::wrap(v);
    let mut d = SerializeDriver::new(&p);
    let mut w = Walk::default();
    for (i, e) in evs.iter().enumerate() {
        let (ev, path) = match d.next() {
            Ok(Some((ev, _, st))) => (Ev::of(&ev), segs(&st.get::<Path>())),
            Ok(None) => return case.violation(&format!("the stream ends before event {}", i)),
            Err(e) => return case.violation(&format!("fails: {}", e)),
        };
        if ev != *e {
            return case.violation(&format!("event {} is {:?}, expected {:?}", i, ev, e));
        }
        let (loc, spec) = w.step(e);
        if spec {
            case.count("locations compared", 1);
            if !fits(&path, &loc) {
                return case.violation(&format!(
                    "serializing: path {:?} at event {} of {}, expected {:?}",
                    path,
                    i,
                    show(evs),
                    loc
                ));
            }
        }
    }
    if !matches!(d.next(), Ok(None)) {
        return case.violation("events after the end");
    }
    let path = segs(&d.state().get::<Path>());
    case.check(path.is_empty(), || format!("the path is {:?} after {}", path, show(evs)));
}

fn de_path(case: &mut Case, sink: SinkHandle<'_>, evs: &[Ev]) {
    let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(sink)));
    let mut w = Walk::default();
    for (i, e) in evs.iter().enumerate() {
        if d.emit(e.event()).is_err() {
            return;
        }
        w.step(e);
        if w.specified() {
            case.count("locations compared", 1);
            let path = segs(&d.state().get::<Path>());
            if !fits(&path, &w.path) {
                return case.violation(&format!(
                    "deserializing: path {:?} after event {} of {}, expected {:?}",
                    path,
                    i,
                    show(evs),
                    w.path
                ));
            }
        }
    }
    let path = segs(&d.state().get::<Path>());
    case.check(path.is_empty(), || format!("the path is {:?} after {}", path, show(evs)));
}

struct Types;

impl TypeCheck for Types {
    fn run<T: Zoo>(case: &mut Case) {
        let mut rng = case.rng.clone();
        let budget = *rng.pick(&[6, 20, 60, 200]);
        let v = T::arb(&mut Gen { r: &mut rng, budget, json: false });
        let evs = v.model().events();
        case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes())));
        ser_path(case, &v, &evs);
        let mut tree = T::fit(&mut Gen { r: &mut rng, budget, json: false });
        if rng.chance(1, 4) {
            gen::mutate(&mut rng, &mut tree);
        }
        let evs = tree.events();
        case.sample(|| show(&evs));
        case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes()) ^ 5));
        let mut out = None;
        de_path(case, T::deserialize_into(&mut out), &evs);
    }
}

/// Long and deep shapes built by hand.
fn shape(case: &mut Case) {
    use std::collections::BTreeMap;
    let n = case.rng.range(1, 3000) as usize;
    match case.idx % 5 {
        0 => {
            let v: Vec<u32> = (0..n as u32).collect();
            let evs = v.model().events();
            case.eval(Some(fingerprint(&evs)));
            ser_path(case, &v, &evs);
            let mut out = None;
            de_path(case, Vec::<u32>::deserialize_into(&mut out), &evs);
        }
        1 => {
            let v: BTreeMap<u64, Vec<u8>> = (0..n as u64).map(|x| (x * 3, vec![1; (x % 3) as usize])).collect();
            let evs = v.model().events();
            case.eval(Some(fingerprint(&evs)));
            ser_path(case, &v, &evs);
            let mut out = None;
            de_path(case, BTreeMap::<u64, Vec<u8>>::deserialize_into(&mut out), &evs);
        }
        2 => {
            let v: BTreeMap<String, BTreeMap<String, u8>> = (0..n / 4)
                .map(|x| (format!("k{}", x), (0..x % 4).map(|y| (format!("i{}", y), 0)).collect()))
                .collect();
            let evs = v.model().events();
            case.eval(Some(fingerprint(&evs)));
            ser_path(case, &v, &evs);
            let mut out = None;
            de_path(case, BTreeMap::<String, BTreeMap<String, u8>>::deserialize_into(&mut out), &evs);
        }
        k => {
            // deep: alternating containers, with siblings on the way out
            let depth = if case.rng.chance(1, 3) { n } else { n.min(600) };
            let mut t = mon::model::T::A(A::U64(1));
            for i in 0..depth {
                t = if (i + k as usize) % 2 == 0 {
                    mon::model::T::Seq(vec![mon::model::T::A(A::Null), t, mon::model::T::A(A::Bool(true))])
                } else {
                    mon::model::T::Map(vec![
                        (mon::model::T::A(A::Str(format!("k{}", i))), t),
                        (mon::model::T::A(A::I64(-1)), mon::model::T::A(A::Null)),
                    ])
                };
            }
            let evs = t.events();
            case.eval(Some(fingerprint(&evs)));
            de_path(case, SinkHandle::null(), &evs);
            let mut out = None;
            de_path(case, mon::json::Any::deserialize_into(&mut out), &evs);
            ser_path(case, &mon::uservalue::plain(&t), &evs);
        }
    }
}

fn main() {
    let ctx = Ctx::new("C16");
    let t = table::table::<Types>();
    table::run(ctx, "types", &t, ctx.n(1500, 40000));
    ctx.group("shapes", ctx.n(200, 3000), shape);
    ctx.group("borrowed", ctx.n(5000, 100000), |case| {
        let mut r = case.rng.clone();
        mon::extra::each(&mut r, false, &mut |name, v, m| {
            case.label = name.to_string();
            let evs = m.events();
            case.eval(Some(fingerprint(&evs) ^ hash_bytes(name.as_bytes())));
            ser_path(case, v, &evs);
        });
    });
    let j = Judge { path: true, ..Judge::default() };
    for (name, hazard, quick, thorough) in [
        ("probes", Hazard::None, 60_000, 2_000_000),
        ("abandon", Hazard::Cut, 5_000, 200_000),
        ("error", Hazard::Err, 5_000, 200_000),
    ] {
        ctx.group(&format!("ser {}", name), ctx.n(quick, thorough), |case| {
            let (depth, budget) = work::sizes(&mut case.rng);
            work::ser(case, &Opts { judge: j, hazard, depth, budget, path: true });
        });
        ctx.group(&format!("de {}", name), ctx.n(quick, thorough), |case| {
            let (depth, budget) = work::sizes(&mut case.rng);
            work::de(case, &Opts { judge: j, hazard, depth, budget, path: true });
        });
    }
    ctx.finish()
}
