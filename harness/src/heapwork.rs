//! Workloads with tracked values: everything is dropped exactly once and the heap balances.
use crate::gen::{self, Gen};
use crate::model::*;
use crate::probe::{self, FaultKind};
use crate::table::TypeCheck;
use crate::tracked::*;
use crate::util::*;
use crate::work::*;
use crate::zoo::Zoo;
use deser::de::{Deserialize, DeserializeDriver, OwnedSink, SinkHandle};
use deser::ser::{Serialize, SerializeDriver, SerializeHandle};
use deser_path::{PathSerializable, PathSink};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Only remarks about memory that is not alive count, leaks and panics do not.
pub static SAFETY_ONLY: AtomicBool = AtomicBool::new(false);

/// Runs `f` between two looks at the heap and the ledger.
pub fn ledger(case: &mut Case, fault: Option<(u64, FaultKind)>, what: &str, f: impl FnOnce()) -> bool {
    probe::begin(0);
    drop(probe::end());
    probe::sink_desc(0);
    drop(last_panic());
    let before = heap();
    probe::begin(7);
    probe::with(|c| {
        c.on = false;
        match fault {
            Some((n, FaultKind::Drop)) => c.drop_fault = Some(n),
            x => c.fault = x,
        }
    });
    if matches!(fault, Some((_, FaultKind::Drop))) {
        caught(f);
        probe::with(|c| c.drop_fault = None);
    } else {
        f();
    }
    let e = probe::end();
    drop(last_panic());
    let (n, fired, tracked) = (e.errors.len(), e.fired, e.tracked);
    let safety = SAFETY_ONLY.load(Relaxed);
    let first = e.errors.iter().find(|m| !safety || !m.starts_with("never dropped")).cloned();
    drop(e);
    let after = heap();
    case.count("values tracked", tracked);
    if let Some(m) = first {
        case.violation(&format!("{} ({} remarks): {}", what, n, m));
    } else {
        if after.0 != before.0 && !safety {
            case.violation(&format!(
                "{}: {} blocks with {} bytes are still allocated at the end",
                what,
                after.0 - before.0,
                after.1 - before.1
            ));
        }
    }
    fired
}

fn caught(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) => {
            let injected = p.is::<Injected>();
            if !injected {
                // not ours; the library may refuse ill-formed streams this way
                drop(p);
            }
            true
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Full,
    Cut,
    Err,
    Panic,
    Drop,
    Continue,
    Extra,
}

fn feed_all<T: Deserialize>(out: &mut Option<T>, evs: &[Ev], cut: usize, mode: Mode, how: u64, r: &mut Rng) {
    let sink = T::deserialize_into(out);
    let sink = if how % 3 == 1 { SinkHandle::boxed(PathSink::wrap_ref(sink)) } else { sink };
    let mut d = DeserializeDriver::from_sink(sink);
    go(&mut d, evs, cut, mode, r);
}

fn go(d: &mut DeserializeDriver, evs: &[Ev], cut: usize, mode: Mode, r: &mut Rng) {
    for (i, e) in evs.iter().enumerate() {
        if i >= cut {
            break;
        }
        if d.emit(e.event()).is_err() && mode != Mode::Continue {
            break;
        }
        if mode == Mode::Extra && r.chance(1, 6) {
            // whatever this event does here
            let x = [Ev::MapEnd, Ev::SeqEnd, Ev::SeqStart, Ev::MapStart, Ev::Atom(A::U64(3))];
            if d.emit(r.pick(&x).event()).is_err() {
                break;
            }
        }
    }
}

pub fn tracked_de<T: Tracked>(case: &mut Case) {
    let mut r = case.rng.clone();
    crate::tracked::set_early(r.bool());
    let budget = *r.pick(&[4, 10, 30]);
    let mut fit = 0;
    let evs = {
        // the elements of the generator are not part of the experiment
        probe::begin(0);
        let mut t = T::stream(&mut Gen { r: &mut r, budget, json: false });
        drop(probe::end());
        if r.chance(1, 2) {
            gen::mutate(&mut r, &mut t);
            fit = 1;
        }
        t.events()
    };
    let mode = *r.pick(&[Mode::Full, Mode::Full, Mode::Cut, Mode::Err, Mode::Panic, Mode::Continue, Mode::Extra]);
    let mode = if SAFETY_ONLY.load(Relaxed) && r.chance(1, 6) { Mode::Drop } else { mode };
    let cut = if mode == Mode::Cut { r.idx(evs.len()) } else { usize::MAX };
    let at = 1 + r.below(2 * evs.len() as u64);
    let fault = match mode {
        Mode::Err | Mode::Continue => Some((at, FaultKind::Err(*r.pick(KINDS)))),
        Mode::Panic => Some((at, FaultKind::Panic)),
        Mode::Drop => Some((at, FaultKind::Drop)),
        _ => None,
    };
    let how = r.below(6);
    case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes()) ^ mix(mode as u64 ^ at << 4)));
    case.count(&format!("{:?} runs", mode), 1);
    case.sample(|| format!("{:?} {}", mode, show(&evs)));
    let what = format!("{:?} at {:?}/{} handling {} of {}", mode, cut, at, how, show(&evs));
    let mut rr = r.clone();
    let mut delivered = false;
    let mut panicked = None;
    let fired = ledger(case, fault, &what, || {
        let p = match how {
            5 => caught(|| {
                let mut o = OwnedSink::<T>::deserialize();
                {
                    let mut d = DeserializeDriver::from_sink(SinkHandle::to(o.borrow_mut()));
                    go(&mut d, &evs, cut, mode, &mut rr);
                }
                if rr.bool() {
                    let x = o.take();
                    assert!(o.take().is_none(), "taken twice");
                    drop(o);
                    drop(x);
                }
            }),
            4 => caught(|| {
                // the slot holds a value already
                let mut out = None;
                feed_all::<T>(&mut out, &evs, cut, mode, how, &mut rr);
                feed_all::<T>(&mut out, &evs, cut, mode, how, &mut rr);
            }),
            _ => {
                let mut out = None::<T>;
                let p = caught(|| feed_all::<T>(&mut out, &evs, cut, mode, how, &mut rr));
                delivered = out.is_some();
                p
            }
        };
        let at = last_panic();
        if p && matches!(mode, Mode::Full | Mode::Cut | Mode::Err) {
            panicked = Some(at);
        }
    });
    if let (Some((loc, msg)), false) = (panicked, SAFETY_ONLY.load(Relaxed)) {
        case.violation(&format!("panic at {}: {}; {}", loc, msg, what));
    }
    case.count("values delivered", delivered as u64);
    case.count("faults fired", fired as u64);
    let _ = fit;
}

pub fn tracked_ser<T: Tracked>(case: &mut Case) {
    let mut r = case.rng.clone();
    let budget = *r.pick(&[4, 10, 30]);
    let mode = *r.pick(&[Mode::Full, Mode::Cut, Mode::Err, Mode::Panic, Mode::Continue]);
    let mode = if SAFETY_ONLY.load(Relaxed) && r.chance(1, 6) { Mode::Drop } else { mode };
    let at = 1 + r.below(24);
    let cut = if mode == Mode::Cut { r.idx(24) } else { usize::MAX };
    let fault = match mode {
        Mode::Err | Mode::Continue => Some((at, FaultKind::Err(*r.pick(KINDS)))),
        Mode::Panic => Some((at, FaultKind::Panic)),
        Mode::Drop => Some((at, FaultKind::Drop)),
        _ => None,
    };
    let how = r.below(5);
    let mut rr = r.clone();
    let mut n = 0;
    let mut fp = 0;
    ledger(case, fault, &format!("serializing, {:?} at {}/{}", mode, cut, at), || {
        let v = T::value(&mut Gen { r: &mut rr, budget, json: false });
        let mut run = |v: &dyn Serialize| {
            let mut d = SerializeDriver::new(v);
            let mut errors = 0;
            while n < cut && n < 100_000 {
                match d.next() {
                    Ok(Some((e, _, _))) => fp = mix(fp ^ fingerprint(&[Ev::of(&e)])),
                    Ok(None) => break,
                    Err(_) => {
                        errors += 1;
                        if mode != Mode::Continue || errors > 3 {
                            break;
                        }
                    }
                }
                n += 1;
            }
        };
        caught(|| match how {
            0 => run(&v),
            1 => run(&PathSerializable::wrap(&v)),
            2 => run(&PathSerializable::wrap_ref(SerializeHandle::boxed(&v))),
            3 => run(&[&v, &v][..].to_vec()),
            _ => run(&Some(Box::new(&v))),
        });
    });
    case.eval(Some(fp ^ hash_bytes(case.label.as_bytes()) ^ mix(mode as u64 ^ (at + n as u64) << 4)));
    case.count("events", n as u64);
}

pub fn tracked_json<T: Tracked>(case: &mut Case) {
    let mut r = case.rng.clone();
    let text = {
        probe::begin(0);
        let mut t = T::stream(&mut Gen { r: &mut r, budget: 20, json: true });
        drop(probe::end());
        if r.chance(1, 2) {
            gen::mutate(&mut r, &mut t);
        }
        let mut s = crate::json::spell(&mut r, &crate::json::jsonable(t).events(), 1).into_bytes();
        if r.chance(1, 4) {
            let n = r.idx(s.len() + 1);
            s.truncate(n);
        } else if r.chance(1, 4) && !s.is_empty() {
            let n = r.idx(s.len());
            s[n] = *r.pick(b"[]{},:\"1x ");
        }
        s
    };
    let at = 1 + r.below(20);
    let fault = if r.chance(1, 3) { Some((at, *r.pick(&[FaultKind::Panic, FaultKind::Err(KINDS[0])]))) } else { None };
    case.eval(Some(hash_bytes(&text) ^ hash_bytes(case.label.as_bytes()) ^ at));
    let what = format!("reading {:?}", String::from_utf8_lossy(&text));
    let mut good = false;
    ledger(case, fault, &what, || {
        caught(|| {
            good = crate::json::read::<T>(&text).is_ok();
        });
    });
    case.count("documents accepted", good as u64);
    // and writing
    let mut rr = r.clone();
    ledger(case, fault, "writing", || {
        let v = T::value(&mut Gen { r: &mut rr, budget: 20, json: true });
        caught(|| drop(deser_json::to_string(&v)));
        caught(|| drop(deser_debug::ToDebug::new(&v).to_string()));
    });
}

pub struct Build(pub Vec<(&'static str, [fn(&mut Case); 3])>);
impl TVisitor for Build {
    fn visit<T: Tracked>(&mut self, name: &'static str) {
        self.0.push((name, [tracked_de::<T>, tracked_ser::<T>, tracked_json::<T>]));
    }
}

// ---------------------------------------------------------------- plain types

pub struct Plain;

impl TypeCheck for Plain {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let budget = *r.pick(&[6, 20, 60]);
        let mut t = T::fit(&mut Gen { r: &mut r, budget, json: false });
        if r.chance(1, 2) {
            gen::mutate(&mut r, &mut t);
        }
        let evs = t.events();
        let cut = if r.chance(1, 3) { r.idx(evs.len()) } else { usize::MAX };
        case.eval(Some(fingerprint(&evs) ^ hash_bytes(case.label.as_bytes()) ^ mix(cut as u64)));
        let what = format!("{} cut at {}", show(&evs), cut);
        let how = r.below(3);
        let mut rr = r.clone();
        ledger(case, None, &what, || {
            crate::skip::take_hits();
            let mut out = None::<T>;
            feed_all::<T>(&mut out, &evs, cut, Mode::Full, how, &mut rr);
            drop(out);
            crate::skip::take_hits();
        });
        let mut rr = r.clone();
        ledger(case, None, "serializing", || {
            let v = T::arb(&mut Gen { r: &mut rr, budget, json: false });
            let mut d = SerializeDriver::new(&v);
            let mut n = 0;
            while n < cut {
                match d.next() {
                    Ok(Some(_)) => {}
                    _ => break,
                }
                n += 1;
            }
        });
        if r.chance(1, 4) {
            let mut rr = r.clone();
            ledger(case, None, "JSON", || {
                let v = T::arb(&mut Gen { r: &mut rr, budget, json: true });
                if let Ok(s) = deser_json::to_string(&v) {
                    let n = if rr.bool() { s.len() } else { rr.idx(s.len() + 1) };
                    let _ = crate::json::read::<T>(&s.as_bytes()[..n]);
                }
                crate::skip::take_hits();
            });
        }
    }
}

