//! The probe workloads.  Every function is one case; what is judged is in the options.
use crate::gen;
use crate::model::*;
use crate::probe::{self, *};
use crate::probe_de as pd;
use crate::probe_ser as ps;
use crate::util::*;
use deser::ErrorKind;
use deser_path::PathSerializable;

/// The parts of a run that a property talks about.
#[derive(Clone, Copy, Default)]
pub struct Judge {
    /// order of callbacks and events
    pub log: bool,
    /// depth and descriptors
    pub meta: bool,
    pub path: bool,
    /// every token dropped once and the heap back to its size
    pub memory: bool,
    /// errors reach the caller unchanged and leave nothing behind
    pub errors: bool,
    /// extension model
    pub ext: bool,
    /// nothing that is not alive is used or dropped
    pub safety: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Hazard {
    None,
    Cut,
    Err,
    Panic,
    /// a drop that panics
    Drop,
    /// an error, and the driver is used further
    Continue,
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Unexpected,
    ErrorKind::MissingField,
    ErrorKind::OutOfRange,
    ErrorKind::WrongLength,
    ErrorKind::EndOfFile,
    ErrorKind::UnsupportedType,
];

fn blank(r: &Rec, j: &Judge) -> Rec {
    // removes from a record what is not judged
    let mut r = r.clone();
    let f = |v: &mut View| {
        if !j.meta {
            v.depth = usize::MAX;
            v.top = None;
        }
        if !j.path {
            v.path = None;
        }
    };
    match &mut r {
        Rec::Ser { v, .. }
        | Rec::Fin { v, .. }
        | Rec::Next { v, .. }
        | Rec::Atom { v, .. }
        | Rec::Map { v, .. }
        | Rec::Seq { v, .. }
        | Rec::Key { v, .. }
        | Rec::Val { v, .. }
        | Rec::ForKey { v, .. }
        | Rec::SinkFin { v, .. } => f(v),
        Rec::Event { d, v, .. } => {
            f(v);
            if !j.meta {
                *d = D::default();
            }
        }
        _ => {}
    }
    r
}

fn keep(r: &Rec, j: &Judge) -> bool {
    // without the order of callbacks only the events themselves and what they see count
    j.log || j.path || j.meta || matches!(r, Rec::Event { .. })
}

fn compare(got: &[Rec], want: &[Rec], complete: bool, j: &Judge) -> Result<(), String> {
    let strip = |l: &[Rec], only_events: bool| -> Vec<Rec> {
        l.iter()
            .filter(|r| keep(r, j) && (!only_events || matches!(r, Rec::Event { .. })))
            .map(|r| {
                let mut r = blank(r, j);
                if let (Rec::Event { d, .. }, false) = (&mut r, j.meta) {
                    *d = D::default();
                }
                r
            })
            .collect()
    };
    ps::compare(&strip(got, false), &strip(want, false), complete)
}

fn log_fp(log: &[Rec]) -> u64 {
    let mut h = 11u64;
    for r in log {
        let x = match r {
            Rec::Ser { id, .. } => 1 + ((*id as u64) << 5),
            Rec::Fin { id, .. } => 2 + ((*id as u64) << 5),
            Rec::Next { id, what, .. } => 3 + ((*id as u64) << 5) + ((*what as u64) << 32),
            Rec::DropEmitter { id } => 4 + ((*id as u64) << 5),
            Rec::DropValue { id } => 5 + ((*id as u64) << 5),
            Rec::Event { ev, .. } => fingerprint(std::slice::from_ref(ev)),
            Rec::Atom { id, a, .. } => {
                fingerprint(&[Ev::Atom(a.clone())]) ^ ((*id as u64) << 7)
            }
            Rec::Map { id, .. } => 6 + ((*id as u64) << 5),
            Rec::Seq { id, .. } => 7 + ((*id as u64) << 5),
            Rec::Key { id, .. } => 8 + ((*id as u64) << 5),
            Rec::Val { id, .. } => 9 + ((*id as u64) << 5),
            Rec::ForKey { id, key, .. } => hash_bytes(key.as_bytes()) ^ ((*id as u64) << 5),
            Rec::SinkFin { id, .. } => 10 + ((*id as u64) << 5),
            Rec::DropSink { id } => 11 + ((*id as u64) << 5),
            Rec::Fault => 12,
        };
        h = mix(h ^ x);
    }
    h
}

pub struct Opts {
    pub judge: Judge,
    pub hazard: Hazard,
    pub depth: usize,
    pub budget: i64,
    pub path: bool,
}

fn settle(case: &mut Case, e: Ended, opts: &Opts, heap0: (i64, i64)) {
    // `e` still holds the log; drop it before looking at the heap
    let errors = e.errors.clone();
    case.count("values tracked", e.tracked);
    if let Some(x) = &e.ext {
        case.count("extension accesses", x.ops);
        if opts.judge.ext {
            for m in x.errors.iter().take(2) {
                case.violation(m);
            }
        }
    }
    drop(e);
    if opts.judge.safety {
        for m in errors.iter().filter(|m| !m.starts_with("never dropped")).take(2) {
            case.violation(m);
        }
    } else if opts.judge.memory {
        for m in errors.iter().take(2) {
            case.violation(m);
        }
    } else if opts.judge.log || opts.judge.meta || opts.judge.path {
        // remarks that are not about the ledger
        for m in errors.iter().filter(|m| !m.contains("dropped")).take(2) {
            case.violation(m);
        }
    }
    drop(errors);
    let heap1 = heap();
    if opts.judge.memory && heap1.0 > heap0.0 {
        case.violation(&format!(
            "{} blocks with {} bytes are still allocated at the end",
            heap1.0 - heap0.0,
            heap1.1 - heap0.1
        ));
    }
}

/// Serializes a random tree of probes.
pub fn ser(case: &mut Case, opts: &Opts) {
    // make sure thread locals do not count
    probe::begin(0);
    drop(probe::end());
    let mut rng = case.rng.clone();
    let heap0 = heap();
    // everything below is dropped before the heap is looked at again
    let result = ser_inner(case, opts, &mut rng);
    let (ended, problems) = result;
    let many = ended.log.len();
    case.count("callbacks and events", many as u64);
    let fp = log_fp(&ended.log);
    for p in problems.iter() {
        case.violation(p);
    }
    drop(problems);
    settle(case, ended, opts, heap0);
    case.eval(if many > 4 { Some(fp) } else { None });
}

fn ser_inner(case: &mut Case, opts: &Opts, rng: &mut Rng) -> (Ended, Vec<String>) {
    let mut problems = vec![];
    let salt = rng.u64();
    // the context outlives all probes: end() reports what is still alive
    probe::begin(salt);
    {
        let mut cfg =
            ps::TreeCfg { depth: opts.depth, budget: opts.budget, path_wraps: !opts.path, json: false };
        let root = ps::deep_child(rng, &mut cfg);
        let want = ps::expected(&root, opts.path);
        let events = want.iter().filter(|r| matches!(r, Rec::Event { .. })).count();
        let calls = want.len() - events;
        case.count("probes", root.node.count() as u64);
        let (mut cut, mut fault, mut drop_fault) = (usize::MAX, None, None);
        match opts.hazard {
            Hazard::None => {}
            Hazard::Cut => cut = rng.idx(events + 1),
            _ if calls == 0 => {}
            Hazard::Err | Hazard::Continue => {
                fault = Some((1 + rng.below(calls as u64), FaultKind::Err(*rng.pick(KINDS))))
            }
            Hazard::Panic => fault = Some((1 + rng.below(calls as u64), FaultKind::Panic)),
            Hazard::Drop => drop_fault = Some(1 + rng.below(calls as u64 / 2 + 1)),
        }
        let ext = if opts.judge.ext || (opts.judge.safety && rng.chance(1, 4)) { Some(Ext::new(Rng::new(rng.u64()))) } else { None };
        probe::with(|c| {
            c.with_path = opts.path;
            c.fault = fault;
            c.drop_fault = drop_fault;
            c.ext = ext;
        });
        let v = ps::value(&root);
        if opts.hazard == Hazard::Continue {
            if opts.path {
                ps::drive_on(&PathSerializable::wrap(&*v), 3, events + 50);
            } else {
                ps::drive_on(&*v, 3, events + 50);
            }
            drop(v);
        } else {
            let stop = if opts.path {
                ps::drive(&PathSerializable::wrap(&*v), cut, events + 5)
            } else {
                ps::drive(&*v, cut, events + 5)
            };
            probe::with(|c| c.drop_fault = None);
            drop(v);
            let complete = matches!(stop, ps::Stop::Done);
            case.count(
                match &stop {
                    ps::Stop::Done => "runs to the end",
                    ps::Stop::Err(_) => "runs with an error",
                    ps::Stop::Cut => "runs abandoned",
                    ps::Stop::Panic(_) => "runs with a panic",
                    ps::Stop::Runaway => "runs that do not end",
                },
                1,
            );
            let log = probe::with(|c| std::mem::take(&mut c.log));
            let j = opts.judge;
            if j.log || j.meta || j.path {
                match &stop {
                    ps::Stop::Runaway => problems.push("events after the end of the value".to_string()),
                    ps::Stop::Err(e) if opts.hazard != Hazard::Err => {
                        problems.push(format!("serialization fails: {}", e))
                    }
                    ps::Stop::Panic(false) => {
                        let (loc, msg) = last_panic();
                        problems.push(format!("panic at {}: {}", loc, msg))
                    }
                    _ => {}
                }
                if let Err(m) = compare(&log, &want, complete, &j) {
                    problems.push(m);
                }
            }
            if j.log || (j.safety && opts.hazard != Hazard::Drop) {
                if let Err(m) = ps::check_drops(&root, &log) {
                    problems.push(m);
                }
            }
            if j.errors {
                match (opts.hazard, &stop, fault) {
                    (Hazard::Err, ps::Stop::Err(e), Some((_, FaultKind::Err(k)))) => {
                        if e.kind() != k || !e.to_string().contains(FAULT_MSG) {
                            problems.push(format!("the error {:?} of a callback became {:?}", k, e));
                        }
                    }
                    (Hazard::Err | Hazard::Panic, ps::Stop::Done, None) => {}
                    (Hazard::Err, s, _) => {
                        problems.push(format!("the error of a callback did not reach the caller: {:?}", s))
                    }
                    (Hazard::Panic, ps::Stop::Panic(true), _) => {}
                    (Hazard::Panic, s, _) => {
                        problems.push(format!("the panic of a callback did not reach the caller: {:?}", s))
                    }
                    (Hazard::None, ps::Stop::Done, _) | (Hazard::Cut, _, _) => {}
                    (_, s, _) => problems.push(format!("unexpected end: {:?}", s)),
                }
            }
            // nothing happens after the fault
            if j.errors || j.log {
                if let Some(p) = log.iter().position(|r| matches!(r, Rec::Fault)) {
                    if let Some(r) = log[p + 1..].iter().find(|r| !ps::is_drop(r)) {
                        problems.push(format!("{:?} after the fault", r));
                    }
                }
            }
            case.sample(|| {
                format!("{:?}; {} records, e.g.{}", stop, log.len(), ps::show_log(&log, log.len() / 2))
            });
            probe::with(|c| c.log = log);
        }
    }
    (probe::end(), problems)
}

/// Feeds a random tree into a random arrangement of probe sinks.
pub fn de(case: &mut Case, opts: &Opts) {
    probe::begin(0);
    drop(probe::end());
    sink_desc(0);
    let mut rng = case.rng.clone();
    let heap0 = heap();
    let (ended, problems) = de_inner(case, opts, &mut rng);
    let many = ended.log.len();
    case.count("callbacks", many as u64);
    let fp = log_fp(&ended.log);
    for p in problems.iter() {
        case.violation(p);
    }
    drop(problems);
    settle(case, ended, opts, heap0);
    case.eval(if many > 4 { Some(fp) } else { None });
}

fn de_inner(case: &mut Case, opts: &Opts, rng: &mut Rng) -> (Ended, Vec<String>) {
    let mut problems = vec![];
    let mut budget = opts.budget;
    let tree = pd::deep_ptree(rng, opts.depth, &mut budget);
    let evs = tree.events();
    drop(tree);
    probe::begin(rng.u64());
    {
        let sim = pd::Sim::new(&evs, Rng::new(rng.u64()), opts.path, None);
        for k in &sim.kinds {
            case.count(&format!("runs with {:?} sinks", k), 1);
        }
        let calls = sim.log.len();
        let (mut cut, mut fault, mut drop_fault) = (usize::MAX, None, None);
        match opts.hazard {
            Hazard::None => {}
            Hazard::Cut => cut = rng.idx(evs.len()),
            _ if calls == 0 => {}
            Hazard::Err | Hazard::Continue => {
                fault = Some((1 + rng.below(calls as u64), FaultKind::Err(*rng.pick(KINDS))))
            }
            Hazard::Panic => fault = Some((1 + rng.below(calls as u64), FaultKind::Panic)),
            Hazard::Drop => drop_fault = Some(1 + rng.below(calls as u64 / 2 + 1)),
        }
        let ext = if opts.judge.ext || (opts.judge.safety && rng.chance(1, 4)) { Some(Ext::new(Rng::new(rng.u64()))) } else { None };
        probe::with(|c| {
            c.plan = sim.plan.clone();
            c.with_path = opts.path;
            c.fault = fault;
            c.drop_fault = drop_fault;
            c.ext = ext;
        });
        let after = if opts.hazard == Hazard::Continue { pd::After::Continue } else { pd::After::Drop };
        let ran = pd::run(&evs, sim.kind, cut, opts.path, after);
        let log = probe::with(|c| {
            c.drop_fault = None;
            std::mem::take(&mut c.log)
        });
        let j = opts.judge;
        let complete = ran.err.is_none() && ran.panic.is_none() && cut >= evs.len();
        case.count(
            if ran.panic.is_some() {
                "runs with a panic"
            } else if ran.err.is_some() {
                "runs with an error"
            } else if complete {
                "runs to the end"
            } else {
                "runs abandoned"
            },
            1,
        );
        if opts.hazard != Hazard::Continue {
            if j.log || j.meta || j.path {
                if ran.panic == Some(false) {
                    let (loc, msg) = last_panic();
                    problems.push(format!("panic at {}: {}; events {}", loc, msg, show(&evs)));
                }
                if let (Some((e, at)), true) = (&ran.err, fault.is_none()) {
                    problems.push(format!(
                        "refused at {}: {}; root {:?}, events {}",
                        at,
                        e,
                        sim.kind,
                        show(&evs)
                    ));
                }
                if let Err(m) = compare(&log, &sim.log, complete, &j) {
                    problems.push(format!("{}; root {:?}, events {}", m, sim.kind, show(&evs)));
                }
                if j.log {
                    if complete && ran.out != sim.result {
                        problems.push(format!(
                            "the result is {:?}, expected {:?}; root {:?}, events {}",
                            ran.out,
                            sim.result,
                            sim.kind,
                            show(&evs)
                        ));
                    }
                }
            }
            if j.log || (j.safety && opts.hazard != Hazard::Drop) {
                if let Err(m) = pd::check_drops(&sim, &log) {
                    problems.push(format!("{}; root {:?}, events {}", m, sim.kind, show(&evs)));
                }
            }
            if j.errors {
                match (opts.hazard, &ran.err, ran.panic, fault) {
                    (_, None, None, None) => {}
                    (Hazard::Err, Some((e, _)), None, Some((_, FaultKind::Err(k)))) => {
                        if e.kind() != k || !e.to_string().contains(FAULT_MSG) {
                            problems.push(format!("the error {:?} of a callback became {:?}", k, e));
                        }
                    }
                    (Hazard::Panic, None, Some(true), Some(_)) => {}
                    x => problems.push(format!(
                        "fault {:?} but {:?} {:?}; root {:?}, events {}",
                        x.3,
                        x.1,
                        x.2,
                        sim.kind,
                        show(&evs)
                    )),
                }
                if !complete && !matches!(ran.out, pd::X::Nothing | pd::X::Ignored | pd::X::Absent) {
                    problems.push(format!(
                        "a result although the stream failed or is not complete: {:?}; root {:?}, events {}",
                        ran.out,
                        sim.kind,
                        show(&evs)
                    ));
                }
                if complete && ran.out != sim.result {
                    problems.push(format!(
                        "the result is {:?}, expected {:?}; root {:?}, events {}",
                        ran.out,
                        sim.result,
                        sim.kind,
                        show(&evs)
                    ));
                }
            }
            if j.errors || j.log {
                if let Some(p) = log.iter().position(|r| matches!(r, Rec::Fault)) {
                    if let Some(r) = log[p + 1..].iter().find(|r| !ps::is_drop(r)) {
                        problems.push(format!("{:?} after the fault", r));
                    }
                }
            }
        }
        case.sample(|| {
            format!(
                "{} as {:?}; {} records, e.g.{}",
                show(&evs),
                sim.kind,
                log.len(),
                ps::show_log(&log, log.len() / 2)
            )
        });
        probe::with(|c| c.log = log);
    }
    (probe::end(), problems)
}

/// Size of a case, mostly small.
pub fn sizes(rng: &mut Rng) -> (usize, i64) {
    let _ = gen::CHARS;
    match rng.below(10) {
        0..=4 => (3, 10),
        5..=7 => (5, 30),
        8 => (12, 60),
        _ => (7, 150),
    }
}
