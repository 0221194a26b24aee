//! C19: extension state belongs to one run and one type.
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState};
use deser::{Atom, Error};
use deser_path::{Path, PathSerializable};
use mon::gen;
use mon::model::*;
use mon::probe::{self, *};
use mon::util::*;
use mon::work::{self, *};
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------- values with nosy callbacks

/// A tree whose callbacks touch the extensions and run other drivers.
enum V {
    Atom(A),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
}

struct Env {
    rng: Rng,
    /// innermost running driver
    nest: usize,
    /// drivers may be started in callbacks
    nesting: bool,
    nested: u64,
    threads: u64,
    problems: Vec<String>,
}

thread_local! {
    static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
}

fn env<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(e.borrow_mut().as_mut().unwrap()))
}

fn fresh_driver() -> usize {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}

/// Switches the driver whose callbacks run; returns the previous one.
fn enter(id: usize) -> usize {
    probe::with(|c| std::mem::replace(&mut c.ext.as_mut().unwrap().cur, id))
}

/// The driver is gone and with it all its values.
fn forget(id: usize) {
    let (want, kinds) = probe::with(|c| {
        let e = c.ext.as_mut().unwrap();
        e.model.retain(|k, _| k.0 != id);
        (e.model.len(), 0)
    });
    let _: i32 = kinds;
    let have = probe::live("extension value");
    if have != want {
        env(|e| e.problems.push(format!("{} extension values are alive, expected {}", have, want)));
    }
}

fn touch<S: St>(st: &S) {
    ext_step(st);
    let run = env(|e| e.nesting && e.nest < 3 && e.rng.chance(1, 5));
    if !run {
        return;
    }
    let depth = st.depth();
    let top = st.top();
    let path = segs(&st.get::<Path>());
    let thread = env(|e| {
        e.nest += 1;
        e.nested += 1;
        e.rng.chance(1, 400)
    });
    if thread {
        // a driver on another thread, with its own model
        let seed = env(|e| {
            e.threads += 1;
            e.rng.u64()
        });
        let problems = std::thread::spawn(move || {
            let mut rng = Rng::new(seed);
            setup(&mut rng, false);
            whole(&mut rng);
            teardown(None)
        })
        .join()
        .unwrap();
        env(|e| e.problems.extend(problems));
    } else {
        let mut rng = Rng::new(env(|e| e.rng.u64()));
        whole(&mut rng);
    }
    env(|e| e.nest -= 1);
    if st.depth() != depth || st.top() != top || segs(&st.get::<Path>()) != path {
        env(|e| e.problems.push("another driver changed the state of this one".into()));
    }
    ext_step(st);
}

struct SeqEm<'a>(std::slice::Iter<'a, V>);
impl<'a> SeqEmitter for SeqEm<'a> {
    fn next(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        touch(st);
        Ok(self.0.next().map(SerializeHandle::to))
    }
}
struct MapEm<'a>(std::slice::Iter<'a, (V, V)>, Option<&'a V>);
impl<'a> MapEmitter for MapEm<'a> {
    fn next_key(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        touch(st);
        Ok(self.0.next().map(|(k, v)| {
            self.1 = Some(v);
            SerializeHandle::to(k)
        }))
    }
    fn next_value(&mut self, st: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        touch(st);
        Ok(SerializeHandle::to(self.1.take().unwrap()))
    }
}

impl Serialize for V {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk<'_>, Error> {
        touch(st);
        Ok(match self {
            V::Atom(a) => Chunk::Atom(a.atom()),
            V::Seq(v) => Chunk::Seq(Box::new(SeqEm(v.iter()))),
            V::Map(v) => Chunk::Map(Box::new(MapEm(v.iter(), None))),
        })
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        touch(st);
        Ok(())
    }
}

fn value(t: &T) -> V {
    match t {
        T::A(a) => V::Atom(a.clone()),
        T::Seq(v) => V::Seq(v.iter().map(value).collect()),
        T::Map(v) => V::Map(v.iter().map(|(a, b)| (value(a), value(b))).collect()),
    }
}

struct VSink<'a> {
    out: &'a mut Option<V>,
    got: Option<V>,
    key: Option<V>,
    slot: Option<V>,
}

impl<'a> VSink<'a> {
    fn collect(&mut self) {
        let Some(x) = self.slot.take() else { return };
        match self.got.as_mut().unwrap() {
            V::Seq(v) => v.push(x),
            V::Map(v) => match self.key.take() {
                None => self.key = Some(x),
                Some(k) => v.push((k, x)),
            },
            V::Atom(_) => unreachable!(),
        }
    }
    fn child(&mut self) -> SinkHandle<'_> {
        self.collect();
        V::deserialize_into(&mut self.slot)
    }
}

impl<'a> Sink for VSink<'a> {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        touch(st);
        self.got = Some(V::Atom(A::of(&a)));
        Ok(())
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        touch(st);
        self.got = Some(V::Map(vec![]));
        Ok(())
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        touch(st);
        self.got = Some(V::Seq(vec![]));
        Ok(())
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        touch(st);
        Ok(self.child())
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        touch(st);
        Ok(self.child())
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        touch(st);
        self.collect();
        *self.out = self.got.take();
        Ok(())
    }
}

impl Deserialize for V {
    fn deserialize_into(out: &mut Option<V>) -> SinkHandle<'_> {
        SinkHandle::boxed(VSink { out, got: None, key: None, slot: None })
    }
}

fn back(v: &V) -> T {
    match v {
        V::Atom(a) => T::A(a.clone()),
        V::Seq(v) => T::Seq(v.iter().map(back).collect()),
        V::Map(v) => T::Map(v.iter().map(|(a, b)| (back(a), back(b))).collect()),
    }
}

// ---------------------------------------------------------------- drivers

/// A running driver with the part of the data it still has to process.
enum Run<'a> {
    Ser { id: usize, d: SerializeDriver<'a>, want: &'a [Ev], depth: usize, path: bool, over: bool },
    De { id: usize, d: DeserializeDriver<'a>, evs: &'a [Ev], depth: usize },
}

impl<'a> Run<'a> {
    fn id(&self) -> usize {
        match self {
            Run::Ser { id, .. } | Run::De { id, .. } => *id,
        }
    }
    /// One step; false at the end.
    fn step(&mut self) -> bool {
        let old = enter(self.id());
        let more = self.step_inner();
        enter(old);
        more
    }
    fn step_inner(&mut self) -> bool {
        fn track(e: &Ev, depth: &mut usize) {
            match e {
                Ev::MapStart | Ev::SeqStart => *depth += 1,
                Ev::MapEnd | Ev::SeqEnd => *depth -= 1,
                _ => {}
            }
        }
        let bad = |m: String| env(|e| e.problems.push(m));
        match self {
            Run::Ser { d, want, depth, path, over, .. } => {
                ext_step(d.state());
                if d.state().depth() != *depth {
                    bad(format!("depth {} before an event, expected {}", d.state().depth(), depth));
                }
                match d.next() {
                    Err(e) => bad(format!("serialization fails: {}", e)),
                    Ok(None) => {
                        if !want.is_empty() {
                            bad(format!("the stream ends before {}", show(want)));
                        }
                        *over = true;
                        ext_step(d.state());
                        return false;
                    }
                    Ok(Some((ev, _, st))) => {
                        let ev = Ev::of(&ev);
                        if want.first() != Some(&ev) {
                            bad(format!("event {:?}, expected {:?}", ev, want.first()));
                            return false;
                        }
                        *want = &want[1..];
                        track(&ev, depth);
                        if *path && *depth == 0 && !st.get::<Path>().segments().is_empty() {
                            bad("a path at the root".to_string());
                        }
                        touch(st);
                        if st.depth() != *depth {
                            bad(format!("depth {} with {:?}, expected {}", st.depth(), ev, depth));
                        }
                        return true;
                    }
                }
                false
            }
            Run::De { d, evs, depth, .. } => {
                ext_step(d.state());
                let Some((e, rest)) = evs.split_first() else { return false };
                if let Err(x) = d.emit(e.event()) {
                    bad(format!("refused: {}", x));
                    return false;
                }
                *evs = rest;
                track(e, depth);
                touch(d.state());
                if d.state().depth() != *depth {
                    bad(format!("depth {} after {:?}, expected {}", d.state().depth(), e, depth));
                }
                true
            }
        }
    }
    fn close(self) {
        let id = self.id();
        drop(self);
        forget(id);
    }
}

fn small_tree(rng: &mut Rng) -> T {
    let mut budget = *rng.pick(&[2, 5, 12]);
    gen::tree(rng, 4, &mut budget)
}

/// One driver from its begin to a random end.
fn whole(rng: &mut Rng) {
    let t = small_tree(rng);
    let evs = t.events();
    let cut = if rng.chance(1, 3) { rng.idx(evs.len() + 1) } else { usize::MAX };
    if rng.bool() {
        let v = value(&t);
        if rng.chance(1, 3) {
            let p = PathSerializable::wrap(&v);
            drive(ser(&p, &evs, true), cut);
        } else {
            drive(ser(&v, &evs, false), cut);
        }
    } else {
        let mut out = None::<V>;
        drive(de(&mut out, &evs), cut);
        judge(&out, &t, cut >= evs.len());
    }
}

fn judge(out: &Option<V>, t: &T, complete: bool) {
    if complete && !out.as_ref().is_some_and(|v| back(v) == *t) {
        let got = out.as_ref().map(|v| show(&back(v).events()));
        // NaN is not equal to itself only in the model of values, not here: A compares bits
        env(|e| e.problems.push(format!("the result is {:?}, expected {}", got, show(&t.events()))));
    }
    if !complete && out.is_some() {
        env(|e| e.problems.push("a result of an abandoned stream".into()));
    }
}

fn ser<'a>(v: &'a dyn Serialize, evs: &'a [Ev], path: bool) -> Run<'a> {
    Run::Ser { id: fresh_driver(), d: SerializeDriver::new(v), want: evs, depth: 0, path, over: false }
}

fn de<'a>(out: &'a mut Option<V>, evs: &'a [Ev]) -> Run<'a> {
    Run::De { id: fresh_driver(), d: DeserializeDriver::new(out), evs, depth: 0 }
}

fn drive(mut r: Run<'_>, cut: usize) {
    let mut n = 0;
    while n < cut && r.step() {
        n += 1;
    }
    r.close();
}

fn setup(rng: &mut Rng, nesting: bool) {
    probe::begin(0);
    let ext = Ext::new(Rng::new(rng.u64()));
    probe::with(|c| {
        c.on = false;
        c.ext = Some(ext)
    });
    let env = Env {
        rng: Rng::new(rng.u64()),
        nest: 0,
        nesting,
        nested: 0,
        threads: 0,
        problems: vec![],
    };
    ENV.with(|e| *e.borrow_mut() = Some(env));
}

fn teardown(case: Option<&mut Case>) -> Vec<String> {
    let env = ENV.with(|e| e.borrow_mut().take().unwrap());
    let ended = probe::end();
    let mut problems = env.problems;
    let x = ended.ext.as_ref().unwrap();
    problems.extend(x.errors.iter().take(2).cloned());
    problems.extend(ended.errors.iter().cloned());
    problems.truncate(4);
    if let Some(case) = case {
        case.count("extension accesses", x.ops);
        case.count("extension values", x.fresh);
        case.count("drivers in callbacks", env.nested);
        case.count("drivers on other threads", env.threads);
        let h = x.history;
        case.eval(Some(h));
    }
    problems
}

fn nested(case: &mut Case) {
    let mut rng = case.rng.clone();
    setup(&mut rng, true);
    for _ in 0..rng.range(1, 3) {
        whole(&mut rng);
    }
    for p in teardown(Some(case)) {
        case.violation(&p);
    }
}

/// Several drivers on one thread, advanced in a random order.
fn interleaved(case: &mut Case) {
    let mut rng = case.rng.clone();
    let nesting = rng.chance(1, 4);
    setup(&mut rng, nesting);
    {
        let n = rng.range(2, 6) as usize;
        let trees: Vec<T> = (0..n).map(|_| small_tree(&mut rng)).collect();
        let evs: Vec<Vec<Ev>> = trees.iter().map(|t| t.events()).collect();
        let values: Vec<V> = trees.iter().map(value).collect();
        let paths: Vec<_> = values.iter().map(|v| PathSerializable::wrap(v)).collect();
        let mut outs: Vec<Option<V>> = trees.iter().map(|_| None).collect();
        let mut done = vec![];
        {
            let mut runs: Vec<(usize, Run)> = vec![];
            for (i, out) in outs.iter_mut().enumerate() {
                let run = match rng.below(3) {
                    // two drivers may share one value
                    0 => ser(&values[rng.idx(i + 1)], &[], false),
                    1 => ser(&paths[i], &evs[i], true),
                    _ => de(out, &evs[i]),
                };
                let run = match run {
                    Run::Ser { id, path: false, depth, over, d: _, .. } => {
                        let k = rng.idx(n);
                        Run::Ser { id, d: SerializeDriver::new(&values[k]), want: &evs[k], depth, path: false, over }
                    }
                    r => r,
                };
                runs.push((i, run));
            }
            while !runs.is_empty() {
                let k = rng.idx(runs.len());
                let burst = rng.range(1, 3);
                let mut over = false;
                for _ in 0..burst {
                    if !runs[k].1.step() {
                        over = true;
                        break;
                    }
                }
                case.count("turns", 1);
                if over || rng.chance(1, 60) {
                    let (i, r) = runs.swap_remove(k);
                    let complete = match &r {
                        Run::De { evs, .. } => evs.is_empty(),
                        _ => false,
                    };
                    done.push((i, matches!(r, Run::De { .. }), complete));
                    r.close();
                }
            }
        }
        for (i, is_de, complete) in done {
            if is_de {
                judge(&outs[i], &trees[i], complete);
            }
        }
    }
    for p in teardown(Some(case)) {
        case.violation(&p);
    }
}

fn main() {
    let ctx = Ctx::new("C19");
    ctx.group("nested", ctx.n(6_000, 400_000), nested);
    ctx.group("interleaved", ctx.n(8_000, 500_000), interleaved);
    let j = Judge { ext: true, memory: true, ..Judge::default() };
    for (name, hazard, quick, thorough) in [
        ("complete", Hazard::None, 40_000, 2_000_000),
        ("abandon", Hazard::Cut, 20_000, 1_000_000),
        ("error", Hazard::Err, 20_000, 1_000_000),
        ("panic", Hazard::Panic, 10_000, 500_000),
    ] {
        for path in [false, true] {
            let tag = if path { "tracked " } else { "" };
            ctx.group(&format!("ser {}{}", tag, name), ctx.n(quick, thorough) / 2, |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::ser(case, &Opts { judge: j, hazard, depth, budget, path });
            });
            ctx.group(&format!("de {}{}", tag, name), ctx.n(quick, thorough) / 2, |case| {
                let (depth, budget) = work::sizes(&mut case.rng);
                work::de(case, &Opts { judge: j, hazard, depth, budget, path });
            });
        }
    }
    ctx.finish()
}
