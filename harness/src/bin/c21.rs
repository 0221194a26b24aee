//! C21: events, atoms and errors say what they were made from.
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, Serialize, SerializeDriver, SerializerState};
use deser::{Atom, Error, ErrorKind, Event};
use deser_path::PathSink;
use mon::drive::*;
use mon::gen::{self, Gen};
use mon::model::*;
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::Zoo;
use std::borrow::Cow;
use std::error::Error as _;

// ---------------------------------------------------------------- conversions and copies

fn chunk(c: Chunk) -> Option<A> {
    match c {
        Chunk::Atom(a) => Some(A::of(&a)),
        _ => None,
    }
}

fn noun(a: &A) -> &'static str {
    match a {
        A::Null => "null",
        A::Bool(_) => "bool",
        A::Str(_) => "string",
        A::Bytes(_) => "bytes",
        A::Char(_) => "char",
        A::U64(_) => "unsigned integer",
        A::I64(_) => "signed integer",
        A::F64(_) => "float",
    }
}

/// All ways to make an event or a chunk of the value.
fn made(a: &A) -> Vec<(&'static str, Option<A>)> {
    let ev = |e: Event| match Ev::of(&e) {
        Ev::Atom(a) => Some(a),
        _ => None,
    };
    let mut v = vec![
        ("Event::from(Atom)", ev(Event::from(a.atom()))),
        ("Chunk::from(Atom)", chunk(Chunk::from(a.atom()))),
    ];
    match a {
        A::Null => {
            v.push(("Event::from(())", ev(().into())));
            v.push(("Chunk::from(())", chunk(().into())));
        }
        A::Bool(x) => {
            v.push(("Event::from(bool)", ev((*x).into())));
            v.push(("Chunk::from(bool)", chunk((*x).into())));
        }
        A::Char(x) => {
            v.push(("Event::from(char)", ev((*x).into())));
            v.push(("Chunk::from(char)", chunk((*x).into())));
        }
        A::U64(x) => {
            v.push(("Event::from(u64)", ev((*x).into())));
            v.push(("Chunk::from(u64)", chunk((*x).into())));
            v.push(("Event::from(usize)", ev((*x as usize).into())));
            v.push(("Chunk::from(usize)", chunk((*x as usize).into())));
        }
        A::I64(x) => {
            v.push(("Event::from(i64)", ev((*x).into())));
            v.push(("Chunk::from(i64)", chunk((*x).into())));
            v.push(("Event::from(isize)", ev((*x as isize).into())));
            v.push(("Chunk::from(isize)", chunk((*x as isize).into())));
        }
        A::F64(x) => {
            v.push(("Event::from(f64)", ev((*x).into())));
            v.push(("Chunk::from(f64)", chunk((*x).into())));
        }
        A::Str(x) => {
            v.push(("Event::from(&str)", ev(x.as_str().into())));
            v.push(("Chunk::from(&str)", chunk(x.as_str().into())));
            v.push(("Event::from(String)", ev(x.clone().into())));
            v.push(("Chunk::from(String)", chunk(x.clone().into())));
            v.push(("Event::from(Cow::Borrowed)", ev(Cow::Borrowed(x.as_str()).into())));
            v.push(("Event::from(Cow::Owned)", ev(Cow::<str>::Owned(x.clone()).into())));
        }
        A::Bytes(x) => {
            v.push(("Event::from(&[u8])", ev(x.as_slice().into())));
            v.push(("Chunk::from(&[u8])", chunk(x.as_slice().into())));
        }
    }
    v
}

/// An atom that owns what it can own.
fn owned(a: &A) -> Atom<'static> {
    match a {
        A::Str(x) => Atom::Str(Cow::Owned(x.clone())),
        A::Bytes(x) => Atom::Bytes(Cow::Owned(x.clone())),
        A::Null => Atom::Null,
        A::Bool(x) => Atom::Bool(*x),
        A::Char(x) => Atom::Char(*x),
        A::U64(x) => Atom::U64(*x),
        A::I64(x) => Atom::I64(*x),
        A::F64(x) => Atom::F64(*x),
    }
}

fn conversions(case: &mut Case) {
    let mut r = case.rng.clone();
    let a = gen::atom(&mut r);
    case.eval(Some(fingerprint(&[Ev::Atom(a.clone())])));
    case.count(&format!("atoms of kind {}", a.kind()), 1);
    for (how, got) in made(&a) {
        case.check(got.as_ref() == Some(&a), || format!("{} of {:?} is {:?}", how, a, got));
    }
    let nan = matches!(a, A::F64(x) if x.is_nan());
    // copies that outlive their source
    for own in [false, true] {
        let copies: Vec<(&str, Atom<'static>)> = {
            let src = a.clone();
            let atom = if own { owned(&src) } else { src.atom() };
            let event = Event::Atom(if own { owned(&src) } else { src.atom() });
            let same = atom.to_static();
            case.check(nan || (same == atom && atom == same && event.to_static() == event), || {
                format!("a copy of {:?} is not equal to it", atom)
            });
            let inner = |e: Event<'static>| match e {
                Event::Atom(a) => a,
                e => panic!("{:?}", e),
            };
            vec![
                ("Atom::to_static", same),
                ("Event::to_static", inner(event.to_static())),
                ("a copy of a clone", atom.clone().to_static()),
                ("a clone of a copy", inner(event.clone().to_static().clone())),
                ("a copy of a copy", atom.to_static().to_static()),
            ]
        };
        for (how, c) in copies {
            case.check(A::of(&c) == a, || format!("{} of {:?} is {:?}", how, a, c));
            case.check(c.name() == noun(&a), || format!("{:?} is called {:?}", c, c.name()));
        }
    }
    for e in [Ev::MapStart, Ev::MapEnd, Ev::SeqStart, Ev::SeqEnd] {
        case.check(Ev::of(&e.event().to_static()) == e && e.event() != Event::Atom(a.atom()), || {
            format!("the copy of {:?} is {:?}", e, e.event().to_static())
        });
    }
    // atoms are equal exactly if kind and content are
    let b = if r.bool() { gen::atom(&mut r) } else { a.clone() };
    let floats_equal = match (&a, &b) {
        (A::F64(x), A::F64(y)) => x == y,
        _ => a == b,
    };
    case.check((a.atom() == b.atom()) == floats_equal, || {
        format!("{:?} == {:?} is {}", a, b, a.atom() == b.atom())
    });
    let want = gen::string(&mut r);
    let e = a.atom().unexpected_error(&want);
    case.check(
        e.kind() == ErrorKind::Unexpected && e.to_string() == format!("Unexpected: unexpected {}, expected {}", noun(&a), want),
        || format!("the error about {:?} where {:?} is expected is {}", a, want, e),
    );
}

// ---------------------------------------------------------------- error values

#[derive(Debug)]
struct Cause(u64, Option<Box<Cause>>);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "cause {}", self.0)
    }
}
impl std::error::Error for Cause {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|x| &**x as _)
    }
}

fn crosses_threads<T: Send + Sync + 'static>(_: &T) {}

fn errors(case: &mut Case) {
    let mut r = case.rng.clone();
    let kinds = [
        (ErrorKind::UnsupportedType, "UnsupportedType"),
        (ErrorKind::Unexpected, "Unexpected"),
        (ErrorKind::MissingField, "MissingField"),
        (ErrorKind::OutOfRange, "OutOfRange"),
        (ErrorKind::WrongLength, "WrongLength"),
        (ErrorKind::EndOfFile, "EndOfFile"),
    ];
    let (kind, name) = *r.pick(&kinds);
    let msg = gen::string(&mut r);
    let text = format!("{}: {}", name, msg);
    case.eval(Some(hash_bytes(text.as_bytes())));
    let e = if r.bool() { Error::new(kind, msg.clone()) } else { Error::new(kind, Cow::Owned::<str>(msg.clone())) };
    crosses_threads(&e);
    case.check(e.kind() == kind && e.to_string() == text && e.source().is_none(), || {
        format!("{:?} made of {:?} {:?}", e, kind, msg)
    });
    for (k, _) in kinds {
        case.check((k == e.kind()) == (k == kind), || format!("{:?} == {:?}", k, kind));
    }
    // chains of causes of any length and of both kinds
    let n = r.below(6);
    let mut want = vec![];
    let mut e = e;
    for i in 0..n {
        let (k2, name2) = *r.pick(&kinds);
        if r.bool() {
            // becomes the cause of a new error
            want.insert(0, e.to_string());
            e = Error::new(k2, format!("level {}", i)).with_source(e);
            case.check(e.kind() == k2 && e.to_string() == format!("{}: level {}", name2, i), || format!("{:?}", e));
        } else {
            // another cause takes the place of the one before
            let text = e.to_string();
            let id = r.u64();
            e = e.with_source(Cause(id, Some(Box::new(Cause(7, None)))));
            want = vec![format!("cause {}", id), "cause 7".to_string()];
            let found = e.source().and_then(|s| s.downcast_ref::<Cause>()).map(|c| c.0);
            case.check(found == Some(id) && e.to_string() == text, || format!("{:?} with cause {}", e, id));
        }
    }
    let mut got = vec![];
    let mut s = e.source();
    while let Some(x) = s {
        got.push(x.to_string());
        s = x.source();
    }
    case.count("causes", got.len() as u64);
    case.check(got == want, || format!("the causes of {:?} are {:?}, expected {:?}", e, got, want));
}

// ---------------------------------------------------------------- streams

/// Events can be passed on as they come, or kept and passed on later.
struct Replay;

impl TypeCheck for Replay {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let budget = *r.pick(&[4, 10, 30, 100]);
        let v = T::arb(&mut Gen { r: &mut r, budget, json: false });
        let mut kept: Vec<Event<'static>> = vec![];
        let mut seen: Vec<Ev> = vec![];
        let mut live = None::<T>;
        let live_err = {
            let mut source = SerializeDriver::new(&v);
            let mut target = DeserializeDriver::new(&mut live);
            loop {
                match source.next() {
                    Ok(Some((e, _, _))) => {
                        seen.push(Ev::of(&e));
                        kept.push(e.to_static());
                        if let Err(e) = target.emit(e) {
                            break Some(e);
                        }
                    }
                    Ok(None) => break None,
                    Err(e) => break Some(e),
                }
            }
        };
        let fp = fingerprint(&seen) ^ hash_bytes(case.label.as_bytes());
        case.eval(Some(fp));
        case.count("events passed on", seen.len() as u64);
        case.sample(|| show(&seen));
        // not every type reads what it writes, but it does not matter when it reads it
        let text = show(&seen);
        if T::RT {
            case.check(live_err.is_none() && live.as_ref().is_some_and(|x| v.same(x)), || {
                format!("events passed on as they came do not give the value: {:?} {}", live_err, text)
            });
        }
        // the value is gone when its events are used
        drop(v);
        let again: Vec<Ev> = kept.iter().map(Ev::of).collect();
        case.check(again == seen, || format!("kept events are {}, they were {}", show(&again), text));
        let mut out = None::<T>;
        let err = {
            let mut d = DeserializeDriver::new(&mut out);
            kept.into_iter().try_for_each(|e| d.emit(e)).err()
        };
        let same = match (&live, &out) {
            (Some(a), Some(b)) => a.eqv(b),
            (None, None) => true,
            _ => false,
        };
        case.check(same && err.as_ref().map(|e| e.to_string()) == live_err.as_ref().map(|e| e.to_string()), || {
            format!("kept events {} end with {:?}, passed on at once with {:?}", text, err, live_err)
        });
    }
}

/// The message of an unexpected event names it and what the sink wants instead.
struct Messages;

impl TypeCheck for Messages {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        for round in 0..10 {
            let ev = match round {
                0 => Ev::MapStart,
                1 => Ev::SeqStart,
                _ => Ev::Atom(gen::atom(&mut r)),
            };
            let mut slot = None::<T>;
            let expecting = T::deserialize_into(&mut slot).expecting().to_string();
            let described = D::of(T::deserialize_into(&mut slot).descriptor()).name;
            case.check(described.is_none_or(|d| d == expecting), || format!("expects {:?}", expecting));
            let f = feed::<T>(std::slice::from_ref(&ev));
            case.eval(Some(fingerprint(std::slice::from_ref(&ev)) ^ hash_bytes(case.label.as_bytes())));
            let what = match &ev {
                Ev::MapStart => "map",
                Ev::SeqStart => "sequence",
                Ev::Atom(a) => noun(a),
                _ => unreachable!(),
            };
            if let Some((e, _)) = f.err {
                // strings may also be refused for what they say
                let content = matches!(ev, Ev::Atom(A::Str(_))) && !e.to_string().contains(" string, ");
                if e.kind() == ErrorKind::Unexpected && !content {
                    case.count("refused as unexpected", 1);
                    let want = format!("Unexpected: unexpected {}, expected {}", what, expecting);
                    case.check(e.to_string() == want, || format!("{:?} fails with {:?}, expected {:?}", ev, e.to_string(), want));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- provided methods

/// A sink that relies on what `Sink` provides.
struct Plain;
impl Sink for Plain {}

/// Accepts the start of containers, but says nothing about their content.
struct Open<'a>(&'a mut Vec<String>, Option<&'static str>);
impl<'a> Sink for Open<'a> {
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.0.push("map".into());
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.0.push("seq".into());
        Ok(())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.0.push("finish".into());
        Ok(())
    }
    fn expecting(&self) -> Cow<'_, str> {
        match self.1 {
            Some(x) => x.into(),
            None => Plain.expecting().to_string().into(),
        }
    }
}

/// Puts all atoms it gets aside, and opens nothing.
struct Atoms<'a>(&'a mut Vec<A>);
impl<'a> Sink for Atoms<'a> {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        match a {
            Atom::U64(_) => self.unexpected_atom(a, st),
            a => {
                self.0.push(A::of(&a));
                Ok(())
            }
        }
    }
}

struct Name;
impl deser::Descriptor for Name {
    fn name(&self) -> Option<&str> {
        Some("a name")
    }
}

/// Sinks that are described, say what they expect, or both.
struct Named;
impl Sink for Named {
    fn descriptor(&self) -> &dyn deser::Descriptor {
        &Name
    }
}
struct Saying(String);
impl Sink for Saying {
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Borrowed(&self.0)
    }
}
struct Both(String);
impl Sink for Both {
    fn descriptor(&self) -> &dyn deser::Descriptor {
        &Name
    }
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Owned(self.0.clone())
    }
}

struct Unit(Vec<u8>);
impl Serialize for Unit {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(Chunk::from(&self.0[..]))
    }
}

fn provided(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut b = 20;
    let t = gen::tree(&mut r, 5, &mut b);
    let t = if r.chance(1, 20) { gen::deep(&mut r, t) } else { t };
    let evs = t.events();
    case.eval(Some(fingerprint(&evs)));
    let what = match &evs[0] {
        Ev::MapStart => "map",
        Ev::SeqStart => "sequence",
        Ev::Atom(a) => noun(a),
        _ => unreachable!(),
    };
    let plain = |x: &str| format!("Unexpected: unexpected {}, expected {}", what, x);
    // everything is unexpected for a sink that does not override anything
    for boxed in [false, true] {
        let mut p = Plain;
        let handle = if boxed { SinkHandle::boxed(Plain) } else { SinkHandle::to(&mut p) };
        case.check(handle.descriptor().name().is_none(), || "a plain sink describes itself".into());
        let err = feed_sink(handle, &evs);
        case.check(err.as_ref().is_some_and(|(e, at)| *at == 0 && e.to_string() == plain("compatible type")), || {
            format!("a plain sink makes {:?} of {}", err, show(&evs))
        });
    }
    let said = gen::string(&mut r);
    let sinks: [(SinkHandle, &str); 5] = [
        (SinkHandle::boxed(Named), "a name"),
        (SinkHandle::boxed(Saying(said.clone())), &said),
        (SinkHandle::boxed(Both(said.clone())), &said),
        (SinkHandle::boxed(PathSink::wrap_ref(SinkHandle::boxed(Both(said.clone())))), &said),
        (SinkHandle::boxed(PathSink::wrap_ref(SinkHandle::boxed(Named))), "a name"),
    ];
    for (i, (handle, want)) in sinks.into_iter().enumerate() {
        case.check(handle.expecting() == want, || format!("sink {} expects {:?}", i, handle.expecting()));
        let err = feed_sink(handle, &evs);
        case.check(err.as_ref().is_some_and(|(e, at)| *at == 0 && e.to_string() == plain(want)), || {
            format!("sink {} makes {:?} of {}, expected {:?}", i, err, show(&evs), plain(want))
        });
    }
    // the null handle takes everything
    let err = feed_sink(SinkHandle::null(), &evs);
    case.check(err.is_none(), || format!("the null handle makes {:?} of {}", err, show(&evs)));
    // containers whose content nobody asks for
    let mut told = vec![];
    let named = r.bool();
    let err = feed_sink(SinkHandle::boxed(Open(&mut told, if named { Some("a container") } else { None })), &evs);
    match &t {
        T::A(_) => {
            let want = plain(if named { "a container" } else { "compatible type" });
            case.check(err.as_ref().is_some_and(|(e, _)| e.to_string() == want) && told.is_empty(), || {
                format!("{:?} {:?}, expected {}", err, told, want)
            })
        }
        T::Seq(_) => case.check(err.is_none() && told == ["seq", "finish"], || format!("{:?} {:?} of {}", err, told, show(&evs))),
        T::Map(_) => case.check(err.is_none() && told == ["map", "finish"], || format!("{:?} {:?} of {}", err, told, show(&evs))),
    };
    let mut got = vec![];
    let err = feed_sink(SinkHandle::boxed(Atoms(&mut got)), &evs);
    match &evs[0] {
        Ev::Atom(a) if !matches!(a, A::U64(_)) => {
            case.check(err.is_none() && got == [a.clone()], || format!("{:?} {:?} of {:?}", err, got, a))
        }
        _ => case.check(err.as_ref().is_some_and(|(e, _)| e.to_string() == plain("compatible type")) && got.is_empty(), || {
            format!("{:?} {:?} of {}", err, got, show(&evs))
        }),
    };
    // and what `Serialize` provides
    let u = Unit(gen::bytes(&mut r));
    let run = ser_run(&u, 10);
    case.check(
        run.err.is_none()
            && run.trace.len() == 1
            && run.trace[0].ev == Ev::Atom(A::Bytes(u.0.clone()))
            && run.trace[0].d == D::default()
            && !u.is_optional(),
        || format!("a plain value gives {:?}", run.trace),
    );
}

fn main() {
    let ctx = Ctx::new("C21");
    ctx.group("conversions", ctx.n(300_000, 20_000_000), conversions);
    ctx.group("errors", ctx.n(100_000, 5_000_000), errors);
    ctx.group("provided", ctx.n(60_000, 4_000_000), provided);
    let t = table::table::<Messages>();
    table::run(ctx, "messages", &t, ctx.n(60, 4000));
    let t = table::table::<Replay>();
    table::run(ctx, "replay", &t, ctx.n(1500, 60_000));
    ctx.finish()
}
