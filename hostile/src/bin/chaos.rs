//! Random executions of the hostile values; see lib.rs.
//! usage: chaos SEED FIRST STEP COUNT SECONDS [GROUP]
use deser::de::{Deserialize, DeserializeDriver, OwnedSink, SinkHandle};
use deser::ser::{Serialize, SerializeDriver, SerializeHandle};
use deser_path::{PathSerializable, PathSink};
use hostile::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Full,
    Cut,
    Err,
    Panic,
    Drop,
    Continue,
    Extra,
}

const MODES: [Mode; 8] = [
    Mode::Full,
    Mode::Cut,
    Mode::Cut,
    Mode::Err,
    Mode::Panic,
    Mode::Drop,
    Mode::Continue,
    Mode::Extra,
];

fn arm(r: &mut Rng, mode: Mode, len: u64) {
    let at = 1 + r.below(len + len / 2 + 2);
    match mode {
        Mode::Err | Mode::Continue => reset(r.u64(), at, false, 0),
        Mode::Panic => reset(r.u64(), at, true, 0),
        Mode::Drop => reset(r.u64(), 0, false, at),
        _ => reset(r.u64(), 0, false, 0),
    }
}

fn caught(f: impl FnOnce()) {
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        let text = match p.downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => p.downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        if text.contains("UNSOUND") {
            println!("UNSOUND {}", text);
            std::process::exit(3);
        }
    }
}

fn go(d: &mut DeserializeDriver, evs: &[E], cut: usize, mode: Mode, r: &mut Rng) {
    let mut bad = 0;
    for e in evs.iter().take(cut) {
        expect(e.kind());
        if mode == Mode::Extra && r.chance(1, 8) {
            let x = [E::MapEnd, E::SeqEnd, E::Seq, E::Map, E::U(1)][r.below(5) as usize];
            if !matches!(catch_unwind(AssertUnwindSafe(|| d.emit(x.event()))), Ok(Ok(()))) {
                bad += 1;
            }
        }
        let ok = match mode {
            // even after a panic
            Mode::Continue | Mode::Extra => {
                matches!(catch_unwind(AssertUnwindSafe(|| d.emit(e.event()))), Ok(Ok(())))
            }
            _ => d.emit(e.event()).is_ok(),
        };
        if !ok {
            bad += 1;
            if bad > 6 || !matches!(mode, Mode::Continue | Mode::Extra) {
                break;
            }
        }
        let st = d.state();
        eat(st.depth() as u64);
        if let Some(x) = st.top_descriptor() {
            look_desc(x);
        }
    }
}

fn feed<T: Deserialize>(r: &mut Rng, evs: &[E], cut: usize, mode: Mode, owned: bool) -> Option<T> {
    let how = if owned { r.below(4) } else { 1 + r.below(3) };
    let mut out = None::<T>;
    caught(|| match how {
        0 => {
            let mut o = OwnedSink::<T>::deserialize();
            {
                let mut d = DeserializeDriver::from_sink(SinkHandle::to(o.borrow_mut()));
                go(&mut d, evs, cut, mode, r);
            }
            let mut x = o.take();
            // a sink that was taken from is used again
            while r.below(2) == 0 {
                {
                    let mut d = DeserializeDriver::from_sink(SinkHandle::to(o.borrow_mut()));
                    go(&mut d, evs, cut, mode, r);
                }
                if r.below(4) > 0 {
                    x = o.take();
                }
            }
            drop(o);
            out = x;
        }
        1 => {
            let sink = SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out)));
            go(&mut DeserializeDriver::from_sink(sink), evs, cut, mode, r);
        }
        2 => {
            let mut handle = T::deserialize_into(&mut out);
            {
                let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut *handle));
                go(&mut d, evs, cut, mode, r);
            }
            drop(handle);
        }
        _ => go(&mut DeserializeDriver::new(&mut out), evs, cut, mode, r),
    });
    calm();
    out
}

/// Types with callbacks in them.
fn de(r: &mut Rng) {
    let mode = MODES[r.below(8) as usize];
    let mut evs = vec![];
    let depth = 1 + r.below(3);
    let which = r.below(14);
    let (map, seq) = (matches!(which, 3 | 6 | 7), matches!(which, 2 | 4 | 5 | 8));
    let mut tries = 0;
    loop {
        evs.clear();
        stream(r, depth, &mut evs);
        tries += 1;
        let fits = match evs[0] {
            E::Map => !seq,
            E::Seq => !map,
            _ => !map && !seq,
        };
        if (fits && evs.len() > 1 && evs.len() < 40) || tries > 20 {
            break;
        }
    }
    evs.truncate(40);
    let cut = if mode == Mode::Cut { r.below(evs.len() as u64) as usize } else { usize::MAX };
    arm(r, mode, 2 * evs.len() as u64);
    macro_rules! run {
        ($t:ty, $owned:expr) => {{
            let v: Option<$t> = feed::<$t>(r, &evs, cut, mode, $owned);
            eat(v.is_some() as u64);
            drop(v);
        }};
    }
    match which {
        0 => run!(V, true),
        1 => run!(Option<Box<V>>, true),
        2 => run!(Vec<W>, true),
        3 => run!(std::collections::BTreeMap<W, Vec<V>>, true),
        4 => run!([W; 2], true),
        5 => run!((W, Box<V>), true),
        6 => run!(Rec, true),
        7 => run!(Option<Box<Rec>>, true),
        8 => run!([Option<W>; 3], true),
        9 => run!(New, true),
        10 => run!(W, true),
        11 => run!(Option<W>, true),
        12 => run!(Box<Option<W>>, true),
        _ => run!(Option<Box<W>>, true),
    }
}

fn drive(v: &dyn Serialize, cut: u64, mode: Mode) {
    let mut d = SerializeDriver::new(v);
    let (mut n, mut bad) = (0, 0);
    while n < cut && n < 200 {
        n += 1;
        let rv = catch_unwind(AssertUnwindSafe(|| match d.next() {
            Ok(Some((e, desc, st))) => {
                look_event(&e);
                look_desc(desc);
                eat(st.depth() as u64);
                if let Some(x) = st.top_descriptor() {
                    look_desc(x);
                }
                Some(true)
            }
            Ok(None) => None,
            Err(_) => Some(false),
        }));
        match rv {
            Ok(Some(true)) => {}
            Ok(Some(false)) | Err(_) => {
                bad += 1;
                if mode != Mode::Continue || bad > 3 {
                    break;
                }
            }
            Ok(None) => break,
        }
    }
}

fn ser(r: &mut Rng) {
    let mode = MODES[r.below(7) as usize];
    reset(1, 0, false, 0);
    let depth = 1 + r.below(3);
    let v = V::random(r, depth);
    let cut = if mode == Mode::Cut { r.below(25) } else { u64::MAX };
    let which = r.below(7);
    arm(r, mode, 30);
    caught(|| match which {
        0 => drive(&PathSerializable::wrap(&v), cut, mode),
        1 => drive(&PathSerializable::wrap_ref(SerializeHandle::boxed(&v)), cut, mode),
        2 => drive(&vec![&v, &v], cut, mode),
        3 => drive(&Some(Box::new(&v)), cut, mode),
        4 => drive(&(&v, [&v]), cut, mode),
        _ => drive(&v, cut, mode),
    });
    calm();
    drop(v);
}

/// Derived values: made from a stream, then serialized.
fn derived(r: &mut Rng) {
    let mut evs = vec![];
    while evs.len() < 3 || !matches!(evs[0], E::Map) || evs.len() > 40 {
        evs.clear();
        stream(r, 2, &mut evs);
    }
    reset(r.u64(), 0, false, 0);
    let mut out = None::<Rec>;
    {
        let mut d = DeserializeDriver::new(&mut out);
        for e in &evs {
            expect(e.kind());
            if d.emit(e.event()).is_err() {
                break;
            }
        }
    }
    if let Some(v) = out {
        let mode = MODES[r.below(7) as usize];
        let cut = if mode == Mode::Cut { r.below(25) } else { u64::MAX };
        arm(r, mode, 30);
        caught(|| drive(&v, cut, mode));
        calm();
        caught(|| drop(deser_json::to_string(&v)));
        caught(|| drop(format!("{:?}", deser_debug::ToDebug::new(&v))));
        println!("+derived");
    }
}

const PIECES: &[&[u8]] = &[
    b"{", b"}", b"[", b"]", b",", b":", b"\"k0\"", b"\"k2\"", b"\"a\\n\"", b"\"\\u00e9x\"", b"1", b"-2.5e3", b"null",
    b"true", b" ", b"\"\xc3\xa9\"", b"\"\xff\"", b"\"\\ud83d\\ude00\"", b"\"", b"\\",
];

fn doc(r: &mut Rng, depth: u64, o: &mut Vec<u8>) {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => o.extend_from_slice(b"12"),
        1 => o.extend_from_slice(b"\"x\\u00e9\xc3\xa9\\n\""),
        2 => o.extend_from_slice(b"null"),
        3 => o.extend_from_slice(b"-1.5"),
        4 => o.extend_from_slice(b"\"plain\""),
        5 => {
            o.push(b'[');
            for i in 0..r.below(3) {
                if i > 0 {
                    o.push(b',');
                }
                doc(r, depth - 1, o);
            }
            o.push(b']');
        }
        _ => {
            o.push(b'{');
            for i in 0..r.below(3) {
                if i > 0 {
                    o.push(b',');
                }
                o.extend_from_slice([&b"\"k0\":"[..], b"\"k1\":", b"\"k\\u0032\":", b"\"k3\":", b"\"z\\n\":"][r.below(5) as usize]);
                doc(r, depth - 1, o);
            }
            o.push(b'}');
        }
    }
}

fn read<T: Deserialize>(r: &mut Rng, b: &[u8]) {
    let b = b.to_vec().into_boxed_slice();
    let text = r.chance(1, 2);
    caught(|| {
        let x = match std::str::from_utf8(&b) {
            Ok(s) if text => deser_json::from_str::<T>(s).is_ok(),
            _ => deser_json::Deserializer::new(&b).deserialize::<T>().is_ok(),
        };
        eat(x as u64);
    });
    calm();
}

fn json(r: &mut Rng) {
    let mut b = vec![];
    if r.chance(2, 3) {
        doc(r, 2, &mut b);
        for _ in 0..r.below(3) {
            let i = r.below(b.len() as u64 + 1) as usize;
            match r.below(3) {
                0 => b.truncate(i),
                1 => {
                    let p = PIECES[r.below(PIECES.len() as u64) as usize];
                    b.splice(i..i, p.iter().copied());
                }
                _ => {
                    if i < b.len() {
                        b[i] = r.u64() as u8
                    }
                }
            }
        }
    } else {
        for _ in 0..r.below(7) {
            b.extend_from_slice(PIECES[r.below(PIECES.len() as u64) as usize]);
        }
    }
    let mode = MODES[r.below(6) as usize];
    arm(r, mode, 10);
    match r.below(6) {
        0 | 1 => read::<V>(r, &b),
        2 => read::<Rec>(r, &b),
        3 => read::<Vec<V>>(r, &b),
        4 => {
            let x = deser_json::Deserializer::new(&b).deserialize::<String>();
            if let Ok(s) = x {
                look_atom(&deser::Atom::Str(s.into()));
            }
        }
        _ => {
            let x = deser_json::Deserializer::new(&b).deserialize::<std::collections::BTreeMap<String, String>>();
            if let Ok(m) = x {
                for (k, v) in m {
                    look_atom(&deser::Atom::Str(k.into()));
                    look_atom(&deser::Atom::Str(v.into()));
                }
            }
        }
    }
}

/// Writing: text that is valid UTF-8, and interrupted formatting.
fn text(r: &mut Rng) {
    struct Stop(usize);
    impl std::fmt::Write for Stop {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            look(s.as_bytes());
            if self.0 == 0 {
                return Err(std::fmt::Error);
            }
            self.0 -= 1;
            Ok(())
        }
    }
    reset(1, 0, false, 0);
    let v = V::random(r, 2);
    let s: Vec<String> = vec!["\u{e9}\u{1f600}\n\u{1}\"\\".into(), "k".into()];
    caught(|| {
        use std::fmt::Write;
        if let Ok(s) = deser_json::to_string(&v) {
            look_atom(&deser::Atom::Str(s.into()));
        }
        if let Ok(s) = deser_json::to_string(&s) {
            look_atom(&deser::Atom::Str(s.into()));
        }
        if let Ok(s) = deser_json::to_string(&(1.5f64, 'x', -3i8, u64::MAX, true)) {
            look_atom(&deser::Atom::Str(s.into()));
        }
        let d = deser_debug::ToDebug::new(&v);
        look_atom(&deser::Atom::Str(format!("{:#?}", d).into()));
        let _ = write!(Stop(r.below(8) as usize), "{:?}", d);
        drop(d);
    });
}

/// The same value on several threads, each with drivers of its own.
fn threads(r: &mut Rng) {
    reset(1, 0, false, 0);
    let v = V::random(r, 2);
    let seed = r.u64();
    std::thread::scope(|s| {
        for i in 0..3 {
            let v = &v;
            s.spawn(move || {
                let mut r = Rng::new(seed, i);
                reset(r.u64(), 0, false, 0);
                if i % 2 == 1 {
                    std::thread::yield_now();
                }
                drive(v, u64::MAX, Mode::Full);
                let _ = deser_json::to_string(v);
                de(&mut r);
            });
        }
    });
}

#[derive(Debug, Clone, PartialEq, deser::Serialize, deser::Deserialize)]
struct Byte(u8);
#[derive(Debug, Clone, PartialEq, deser::Serialize, deser::Deserialize)]
struct Flag(bool);
#[derive(Debug, Clone, PartialEq, deser::Serialize, deser::Deserialize)]
enum Kind {
    A,
    B,
    C,
}
#[derive(Debug, Clone, PartialEq, deser::Serialize, deser::Deserialize)]
struct Plain {
    a: Vec<bool>,
    #[deser(default)]
    b: [char; 2],
}

/// Types of the library alone: whatever comes out of them has to be a value of the type, and all
/// of it has to be there.
fn plain(r: &mut Rng) {
    use deser::{Atom, Event};
    use std::collections::*;
    fn atom(r: &mut Rng, small: bool) -> Event<'static> {
        Event::Atom(match r.below(9) {
            0 => Atom::Bool(r.chance(1, 2)),
            1 => Atom::Char(['x', '\u{e9}', '\u{10ffff}'][r.below(3) as usize]),
            2 => Atom::Str(["A", "B", "C", "x", "", "\u{1f600}"][r.below(6) as usize].into()),
            3 => Atom::I64(r.u64() as i64 >> r.below(64)),
            4 => Atom::Null,
            5 => Atom::F64(0.5),
            6 => Atom::Bytes((0..r.below(10)).map(|_| r.u64() as u8).collect::<Vec<_>>().into()),
            _ if small => Atom::U64(r.below(3)),
            _ => Atom::U64(r.u64() >> r.below(64)),
        })
    }
    fn one<T: Deserialize + Serialize + std::fmt::Debug>(r: &mut Rng, depth: u64, kind: u64) {
        let mut evs: Vec<Event> = vec![];
        let len = [0, 1, 2, 2, 3, 4, 9][r.below(7) as usize];
        match r.below(5) {
            // the values of one kind, so that something is accepted
            0 | 1 => {
                for _ in 0..depth {
                    evs.push(Event::SeqStart);
                }
                for _ in 0..len {
                    evs.push(match kind {
                        0 => r.chance(1, 2).into(),
                        1 => 'y'.into(),
                        2 => Event::Atom(Atom::Str(["A", "B", "C"][r.below(3) as usize].into())),
                        3 => Event::Atom(Atom::Null),
                        _ => r.below(128).into(),
                    });
                }
                for _ in 0..depth {
                    evs.push(Event::SeqEnd);
                }
            }
            // bytes where there could be a sequence
            2 | 3 => {
                for _ in 1..depth {
                    evs.push(Event::SeqStart);
                }
                for _ in 0..if depth > 1 { 1 + r.below(3) } else { 1 } {
                    let mask = [1, 3, 255][r.below(3) as usize];
                    let n = if r.chance(1, 2) { len } else { 4 * len };
                    evs.push(Event::Atom(Atom::Bytes((0..n).map(|_| (r.u64() & mask) as u8).collect::<Vec<_>>().into())));
                }
                for _ in 1..depth {
                    evs.push(Event::SeqEnd);
                }
            }
            _ => {
                let seq = r.chance(2, 3);
                evs.push(if seq { Event::SeqStart } else { Event::MapStart });
                for _ in 0..len {
                    evs.push(atom(r, true));
                    if !seq {
                        evs.push(atom(r, false));
                    }
                }
                evs.push(if seq { Event::SeqEnd } else { Event::MapEnd });
            }
        }
        let mut out = None::<T>;
        {
            let cut = if r.chance(1, 6) { r.below(evs.len() as u64 + 1) as usize } else { evs.len() };
            let mut d = DeserializeDriver::new(&mut out);
            for e in evs.into_iter().take(cut) {
                if catch_unwind(AssertUnwindSafe(|| d.emit(e))).map_or(true, |x| x.is_err()) {
                    break;
                }
            }
        }
        if let Some(v) = out {
            look(format!("{:?}", v).as_bytes());
            caught(|| drive(&v, u64::MAX, Mode::Full));
            caught(|| drive(&Some(&v), u64::MAX, Mode::Full));
            eat(77);
        }
    }
    reset(1, 0, false, 0);
    macro_rules! types {
        ($($n:literal: $t:ty, $depth:literal, $kind:literal;)*) => {
            match r.below([$($n),*].len() as u64) {
                $($n => one::<$t>(r, $depth, $kind),)*
                _ => unreachable!(),
            }
        };
    }
    types! {
        0: Vec<bool>, 1, 0;
        1: [bool; 3], 1, 0;
        2: [bool; 1], 1, 0;
        3: Vec<char>, 1, 1;
        4: [char; 2], 1, 1;
        5: Vec<i8>, 1, 4;
        6: [i8; 4], 1, 4;
        7: Vec<u16>, 1, 4;
        8: [u16; 2], 1, 4;
        9: Vec<u32>, 1, 4;
        10: [u64; 2], 1, 4;
        11: Vec<()>, 1, 3;
        12: [(); 3], 1, 3;
        13: Vec<Option<u8>>, 1, 4;
        14: [Option<bool>; 2], 1, 0;
        15: Vec<[u8; 2]>, 2, 4;
        16: [[u8; 2]; 2], 2, 4;
        17: Vec<Vec<u8>>, 2, 4;
        18: Vec<Byte>, 1, 4;
        19: [Byte; 2], 1, 4;
        20: Vec<Flag>, 1, 0;
        21: [Flag; 3], 1, 0;
        22: Vec<Kind>, 1, 2;
        23: [Kind; 2], 1, 2;
        24: Vec<Box<u8>>, 1, 4;
        25: [Box<u8>; 2], 1, 4;
        26: Vec<String>, 1, 2;
        27: [String; 2], 1, 2;
        28: Vec<(u8,)>, 2, 4;
        29: (u8, bool), 1, 4;
        30: Vec<u8>, 1, 4;
        31: [u8; 2], 1, 4;
        32: [u8; 9], 1, 4;
        33: Option<Vec<bool>>, 1, 0;
        34: Box<[bool; 2]>, 1, 0;
        35: BTreeSet<char>, 1, 1;
        36: HashSet<bool>, 1, 0;
        37: Vec<f32>, 1, 4;
        38: [u8; 0], 1, 4;
        39: Vec<[bool; 2]>, 2, 0;
        40: Vec<Plain>, 2, 0;
        41: Vec<usize>, 1, 4;
        42: [isize; 2], 1, 4;
        43: BTreeMap<bool, char>, 1, 0;
        44: Vec<Vec<bool>>, 2, 0;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, step, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let only = a.get(6).cloned();
    let start = std::time::Instant::now();
    let groups: [(&str, fn(&mut Rng), u64); 7] =
        [("de", de, 12), ("ser", ser, 8), ("derived", derived, 2), ("json", json, 8), ("text", text, 1), ("threads", threads, 1), ("plain", plain, 8)];
    let total: u64 = groups.iter().map(|g| g.2).sum();
    let mut done = [0u64; 7];
    let mut seen = std::collections::HashSet::new();
    let out = std::io::stdout();
    let mut i = first;
    while i < count && start.elapsed().as_secs() < secs {
        let mut w = (i / step) % total;
        let mut g = 0;
        while w >= groups[g].2 {
            w -= groups[g].2;
            g += 1;
        }
        if only.as_deref().map_or(true, |o| o == groups[g].0) {
            {
                let mut o = out.lock();
                let _ = writeln!(o, "@{} {}", groups[g].0, i);
                let _ = o.flush();
            }
            let mut r = Rng::new(seed, i);
            r.u64();
            clear_sum();
            (groups[g].1)(&mut r);
            seen.insert((g, sum()));
            done[g] += 1;
        }
        i += step;
    }
    for (g, n) in groups.iter().zip(done) {
        println!("done {} {}", g.0, n);
    }
    println!("distinct {}", seen.len());
}
