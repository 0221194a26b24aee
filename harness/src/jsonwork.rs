//! Documents and the judgement of the JSON reader.
use crate::gen;
use crate::json::{self, Any, J};
use crate::model::*;
use crate::util::*;
use std::cell::Cell;

const GUARD: usize = 1 << 16;

thread_local! {
    static AREA: Cell<usize> = const { Cell::new(0) };
}

/// Runs `f` on a copy of the bytes that ends right before an inaccessible page.
pub fn guarded<R>(b: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
    if cfg!(miri) || b.len() > GUARD {
        return f(&Vec::from(b).into_boxed_slice());
    }
    let base = AREA.with(|a| {
        if a.get() == 0 {
            unsafe {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    GUARD + 4096,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                assert_eq!(libc::mprotect(p.add(GUARD), 4096, libc::PROT_NONE), 0);
                a.set(p as usize);
            }
        }
        a.get()
    });
    unsafe {
        let at = (base + GUARD - b.len()) as *mut u8;
        std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
        f(std::slice::from_raw_parts(at, b.len()))
    }
}

fn finite(j: &J) -> bool {
    json::events(j).is_some()
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    /// accepted or not
    Verdict,
    /// which values
    Events,
}

/// Compares the reader with the reference on one document. Returns whether it is valid.
pub fn judge(case: &mut Case, b: &[u8], what: What) -> bool {
    let want = match json::parse(b) {
        Ok(j) if finite(&j) => json::events(&j),
        _ => None,
    };
    let got = guarded(b, json::read::<Any>);
    let text = || format!("{:?} ({})", b.iter().take(300).copied().map(|x| x as char).collect::<String>(), b.len());
    case.eval(Some(hash_bytes(b)));
    if let Ok(t) = std::str::from_utf8(b) {
        // the other way to read text
        let other = guarded(b, |b| deser_json::from_str::<Any>(std::str::from_utf8(b).unwrap_or(t)));
        let same = match (&got, &other) {
            (Ok(a), Ok(b)) => json::events_eq(&a.0, &b.0),
            (Err(a), Err(b)) => a.kind() == b.kind(),
            _ => false,
        };
        case.check(same, || {
            format!(
                "{} by from_str: {:?}, otherwise {:?}",
                text(),
                other.as_ref().map(|x| show(&x.0)).map_err(|e| e.to_string()),
                got.as_ref().map(|x| show(&x.0)).map_err(|e| e.to_string())
            )
        });
    }
    match (&want, &got) {
        (Some(w), Ok(g)) => {
            case.count("documents accepted", 1);
            if what == What::Events && !json::events_eq(w, &g.0) {
                case.violation(&format!("{} delivers {}, expected {}", text(), show(&g.0), show(w)));
            }
        }
        (None, Err(_)) => case.count("documents refused", 1),
        // another property
        (None, Ok(_)) if what == What::Events => {}
        (Some(_), Err(e)) => case.violation(&format!("{} is refused: {}", text(), e)),
        (None, Ok(g)) => {
            case.violation(&format!("{} is accepted with {}: {:?}", text(), show(&g.0), json::parse(b).err()))
        }
    }
    want.is_some()
}

/// How many sequences of at most `len` out of `k` pieces there are.
pub fn sequences(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

/// The i-th sequence.
pub fn sequence(pieces: &[&[u8]], mut i: u64, o: &mut Vec<u8>) {
    let k = pieces.len() as u64;
    let mut l = 0;
    while i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    for _ in 0..l {
        o.extend_from_slice(pieces[(i % k) as usize]);
        i /= k;
    }
}

/// Runs `f` on all sequences of pieces, in chunks.
pub fn exhaust(
    ctx: &'static Ctx,
    name: &str,
    pieces: &[&[u8]],
    len: u32,
    f: impl Fn(&mut Case, &mut Vec<u8>) + Sync,
) {
    let n = sequences(pieces.len() as u64, len);
    const CHUNK: u64 = 2048;
    ctx.count(&format!("sequences in {}", name), n);
    ctx.group(name, n.div_ceil(CHUNK), |case| {
        let mut b = vec![];
        for i in case.idx * CHUNK..((case.idx + 1) * CHUNK).min(n) {
            b.clear();
            sequence(pieces, i, &mut b);
            f(case, &mut b);
        }
    });
}

pub const TOKENS: &[&[u8]] =
    &[b"{", b"}", b"[", b"]", b",", b":", b"\"a\"", b"\"\"", b"1", b"-2.5", b"null", b"true", b" "];

pub const NUMBERS: &[&[u8]] = &[b"0", b"1", b"9", b"-", b"+", b".", b"e", b"E"];

pub const STRINGS: &[&[u8]] = &[
    b"\\u", b"\\", b"\"", b"d8", b"dB", b"Dc", b"00", b"n", b"g", b"/", b"\x1f", b"\x7f", b"\xc3", b"\xa9", b"x",
];

pub const UTF8: &[&[u8]] = &[
    b"\x7f", b"\x80", b"\x8f", b"\x90", b"\x9f", b"\xa0", b"\xbf", b"\xc0", b"\xc1", b"\xc2", b"\xdf", b"\xe0",
    b"\xe1", b"\xec", b"\xed", b"\xee", b"\xef", b"\xf0", b"\xf1", b"\xf3", b"\xf4", b"\xf5", b"\xff",
];

/// The same document at other positions.
pub fn wrap(r: &mut Rng, doc: &[u8]) -> Vec<u8> {
    let mut o = doc.to_vec();
    for _ in 0..r.range(0, 2) {
        let (a, b): (&[u8], &[u8]) = match r.below(9) {
            0 => (b"[", b"]"),
            1 => (b"[1,", b",2]"),
            2 => (b"{\"k\":", b"}"),
            3 => (b"{\"k\\n\":", b",\"l\":[]}"),
            4 => (b" ", b"\n"),
            5 => (b"[\"\\u00e9\",", b"]"),
            6 => (b"{\"a\":{},\"b\":", b"}"),
            7 => (b"\t[ [ ] ,\r", b" ]"),
            _ => (b"[[],", b",\"x\"]"),
        };
        o = [a, &o, b].concat();
    }
    o
}

/// One byte level change.
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len();
    match r.below(12) {
        0 => {
            if n > 0 {
                b.remove(r.idx(n));
            }
        }
        1 => b.insert(r.idx(n + 1), *r.pick(b"{}[],:\"0123456789-+.eE \\untf/\t\n\r\0\x01\x1f\x7f\x80\xbf\xc3\xe2\xf0\xff")),
        2 => {
            if n > 0 {
                let i = r.idx(n);
                b[i] = *r.pick(b"{}[],:\"0123456789-+.eE \\untf/\t\n\r\0\x01\x1f\x7f\x80\xbf\xc3\xe2\xf0\xff");
            }
        }
        3 => {
            if n > 0 {
                let i = r.idx(n);
                b[i] ^= 1 << r.below(8);
            }
        }
        4 => b.truncate(r.idx(n + 1)),
        5 => {
            if n > 1 {
                let (i, j) = (r.idx(n), r.idx(n));
                b.swap(i, j);
            }
        }
        6 => {
            // a part again
            if n > 0 {
                let i = r.idx(n);
                let j = (i + 1 + r.idx(6)).min(n);
                let part = b[i..j].to_vec();
                let at = r.idx(n + 1);
                b.splice(at..at, part);
            }
        }
        7 => {
            if n > 0 {
                let i = r.idx(n);
                let j = (i + 1 + r.idx(6)).min(n);
                b.drain(i..j);
            }
        }
        8 => b.extend_from_slice(r.pick::<&[u8]>(&[b" ", b",", b"]", b"}", b"\0", b"1", b"\x0c", b"\xef\xbb\xbf", b"//"])),
        9 => {
            let at = r.idx(n + 1);
            let x = gen::bytes(r);
            b.splice(at..at, x);
        }
        10 => {
            let at = r.idx(n + 1);
            let x: &[u8] = r.pick::<&[u8]>(&[
                b"\\u", b"\\ud800", b"\\udc00", b"\\ud83d\\ude00", b"\\x", b"\\", b"\xed\xa0\x80", b"\xc0\x80",
                b"\xf4\x90\x80\x80", b"\xe2\x80", b"nul", b"NaN", b"Infinity", b"0x1", b"'a'", b"1e999", b"01",
                b"-", b".5", b"5.", b"1e", b"\xef\xbb\xbf", b"\x0b", b"\xc2\xa0",
            ]);
            b.splice(at..at, x.iter().copied());
        }
        _ => {
            if n > 0 {
                let i = r.idx(n);
                b[i] = r.u64() as u8;
            }
        }
    }
}

/// A random document in a random spelling.
pub fn document(r: &mut Rng) -> Vec<u8> {
    let mut o = String::new();
    let mut budget = *r.pick(&[1, 4, 12, 40]);
    let depth = *r.pick(&[1, 3, 6, 30]);
    let ws = *r.pick(&[0, 0, 1, 2]);
    json::gen_doc(r, depth, &mut budget, ws, &mut o);
    o.into_bytes()
}

// ---------------------------------------------------------------- the writer

/// The writer has to refuse these events.
pub fn unsupported(evs: &[Ev]) -> bool {
    fn walk(n: &N) -> bool {
        match &n.k {
            NK::Atom(a) => matches!(a, A::Bytes(_)),
            NK::Seq(v) => v.iter().any(walk),
            NK::Map(v) => v
                .iter()
                .any(|(k, x)| !matches!(k.k, NK::Atom(A::Str(_) | A::Char(_))) || walk(x)),
        }
    }
    walk(&N::parse(evs))
}

/// What is wrong with a text as the JSON form of a value.
pub fn denotes(n: &N, j: &J) -> Result<(), String> {
    let ok = match (&n.k, j) {
        (NK::Atom(A::Null), J::Null) => true,
        (NK::Atom(A::Bool(a)), J::Bool(b)) => a == b,
        (NK::Atom(A::Str(a)), J::Str(b)) => a == b,
        (NK::Atom(A::Char(a)), J::Str(b)) => a.to_string() == *b,
        (NK::Atom(A::U64(a)), J::Num(b)) => a.to_string() == *b,
        (NK::Atom(A::I64(a)), J::Num(b)) => a.to_string() == *b,
        (NK::Atom(A::F64(a)), J::Num(b)) => a.is_finite() && b.parse::<f64>().ok() == Some(*a),
        (NK::Atom(A::F64(a)), J::Null) => !a.is_finite(),
        (NK::Seq(a), J::Seq(b)) => {
            if a.len() != b.len() {
                return Err(format!("{} elements instead of {}", b.len(), a.len()));
            }
            for (x, y) in a.iter().zip(b) {
                denotes(x, y)?;
            }
            true
        }
        (NK::Map(a), J::Map(b)) => {
            if a.len() != b.len() {
                return Err(format!("{} entries instead of {}", b.len(), a.len()));
            }
            for ((k, x), (l, y)) in a.iter().zip(b) {
                denotes(k, &J::Str(l.clone()))?;
                denotes(x, y)?;
            }
            true
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{:?} is written for {:?}", j, n.k))
    }
}

/// Judges the writer on one value with the given events.
pub fn judge_writer(case: &mut Case, v: &dyn deser::Serialize, evs: &[Ev]) {
    let got = deser_json::to_string(v);
    let also = deser_json::Serializer::new().serialize(v);
    case.eval(Some(fingerprint(evs)));
    let same = match (&got, &also) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.kind() == b.kind(),
        _ => false,
    };
    if !same {
        return case.violation(&format!("to_string gives {:?}, Serializer {:?}", got, also));
    }
    match (unsupported(evs), got) {
        (true, Err(e)) => {
            case.count("values refused", 1);
            case.check(e.kind() == deser::ErrorKind::UnsupportedType, || format!("{} for {}", e, show(evs)));
        }
        (true, Ok(s)) => case.violation(&format!("{} is written for {}", s, show(evs))),
        (false, Err(e)) => case.violation(&format!("{} for {}", e, show(evs))),
        (false, Ok(s)) => {
            case.count("values written", 1);
            case.count("bytes written", s.len() as u64);
            case.sample(|| s.clone());
            match json::parse(s.as_bytes()) {
                Err(e) => case.violation(&format!("{} is not JSON: {:?}", s, e)),
                Ok(j) => {
                    if let Err(m) = denotes(&N::parse(evs), &j) {
                        case.violation(&format!("{}: {} for {}", m, s, show(evs)));
                    }
                }
            }
        }
    }
}
