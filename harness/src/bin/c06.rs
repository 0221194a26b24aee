//! C06: the reader delivers what the text denotes.
use mon::gen;
use mon::json::{self, Any};
use mon::jsonwork::*;
use mon::model::*;
use mon::util::*;

fn events(case: &mut Case, b: &[u8]) -> bool {
    judge(case, b, What::Events)
}

fn documents(case: &mut Case) {
    let mut r = case.rng.clone();
    let doc = document(&mut r);
    case.sample(|| String::from_utf8_lossy(&doc).to_string());
    events(case, &doc);
    // the same at other places
    let w = wrap(&mut r, &doc);
    events(case, &w);
    // from text and from bytes
    let s = std::str::from_utf8(&doc).unwrap();
    let (a, b) = (deser_json::from_str::<Any>(s).ok(), json::read::<Any>(&doc).ok());
    case.check(a == b || a.is_some() == b.is_some() && a.as_ref().unwrap().0 == b.as_ref().unwrap().0, || {
        format!("from_str gives {:?} and Deserializer {:?} for {}", a, b, s)
    });
}

/// Two spellings of one tree.
fn spellings(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut budget = *r.pick(&[2, 8, 30]);
    let t = gen::json_tree(&mut r, 6, &mut budget);
    let evs = t.events();
    case.sample(|| show(&evs));
    for ws in 0..3 {
        let text = json::spell(&mut r, &evs, ws);
        case.eval(Some(hash_bytes(text.as_bytes())));
        case.count("spellings", 1);
        match guarded(text.as_bytes(), json::read::<Any>) {
            Ok(x) if json::events_eq(&x.0, &evs) => {}
            x => return case.violation(&format!("{} delivers {:?}, expected {}", text, x.map(|x| show(&x.0)), show(&evs))),
        }
    }
}

/// Every character, literally and escaped.
fn characters(case: &mut Case) {
    let base = case.idx as u32 * 0x800;
    let mut literal = String::from("[");
    let mut escaped = String::from("[");
    let mut want = vec![];
    for c in (base..base + 0x800).filter_map(char::from_u32) {
        let upper = c as u32 % 3 == 0;
        for u in c.encode_utf16(&mut [0; 2]) {
            if escaped.len() == 1 || escaped.ends_with(',') {
                escaped.push('"');
            }
            escaped += &if upper { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) };
        }
        escaped += "\",";
        if c as u32 >= 0x20 && c != '"' && c != '\\' {
            literal.push('"');
            literal.push(c);
            literal += "\",";
        } else {
            literal += &format!("\"\\u{:04x}\",", c as u32);
        }
        want.push(Ev::Atom(A::Str(c.to_string())));
    }
    if want.is_empty() {
        return;
    }
    literal.pop();
    escaped.pop();
    case.count("characters", want.len() as u64);
    want.insert(0, Ev::SeqStart);
    want.push(Ev::SeqEnd);
    for text in [literal, escaped] {
        let text = text + "]";
        case.eval(Some(hash_bytes(text.as_bytes())));
        match json::read::<Any>(text.as_bytes()) {
            Ok(x) if x.0 == want => {}
            Ok(x) => {
                let i = x.0.iter().zip(&want).position(|(a, b)| a != b);
                case.violation(&format!("{:?} instead of {:?}", i.map(|i| &x.0[i]), i.map(|i| &want[i])));
            }
            Err(e) => case.violation(&format!("a valid string is refused: {}; {}", e, text)),
        }
    }
}

/// Short escapes and mixtures in every position of a string.
fn escapes(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut text = String::new();
    let mut want = String::new();
    for _ in 0..r.range(1, 12) {
        match r.below(6) {
            0 => {
                let (t, c) = *r.pick(&[
                    ("\\n", '\n'),
                    ("\\r", '\r'),
                    ("\\t", '\t'),
                    ("\\b", '\x08'),
                    ("\\f", '\x0c'),
                    ("\\/", '/'),
                    ("\\\\", '\\'),
                    ("\\\"", '"'),
                ]);
                text += t;
                want.push(c);
            }
            1 | 2 => {
                let c = gen::ch(&mut r);
                for u in c.encode_utf16(&mut [0; 2]) {
                    text += &format!("\\u{:04x}", u);
                }
                want.push(c);
            }
            _ => {
                for _ in 0..r.range(1, 5) {
                    let c = gen::ch(&mut r);
                    if c as u32 >= 0x20 && c != '"' && c != '\\' {
                        text.push(c);
                        want.push(c);
                    }
                }
            }
        }
    }
    let s = Ev::Atom(A::Str(want));
    for (doc, evs) in [
        (format!("\"{}\"", text), vec![s.clone()]),
        (format!("[\"\\n\",\"{0}\",\"{0}\",\"x\"]", text), vec![
            Ev::SeqStart,
            Ev::Atom(A::Str("\n".into())),
            s.clone(),
            s.clone(),
            Ev::Atom(A::Str("x".into())),
            Ev::SeqEnd,
        ]),
        (format!("{{\"{0}\":\"\",\"\":\"{0}\",\"{0}\" : {{\"{0}\":1}} }}", text), vec![
            Ev::MapStart,
            s.clone(),
            Ev::Atom(A::Str("".into())),
            Ev::Atom(A::Str("".into())),
            s.clone(),
            s.clone(),
            Ev::MapStart,
            s.clone(),
            Ev::Atom(A::U64(1)),
            Ev::MapEnd,
            Ev::MapEnd,
        ]),
    ] {
        case.eval(Some(hash_bytes(doc.as_bytes())));
        case.count("strings", 1);
        match guarded(doc.as_bytes(), json::read::<Any>) {
            Ok(x) if json::events_eq(&x.0, &evs) => {}
            x => return case.violation(&format!("{} delivers {:?}", doc, x.map(|x| show(&x.0)))),
        }
        // and as a value of its own
    }
    let doc = format!("\"{}\"", text);
    let got = json::read::<String>(doc.as_bytes()).ok().map(|s| Ev::Atom(A::Str(s)));
    case.check(got.as_ref() == Some(&s), || format!("{} is the string {:?}, expected {:?}", doc, got, s));
}

/// n * 2^e as decimal text.
fn exact(mut n: Vec<u32>, mut e: i32) -> String {
    // digits little endian, base 1e9; `frac` counts decimal places
    fn mul(n: &mut Vec<u32>, k: u32) {
        let mut c = 0u64;
        for d in n.iter_mut() {
            let x = *d as u64 * k as u64 + c;
            *d = (x % 1_000_000_000) as u32;
            c = x / 1_000_000_000;
        }
        if c > 0 {
            n.push(c as u32);
        }
    }
    let mut places = 0;
    while e > 0 {
        mul(&mut n, 2);
        e -= 1;
    }
    while e < 0 {
        // x / 2 = x * 5 / 10
        mul(&mut n, 5);
        places += 1;
        e += 1;
    }
    let mut s = String::new();
    for (i, d) in n.iter().rev().enumerate() {
        if i == 0 {
            s += &d.to_string();
        } else {
            s += &format!("{:09}", d);
        }
    }
    if places > 0 {
        while s.len() <= places {
            s.insert(0, '0');
        }
        s.insert(s.len() - places, '.');
    }
    s
}

/// Numbers next to and right between two doubles.
fn halfway(case: &mut Case) {
    let mut r = case.rng.clone();
    let f = loop {
        let f = match r.below(4) {
            0 => f64::from_bits(r.u64() >> 1),
            1 => f64::from_bits(r.u64() >> (12 + r.below(52))),
            2 => (gen::int_u64(&mut r) as f64) / 1024.0,
            _ => gen::finite(&mut r).abs(),
        };
        if f.is_finite() && f < f64::MAX {
            break f;
        }
    };
    let bits = f.to_bits();
    let (m, e) = match bits >> 52 {
        0 => (bits, -1074),
        x => (bits & ((1 << 52) - 1) | 1 << 52, x as i32 - 1075),
    };
    // 2m+1 is right in the middle to the next one
    let mid = 2 * m + 1;
    let big = |n: u64| vec![(n % 1_000_000_000) as u32, (n / 1_000_000_000 % 1_000_000_000) as u32, (n / 1_000_000_000_000_000_000) as u32];
    let trim = |mut v: Vec<u32>| {
        while v.len() > 1 && *v.last().unwrap() == 0 {
            v.pop();
        }
        v
    };
    let middle = exact(trim(big(mid)), e - 1);
    let own = exact(trim(big(m)), e);
    let next = f64::from_bits(bits + 1);
    let even = if bits & 1 == 0 { f } else { next };
    let more = |s: &str, t: &str| if s.contains('.') { format!("{}{}", s, t) } else { format!("{}.{}", s, t) };
    let less = {
        // one unit less in the last place, which is never 0
        let mut b = more(&middle, "5").into_bytes();
        let n = b.len();
        b[n - 1] = b'0';
        let mut i = n - 2;
        loop {
            match b[i] {
                b'.' => {}
                b'0' => b[i] = b'9',
                _ => {
                    b[i] -= 1;
                    break;
                }
            }
            i -= 1;
        }
        b[n - 1] = b'9';
        let s = String::from_utf8(b).unwrap();
        // no leading zero may appear
        if s.len() > 1 && s.starts_with('0') && !s.starts_with("0.") {
            s[1..].to_string()
        } else {
            s
        }
    };
    for (text, want) in [
        (own.clone(), f),
        (middle.clone(), even),
        (more(&middle, "0000000000000000000000000001"), next),
        (less, f),
        (format!("{:e}", f), f),
        (format!("{:?}", next), next),
        (format!("{:.17e}", f), f),
        (format!("{:.25e}", f), f),
    ] {
        if !want.is_finite() {
            continue;
        }
        let neg = r.bool();
        // as a float in any case
        let text = if text.contains(['.', 'e', 'E']) { text } else { format!("{}.0", text) };
        let (text, want) = if neg { (format!("-{}", text), -want) } else { (text, want) };
        let reference: f64 = text.parse().unwrap();
        assert!(reference == want, "harness: {} is {} for the library and {} for me", text, reference, want);
        case.eval(Some(hash_bytes(text.as_bytes())));
        case.count("numbers at the limit", 1);
        let doc = match r.below(3) {
            0 => text.clone(),
            1 => format!("[{} ]", text),
            _ => format!("{{\"\":{}}}", text),
        };
        match guarded(doc.as_bytes(), json::read::<Any>) {
            Ok(x) if x.0.contains(&Ev::Atom(A::F64(want))) || (want == 0.0 && x.0.iter().any(|e| matches!(e, Ev::Atom(A::F64(z)) if *z == 0.0))) => {}
            x => case.violation(&format!("{} delivers {:?}, expected {:?}", doc, x.map(|x| show(&x.0)), want)),
        }
    }
    case.sample(|| middle.clone());
}

fn numbers(case: &mut Case) {
    let mut r = case.rng.clone();
    for _ in 0..20 {
        let n = json::gen_number(&mut r);
        if json::parse(n.as_bytes()).is_err() {
            continue;
        }
        events(case, n.as_bytes());
        let w = wrap(&mut r, n.as_bytes());
        events(case, &w);
    }
}

/// Integers around all powers of two and ten.
fn integers(case: &mut Case) {
    let base: i128 = match case.idx {
        i if i < 70 => 1i128 << i,
        i if i < 100 => 10i128.pow(i as u32 - 70),
        i => (i as i128 - 100) * 184467440737095516 / 7,
    };
    for d in -70..=70 {
        for x in [base + d, -base + d] {
            let t = x.to_string();
            events(case, t.as_bytes());
            // exactly, whatever the reference says
            let got = json::read::<Any>(format!("[{}]", t).as_bytes()).ok().map(|x| x.0[1].clone());
            let ok = match &got {
                Some(Ev::Atom(A::U64(n))) => *n as i128 == x,
                Some(Ev::Atom(A::I64(n))) => *n as i128 == x,
                Some(Ev::Atom(A::F64(f))) => {
                    (x > u64::MAX as i128 || x < i64::MIN as i128) && *f == t.parse::<f64>().unwrap()
                }
                _ => false,
            };
            case.check(ok, || format!("{} is {:?}", t, got));
            case.count("integers", 1);
        }
    }
}

fn large(case: &mut Case) {
    let mut r = case.rng.clone();
    let mut o = String::new();
    let mut budget = *r.pick(&[300, 3000]);
    let depth = *r.pick(&[4, 60, 900]);
    json::gen_doc(&mut r, depth, &mut budget, 1, &mut o);
    case.count("bytes in large documents", o.len() as u64);
    let n = *r.pick(&[200, 2000]);
    for b in [
        o.clone(),
        format!("{}{}{}", "[".repeat(n), o, "]".repeat(n)),
        format!("{}{}{}", "{\"x\\t\":".repeat(n), o, "}".repeat(n)),
        format!("[{}{}]", format!("{},", o).repeat(3), o),
    ] {
        events(case, b.as_bytes());
    }
}

fn main() {
    let ctx = Ctx::new("C06");
    let long = ctx.tier == Tier::Thorough;
    exhaust(ctx, "tokens", TOKENS, if long { 7 } else { 6 }, |c, b| {
        events(c, b);
    });
    exhaust(ctx, "numbers", NUMBERS, if long { 8 } else { 7 }, |c, b| {
        events(c, b);
    });
    exhaust(ctx, "strings", STRINGS, if long { 6 } else { 5 }, |c, b| {
        b.insert(0, b'"');
        b.push(b'"');
        events(c, b);
    });
    exhaust(ctx, "utf-8", UTF8, 4, |c, b| {
        b.insert(0, b'"');
        b.push(b'"');
        events(c, b);
    });
    ctx.group("characters", 0x110000 / 0x800, characters);
    ctx.group("escapes", ctx.n(40_000, 3_000_000), escapes);
    ctx.group("integers", 220, integers);
    ctx.group("numbers at random", ctx.n(20_000, 2_000_000), numbers);
    ctx.group("halfway", ctx.n(20_000, 2_000_000), halfway);
    ctx.group("documents", ctx.n(100_000, 8_000_000), documents);
    ctx.group("spellings", ctx.n(60_000, 4_000_000), spellings);
    ctx.group("large", ctx.n(150, 10_000), large);
    ctx.finish()
}
