//! C05: the reader accepts exactly JSON.
use mon::gen::{self, Gen};
use mon::json;
use mon::jsonwork::*;
use mon::model::{T as Tr, *};
use mon::table::{self, TypeCheck};
use mon::util::*;
use mon::zoo::Zoo;

fn verdict(case: &mut Case, b: &[u8]) -> bool {
    judge(case, b, What::Verdict)
}

/// Bytes that are not read by any field.
#[derive(deser::Deserialize)]
struct Empty {}

#[derive(deser::Deserialize)]
struct Last {
    #[allow(dead_code)]
    z: Option<u8>,
}

/// A document and damaged versions of it.
fn damaged(case: &mut Case) {
    let mut r = case.rng.clone();
    let doc = document(&mut r);
    case.sample(|| String::from_utf8_lossy(&doc).to_string());
    if !verdict(case, &doc) {
        case.count("documents with too large numbers", 1);
    }
    for _ in 0..8 {
        let mut b = doc.clone();
        for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
            damage(&mut r, &mut b);
        }
        let ok = verdict(case, &b);
        // as something that nobody looks at
        let t = [b"{\"x\":", &b[..], b",\"z\":3}"].concat();
        let got = guarded(&t, json::read::<Last>);
        let want = json::parse(&t).ok().is_some_and(|j| json::events(&j).is_some());
        // a later "z" may come from the document itself
        let same = want == got.is_ok() || (want && b.windows(3).any(|w| w == b"\"z\"" || w == b"\\u0"));
        case.check(same, || {
            format!("ignored {:?} is {:?}, expected {}", String::from_utf8_lossy(&t), got.err().map(|e| e.to_string()), want)
        });
        if ok {
            case.check(json::read::<Empty>(&[b"{\"x\":[", &b[..], b"]}"].concat()).is_ok(), || {
                format!("ignored {:?} is refused", String::from_utf8_lossy(&b))
            });
        }
    }
}

/// Damaged documents for other types.
struct Types;

impl TypeCheck for Types {
    fn run<T: Zoo>(case: &mut Case) {
        let mut r = case.rng.clone();
        let budget = *r.pick(&[4, 12, 40]);
        let mut t = T::fit(&mut Gen { r: &mut r, budget, json: true });
        if r.chance(1, 4) {
            gen::mutate(&mut r, &mut t);
        }
        let t: Tr = json::jsonable(t);
        let ws = r.below(2);
        let text = json::spell(&mut r, &t.events(), ws);
        for _ in 0..3 {
            let mut b = text.clone().into_bytes();
            damage(&mut r, &mut b);
            case.eval(Some(hash_bytes(&b) ^ hash_bytes(case.label.as_bytes())));
            let got = match std::str::from_utf8(&b) {
                Ok(t) if r.bool() => deser_json::from_str::<T>(t),
                _ => guarded(&b, json::read::<T>),
            };
            match json::parse(&b) {
                Err(e) => {
                    case.count("damaged documents", 1);
                    if let Ok(x) = got {
                        case.violation(&format!(
                            "{:?} gives {} ({:?})",
                            String::from_utf8_lossy(&b),
                            show(&x.model().events()),
                            e
                        ));
                    }
                }
                Ok(j) => {
                    case.count("still documents", 1);
                    let Some(evs) = json::events(&j) else {
                        if let Ok(x) = got {
                            case.violation(&format!(
                                "{:?} gives {} in spite of its numbers",
                                String::from_utf8_lossy(&b),
                                show(&x.model().events())
                            ));
                        }
                        continue;
                    };
                    let want = T::de(&N::parse(&evs));
                    case.check(want.is_ok() == got.is_ok(), || {
                        format!(
                            "{:?} is {:?}, expected {:?}",
                            String::from_utf8_lossy(&b),
                            got.as_ref().map(|x| show(&x.model().events())).map_err(|e| e.to_string()),
                            want.as_ref().map(|x| show(&x.model().events()))
                        )
                    });
                }
            }
        }
    }
}

const AFFIXES: &[&str] = &[
    "\u{feff}", "\u{a0}", "\u{85}", "\u{2003}", "\u{2028}", "\u{200b}", "\u{3000}", "\x0b", "\x0c", "\0", "\x1a", "\x1c",
    "//", "// x\n", "/* */", "#", "# x\n", "<!--", "--", ";", ",", ":", "]", "}", "\"", "'", "`", "(", ")", "NaN", "1",
    "true", "null", " ", "\n", "\r\n", "\t", "  ", "\x08", "\x7f", "\\", "\\n", "&#32;", "%20", "+", "-", ".", "e", "n",
    ")]}'\n", "\u{fffe}", "\u{1f600}", "---\n", "...", "\x04", "\x1e",
];

/// A document with something before, behind or inside of it.
fn affixes(case: &mut Case) {
    let mut r = case.rng.clone();
    let doc = document(&mut r);
    for x in AFFIXES {
        let x = x.as_bytes();
        verdict(case, &[x, &doc[..]].concat());
        verdict(case, &[&doc[..], x].concat());
        verdict(case, &[x, b" ", &doc[..], b" ", x].concat());
        verdict(case, &[b"[", x, &doc[..], b"]"].concat());
        verdict(case, &[b"[", &doc[..], x, b",0]"].concat());
        verdict(case, &[b"{\"a\"", x, b":", &doc[..], b"}"].concat());
        verdict(case, &[b"{\"a\":0,", x, b"\"b\":", &doc[..], b"}"].concat());
        let y = r.pick(AFFIXES).as_bytes();
        verdict(case, &[x, y, &doc[..]].concat());
        verdict(case, &[&doc[..], x, y].concat());
    }
}

fn random_bytes(case: &mut Case) {
    let mut r = case.rng.clone();
    let alphabet: Vec<u8> = match r.below(4) {
        0 => (0..=255).collect(),
        1 => b"{}[],:\"a1 ".to_vec(),
        2 => b"\"\\u0123dDcC89abnrtf/\x80\xc3\xe2\xf0".to_vec(),
        _ => b"truefalsn-0123456789.eE+ ,[]".to_vec(),
    };
    for _ in 0..50 {
        let b: Vec<u8> = (0..r.below(24)).map(|_| *r.pick(&alphabet)).collect();
        verdict(case, &b);
    }
}

/// Long, wide and deep documents.
fn large(case: &mut Case) {
    let mut r = case.rng.clone();
    let n = *r.pick(&[100usize, 1000, 5000]);
    let k = case.idx % 8;
    let mut b: Vec<u8> = match k {
        0 => [b"[".repeat(n), b"]".repeat(n)].concat(),
        1 => [b"{\"a\":".repeat(n), b"1".to_vec(), b"}".repeat(n)].concat(),
        2 => [b"[1".to_vec(), b",1".repeat(n), b"]".to_vec()].concat(),
        3 => [b"{\"a\":0".to_vec(), b",\"a\":0".repeat(n), b"}".to_vec()].concat(),
        4 => [b"\"".to_vec(), "é\\n😀".as_bytes().repeat(n), b"\"".to_vec()].concat(),
        5 => b"7".repeat(n),
        6 => [b"0.".to_vec(), b"3".repeat(n)].concat(),
        _ => [b" ".repeat(n), b"1".to_vec(), b"\n".repeat(n)].concat(),
    };
    verdict(case, &b);
    if k == 2 || k == 4 || k == 7 {
        let more = document(&mut r);
        b.extend_from_slice(&more);
        verdict(case, &b);
        b.truncate(b.len() - more.len());
    }
    for _ in 0..4 {
        let mut c = b.clone();
        damage(&mut r, &mut c);
        verdict(case, &c);
    }
    b.pop();
    verdict(case, &b);
}

fn main() {
    let ctx = Ctx::new("C05");
    let long = ctx.tier == Tier::Thorough;
    exhaust(ctx, "tokens", TOKENS, if long { 7 } else { 6 }, |c, b| {
        verdict(c, b);
    });
    // brackets and separators only, longer
    exhaust(ctx, "structure", &[b"{", b"}", b"[", b"]", b",", b":", b"\"\""], if long { 9 } else { 8 }, |c, b| {
        verdict(c, b);
    });
    exhaust(ctx, "numbers", NUMBERS, if long { 8 } else { 7 }, |c, b| {
        verdict(c, b);
    });
    exhaust(ctx, "numbers inside", NUMBERS, if long { 7 } else { 5 }, |c, b| {
        let t = [b"[", &b[..], b"]"].concat();
        verdict(c, &t);
        let t = [b"{\"\":", &b[..], b" ,\"\":1}"].concat();
        verdict(c, &t);
    });
    exhaust(ctx, "strings", STRINGS, if long { 6 } else { 5 }, |c, b| {
        b.insert(0, b'"');
        b.push(b'"');
        verdict(c, b);
    });
    exhaust(ctx, "utf-8", UTF8, 4, |c, b| {
        b.insert(0, b'"');
        b.push(b'"');
        verdict(c, b);
    });
    exhaust(ctx, "utf-8 in keys", UTF8, 3, |c, b| {
        let t = [b"{\"", &b[..], b"\\t\":0}"].concat();
        verdict(c, &t);
    });
    let all: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x]).collect();
    let all: Vec<&[u8]> = all.iter().map(|x| &x[..]).collect();
    exhaust(ctx, "bytes", &all, if long { 3 } else { 2 }, |c, b| {
        verdict(c, b);
        if b.len() < 3 {
            for (x, y) in [
                ("\"", "\""),
                ("[", "]"),
                ("[1", "2]"),
                ("{\"a\":1", "}"),
                ("{\"a\"", "1}"),
                ("{", "\"a\":1}"),
                ("1", ""),
                ("", "1"),
                ("\"\\", "\""),
                ("\"\\u00", "\""),
                ("\"\\ud8", "0\\udc00\""),
                ("true", ""),
                ("[]", ""),
                ("\"\"", ""),
            ] {
                verdict(c, &[x.as_bytes(), b, y.as_bytes()].concat());
            }
        }
    });
    ctx.group("literals", 3 * 8, |case| {
        let lit: &[u8] = [&b"true"[..], b"false", b"null"][case.idx as usize % 3];
        let at = case.idx as usize / 3;
        for x in 0..=255u8 {
            let mut b = lit.to_vec();
            if at < b.len() {
                b[at] = x;
                verdict(case, &b);
            }
            let mut b = lit.to_vec();
            b.insert(at.min(lit.len()), x);
            verdict(case, &b);
            verdict(case, &[b"[", &b[..], b"]"].concat());
        }
        verdict(case, &lit[..at.min(lit.len())]);
    });
    ctx.group("damaged", ctx.n(120_000, 5_000_000), damaged);
    ctx.group("affixes", ctx.n(3000, 100_000), affixes);
    ctx.group("random bytes", ctx.n(10_000, 1_000_000), random_bytes);
    ctx.group("large", ctx.n(64, 4000), large);
    let t = table::table::<Types>();
    table::run(ctx, "types", &t, ctx.n(1000, 40_000));
    

    ctx.finish()
}
