//! A strict reference parser for RFC 8259 and a type that accepts any document.
use crate::model::*;
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Error};

// ---------------------------------------------------------------- any

/// Everything that was offered, in order.
#[derive(Debug, Clone, PartialEq)]
pub struct Any(pub Vec<Ev>);

struct Root<'a> {
    ev: Vec<Ev>,
    out: &'a mut Option<Any>,
}

struct Child<'a> {
    ev: &'a mut Vec<Ev>,
    end: Option<Ev>,
}

impl<'a> Sink for Child<'a> {
    fn atom(&mut self, a: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.ev.push(Ev::Atom(A::of(&a)));
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.ev.push(Ev::MapStart);
        self.end = Some(Ev::MapEnd);
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.ev.push(Ev::SeqStart);
        self.end = Some(Ev::SeqEnd);
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::boxed(Child { ev: self.ev, end: None }))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::boxed(Child { ev: self.ev, end: None }))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        if let Some(e) = self.end.take() {
            self.ev.push(e);
        }
        Ok(())
    }
}

impl<'a> Sink for Root<'a> {
    fn atom(&mut self, a: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.ev.push(Ev::Atom(A::of(&a)));
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.ev.push(Ev::MapStart);
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.ev.push(Ev::SeqStart);
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::boxed(Child { ev: &mut self.ev, end: None }))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::boxed(Child { ev: &mut self.ev, end: None }))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        match self.ev[0] {
            Ev::MapStart => self.ev.push(Ev::MapEnd),
            Ev::SeqStart => self.ev.push(Ev::SeqEnd),
            _ => {}
        }
        *self.out = Some(Any(std::mem::take(&mut self.ev)));
        Ok(())
    }
}

impl Deserialize for Any {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(Root { ev: vec![], out })
    }
}

// ---------------------------------------------------------------- reference

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Str(String),
    /// the text of the number
    Num(String),
    Seq(Vec<J>),
    Map(Vec<(String, J)>),
}

pub struct Ref<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    depth: usize,
    open: usize,
}

/// Why a text is not JSON.
#[derive(Debug, Clone, PartialEq)]
pub struct Bad {
    pub at: usize,
    pub why: &'static str,
}

impl<'a> Ref<'a> {
    fn bad<T>(&self, why: &'static str) -> Result<T, Bad> {
        Err(Bad { at: self.i, why })
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, Bad> {
        if self.s[self.i..].starts_with(l) {
            self.i += l.len();
            Ok(v)
        } else {
            self.bad("literal")
        }
    }
    fn hex4(&mut self) -> Result<u32, Bad> {
        let t = match self.b.get(self.i..self.i + 4) {
            Some(t) if t.iter().all(|c| c.is_ascii_hexdigit()) => t,
            _ => return self.bad("hex escape"),
        };
        self.i += 4;
        Ok(u32::from_str_radix(std::str::from_utf8(t).unwrap(), 16).unwrap())
    }
    fn string(&mut self) -> Result<String, Bad> {
        if self.peek() != Some(b'"') {
            return self.bad("no string");
        }
        self.i += 1;
        let mut o = String::new();
        loop {
            let c = match self.s[self.i..].chars().next() {
                None => return self.bad("open string"),
                Some(c) => c,
            };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = match self.peek() {
                        None => return self.bad("open escape"),
                        Some(e) => e,
                    };
                    self.i += 1;
                    o.push(match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let x = self.hex4()?;
                            if (0xd800..0xdc00).contains(&x) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") {
                                    return self.bad("lone surrogate");
                                }
                                self.i += 2;
                                let y = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&y) {
                                    return self.bad("lone surrogate");
                                }
                                char::from_u32(0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00)).unwrap()
                            } else {
                                match char::from_u32(x) {
                                    Some(c) => c,
                                    None => return self.bad("lone surrogate"),
                                }
                            }
                        }
                        _ => return self.bad("escape"),
                    });
                }
                c if (c as u32) < 0x20 => return self.bad("control character"),
                c => o.push(c),
            }
        }
    }
    fn digits(&mut self) -> Result<(), Bad> {
        if !matches!(self.peek(), Some(b'0'..=b'9')) {
            return self.bad("digit");
        }
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        Ok(())
    }
    fn number(&mut self) -> Result<J, Bad> {
        let s = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        if self.peek() == Some(b'0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(J::Num(self.s[s..self.i].to_string()))
    }
    fn value(&mut self) -> Result<J, Bad> {
        self.depth += 1;
        assert!(self.depth < 20000, "reference parser: too deep");
        let v = match self.peek() {
            None => return self.bad("no value"),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => self.string().map(J::Str),
            Some(b'[') => {
                self.i += 1;
                self.open += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        match self.peek() {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.bad("comma or ]"),
                        }
                    }
                }
                self.open -= 1;
                Ok(J::Seq(v))
            }
            Some(b'{') => {
                self.i += 1;
                self.open += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        if self.peek() != Some(b':') {
                            return self.bad("colon");
                        }
                        self.i += 1;
                        self.ws();
                        let x = self.value()?;
                        v.push((k, x));
                        self.ws();
                        match self.peek() {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.bad("comma or }"),
                        }
                    }
                }
                self.open -= 1;
                Ok(J::Map(v))
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => return self.bad("value"),
        };
        self.depth -= 1;
        v
    }
}

pub fn parse(b: &[u8]) -> Result<J, Bad> {
    let s = match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(e) => return Err(Bad { at: e.valid_up_to(), why: "utf-8" }),
    };
    let mut r = Ref { s, b, i: 0, depth: 0, open: 0 };
    r.ws();
    let v = r.value()?;
    r.ws();
    if r.i != b.len() {
        return r.bad("trailing text");
    }
    Ok(v)
}

/// The number denoted, or nothing if it does not fit a double.
pub fn num(t: &str) -> Option<A> {
    if !t.contains(['.', 'e', 'E']) {
        if let Ok(x) = t.parse::<u64>() {
            return Some(A::U64(x));
        }
        if let Ok(x) = t.parse::<i64>() {
            return Some(A::I64(x));
        }
    }
    let f: f64 = t.parse().unwrap();
    if f.is_finite() {
        Some(A::F64(f))
    } else {
        None
    }
}

/// Events that a reader has to deliver; nothing if a number does not fit a double.
pub fn events(j: &J) -> Option<Vec<Ev>> {
    fn go(j: &J, o: &mut Vec<Ev>) -> bool {
        match j {
            J::Null => o.push(Ev::Atom(A::Null)),
            J::Bool(b) => o.push(Ev::Atom(A::Bool(*b))),
            J::Str(s) => o.push(Ev::Atom(A::Str(s.clone()))),
            J::Num(t) => match num(t) {
                Some(a) => o.push(Ev::Atom(a)),
                None => return false,
            },
            J::Seq(v) => {
                o.push(Ev::SeqStart);
                for x in v {
                    if !go(x, o) {
                        return false;
                    }
                }
                o.push(Ev::SeqEnd);
            }
            J::Map(v) => {
                o.push(Ev::MapStart);
                for (k, x) in v {
                    o.push(Ev::Atom(A::Str(k.clone())));
                    if !go(x, o) {
                        return false;
                    }
                }
                o.push(Ev::MapEnd);
            }
        }
        true
    }
    let mut o = vec![];
    if go(j, &mut o) {
        Some(o)
    } else {
        None
    }
}

/// Atoms that mean the same in JSON: integers are compared by value, zeros without sign.
pub fn atom_eq(a: &A, b: &A) -> bool {
    fn int(a: &A) -> Option<i128> {
        match a {
            A::U64(x) => Some(*x as i128),
            A::I64(x) => Some(*x as i128),
            A::F64(x) if *x == 0.0 => Some(0),
            _ => None,
        }
    }
    match (int(a), int(b)) {
        (Some(x), Some(y)) => x == y,
        (None, None) => a == b,
        _ => false,
    }
}

pub fn events_eq(a: &[Ev], b: &[Ev]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Ev::Atom(x), Ev::Atom(y)) => atom_eq(x, y),
            (x, y) => x == y,
        })
}

/// Deserializes the bytes, whether or not they are text.
pub fn read<T: Deserialize>(b: &[u8]) -> Result<T, Error> {
    deser_json::Deserializer::new(b).deserialize()
}

// ---------------------------------------------------------------- generation

use crate::gen;
use crate::util::Rng;

/// What may follow many digits: zeros, a fraction, an exponent.
fn long_tail(r: &mut Rng, s: &mut String) {
    if r.chance(1, 3) {
        s.push_str(&"0".repeat(r.below(60) as usize));
    }
    if r.chance(1, 3) {
        s.push('.');
        let n = *r.pick(&[1, 2, 17, 40, 330]);
        for _ in 0..n {
            s.push((b'0' + r.below(10) as u8) as char);
        }
    }
    if r.chance(1, 2) {
        let down = s.len() as i64;
        let e = match r.below(5) {
            0 => -down,
            1 => -down - r.below(330) as i64,
            2 => 308 - down + r.below(4) as i64,
            _ => r.below(40) as i64 - 20,
        };
        s.push_str(&format!("{}{}", if r.bool() { 'e' } else { 'E' }, e));
    }
}

pub fn gen_number(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    match r.below(9) {
        0 => s += &gen::int_u64(r).to_string(),
        1 => s += &gen::int_i64(r).unsigned_abs().to_string(),
        2 => {
            // around the limits of the integers
            let base: u128 = *r.pick(&[1u128 << 63, 1 << 64, 1 << 53, 10u128.pow(19), 184467440737095516]);
            s += &(base + r.below(40) as u128 - 20).to_string();
        }
        3 => {
            // long digits
            let n = r.range(15, 40);
            s.push((b'1' + r.below(9) as u8) as char);
            for _ in 0..n {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            long_tail(r, &mut s);
        }
        4 | 5 => {
            let f = gen::finite(r).abs();
            s += &match r.below(3) {
                0 => format!("{}", f),
                1 => format!("{:e}", f),
                _ => format!("{:?}", f),
            };
        }
        _ => {
            if r.chance(1, 4) {
                s.push('0');
            } else {
                s.push((b'1' + r.below(9) as u8) as char);
                for _ in 0..r.below(4) {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            if r.bool() {
                s.push('.');
                let long = r.chance(1, 5);
                for _ in 0..r.range(1, if long { 40 } else { 5 }) {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            if r.bool() {
                s.push(if r.bool() { 'e' } else { 'E' });
                match r.below(3) {
                    0 => s.push('+'),
                    1 => s.push('-'),
                    _ => {}
                }
                if r.chance(1, 4) {
                    s.push('0');
                }
                s += &match r.below(8) {
                    0 => r.range(300, 330).to_string(),
                    1 => r.u64().to_string(),
                    2 => "99999999999999999999999".to_string(),
                    _ => r.below(40).to_string(),
                };
            }
        }
    }
    s
}

pub fn gen_string(r: &mut Rng, v: &str) -> String {
    let mut s = String::from("\"");
    let spell = r.below(4);
    for c in v.chars() {
        let esc = match spell {
            0 => false,
            1 => true,
            _ => r.chance(1, 4),
        };
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if !must && !esc {
            s.push(c);
            continue;
        }
        if let (Some(t), true) = (short, r.bool()) {
            s += t;
            continue;
        }
        for u in c.encode_utf16(&mut [0; 2]) {
            let h = format!("{:04x}", u);
            s += "\\u";
            for x in h.chars() {
                s.push(if r.bool() { x.to_ascii_uppercase() } else { x });
            }
        }
    }
    s.push('"');
    s
}

fn gen_ws(r: &mut Rng, o: &mut String, level: u64) {
    if level == 0 {
        return;
    }
    while r.chance(level, 4) {
        o.push(*r.pick(&[' ', '\t', '\n', '\r']));
    }
}

/// A random spelling of a document; numbers are random texts.
pub fn gen_doc(r: &mut Rng, depth: usize, budget: &mut i64, ws: u64, o: &mut String) {
    *budget -= 1;
    gen_ws(r, o, ws);
    let leaf = depth == 0 || *budget <= 0 || r.chance(1, 3);
    match if leaf { r.below(6) } else { 6 + r.below(2) } {
        0 => *o += "null",
        1 => *o += *r.pick(&["true", "false"]),
        2 | 3 => {
            let s = if r.bool() { gen::key(r) } else { gen::string(r) };
            *o += &gen_string(r, &s)
        }
        4 | 5 => *o += &gen_number(r),
        6 => {
            o.push('[');
            let n = r.below(5);
            gen_ws(r, o, ws);
            for i in 0..n {
                if i > 0 {
                    o.push(',');
                }
                gen_doc(r, depth - 1, budget, ws, o);
            }
            o.push(']');
        }
        _ => {
            o.push('{');
            let n = r.below(5);
            gen_ws(r, o, ws);
            for i in 0..n {
                if i > 0 {
                    o.push(',');
                }
                gen_ws(r, o, ws);
                let s = if r.bool() { gen::key(r) } else { gen::string(r) };
                *o += &gen_string(r, &s);
                gen_ws(r, o, ws);
                o.push(':');
                gen_doc(r, depth - 1, budget, ws, o);
            }
            o.push('}');
        }
    }
    gen_ws(r, o, ws);
}

/// Writes a tree with string keys as JSON with a random spelling.
pub fn spell(r: &mut Rng, evs: &[Ev], ws: u64) -> String {
    let mut o = String::new();
    let mut stack: Vec<(bool, usize)> = vec![];
    for e in evs {
        match e {
            Ev::MapEnd | Ev::SeqEnd => {
                gen_ws(r, &mut o, ws);
                o.push(if *e == Ev::MapEnd { '}' } else { ']' });
                stack.pop();
                continue;
            }
            _ => {}
        }
        if let Some((map, n)) = stack.last_mut() {
            if *map && *n % 2 == 1 {
                o.push(':');
            } else if *n > 0 {
                o.push(',');
            }
            *n += 1;
        }
        gen_ws(r, &mut o, ws);
        match e {
            Ev::MapStart => {
                o.push('{');
                stack.push((true, 0));
            }
            Ev::SeqStart => {
                o.push('[');
                stack.push((false, 0));
            }
            Ev::Atom(a) => match a {
                A::Null => o += "null",
                A::Bool(b) => o += if *b { "true" } else { "false" },
                A::Str(s) => o += &gen_string(r, s),
                A::Char(c) => o += &gen_string(r, &c.to_string()),
                A::U64(x) => o += &x.to_string(),
                A::I64(x) => o += &x.to_string(),
                A::F64(x) => {
                    o += &if r.bool() { format!("{:?}", x) } else { format!("{:e}", x) }
                }
                A::Bytes(_) => panic!("bytes"),
            },
            _ => {}
        }
        gen_ws(r, &mut o, ws);
    }
    o
}

/// The nearest tree that JSON can express.
pub fn jsonable(t: T) -> T {
    match t {
        T::A(A::Bytes(_)) => T::A(A::Str("bytes".into())),
        T::A(A::Char(c)) => T::A(A::Str(c.to_string())),
        T::A(A::F64(x)) if !x.is_finite() => T::A(A::Null),
        T::A(a) => T::A(a),
        T::Seq(v) => T::Seq(v.into_iter().map(jsonable).collect()),
        T::Map(v) => T::Map(
            v.into_iter()
                .map(|(k, v)| {
                    let k = match jsonable(k) {
                        T::A(A::Str(s)) => s,
                        T::A(A::U64(x)) => x.to_string(),
                        T::A(A::I64(x)) => x.to_string(),
                        T::A(x) => x.kind().to_string(),
                        _ => "composite".to_string(),
                    };
                    (T::A(A::Str(k)), jsonable(v))
                })
                .collect(),
        ),
    }
}
