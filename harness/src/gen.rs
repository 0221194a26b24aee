//! Random atoms, strings, trees and stream mutations.
use crate::model::*;
use crate::util::Rng;

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    /// how many more nodes may be made
    pub budget: i64,
    /// only values that JSON can carry exactly
    pub json: bool,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, budget: i64) -> Gen<'a> {
        Gen { r, budget, json: false }
    }
    /// A container length that respects the budget.
    pub fn len(&mut self) -> usize {
        self.budget -= 1;
        if self.budget <= 0 {
            return 0;
        }
        let n = match self.r.below(20) {
            0..=3 => 0,
            4..=7 => 1,
            8..=10 => 2,
            11..=17 => self.r.range(3, 6),
            18 => self.r.range(7, 20),
            _ => self.r.range(0, 70),
        };
        let n = n.min(self.budget as u64);
        self.budget -= n as i64;
        if self.budget > 3 && self.r.chance(1, 1500) {
            // a few containers are long, whatever the budget
            self.budget = 0;
            return self.r.long(1024, n) as usize;
        }
        n as usize
    }
}

pub const CHARS: &[char] = &[
    'a', 'b', 'Z', '0', '9', ' ', '"', '\\', '/', '\n', '\r', '\t', '\0', '\x01', '\x08', '\x0c', '\x1f', '\x7f',
    '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}',
    '\u{10000}', '😀', '\u{10ffff}', '\'', '{', '}', '[', ']', ':', ',', '\u{feff}', 'u',
];

pub fn ch(r: &mut Rng) -> char {
    if r.chance(3, 4) {
        *r.pick(CHARS)
    } else {
        loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                return c;
            }
        }
    }
}

pub fn string(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 | 1 => 0,
        2 | 3 => 1,
        4..=9 => r.range(2, 8),
        10 => r.range(8, 40),
        _ => r.range(0, 200),
    };
    let n = if r.chance(1, 400) { r.long(65536, n) } else { n };
    let plain = r.bool();
    (0..n).map(|_| if plain { (b'a' + r.below(26) as u8) as char } else { ch(r) }).collect()
}

/// Keys that collide often.
pub fn key(r: &mut Rng) -> String {
    if r.chance(4, 5) {
        r.pick(&["a", "b", "c", "id", "name", "", "x y", "é", "0", "-1", "true", "2024"]).to_string()
    } else if r.chance(1, 4) {
        // text that looks like something else
        match r.below(5) {
            0 => int_u64(r).to_string(),
            1 => int_i64(r).to_string(),
            2 => format!("{:?}", float(r)),
            3 => format!("0{}", r.below(100)),
            _ => r.pick(&["null", "false", "()", "[]", "{}", "a.b", "/a/0", "[0]", "*", "$", "_", "\\"]).to_string(),
        }
    } else {
        string(r)
    }
}

pub fn int_u64(r: &mut Rng) -> u64 {
    match r.below(7) {
        6 => {
            // around the middle of two neighbouring floats
            let bits = *r.pick(&[24u32, 53]);
            let mid = (r.u64() | 1 << 63) >> (64 - bits) << 1 | 1;
            let up = r.below(64 - bits as u64) as u32;
            (mid << up.min(63 - bits)).wrapping_add(r.below(3)).wrapping_sub(1)
        }
        0 => r.below(4),
        1 => r.below(300),
        2 | 3 => {
            let b = *r.pick(&[7u32, 8, 15, 16, 31, 32, 53, 62, 63, 64]);
            let base = if b == 64 { 0u64 } else { 1u64 << b };
            base.wrapping_add(r.below(5)).wrapping_sub(2)
        }
        4 => r.u64() >> r.below(64),
        _ => {
            // around powers of ten
            let p = 10u64.pow(r.below(20) as u32);
            p.wrapping_add(r.below(3)).wrapping_sub(1)
        }
    }
}

pub fn int_i64(r: &mut Rng) -> i64 {
    let x = int_u64(r) as i64;
    if r.bool() {
        x
    } else {
        x.wrapping_neg()
    }
}

pub fn float(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1e21, 1e-7, 123456789012345680.0]),
        1 => *r.pick(&[
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            f64::EPSILON,
            2.2250738585072011e-308,
            9007199254740993.0,
            1.7976931348623155e308,
            18446744073709551616.0,
            -9223372036854775808.0,
        ]),
        2 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        3 => int_i64(r) as f64,
        4 => int_u64(r) as f64,
        5 => (int_i64(r) % 100000) as f64 / 100.0,
        6 if r.bool() => {
            // around the middle of two neighbouring floats of the other size
            let mid = (f32::from_bits(r.u64() as u32) as f64).to_bits() | 1 << 28;
            f64::from_bits(mid.wrapping_add(r.below(3)).wrapping_sub(1))
        }
        6 => f32::from_bits(r.u64() as u32) as f64,
        _ => f64::from_bits(r.u64()),
    }
}

pub fn finite(r: &mut Rng) -> f64 {
    loop {
        let f = float(r);
        if f.is_finite() {
            return f;
        }
    }
}

pub fn bytes(r: &mut Rng) -> Vec<u8> {
    // often bytes are text or all the same
    match r.below(16) {
        0 | 1 => return string(r).into_bytes(),
        2 => return (0..r.below(60)).map(|_| b' ' + r.below(95) as u8).collect(),
        3 => return vec![*r.pick(&[0u8, 0xff, 0x80, b'a']); r.below(40) as usize],
        _ => {}
    }
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => 3,
        3 => r.below(6),
        _ => r.below(40),
    };
    let n = if r.chance(1, 400) { r.long(65536, n) } else { n };
    (0..n).map(|_| r.u64() as u8).collect()
}

pub fn atom(r: &mut Rng) -> A {
    match r.below(10) {
        0 => A::Null,
        1 => A::Bool(r.bool()),
        2 | 3 => A::Str(if r.bool() { key(r) } else { string(r) }),
        4 => A::Bytes(bytes(r)),
        5 => A::Char(ch(r)),
        6 | 7 => A::U64(int_u64(r)),
        8 => A::I64(int_i64(r)),
        _ => A::F64(float(r)),
    }
}

/// The tree as the only leaf of a deep one.
pub fn deep(r: &mut Rng, mut t: T) -> T {
    for _ in 0..r.range(60, 400) {
        t = if r.bool() { T::Seq(vec![t]) } else { T::Map(vec![(T::A(A::Str("x".into())), t)]) };
    }
    t
}

pub fn tree(r: &mut Rng, depth: usize, budget: &mut i64) -> T {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || r.chance(2, 5) {
        return T::A(atom(r));
    }
    let n = match r.below(10) {
        0 | 1 => 0,
        2 | 3 => 1,
        4..=8 => r.range(2, 5),
        _ => r.range(0, 12),
    };
    let n = if r.chance(1, 3000) { r.long(4096, n) } else { n };
    if r.bool() {
        T::Seq((0..n).map(|_| tree(r, depth - 1, budget)).collect())
    } else {
        T::Map(
            (0..n)
                .map(|_| {
                    let k = match r.below(8) {
                        0 => tree(r, depth - 1, budget),
                        1 => T::A(atom(r)),
                        2 => T::A(A::U64(int_u64(r))),
                        3 => T::A(A::I64(int_i64(r))),
                        _ => T::A(A::Str(key(r))),
                    };
                    (k, tree(r, depth - 1, budget))
                })
                .collect(),
        )
    }
}

/// An arbitrary JSON-like tree (string keys, no bytes or chars).
pub fn json_tree(r: &mut Rng, depth: usize, budget: &mut i64) -> T {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || r.chance(2, 5) {
        return T::A(match r.below(8) {
            0 => A::Null,
            1 => A::Bool(r.bool()),
            2 | 3 => A::Str(string(r)),
            4 | 5 => A::U64(int_u64(r)),
            6 => A::I64(int_i64(r)),
            _ => A::F64(finite(r)),
        });
    }
    let n = r.below(6);
    if r.bool() {
        T::Seq((0..n).map(|_| json_tree(r, depth - 1, budget)).collect())
    } else {
        T::Map(
            (0..n)
                .map(|_| {
                    (T::A(A::Str(if r.bool() { key(r) } else { string(r) })), json_tree(r, depth - 1, budget))
                })
                .collect(),
        )
    }
}

fn similar_atom(r: &mut Rng, a: &A) -> A {
    match a {
        A::U64(x) if r.bool() && *x <= i64::MAX as u64 => A::I64(*x as i64),
        A::I64(x) if r.bool() && *x >= 0 => A::U64(*x as u64),
        A::U64(_) | A::I64(_) => match r.below(4) {
            0 => A::U64(int_u64(r)),
            1 => A::I64(int_i64(r)),
            2 => A::F64(float(r)),
            _ => A::Char('7'),
        },
        A::F64(_) => match r.below(3) {
            0 => A::U64(int_u64(r)),
            1 => A::I64(int_i64(r)),
            _ => A::F64(float(r)),
        },
        A::Char(c) => A::Str(match r.below(4) {
            0 | 1 => c.to_string(),
            2 => format!("{}{}", c, ch(r)),
            _ => String::new(),
        }),
        A::Str(s) => match r.below(4) {
            0 => A::Char(s.chars().next().unwrap_or('x')),
            1 => A::Bytes(s.as_bytes().to_vec()),
            _ => A::Str(if r.bool() { key(r) } else { ch(r).to_string() }),
        },
        A::Bytes(b) => {
            let mut b = b.clone();
            if r.bool() {
                b.push(1);
            } else {
                b.pop();
            }
            A::Bytes(b)
        }
        A::Bool(b) => {
            if r.bool() {
                A::Bool(!b)
            } else {
                A::U64(*b as u64)
            }
        }
        A::Null => A::Null,
    }
}

/// Changes one random place of the tree.
pub fn mutate(r: &mut Rng, t: &mut T) {
    let n = t.size();
    let mut target = r.idx(n) as i64;
    mutate_at(r, t, &mut target);
}

fn mutate_at(r: &mut Rng, t: &mut T, target: &mut i64) -> bool {
    if *target <= 0 {
        mutate_here(r, t);
        return true;
    }
    match t {
        T::A(_) => *target -= 1,
        T::Seq(v) => {
            *target -= 2;
            for x in v {
                if mutate_at(r, x, target) {
                    return true;
                }
            }
        }
        T::Map(v) => {
            *target -= 2;
            for (k, x) in v {
                if mutate_at(r, k, target) || mutate_at(r, x, target) {
                    return true;
                }
            }
        }
    }
    false
}

fn small(r: &mut Rng) -> T {
    let mut b = 6;
    tree(r, 2, &mut b)
}

fn mutate_here(r: &mut Rng, t: &mut T) {
    match t {
        T::A(a) => match r.below(10) {
            0..=4 => *a = similar_atom(r, a),
            5 => *a = atom(r),
            6 => *a = A::Null,
            7 => *t = small(r),
            8 => {
                if let A::Bytes(b) = a {
                    *t = T::Seq(b.iter().map(|x| T::A(A::U64(*x as u64))).collect());
                } else {
                    *t = T::Seq(vec![t.clone()]);
                }
            }
            _ => *a = atom(r),
        },
        T::Seq(v) => match r.below(8) {
            0 | 1 => {
                let i = r.idx(v.len() + 1);
                let x = if v.is_empty() || r.bool() { small(r) } else { v[r.idx(v.len())].clone() };
                v.insert(i, x);
            }
            2 | 3 => {
                if !v.is_empty() {
                    let i = r.idx(v.len());
                    v.remove(i);
                }
            }
            4 => {
                if v.len() > 1 {
                    let (a, b) = (r.idx(v.len()), r.idx(v.len()));
                    v.swap(a, b);
                }
            }
            5 => {
                let b: Option<Vec<u8>> = v
                    .iter()
                    .map(|x| match x {
                        T::A(A::U64(x)) if *x < 256 => Some(*x as u8),
                        _ => None,
                    })
                    .collect();
                match b {
                    Some(b) => *t = T::A(A::Bytes(b)),
                    None => *t = T::A(A::Null),
                }
            }
            6 => {
                let m = v.drain(..).map(|x| (small(r), x)).collect();
                *t = T::Map(m);
            }
            _ => *t = small(r),
        },
        T::Map(v) => match r.below(9) {
            0 | 1 => {
                let i = r.idx(v.len() + 1);
                let k = if v.is_empty() || r.bool() { T::A(A::Str(key(r))) } else { v[r.idx(v.len())].0.clone() };
                let x = if v.is_empty() || r.bool() { small(r) } else { v[r.idx(v.len())].1.clone() };
                v.insert(i, (k, x));
            }
            2 | 3 => {
                if !v.is_empty() {
                    let i = r.idx(v.len());
                    v.remove(i);
                }
            }
            4 => {
                if v.len() > 1 {
                    let (a, b) = (r.idx(v.len()), r.idx(v.len()));
                    v.swap(a, b);
                }
            }
            5 => {
                // a duplicate with its own value
                if !v.is_empty() {
                    let i = r.idx(v.len());
                    let mut x = v[i].clone();
                    mutate(r, &mut x.1);
                    let j = r.idx(v.len() + 1);
                    v.insert(j, x);
                }
            }
            6 => {
                if !v.is_empty() {
                    let i = r.idx(v.len());
                    v[i].0 = if r.bool() { small(r) } else { T::A(A::Str(key(r))) };
                }
            }
            7 => {
                let s = v.drain(..).flat_map(|(a, b)| [a, b]).collect();
                *t = T::Seq(s);
            }
            _ => *t = small(r),
        },
    }
}
