//! Workload generation: hostile strings, keys, numbers and value shapes.

use crate::rng::Rng;
use toon::{JsonValue, StringOrNumberOrBoolOrNull as P};

pub type V = JsonValue;

pub fn s(x: &str) -> V {
    V::Primitive(P::String(x.to_string()))
}
pub fn n(x: f64) -> V {
    V::Primitive(P::Number(x))
}
pub fn null() -> V {
    V::Primitive(P::Null)
}
pub fn b(x: bool) -> V {
    V::Primitive(P::Bool(x))
}

/// Fragments that mean something somewhere in the grammar.
pub const HOSTILE: &[&str] = &[
    "", " ", "  ", "\t", "\n", "\r", "\r\n", "a", "b", "x y", "true", "false", "null", "True", "NULL", "nulll",
    "tru", "0", "-0", "00", "05", "-05", "007", "0.0", "0.", ".5", "-", "--", "- ", "- a", "-a", "-1", "+1", "1",
    "42", "1.5", "1.", "1e5", "1E5", "1e+5", "1e-5", "1e", "1e+", "-1e3", "1e400", "-1e400", "0e0", "05abc",
    "00123-456", "0x10", "1_000", "1,000", "12:30", "2024-01-01", "1.2.3", "NaN", "Infinity", "-Infinity", ":",
    "a:", ":a", "a:b", "a: b", "key: value", "[", "]", "[]", "[0]", "[1]", "[2]:", "[1]: x", "[3]: a,b,c",
    "[2]{a,b}:", "[1|]: x", "[1\t]: y", "[#2]:", "a[1]: b", "items[2]:", "items[2]{id,name}:", "x[0]:", "{", "}",
    "{}", "{a}", "{a,b}:", "a{b}", "\"", "\"\"", "\"a\"", "a\"b", "\\", "\\n", "a\\b", "\\\"", "\\u0041", ",", ",,",
    "a,b", "a, b", "|", "a|b", "a\tb", " a", "a ", "\ta", "a\n", "a\nb", "a\rb", ".", "..", "a.b", "a..b", ".a",
    "a.", "a.b.c", "a.1", "1.a", "a-b", "a.b-c", "#", "# c", "//", "---", "...", "key", "value", "_", "_a", "a_b",
    "$", "@", "*", "&a", "!", "?", "%", "'", "'a'", "`", "~", "=", "<", ">", "/", ";", "\u{0}", "\u{1}",
    "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{80}", "\u{85}", "\u{9f}", "\u{a0}", "\u{ad}", "\u{2003}",
    "\u{2028}", "\u{2029}", "\u{200b}", "\u{feff}", "\u{feff}a", "\u{a0}a", "a\u{85}", "\u{3000}x", "é", "ß", "Ω",
    "ключ", "日本語", "🦀", "👩\u{200d}👩", "e\u{301}", "\u{10ffff}", "\u{fffd}", "\u{e000}", "٣", "１", "\u{202e}abc",
    "yes", "no", "on", "off", "undefined", "none", "]:", "]: ", "[1]", "[-1]:", "[1.5]:", "[01]:", "[ 1 ]:", "[1 ]:",
    "[99999999999999999999]:", "[200000000]:", "\"[1]\": x", "a\": \"b", "\": ", "\",\"", "}:", "{\"a\"}:", "a}b", "a]b",
    "a[b", "a{b", "a|b,c\td", "- - a", "-:", "- [1]: x", "- a: b", "-\t", "-\u{a0}", "1 ", " 1", "1\n", "truefalse", " true",
    "null ", "e5", "E", "1e5e5", "1.5.5", "-.5", "-e5", "- 5", "0b1", "0o7", "1f", "1.0", "1.50", "100", "1e2", "-0.0",
    "0e5", "01e5", "00.5", "0.5e", "９", "1\u{a0}", "123456789012345678901234567890", "0.1", "a=b", "a&b", "<a>",
];

pub const WORDS: &[&str] = &[
    "id", "name", "a", "b", "c", "user", "items", "value", "alpha", "beta", "x", "y", "tags", "price", "active", "note",
    "key_1", "_p", "A", "data", "meta", "config", "Z9",
];

pub const SPECIAL_ALPHABET: &[char] = &[
    ':', ',', '|', '\t', '"', '\\', '[', ']', '{', '}', '-', '.', '0', '1', 'e', 'E', '+', ' ', 'a', 'n', '\n', '\r',
    '#', '_', '5',
];

/// Alphabet of the exhaustive small strings.
pub const SMALL: &[char] = &[
    ':', ',', '|', '\t', '"', '\\', '[', ']', '{', '}', '-', '.', '0', '1', 'e', '+', ' ', 'a', '\n', '\r', '\u{a0}',
    '\u{e9}',
];

/// The `i`-th string over SMALL, in order of length.
pub fn small_string(mut i: u64) -> String {
    let k = SMALL.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        len += 1;
        count *= k;
    }
    let mut out = Vec::with_capacity(len);
    for _ in 0..len {
        out.push(SMALL[(i % k) as usize]);
        i /= k;
    }
    out.iter().collect()
}
/// How many strings over SMALL have at most `len` characters.
pub fn small_count(len: u32) -> u64 {
    (0..=len).map(|l| (SMALL.len() as u64).pow(l)).sum()
}

pub fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(10) {
            0 => r.below(0x20) as u32,
            1 => r.range(0x7f, 0xa1) as u32,
            2 | 3 => r.range(0x20, 0x7e) as u32,
            4 => r.range(0xa0, 0x2ff) as u32,
            5 => r.range(0x2000, 0x206f) as u32,
            6 => r.range(0x3000, 0x30ff) as u32,
            7 => r.range(0xfe00, 0xffff) as u32,
            8 => r.range(0x1f300, 0x1f9ff) as u32,
            _ => r.range(0, 0x0010_ffff) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

pub fn string(r: &mut Rng) -> String {
    match r.below(100) {
        0..=24 => (*r.pick(HOSTILE)).to_string(),
        25..=44 => {
            let k = r.range(2, 4);
            (0..k)
                .map(|_| {
                    if r.pct(70) {
                        (*r.pick(HOSTILE)).to_string()
                    } else {
                        (*r.pick(WORDS)).to_string()
                    }
                })
                .collect()
        }
        45..=64 => {
            let k = r.range(1, 9);
            (0..k).map(|_| *r.pick(SPECIAL_ALPHABET)).collect()
        }
        65..=76 => {
            let k = r.range(1, 8);
            (0..k).map(|_| any_char(r)).collect()
        }
        77..=84 => numberish(r),
        85..=98 => (*r.pick(WORDS)).to_string(),
        _ => {
            let k = r.range(50, 1500);
            let alpha = r.pct(50);
            (0..k)
                .map(|_| if alpha { *r.pick(SPECIAL_ALPHABET) } else { any_char(r) })
                .collect()
        }
    }
}

/// Strings around the number grammar.
pub fn numberish(r: &mut Rng) -> String {
    let mut o = String::new();
    if r.pct(30) {
        o.push(*r.pick(&['-', '+']));
    }
    // now and then more digits than any number type has
    let digits = if r.below(100) == 0 { r.range(15, 500) } else { r.below(4) };
    for _ in 0..digits {
        o.push(*r.pick(&['0', '0', '1', '5', '9']));
    }
    if r.pct(40) {
        o.push('.');
        for _ in 0..r.below(4) {
            o.push(*r.pick(&['0', '1', '5']));
        }
    }
    if r.pct(40) {
        o.push(*r.pick(&['e', 'E']));
        if r.pct(50) {
            o.push(*r.pick(&['-', '+']));
        }
        for _ in 0..r.below(4) {
            o.push(*r.pick(&['0', '1', '3']));
        }
    }
    if r.pct(10) {
        o.push(*r.pick(&['a', ' ', '-', '_', ':', ',', '\n', '\u{a0}']));
    }
    o
}

pub fn ident(r: &mut Rng) -> String {
    if r.pct(60) {
        return (*r.pick(WORDS)).to_string();
    }
    if r.pct(4) {
        let f = Family::new(r);
        return f.member(r);
    }
    let mut o = String::new();
    o.push(*r.pick(&['a', 'b', 'Z', '_', 'q']));
    for _ in 0..r.below(4) {
        o.push(*r.pick(&['a', 'b', 'Z', '_', '0', '9']));
    }
    o
}

pub fn key(r: &mut Rng, hostile: usize) -> String {
    if r.pct(hostile) { string(r) } else { ident(r) }
}

pub fn number(r: &mut Rng) -> f64 {
    loop {
        let x = match r.below(14) {
            0 => r.below(10) as f64,
            1 => -(r.below(1000) as f64),
            2 => r.below(1_000_000) as f64 / 100.0,
            3 => f64::from_bits(r.next()),
            4 => (r.next() >> 11) as f64,
            5 => 10f64.powi(r.range(0, 44) as i32 - 22),
            6 => -(10f64.powi(r.range(0, 616) as i32 - 308)),
            7 => *r.pick(&[
                0.1, 0.2, 0.30000000000000004, 1e21, 1e20, 1e-7, 1e-6, 123456789.123, f64::MAX, f64::MIN_POSITIVE, 5e-324,
                -f64::MAX, 9007199254740991.0, 9007199254740993.0, 4503599627370497.5, 1.0 / 3.0, 2.5e-320, 1e300, 1e-300,
                -1.5, 100.0, 1000000.0, 0.5,
            ]),
            8 => {
                let m = r.next() >> 12;
                let e = r.range(1, 2045) as u64;
                f64::from_bits((e << 52) | m)
            }
            9 => (r.below(2001) as f64 - 1000.0) / 8.0,
            10 => r.below(100_000) as f64,
            _ => r.below(100) as f64,
        };
        if x.is_finite() {
            return if x == 0.0 { 0.0 } else { x };
        }
    }
}

#[derive(Clone, Copy)]
pub struct Shape {
    /// Chance (percent) that a key is hostile.
    pub hostile_keys: usize,
    /// Chance that a string is hostile.
    pub hostile_strings: usize,
    pub max_depth: usize,
    pub width: usize,
}

impl Shape {
    pub fn any(r: &mut Rng) -> Self {
        Self {
            hostile_keys: *r.pick(&[0, 5, 30, 90]),
            hostile_strings: *r.pick(&[0, 30, 90]),
            max_depth: *r.pick(&[1, 2, 3, 4, 6]),
            width: *r.pick(&[2, 3, 5]),
        }
    }
}

pub fn prim(r: &mut Rng, sh: Shape) -> V {
    match r.below(10) {
        0 => null(),
        1 => b(r.pct(50)),
        2..=4 => n(number(r)),
        _ => {
            if r.pct(sh.hostile_strings) {
                V::Primitive(P::String(string(r)))
            } else {
                s(r.pick(WORDS))
            }
        }
    }
}

/// Keys that have most of their characters in common.
pub struct Family {
    stem: String,
    kind: usize,
}
impl Family {
    pub fn new(r: &mut Rng) -> Self {
        let mut stem = String::new();
        for i in 0..r.range(1, 4) {
            if i > 0 {
                stem.push('_');
            }
            stem.push_str(r.pick(WORDS));
        }
        if r.pct(15) {
            let more = if r.pct(20) { r.range(70, 320) } else { r.range(10, 70) };
            stem.push_str(&"long_".repeat(more / 5));
        }
        Self { stem, kind: r.below(5) }
    }
    pub fn member(&self, r: &mut Rng) -> String {
        let x = *r.pick(&["1", "2", "3", "a", "b", "A", "_", "x9"]);
        match self.kind {
            0 | 1 => format!("{}{x}", self.stem),
            2 => format!("k{x}{}", self.stem),
            3 => format!("{}{x}{}", self.stem, self.stem),
            _ => {
                // one letter in another case
                let i = r.below(self.stem.len());
                let mut o = self.stem.clone();
                if o.is_char_boundary(i) && o.is_char_boundary(i + 1) {
                    let c = o.as_bytes()[i] as char;
                    let c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                    o.replace_range(i..=i, &c.to_string());
                }
                o
            }
        }
    }
}

pub fn keys(r: &mut Rng, sh: Shape, count: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let family = if r.pct(6) { Some(Family::new(r)) } else { None };
    while out.len() < count {
        let mut k = match &family {
            Some(f) if r.pct(85) => f.member(r),
            _ => key(r, sh.hostile_keys),
        };
        while out.contains(&k) {
            k.push(*r.pick(&['a', '1', '_', 'z']));
        }
        out.push(k);
    }
    out
}

/// A value; object keys are unique within each object.
pub fn value(r: &mut Rng, sh: Shape, depth: usize) -> V {
    if depth >= sh.max_depth {
        return if r.pct(85) {
            prim(r, sh)
        } else if r.pct(50) {
            V::Array(vec![])
        } else {
            V::Object(vec![])
        };
    }
    match r.below(100) {
        0..=24 => prim(r, sh),
        25..=54 => object(r, sh, depth),
        _ => array(r, sh, depth),
    }
}

pub fn object(r: &mut Rng, sh: Shape, depth: usize) -> V {
    let k = r.below(sh.width + 1);
    let ks = keys(r, sh, k);
    V::Object(ks.into_iter().map(|k| (k, value(r, sh, depth + 1))).collect())
}

pub fn array(r: &mut Rng, sh: Shape, depth: usize) -> V {
    let count = if r.pct(3) { r.range(9, 40) } else { r.below(sh.width + 2) };
    match r.below(100) {
        // primitives
        0..=24 => V::Array((0..count).map(|_| prim(r, sh)).collect()),
        // uniform objects, sometimes almost uniform
        25..=54 => {
            let width = r.range(1, sh.width + 1);
            let ks = keys(r, sh, width);
            let flaw = r.below(12);
            let bad = if count > 0 { r.below(count) } else { 0 };
            V::Array(
                (0..count)
                    .map(|i| {
                        let mut e: Vec<(String, V)> = ks.iter().map(|k| (k.clone(), prim(r, sh))).collect();
                        if flaw == 0 {
                            // permuted rows stay tabular
                            for j in (1..e.len()).rev() {
                                let o = r.below(j + 1);
                                e.swap(j, o);
                            }
                        }
                        if i == bad {
                            match flaw {
                                1 => {
                                    e.pop();
                                }
                                2 => e.push(("zz_extra".into(), prim(r, sh))),
                                3 => {
                                    let j = r.below(e.len());
                                    e[j].1 = value(r, sh, depth + 2);
                                }
                                4 => {
                                    let j = r.below(e.len());
                                    e[j].0 = "zz_other".into();
                                }
                                5 => e.clear(),
                                6 => return value(r, sh, depth + 1),
                                _ => {}
                            }
                        }
                        V::Object(e)
                    })
                    .collect(),
            )
        }
        // arrays of arrays
        55..=69 => V::Array(
            (0..count)
                .map(|_| {
                    if r.pct(70) {
                        let k = r.below(4);
                        V::Array((0..k).map(|_| prim(r, sh)).collect())
                    } else {
                        array(r, sh, depth + 1)
                    }
                })
                .collect(),
        ),
        // objects of any shape
        70..=84 => V::Array((0..count).map(|_| object(r, sh, depth + 1)).collect()),
        // anything
        _ => V::Array((0..count).map(|_| value(r, sh, depth + 1)).collect()),
    }
}

/// A root value (containers preferred).
pub fn root(r: &mut Rng) -> V {
    let sh = Shape::any(r);
    match r.below(100) {
        0..=5 => prim(r, sh),
        6..=35 => array(r, sh, 0),
        36..=96 => object(r, sh, 0),
        97 => large(r, sh),
        98 => deep(r),
        _ => value(r, sh, 0),
    }
}

/// Big tables, long lists and strings.
pub fn large(r: &mut Rng, sh: Shape) -> V {
    let count = r.range(200, 1500);
    match r.below(4) {
        0 => {
            let ks = keys(r, sh, 4);
            V::Array((0..count).map(|_| V::Object(ks.iter().map(|k| (k.clone(), prim(r, sh))).collect())).collect())
        }
        1 => V::Array((0..count).map(|_| prim(r, sh)).collect()),
        2 => {
            let l: String = (0..count * 20).map(|_| any_char(r)).collect();
            V::Object(vec![("big".into(), s(&l))])
        }
        _ => V::Object((0..count).map(|i| (format!("k{i}"), prim(r, sh))).collect()),
    }
}

/// Sizes near the limits programs tend to have.
pub fn threshold(r: &mut Rng, cap: usize) -> usize {
    const T: &[usize] = &[
        16, 20, 32, 50, 64, 100, 127, 128, 200, 255, 256, 257, 300, 500, 512, 999, 1000, 1023, 1024, 2000, 2048, 4095, 4096,
        5000, 8192, 9999, 10_000, 16_384, 32_767, 32_768, 40_000, 65_535, 65_536, 65_537, 70_000, 100_000,
    ];
    let fit = T.iter().filter(|t| **t <= cap).count().max(1);
    // The upper end is as likely as the lower one.
    let t = T[r.below(fit)] + r.below(4);
    t.saturating_sub(r.below(3)).clamp(1, cap.max(1))
}

/// A long string: mostly one kind of character, perhaps with something that
/// matters somewhere, often at its end.
pub fn long_string(r: &mut Rng, n: usize) -> String {
    let kind = r.below(9);
    let mut t = String::new();
    while t.len() < n {
        match kind {
            0 => t.push('a'),
            1 => t.push(*r.pick(&['a', 'b', 'Z', '_', '9', 'q'])),
            2 => t.push(*r.pick(&['0', '1', '7'])),
            3 => t.push_str("word "),
            4 => t.push('é'),
            5 => t.push(*r.pick(SPECIAL_ALPHABET)),
            6 => t.push('"'),
            7 => t.push_str("ab."),
            _ => t.push(any_char(r)),
        }
    }
    if r.pct(60) {
        let x = if r.pct(60) { (*r.pick(HOSTILE)).to_string() } else { r.pick(SPECIAL_ALPHABET).to_string() };
        let mut at = match r.below(6) {
            0 => 0,
            1 => r.below(t.len() + 1),
            2 => t.len().saturating_sub(r.below(12)),
            _ => t.len(),
        };
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        t.insert_str(at, &x);
    }
    t
}

/// A value that is extreme in one way: one long string or key, one long array,
/// table or object, one wide row, many small siblings.
pub fn big(r: &mut Rng, cap: usize) -> V {
    let n = threshold(r, cap);
    let sh = Shape { hostile_keys: *r.pick(&[0, 0, 30]), hostile_strings: *r.pick(&[0, 10, 60]), max_depth: 2, width: 2 };
    let small = |r: &mut Rng| prim(r, sh);
    let last = |r: &mut Rng, a: &mut Vec<V>| {
        // one that is not like the others, late
        if r.pct(40) && !a.is_empty() {
            let i = if r.pct(50) { a.len() - 1 } else { r.below(a.len()) };
            a[i] = value(r, sh, r.clone().below(2));
        }
    };
    let v = match r.below(13) {
        0 | 1 => s(&long_string(r, n)),
        2 => V::Object(vec![(long_string(r, n), small(r))]),
        3 => V::Object(vec![(long_string(r, n), V::Array(vec![small(r), small(r)])), ("z".into(), small(r))]),
        4 | 5 => {
            let mut a: Vec<V> = (0..n).map(|_| small(r)).collect();
            last(r, &mut a);
            V::Array(a)
        }
        6 | 7 => {
            let k = r.range(1, 3);
            let ks = keys(r, sh, k);
            let mut a: Vec<V> =
                (0..n).map(|_| V::Object(ks.iter().map(|k| (k.clone(), small(r))).collect())).collect();
            last(r, &mut a);
            V::Array(a)
        }
        8 => V::Array((0..n).map(|i| if i % 3 == 0 { V::Array(vec![small(r)]) } else { value(r, sh, 1) }).collect()),
        9 => {
            // few rows of many fields; field lookup is quadratic
            let w = n.min(700);
            let mut a: Vec<V> = (0..r.range(1, 3))
                .map(|_| V::Object((0..w).map(|i| (format!("f{i}"), small(r))).collect()))
                .collect();
            last(r, &mut a);
            V::Array(a)
        }
        10 => V::Object((0..n.min(5000)).map(|i| (format!("k{i}"), small(r))).collect()),
        11 => V::Object((0..n.min(5000)).map(|i| (format!("k{i}"), value(r, sh, 1))).collect()),
        _ => {
            // a long string among others, in a row or an inline array
            let l = s(&long_string(r, n));
            if r.pct(50) {
                V::Array(vec![small(r), l, small(r)])
            } else {
                V::Array(vec![
                    V::Object(vec![("a".into(), small(r)), ("b".into(), l.clone())]),
                    V::Object(vec![("a".into(), small(r)), ("b".into(), small(r))]),
                ])
            }
        }
    };
    match r.below(6) {
        0 => v,
        1 => V::Object(vec![("k".into(), v)]),
        2 => V::Object(vec![("a".into(), n_(r)), ("k".into(), v), ("z".into(), small(r))]),
        3 => V::Array(vec![n_(r), v, small(r)]),
        4 => V::Array(vec![V::Object(vec![("k".into(), v), ("z".into(), small(r))]), small(r)]),
        _ => V::Object(vec![("a".into(), V::Object(vec![("b".into(), V::Object(vec![("k".into(), v)])), ("y".into(), n_(r))])), ("z".into(), small(r))]),
    }
}
fn n_(r: &mut Rng) -> V {
    n(r.below(100) as f64)
}

/// Deep nesting of random container kinds.
pub fn deep(r: &mut Rng) -> V {
    let mut v = s("leaf");
    for i in 0..r.range(10, 60) {
        v = match r.below(4) {
            0 => V::Array(vec![v]),
            1 => V::Array(vec![n(i as f64), v]),
            2 => V::Object(vec![("k".into(), v)]),
            _ => V::Object(vec![("a".into(), n(1.0)), ("k".into(), v), ("z".into(), null())]),
        };
    }
    v
}

/// Equality of values: exact doubles, exact key order.
/// Nesting near the limits programs tend to have, at most `max` levels: one
/// kind of container all the way or a mixture, with or without neighbours.
pub fn deeper(r: &mut Rng, max: usize) -> V {
    const T: &[usize] = &[
        64, 78, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 450, 500, 511, 512, 513, 600, 640, 700, 767, 768, 800, 900, 950, 990,
    ];
    let fit = T.iter().filter(|t| **t <= max).count();
    let levels = if fit == 0 { max } else { (T[r.below(fit)] + r.below(3)).min(max) };
    let kind = r.below(7);
    let neighbours = *r.pick(&[0, 0, 10, 60]);
    let mut v = match r.below(4) {
        0 => V::Array(vec![]),
        1 => V::Object(vec![]),
        2 => V::Array(vec![V::Object(vec![("q".into(), n(1.0))]), V::Object(vec![("q".into(), s("x"))])]),
        _ => s("leaf"),
    };
    for i in 0..levels {
        let k = match kind {
            0 => 0,
            1 => 1,
            2 => i % 2,
            _ => r.below(2),
        };
        let name = if r.pct(80) { "k".to_string() } else { ident(r) };
        let (before, after) = (r.pct(neighbours), r.pct(neighbours));
        v = if k == 0 {
            let mut a = vec![v];
            if before {
                a.insert(0, n(i as f64));
            }
            if after {
                a.push(null());
            }
            V::Array(a)
        } else {
            let mut o = vec![(name, v)];
            if before {
                o.insert(0, ("before0".into(), n(i as f64)));
            }
            if after {
                o.push(("after0".into(), V::Array(vec![n(i as f64)])));
            }
            V::Object(o)
        };
    }
    v
}

pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Primitive(P::Number(x)), V::Primitive(P::Number(y))) => x.to_bits() == y.to_bits(),
        (V::Primitive(x), V::Primitive(y)) => x == y,
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (V::Object(x), V::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same(a, b))
        }
        _ => false,
    }
}

/// A compact, unambiguous text of a value for reports and hashing.
pub fn show(v: &V) -> String {
    let mut o = String::new();
    show_to(v, &mut o);
    o
}
fn show_to(v: &V, o: &mut String) {
    match v {
        V::Primitive(P::Null) => o.push_str("null"),
        V::Primitive(P::Bool(x)) => o.push_str(if *x { "true" } else { "false" }),
        V::Primitive(P::Number(x)) => o.push_str(&format!("{x:?}")),
        V::Primitive(P::String(x)) => o.push_str(&format!("{x:?}")),
        V::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                show_to(x, o);
            }
            o.push(']');
        }
        V::Object(e) => {
            o.push('{');
            for (i, (k, x)) in e.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(&format!("{k:?}:"));
                show_to(x, o);
            }
            o.push('}');
        }
    }
}

pub fn size(v: &V) -> usize {
    match v {
        V::Primitive(_) => 1,
        V::Array(a) => 1 + a.iter().map(size).sum::<usize>(),
        V::Object(e) => 1 + e.iter().map(|(_, v)| size(v)).sum::<usize>(),
    }
}

/// Shrink a failing value for a readable report.
pub fn shrink(v: &V, bad: &mut dyn FnMut(&V) -> bool) -> V {
    let mut cur = v.clone();
    let mut budget = 3000;
    let until = std::time::Instant::now() + std::time::Duration::from_secs(4);
    'outer: loop {
        for c in smaller(&cur) {
            budget -= 1;
            if budget == 0 || std::time::Instant::now() > until {
                return cur;
            }
            if bad(&c) {
                cur = c;
                continue 'outer;
            }
        }
        return cur;
    }
}
fn smaller(v: &V) -> Vec<V> {
    let mut out = Vec::new();
    // Copies of big values are costly: fewer of them, in larger steps.
    let take = if size(v) > 5000 { 4 } else { 60 };
    match v {
        V::Array(a) if a.len() > 200 => {
            let h = a.len() / 2;
            out.push(V::Array(a[..h].to_vec()));
            out.push(V::Array(a[h..].to_vec()));
            for p in 0..8 {
                let (x, y) = (a.len() * p / 8, a.len() * (p + 1) / 8);
                out.push(V::Array(a[..x].iter().chain(&a[y..]).cloned().collect()));
            }
            out.extend(a[..20].iter().cloned());
            out.extend(a[a.len() - 20..].iter().cloned());
        }
        V::Object(e) if e.len() > 200 => {
            let h = e.len() / 2;
            out.push(V::Object(e[..h].to_vec()));
            out.push(V::Object(e[h..].to_vec()));
            for p in 0..8 {
                let (x, y) = (e.len() * p / 8, e.len() * (p + 1) / 8);
                out.push(V::Object(e[..x].iter().chain(&e[y..]).cloned().collect()));
            }
            out.extend(e[..20].iter().map(|x| x.1.clone()));
            out.extend(e[e.len() - 20..].iter().map(|x| x.1.clone()));
        }
        V::Primitive(P::String(x)) => {
            let cs: Vec<char> = x.chars().collect();
            if cs.len() > 4 {
                out.push(V::Primitive(P::String(cs[..cs.len() / 2].iter().collect())));
                out.push(V::Primitive(P::String(cs[cs.len() / 2..].iter().collect())));
            }
            if cs.len() <= 40 {
                for i in 0..cs.len() {
                    let t: String = cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| c).collect();
                    out.push(V::Primitive(P::String(t)));
                }
            }
        }
        V::Primitive(P::Number(x)) if *x != 1.0 => out.push(n(1.0)),
        V::Primitive(_) => {}
        V::Array(a) => {
            for x in a {
                out.push(x.clone());
            }
            if a.len() > 3 {
                out.push(V::Array(a[..a.len() / 2].to_vec()));
                out.push(V::Array(a[a.len() / 2..].to_vec()));
            }
            for i in 0..a.len().min(40) {
                let mut c = a.clone();
                c.remove(i);
                out.push(V::Array(c));
            }
            for i in 0..a.len().min(40) {
                for x in smaller(&a[i]).into_iter().take(take) {
                    let mut c = a.clone();
                    c[i] = x;
                    out.push(V::Array(c));
                }
            }
        }
        V::Object(e) => {
            for (_, x) in e {
                out.push(x.clone());
            }
            if e.len() > 3 {
                out.push(V::Object(e[..e.len() / 2].to_vec()));
                out.push(V::Object(e[e.len() / 2..].to_vec()));
            }
            for i in 0..e.len().min(40) {
                let mut c = e.clone();
                c.remove(i);
                out.push(V::Object(c));
            }
            for i in 0..e.len().min(40) {
                for x in smaller(&e[i].1).into_iter().take(take) {
                    let mut c = e.clone();
                    c[i].1 = x;
                    out.push(V::Object(c));
                }
                if e[i].0.len() > 1 {
                    let mut c = e.clone();
                    c[i].0 = "k".into();
                    if !e.iter().any(|(k, _)| k == "k") {
                        out.push(V::Object(c));
                    }
                    let cs: Vec<char> = e[i].0.chars().collect();
                    if cs.len() <= 20 {
                        for j in 0..cs.len() {
                            let t: String = cs.iter().enumerate().filter(|(q, _)| *q != j).map(|(_, c)| c).collect();
                            if !e.iter().any(|(k, _)| *k == t) {
                                let mut c = e.clone();
                                c[i].0 = t;
                                out.push(V::Object(c));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
