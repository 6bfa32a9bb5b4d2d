//! Documents as lines with notes on what they are, mutations of documents and
//! hostile texts.

use crate::gen_::{self, Shape, V};
use crate::liberal;
use crate::rng::Rng;
use crate::spec;

#[derive(Clone, Debug)]
pub struct DL {
    pub depth: usize,
    pub text: String,
    /// Bodies of arrays this line lies in.
    pub scopes: Vec<usize>,
    /// Byte range of the count in a header, and the count.
    pub count: Option<(usize, usize, usize)>,
    /// Cells of a table row and its delimiter.
    pub cells: Option<(Vec<String>, char)>,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub lines: Vec<DL>,
    pub indent: usize,
    /// What it decodes to.
    pub value: V,
    pub liberties: u64,
}

pub fn canonical(v: &V, delim: char, indent: usize) -> Doc {
    let lines = spec::encode(v, spec::Opts { delim, indent, fold: None });
    Doc {
        lines: lines
            .into_iter()
            .map(|l| DL {
                depth: l.depth,
                text: l.text,
                scopes: l.scopes,
                count: l.header.map(|h| (h.digits.0, h.digits.1, h.count)),
                cells: l.row.map(|r| (r.cells, delim)),
            })
            .collect(),
        indent,
        value: spec::read_back(v),
        liberties: 0,
    }
}

pub fn free_form(r: &mut Rng, v: &V, free: usize, indent: usize) -> Doc {
    let (lines, value, liberties) = liberal::write(r, v, free);
    Doc {
        lines: lines
            .into_iter()
            .map(|l| DL {
                depth: l.depth,
                text: l.text,
                scopes: l.scopes,
                count: l.count,
                cells: l.cells,
            })
            .collect(),
        indent,
        value,
        liberties,
    }
}

/// A valid document of moderate size.
pub fn valid(r: &mut Rng) -> Doc {
    if r.below(400) == 0 {
        let cap = if r.pct(4) { 100_003 } else { 5000 };
        let v = gen_::big(r, cap);
        return of_value(r, &v);
    }
    if r.below(400) == 0 {
        let v = gen_::deeper(r, 130);
        return of_value(r, &v);
    }
    let mut v = gen_::root(r);
    for _ in 0..3 {
        if gen_::size(&v) <= 300 {
            break;
        }
        v = gen_::root(r);
    }
    of_value(r, &v)
}

pub fn of_value(r: &mut Rng, v: &V) -> Doc {
    let indent = crate::h::indent(r);
    if r.pct(50) {
        let d = crate::h::delim(r);
        canonical(v, d, indent)
    } else {
        let free = *r.pick(&[0, 10, 40]);
        free_form(r, v, free, indent)
    }
}

impl Doc {
    pub fn text(&self) -> String {
        text_of(&self.lines, self.indent)
    }
    /// Inline: a header with values on the same line.
    pub fn is_inline(&self, i: usize) -> bool {
        let l = &self.lines[i];
        match l.count {
            Some((_, _, n)) => {
                n > 0
                    && self
                        .lines
                        .get(i + 1)
                        .is_none_or(|m| m.scopes.len() <= l.scopes.len() || m.depth <= l.depth)
            }
            None => false,
        }
    }
    /// One past the last line of the subtree that starts at line `i`.
    pub fn subtree(&self, i: usize) -> usize {
        let d = self.lines[i].depth;
        let mut e = i + 1;
        while e < self.lines.len() && self.lines[e].depth > d {
            e += 1;
        }
        e
    }
}

pub fn text_of(lines: &[DL], indent: usize) -> String {
    lines
        .iter()
        .map(|l| format!("{}{}", " ".repeat(l.depth * indent), l.text))
        .collect::<Vec<_>>()
        .join("\n")
}

pub fn with_count(l: &DL, n: u64) -> DL {
    let mut l = l.clone();
    if let Some((a, b, _)) = l.count {
        l.text = format!("{}{}{}", &l.text[..a], n, &l.text[b..]);
    }
    l
}

/// What some formats begin comments, directives or special lines with.
pub const PREFIXES: &[&str] = &[
    "# ", "#", "## ", "// ", "//", ";", "; ", "--- ", "---", "%", "% ", "@", "! ", "!", "$", "* ", "> ", ">", "<!-- ", "'",
    "~", "...", "=", "& ", "?", "/* ", "\u{feff}", "\u{a0}", "+ ", "+", "| ", "|", "rem ", "=> ", "^", "`", "```", "(", ")",
    "\u{2022} ", "* * ", "_", ".", ", ", "/", "\\",
];

/// A value made of unique markers: keys k1z, strings v2z.
pub fn marked(r: &mut Rng, next: &mut usize, depth: usize, root: bool) -> V {
    let dress = r.below(8) == 0;
    let mut salt = r.clone();
    let mut mark = |p: &str, next: &mut usize| {
        *next += 1;
        let mut t = format!("{p}{next}z");
        if dress && salt.pct(50) {
            t = format!("{}{t}", salt.pick(PREFIXES));
        }
        if dress && salt.pct(20) {
            *next += 1;
            t = format!("{t}{}{p}{next}z", salt.pick(&[" # ", " // ", "#", " ; ", " -- ", "  ", " <!-- ", " /* ", "\u{a0}"]));
        }
        t
    };
    let kind = if root { r.range(1, 9) } else if depth >= 4 { 0 } else { r.below(10) };
    match kind {
        0 | 1 if !root => gen_::s(&mark("v", next)),
        1..=4 => {
            let k = if root { r.range(1, 4) } else { r.below(4) };
            V::Object(
                (0..k)
                    .map(|_| {
                        let k = mark("k", next);
                        (k, marked(r, next, depth + 1, false))
                    })
                    .collect(),
            )
        }
        5 => V::Array((0..r.below(4)).map(|_| gen_::s(&mark("v", next))).collect()),
        6 | 7 => {
            let names: Vec<String> = (0..r.range(1, 3)).map(|_| mark("k", next)).collect();
            V::Array(
                (0..r.range(1, 3))
                    .map(|_| V::Object(names.iter().map(|k| (k.clone(), gen_::s(&mark("v", next)))).collect()))
                    .collect(),
            )
        }
        _ => V::Array((0..r.below(4)).map(|_| marked(r, next, depth + 1, false)).collect()),
    }
}

/// One line of text that looks like TOON.
pub fn soup_line(r: &mut Rng) -> String {
    let w = |r: &mut Rng| (*r.pick(&["a", "b", "k", "x1", "name", "\"q k\"", "a.b", "\"a.b\"", "", "-", "1"])).to_string();
    let p = |r: &mut Rng| match r.below(8) {
        0 => gen_::numberish(r),
        1 => gen_::string(r).replace('\n', " "),
        2 => spec::quote(&gen_::string(r)),
        3 => "true".into(),
        4 => String::new(),
        _ => (*r.pick(gen_::WORDS)).to_string(),
    };
    let list = |r: &mut Rng, n: usize| {
        let d = *r.pick(&[",", ",", "|", "\t"]);
        let v: Vec<String> = (0..n).map(|_| p(r)).collect();
        v.join(d)
    };
    let n = r.below(4);
    let m = *r.pick(&["", "", "", "|", "\t", "#"]);
    let mut t = match r.below(16) {
        0..=2 => format!("{}: {}", w(r), p(r)),
        3 | 4 => format!("{}:", w(r)),
        5 => format!("{}[{n}{m}]: {}", w(r), list(r, n)),
        6 => format!("{}[{n}{m}]:", w(r)),
        7 => format!("{}[{n}{m}]{{{}}}:", w(r), list(r, r.clone().range(1, 3))),
        8 => format!("[{n}{m}]: {}", list(r, n)),
        9 => format!("[{n}{m}]:"),
        10 | 11 => list(r, n + 1),
        12 => "-".into(),
        13 => p(r),
        14 => {
            let k = r.range(1, 5);
            (0..k).map(|_| *r.pick(gen_::HOSTILE)).collect::<String>().replace('\n', " ")
        }
        _ => String::new(),
    };
    if r.pct(35) {
        t = format!("- {t}");
    }
    t
}

/// Lines that look like TOON at random depths; sometimes valid.
pub fn soup(r: &mut Rng, indent: usize) -> String {
    let n = r.range(1, 9);
    let mut depth = 0usize;
    let mut out = Vec::new();
    for i in 0..n {
        if i > 0 {
            depth = match r.below(6) {
                0 | 1 => depth + 1,
                2 => depth.saturating_sub(1),
                3 => r.below(4),
                _ => depth,
            };
        } else if r.pct(5) {
            depth = r.below(3);
        }
        let odd = if r.pct(4) { r.below(indent + 1) } else { 0 };
        out.push(format!("{}{}", " ".repeat(depth * indent + odd), soup_line(r)));
    }
    let sep = if r.pct(3) { "\r\n" } else { "\n" };
    out.join(sep)
}

/// Change a text a little: characters, lines, indentation, counts.
pub fn mutate(r: &mut Rng, text: &str, indent: usize) -> String {
    let mut lines: Vec<String> = text.split('\n').map(String::from).collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(lines.len());
        match r.below(12) {
            0 | 1 => {
                let cs: Vec<char> = lines[i].chars().collect();
                let j = r.below(cs.len() + 1);
                let ins = *r.pick(gen_::SPECIAL_ALPHABET);
                lines[i] = cs[..j].iter().chain(std::iter::once(&ins)).chain(&cs[j..]).collect();
            }
            2 => {
                let cs: Vec<char> = lines[i].chars().collect();
                if !cs.is_empty() {
                    let j = r.below(cs.len());
                    lines[i] = cs[..j].iter().chain(&cs[j + 1..]).collect();
                }
            }
            3 => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            4 => {
                if lines.len() > 1 {
                    lines.remove(i);
                }
            }
            5 => {
                let j = r.below(lines.len());
                lines.swap(i, j);
            }
            6 => {
                // now and then by as much as a short counter would lose
                let k = match r.below(400) {
                    0 => 1 << 16,
                    1..=3 => 256,
                    4..=6 => 256 * indent,
                    _ => indent,
                };
                lines[i] = format!("{}{}", " ".repeat(k), lines[i]);
            }
            7 => lines[i] = lines[i].strip_prefix(&" ".repeat(indent)).unwrap_or(&lines[i]).to_string(),
            8 => {
                let d = r.below(4) * indent;
                let l = format!("{}{}", " ".repeat(d), soup_line(r));
                lines.insert(i, l);
            }
            9 => {
                let digits: Vec<usize> = lines[i].bytes().enumerate().filter(|(_, b)| b.is_ascii_digit()).map(|(j, _)| j).collect();
                if !digits.is_empty() {
                    let j = *r.pick(&digits);
                    let d = r.below(10).to_string();
                    lines[i].replace_range(j..=j, &d);
                }
            }
            10 => lines.insert(i, (*r.pick(&["", " ", "  ", "\t", "    "])).to_string()),
            _ => {
                let cs: Vec<char> = lines[i].chars().collect();
                if !cs.is_empty() {
                    let j = r.below(cs.len());
                    let f = (*r.pick(gen_::HOSTILE)).to_string();
                    lines[i] = cs[..j].iter().collect::<String>() + &f + &cs[j + 1..].iter().collect::<String>();
                }
            }
        }
    }
    lines.join("\n")
}

/// Any text: soups, mutants of valid documents, valid documents, noise.
pub fn any_text(r: &mut Rng) -> (String, usize) {
    let (t, indent) = plain_text(r);
    if r.pct(5) { (dressed(r, &t), indent) } else { (t, indent) }
}

/// The text with other line ends, with many blank lines in it, or far down in
/// a longer document.
fn dressed(r: &mut Rng, t: &str) -> String {
    let lines: Vec<&str> = t.split('\n').collect();
    match r.below(4) {
        0 => {
            let all = r.pct(70);
            let last = lines.len() - 1;
            let ends = |i: usize, l: &str, on: bool| if on && i < last { format!("{l}\r") } else { l.to_string() };
            lines.iter().enumerate().map(|(i, l)| ends(i, l, all || r.pct(50))).collect::<Vec<_>>().join("\n")
        }
        1 => {
            let at = r.below(lines.len());
            let n = *r.pick(&[20, 41, 64, 101, 130, 257, 600]);
            let fill = *r.pick(&["", "", " ", "  ", "\t", "\r"]);
            let mut out: Vec<&str> = lines[..at].to_vec();
            out.extend(vec![fill; n]);
            out.extend(&lines[at..]);
            out.join("\n")
        }
        _ => {
            // one of its lines gets a round number
            let goal = if r.pct(10) { *r.pick(&[4096, 8192, 5000, 10_000]) } else { *r.pick(&[100, 128, 255, 256, 512, 999, 1000, 1024, 2048]) };
            let n: usize = (goal - 1) - r.below(lines.len().min(100));
            let fill: String = if r.pct(50) { "\n".repeat(n) } else { (0..n).map(|i| format!("zf{i}: 1\n")).collect() };
            fill + t
        }
    }
}

fn plain_text(r: &mut Rng) -> (String, usize) {
    let indent = crate::h::indent(r);
    match r.below(10) {
        0..=3 => (soup(r, indent), indent),
        4..=7 => {
            let d = valid(r);
            (mutate(r, &d.text(), d.indent), d.indent)
        }
        8 => {
            let d = valid(r);
            (d.text(), d.indent)
        }
        _ => {
            let k = r.range(0, 40);
            let t = if r.pct(60) {
                (0..k).map(|_| *r.pick(gen_::SPECIAL_ALPHABET)).collect()
            } else {
                (0..k).map(|_| gen_::any_char(r)).collect()
            };
            (t, indent)
        }
    }
}

/// Small random shape used where values must stay readable.
pub fn small_shape(r: &mut Rng) -> Shape {
    Shape {
        hostile_keys: *r.pick(&[0, 20]),
        hostile_strings: *r.pick(&[0, 40]),
        max_depth: *r.pick(&[1, 2, 3]),
        width: *r.pick(&[2, 3]),
    }
}
