//! A writer of non-canonical but valid TOON: given a value it produces one of
//! the many documents that describe it, together with the value a reader must
//! get back (rows take the field order of the header).

use crate::gen_::V;
use crate::rng::Rng;
use crate::spec;
use toon::StringOrNumberOrBoolOrNull as P;

#[derive(Clone, Debug)]
pub struct LLine {
    /// Indentation in units.
    pub depth: usize,
    pub text: String,
    /// Bodies of arrays this line lies in (no blank lines between its lines).
    pub scopes: Vec<usize>,
    /// For a header: byte range of the count and the count.
    pub count: Option<(usize, usize, usize)>,
    /// Quoted flag of every key on this line, in order.
    pub quoted: Vec<bool>,
    /// Cells of a table row, with its delimiter.
    pub cells: Option<(Vec<String>, char)>,
}

#[derive(Clone, Copy)]
pub struct Style {
    /// Chance of each liberty, in percent.
    pub free: usize,
}

pub struct Writer<'a> {
    r: &'a mut Rng,
    st: Style,
    pub out: Vec<LLine>,
    scopes: Vec<usize>,
    arrays: usize,
    pub liberties: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Pos {
    Field,
    Item,
    Inline(char),
    Cell(char),
    Root,
}

pub fn write(r: &mut Rng, v: &V, free: usize) -> (Vec<LLine>, V, u64) {
    let mut w = Writer {
        r,
        st: Style { free },
        out: Vec::new(),
        scopes: Vec::new(),
        arrays: 0,
        liberties: 0,
    };
    let back = w.root(v);
    let lib = w.liberties;
    (w.out, back, lib)
}

pub fn text(lines: &[LLine], indent: usize) -> String {
    lines
        .iter()
        .map(|l| format!("{}{}", " ".repeat(l.depth * indent), l.text))
        .collect::<Vec<_>>()
        .join("\n")
}

impl Writer<'_> {
    fn free(&mut self) -> bool {
        let f = self.st.free;
        let y = self.r.pct(f);
        if y {
            self.liberties += 1;
        }
        y
    }

    fn push(&mut self, depth: usize, mut text: String) -> usize {
        if self.st.free > 0 && self.r.pct(6) {
            self.liberties += 1;
            for _ in 0..self.r.range(1, 3) {
                text.push(' ');
            }
        }
        self.out.push(LLine {
            depth,
            text,
            scopes: self.scopes.clone(),
            count: None,
            quoted: Vec::new(),
            cells: None,
        });
        self.out.len() - 1
    }

    /// May this string stand without quotes here?
    fn bare_ok(x: &str, pos: Pos) -> bool {
        if x.is_empty()
            || x.trim() != x
            || x.starts_with('-')
            || x.starts_with('"')
            || x.contains('\n')
            || x.contains('\r')
            || ["true", "false", "null"].contains(&x)
        {
            return false;
        }
        if spec::json_number(x) && x.parse::<f64>().is_ok_and(f64::is_finite) {
            return false;
        }
        match pos {
            Pos::Field => true,
            Pos::Item => !x.contains([':', '"', '[']),
            Pos::Root => !x.contains([':', '"', '[']),
            Pos::Inline(d) | Pos::Cell(d) => !x.contains(d) && !x.contains('"'),
        }
    }

    fn string(&mut self, x: &str, pos: Pos) -> String {
        let d = match pos {
            Pos::Inline(d) | Pos::Cell(d) => d,
            _ => ',',
        };
        if Self::bare_ok(x, pos) && (self.free() || !spec::must_quote(x, d)) {
            if self.r.pct(10) && self.free() {
                return spec::quote(x);
            }
            return x.to_string();
        }
        spec::quote(x)
    }

    fn number(&mut self, x: f64) -> String {
        let canon = spec::number_text(x);
        if !self.free() {
            return canon;
        }
        let mut cands: Vec<String> = vec![
            format!("{x:e}"),
            format!("{x:e}").replace('e', "E"),
            format!("{x:e}").replace('e', "e+").replace("+-", "-"),
            if canon.contains('.') { format!("{canon}0") } else { format!("{canon}.0") },
            if canon.contains('.') { format!("{canon}000") } else { format!("{canon}.000") },
            format!("{canon}e0"),
            format!("{canon}E+00"),
            format!("{canon}e-0"),
        ];
        if x == 0.0 {
            cands.extend(["-0", "-0.0", "0e5", "0E-3", "-0e1"].map(String::from));
        }
        let c = self.r.pick(&cands).clone();
        let same = c.parse::<f64>().is_ok_and(|y| y == x);
        if spec::json_number(&c) && same { c } else { canon }
    }

    fn prim(&mut self, p: &P, pos: Pos) -> String {
        match p {
            P::Null => "null".into(),
            P::Bool(b) => b.to_string(),
            P::Number(x) => self.number(*x),
            P::String(x) => self.string(x, pos),
        }
    }

    /// A key before a colon or a bracket.
    fn key(&mut self, k: &str, delim_free: Option<char>) -> (String, bool) {
        let bare = !k.is_empty()
            && k.trim() == k
            && !k.starts_with('-')
            && !k.contains([':', '"', '[', ']', '\n', '\r', '\\'])
            && delim_free.is_none_or(|d| !k.contains(d) && !k.contains(['{', '}']));
        if spec::plain_key(k) {
            if self.r.pct(30) && self.free() {
                return (spec::quote(k), true);
            }
            return (k.to_string(), false);
        }
        if bare && self.free() {
            return (k.to_string(), false);
        }
        (spec::quote(k), true)
    }

    fn gap(&mut self) -> String {
        match self.r.below(4) {
            0 if self.free() => String::new(),
            1 if self.free() => " ".repeat(self.r.range(2, 4)),
            _ => " ".into(),
        }
    }

    fn root(&mut self, v: &V) -> V {
        match v {
            V::Primitive(p) => {
                let t = self.prim(p, Pos::Root);
                let t = if t.is_empty() { "\"\"".into() } else { t };
                self.push(0, t);
                v.clone()
            }
            V::Array(a) => self.array("", &[], a, 0, 1),
            V::Object(o) => {
                let mut back = Vec::new();
                for (k, x) in o {
                    back.push((k.clone(), self.field("", k, x, 0, 1, true)));
                }
                V::Object(back)
            }
        }
    }

    /// One field. Arrays below it start at `below`, nested objects there or deeper.
    fn field(&mut self, lead: &str, k: &str, v: &V, depth: usize, below: usize, may_deepen: bool) -> V {
        let (kt, q) = self.key(k, None);
        // After extra spaces behind the dash a quoted key is not recognised.
        let lead = if lead.is_empty() || q {
            lead.to_string()
        } else if self.r.pct(20) && self.free() {
            format!("-{}", " ".repeat(self.r.range(2, 3)))
        } else {
            lead.to_string()
        };
        match v {
            V::Primitive(p) => {
                let t = self.prim(p, Pos::Field);
                let g = self.gap();
                let i = self.push(depth, format!("{lead}{kt}:{g}{t}"));
                self.out[i].quoted = vec![q];
                v.clone()
            }
            V::Array(a) => self.array(&format!("{lead}{kt}"), &[q], a, depth, below),
            V::Object(o) => {
                let i = self.push(depth, format!("{lead}{kt}:"));
                self.out[i].quoted = vec![q];
                let extra = if may_deepen && self.r.pct(25) && self.free() { self.r.range(1, 3) } else { 0 };
                let at = below + extra;
                let mut back = Vec::new();
                for (k, x) in o {
                    back.push((k.clone(), self.field("", k, x, at, at + 1, true)));
                }
                V::Object(back)
            }
        }
    }

    fn padded(&mut self, cells: &[String], d: char) -> String {
        let mut o = String::new();
        for (i, c) in cells.iter().enumerate() {
            if i > 0 {
                o.push(d);
            }
            if i > 0 && self.r.pct(20) && self.free() {
                o.push_str(&" ".repeat(self.r.range(1, 2)));
            }
            o.push_str(c);
            if i + 1 < cells.len() && !(i == 0 && c.is_empty()) && self.r.pct(15) && self.free() {
                o.push(' ');
            }
        }
        o
    }

    fn cell(&mut self, p: &P, pos: Pos, inner: bool, several: bool, d: char) -> String {
        if let P::String(x) = p
            && x.is_empty()
            // a lone empty cell is no cell, and outer tabs are trimmed
            && several
            && (inner || d != '\t')
            && self.free()
        {
            return String::new();
        }
        self.prim(p, pos)
    }

    fn array(&mut self, lead: &str, lead_quoted: &[bool], a: &[V], depth: usize, below: usize) -> V {
        let d = if self.free() { *self.r.pick(&[',', '\t', '|']) } else { ',' };
        let m = if d == ',' { String::new() } else { d.to_string() };
        let digits = a.len().to_string();
        let from = lead.len() + 1;
        let head = format!("{lead}[{digits}{m}]");
        let count = Some((from, from + digits.len(), a.len()));
        let id = self.arrays;
        self.arrays += 1;
        let prims = a.iter().all(|x| matches!(x, V::Primitive(_)));
        let list_anyway = self.r.pct(20) && self.free();
        // no elements: a table without rows says the same
        if a.is_empty() && lead != "- " && self.r.pct(40) && self.free() {
            let mut quoted = lead_quoted.to_vec();
            let mut names: Vec<String> = Vec::new();
            for f in &["a", "id", "x y"][..self.r.range(1, 3)] {
                let (t, q) = self.key(f, Some(d));
                names.push(t);
                quoted.push(q);
            }
            let names = self.padded(&names, d);
            let i = self.push(depth, format!("{head}{{{names}}}:"));
            self.out[i].count = count;
            self.out[i].quoted = quoted;
            return V::Array(Vec::new());
        }
        if prims && !(list_anyway && !a.is_empty()) {
            let n = a.len();
            let mut cells: Vec<String> = Vec::new();
            for (i, x) in a.iter().enumerate() {
                if let V::Primitive(p) = x {
                    cells.push(self.cell(p, Pos::Inline(d), i > 0 && i + 1 < n, n > 1, d));
                }
            }
            let body = self.padded(&cells, d);
            let g = if body.is_empty() { String::new() } else { self.gap() };
            let i = self.push(depth, format!("{head}:{g}{body}"));
            self.out[i].count = count;
            self.out[i].quoted = lead_quoted.to_vec();
            return V::Array(a.to_vec());
        }
        let fields = spec::table_fields(a).filter(|_| !list_anyway);
        if let Some(fields) = fields {
            let mut quoted = lead_quoted.to_vec();
            let mut names = Vec::new();
            for f in &fields {
                let (t, q) = self.key(f, Some(d));
                names.push(t);
                quoted.push(q);
            }
            let names = self.padded(&names, d);
            let i = self.push(depth, format!("{head}{{{names}}}:"));
            self.out[i].count = count;
            self.out[i].quoted = quoted;
            self.scopes.push(id);
            let mut back = Vec::new();
            for row in a {
                let V::Object(e) = row else { continue };
                let vals: Vec<(String, V)> = fields
                    .iter()
                    .filter_map(|f| e.iter().find(|(k, _)| k == f).cloned())
                    .collect();
                let n = vals.len();
                let mut cells = Vec::new();
                for (i, (_, x)) in vals.iter().enumerate() {
                    if let V::Primitive(p) = x {
                        cells.push(self.cell(p, Pos::Cell(d), i > 0 && i + 1 < n, n > 1, d));
                    }
                }
                let t = self.padded(&cells, d);
                let i = self.push(below, t);
                self.out[i].cells = Some((cells, d));
                back.push(V::Object(vals));
            }
            self.scopes.pop();
            return V::Array(back);
        }
        let i = self.push(depth, format!("{head}:"));
        self.out[i].count = count;
        self.out[i].quoted = lead_quoted.to_vec();
        self.scopes.push(id);
        let mut back = Vec::new();
        for x in a {
            back.push(self.item(x, below));
        }
        self.scopes.pop();
        V::Array(back)
    }

    fn item(&mut self, v: &V, depth: usize) -> V {
        let lead = if self.r.pct(15) && self.free() {
            format!("-{}", " ".repeat(self.r.range(2, 3)))
        } else {
            "- ".to_string()
        };
        match v {
            V::Primitive(p) => {
                let t = self.prim(p, Pos::Item);
                self.push(depth, format!("{lead}{t}"));
                v.clone()
            }
            V::Array(a) => self.array(&lead, &[], a, depth, depth + 1),
            V::Object(o) => {
                let Some((k, first)) = o.first() else {
                    self.push(depth, "-".into());
                    return v.clone();
                };
                let mut back = vec![(k.clone(), self.field("- ", k, first, depth, depth + 2, true))];
                for (k, x) in &o[1..] {
                    back.push((k.clone(), self.field("", k, x, depth + 1, depth + 2, true)));
                }
                V::Object(back)
            }
        }
    }
}
