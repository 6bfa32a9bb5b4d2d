//! Reference model of the TOON encoder, written from the format description:
//! scalar rules, line layout and key folding. Every line carries notes about
//! what it is, which the decoding monitors use to aim their mutations.

use crate::gen_::V;
use std::collections::HashSet;
use toon::StringOrNumberOrBoolOrNull as P;

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub delim: char,
    pub indent: usize,
    /// None: folding off. Some(n): safe folding with that flatten depth.
    pub fold: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Inline,
    Table,
    List,
}

#[derive(Clone, Debug)]
pub struct Header {
    pub form: Form,
    pub count: usize,
    /// Byte range of the count's digits in the line's text.
    pub digits: (usize, usize),
    pub array: usize,
    pub fields: usize,
}

#[derive(Clone, Debug)]
pub struct Row {
    pub cells: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub depth: usize,
    pub text: String,
    pub header: Option<Header>,
    pub row: Option<Row>,
    pub item: bool,
    /// Arrays whose body (first to last line) this line belongs to.
    pub scopes: Vec<usize>,
}

// ------------------------------------------------------------ scalar rules

/// digits [ . digits ] [ e [sign] digits ] with optional minus: anything a
/// reader could take for a number, leading zeros included.
pub fn looks_numeric(x: &str) -> bool {
    let mut t = x.strip_prefix('-').unwrap_or(x);
    let digits = |t: &mut &str| -> bool {
        let k = t.bytes().take_while(u8::is_ascii_digit).count();
        *t = &t[k..];
        k > 0
    };
    if !digits(&mut t) {
        return false;
    }
    if let Some(r) = t.strip_prefix('.') {
        t = r;
        if !digits(&mut t) {
            return false;
        }
    }
    if let Some(r) = t.strip_prefix(['e', 'E']) {
        t = r.strip_prefix(['+', '-']).unwrap_or(r);
        if !digits(&mut t) {
            return false;
        }
    }
    t.is_empty()
}

/// The JSON number grammar.
pub fn json_number(x: &str) -> bool {
    let t = x.strip_prefix('-').unwrap_or(x);
    let int: usize = t.bytes().take_while(u8::is_ascii_digit).count();
    looks_numeric(x) && (int == 1 || !t.starts_with('0'))
}

pub fn must_quote(x: &str, delim: char) -> bool {
    x.is_empty()
        || x.chars().next().is_some_and(char::is_whitespace)
        || x.chars().last().is_some_and(char::is_whitespace)
        || ["true", "false", "null"].contains(&x)
        || looks_numeric(x)
        || x.starts_with('-')
        || x.chars()
            .any(|c| c == delim || [':', '"', '\\', '[', ']', '{', '}', '\n', '\r', '\t'].contains(&c))
}

pub fn plain_key(k: &str) -> bool {
    let mut it = k.bytes();
    it.next().is_some_and(|c| c.is_ascii_alphabetic() || c == b'_')
        && it.all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.')
}

pub fn segment(k: &str) -> bool {
    plain_key(k) && !k.contains('.')
}

pub fn quote(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        let e = match c {
            '\\' => "\\\\",
            '"' => "\\\"",
            '\n' => "\\n",
            '\r' => "\\r",
            '\t' => "\\t",
            _ => {
                o.push(c);
                continue;
            }
        };
        o.push_str(e);
    }
    o.push('"');
    o
}

pub fn key_text(k: &str) -> String {
    if plain_key(k) { k.to_string() } else { quote(k) }
}

pub fn number_text(x: f64) -> String {
    if !x.is_finite() {
        return "null".into();
    }
    if x == 0.0 {
        return "0".into();
    }
    // Shortest digits from the exponent form, laid out without an exponent.
    let e = format!("{:e}", x.abs());
    let (mant, exp) = e.split_once('e').expect("exponent form");
    let exp: i64 = exp.parse().expect("exponent");
    let digits: String = mant.chars().filter(char::is_ascii_digit).collect();
    let point = exp + 1;
    let mut o = String::new();
    if x < 0.0 {
        o.push('-');
    }
    if point <= 0 {
        o.push_str("0.");
        for _ in point..0 {
            o.push('0');
        }
        o.push_str(&digits);
    } else if point as usize >= digits.len() {
        o.push_str(&digits);
        for _ in digits.len()..point as usize {
            o.push('0');
        }
    } else {
        o.push_str(&digits[..point as usize]);
        o.push('.');
        o.push_str(&digits[point as usize..]);
    }
    o
}

pub fn prim_text(p: &P, delim: char) -> String {
    match p {
        P::Null => "null".into(),
        P::Bool(true) => "true".into(),
        P::Bool(false) => "false".into(),
        P::Number(x) => number_text(*x),
        P::String(x) => {
            if must_quote(x, delim) {
                quote(x)
            } else {
                x.clone()
            }
        }
    }
}

// ------------------------------------------------------------ normalisation

pub fn normal(v: &V) -> V {
    match v {
        V::Primitive(P::Number(x)) if !x.is_finite() => V::Primitive(P::Null),
        V::Primitive(P::Number(x)) if *x == 0.0 => V::Primitive(P::Number(0.0)),
        V::Primitive(p) => V::Primitive(p.clone()),
        V::Array(a) => V::Array(a.iter().map(normal).collect()),
        V::Object(e) => V::Object(e.iter().map(|(k, v)| (k.clone(), normal(v))).collect()),
    }
}

/// What a reader of the encoding sees: rows of tables take the field order of
/// the first row.
pub fn read_back(v: &V) -> V {
    match v {
        V::Primitive(_) => v.clone(),
        V::Object(e) => V::Object(e.iter().map(|(k, v)| (k.clone(), read_back(v))).collect()),
        V::Array(a) => match table_fields(a) {
            Some(f) => V::Array(a.iter().map(|r| reorder(r, &f)).collect()),
            None => V::Array(a.iter().map(read_back).collect()),
        },
    }
}
/// An array directly inside an array is never written as a table, except that
/// the first field of a list item and ordinary fields are; `read_back` for the
/// nested case.
fn reorder(row: &V, fields: &[String]) -> V {
    let V::Object(e) = row else { return row.clone() };
    V::Object(
        fields
            .iter()
            .filter_map(|f| e.iter().find(|(k, _)| k == f).cloned())
            .collect(),
    )
}

/// Equal up to the order of keys in objects that hold only scalars (rows).
pub fn same_modulo_rows(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Array(x), V::Array(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let tab = table_fields(x);
            match tab {
                Some(f) => x
                    .iter()
                    .zip(y)
                    .all(|(a, b)| crate::gen_::same(a, b) || crate::gen_::same(&reorder(a, &f), b)),
                None => x.iter().zip(y).all(|(a, b)| same_modulo_rows(a, b)),
            }
        }
        (V::Object(x), V::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same_modulo_rows(a, b))
        }
        _ => crate::gen_::same(a, b),
    }
}

/// The field list when an array is written as a table.
pub fn table_fields(a: &[V]) -> Option<Vec<String>> {
    let V::Object(first) = a.first()? else { return None };
    if first.is_empty() {
        return None;
    }
    let fields: Vec<String> = first.iter().map(|(k, _)| k.clone()).collect();
    for row in a {
        let V::Object(e) = row else { return None };
        if e.len() != fields.len() || e.iter().any(|(_, v)| !matches!(v, V::Primitive(_))) {
            return None;
        }
        if !fields.iter().all(|f| e.iter().any(|(k, _)| k == f)) {
            return None;
        }
    }
    Some(fields)
}

// ------------------------------------------------------------------- layout

struct Enc {
    o: Opts,
    out: Vec<Line>,
    scopes: Vec<usize>,
    arrays: usize,
}

pub fn encode(v: &V, o: Opts) -> Vec<Line> {
    let mut e = Enc {
        o,
        out: Vec::new(),
        scopes: Vec::new(),
        arrays: 0,
    };
    match v {
        V::Primitive(p) => e.push(0, prim_text(p, o.delim)),
        V::Array(a) => e.array("", a, 0, 1, true),
        V::Object(f) => {
            let literals: HashSet<String> = f.iter().map(|(k, _)| k.clone()).filter(|k| k.contains('.')).collect();
            let keys: Vec<&str> = f.iter().map(|(k, _)| k.as_str()).collect();
            e.fields(f, &keys, 0, Some(&literals), None, o.fold.unwrap_or(0));
        }
    }
    e.out
}

pub fn text(lines: &[Line], indent: usize) -> String {
    let mut o = String::new();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        o.push_str(&" ".repeat(l.depth * indent));
        o.push_str(&l.text);
    }
    o
}

impl Enc {
    fn push(&mut self, depth: usize, text: String) {
        self.out.push(Line {
            depth,
            text,
            header: None,
            row: None,
            item: false,
            scopes: self.scopes.clone(),
        });
    }

    fn fields(
        &mut self,
        f: &[(String, V)],
        siblings: &[&str],
        depth: usize,
        literals: Option<&HashSet<String>>,
        prefix: Option<&str>,
        budget: usize,
    ) {
        let abs = |k: &str| prefix.map_or_else(|| k.to_string(), |p| format!("{p}.{k}"));
        for (k, v) in f {
            if let Some((joined, used, rest)) = self.chain(k, v, siblings, literals, prefix, budget) {
                match rest {
                    V::Object(inner) if !inner.is_empty() => {
                        self.push(depth, format!("{}:", key_text(&joined)));
                        let keys: Vec<&str> = inner.iter().map(|(k, _)| k.as_str()).collect();
                        let p = abs(&joined);
                        self.fields(inner, &keys, depth + 1, literals, Some(&p), budget - used);
                    }
                    leaf => self.field("", &joined, leaf, depth, depth + 1, None, None, 0),
                }
                continue;
            }
            let p = abs(k);
            self.field("", k, v, depth, depth + 1, literals, Some(&p), budget);
        }
    }

    /// The dotted key, its segment count and what is left below it.
    fn chain<'a>(
        &self,
        k: &str,
        v: &'a V,
        siblings: &[&str],
        literals: Option<&HashSet<String>>,
        prefix: Option<&str>,
        budget: usize,
    ) -> Option<(String, usize, &'a V)> {
        self.o.fold?;
        let mut segs: Vec<&str> = vec![k];
        let mut cur = v;
        while segs.len() < budget {
            match cur {
                V::Object(e) if e.len() == 1 => {
                    segs.push(&e[0].0);
                    cur = &e[0].1;
                }
                _ => break,
            }
        }
        if segs.len() < 2 || !segs.iter().all(|s| segment(s)) {
            return None;
        }
        let joined = segs.join(".");
        if siblings.contains(&joined.as_str()) {
            return None;
        }
        let abs = prefix.map_or_else(|| joined.clone(), |p| format!("{p}.{joined}"));
        if literals.is_some_and(|l| l.contains(&abs)) {
            return None;
        }
        Some((joined, segs.len(), cur))
    }

    /// One field; `lead` is empty or the list marker, children go at `below`.
    #[allow(clippy::too_many_arguments)]
    fn field(
        &mut self,
        lead: &str,
        k: &str,
        v: &V,
        depth: usize,
        below: usize,
        literals: Option<&HashSet<String>>,
        prefix: Option<&str>,
        budget: usize,
    ) {
        let name = format!("{lead}{}", key_text(k));
        match v {
            V::Primitive(p) => self.push(depth, format!("{name}: {}", prim_text(p, self.o.delim))),
            V::Array(a) => self.array(&name, a, depth, below, true),
            V::Object(e) => {
                self.push(depth, format!("{name}:"));
                let keys: Vec<&str> = e.iter().map(|(k, _)| k.as_str()).collect();
                self.fields(e, &keys, below, literals, prefix, budget);
            }
        }
    }

    fn array(&mut self, lead: &str, a: &[V], depth: usize, below: usize, may_table: bool) {
        let d = self.o.delim;
        let mark = if d == ',' { String::new() } else { d.to_string() };
        let start = lead.len() + 1;
        let digits = (start, start + a.len().to_string().len());
        let mut text = format!("{lead}[{}{mark}]", a.len());
        let id = self.arrays;
        self.arrays += 1;
        let header = |form, fields| {
            Some(Header {
                form,
                count: a.len(),
                digits,
                array: id,
                fields,
            })
        };
        if a.iter().all(|x| matches!(x, V::Primitive(_))) {
            text.push(':');
            let cells: Vec<String> = a
                .iter()
                .filter_map(|x| match x {
                    V::Primitive(p) => Some(prim_text(p, d)),
                    _ => None,
                })
                .collect();
            if !cells.is_empty() {
                text.push(' ');
                text.push_str(&cells.join(&d.to_string()));
            }
            self.push(depth, text);
            let l = self.out.len() - 1;
            self.out[l].header = header(Form::Inline, 0);
            return;
        }
        if let Some(fields) = table_fields(a).filter(|_| may_table) {
            let names: Vec<String> = fields.iter().map(|f| key_text(f)).collect();
            text.push_str(&format!("{{{}}}:", names.join(&d.to_string())));
            self.push(depth, text);
            let l = self.out.len() - 1;
            self.out[l].header = header(Form::Table, fields.len());
            self.scopes.push(id);
            for row in a {
                let V::Object(e) = row else { continue };
                let cells: Vec<String> = fields
                    .iter()
                    .filter_map(|f| e.iter().find(|(k, _)| k == f))
                    .filter_map(|(_, v)| match v {
                        V::Primitive(p) => Some(prim_text(p, d)),
                        _ => None,
                    })
                    .collect();
                self.push(below, cells.join(&d.to_string()));
                let l = self.out.len() - 1;
                self.out[l].row = Some(Row { cells });
            }
            self.scopes.pop();
            return;
        }
        text.push(':');
        self.push(depth, text);
        let l = self.out.len() - 1;
        self.out[l].header = header(Form::List, 0);
        self.scopes.push(id);
        for x in a {
            let at = self.out.len();
            self.item(x, below);
            self.out[at].item = true;
        }
        self.scopes.pop();
    }

    fn item(&mut self, v: &V, depth: usize) {
        match v {
            V::Primitive(p) => self.push(depth, format!("- {}", prim_text(p, self.o.delim))),
            V::Array(a) => self.array("- ", a, depth, depth + 1, false),
            V::Object(e) => {
                let Some((k, first)) = e.first() else {
                    self.push(depth, "-".into());
                    return;
                };
                let full = self.o.fold.unwrap_or(0);
                self.field("- ", k, first, depth, depth + 2, None, None, full);
                let keys: Vec<&str> = e.iter().map(|(k, _)| k.as_str()).collect();
                self.fields(&e[1..], &keys, depth + 1, None, None, full);
            }
        }
    }
}
