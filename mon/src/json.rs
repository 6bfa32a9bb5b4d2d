//! An independent strict JSON reader and the layout of JSON.stringify.

use crate::gen_::V;
use crate::rng::Rng;
use crate::spec;
use toon::StringOrNumberOrBoolOrNull as P;

/// Parse strict JSON; numbers are the nearest doubles; key order and
/// duplicates are kept.
pub fn read(text: &str) -> Result<V, String> {
    let mut p = R { b: text.as_bytes(), t: text, i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("text after the value at byte {}", p.i));
    }
    Ok(v)
}

struct R<'a> {
    b: &'a [u8],
    t: &'a str,
    i: usize,
    depth: usize,
}

impl R<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\n' | b'\r' | b'\t')) {
            self.i += 1;
        }
    }
    fn lit(&mut self, w: &str, v: V) -> Result<V, String> {
        if self.t[self.i..].starts_with(w) {
            self.i += w.len();
            Ok(v)
        } else {
            Err(format!("unexpected text at byte {}", self.i))
        }
    }
    fn value(&mut self) -> Result<V, String> {
        match self.b.get(self.i) {
            Some(b'n') => self.lit("null", V::Primitive(P::Null)),
            Some(b't') => self.lit("true", V::Primitive(P::Bool(true))),
            Some(b'f') => self.lit("false", V::Primitive(P::Bool(false))),
            Some(b'"') => Ok(V::Primitive(P::String(self.string()?))),
            Some(b'[') => {
                self.open()?;
                let mut out = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.close();
                    return Ok(V::Array(out));
                }
                loop {
                    self.ws();
                    out.push(self.value()?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.close();
                            return Ok(V::Array(out));
                        }
                        _ => return Err(format!("expected , or ] at byte {}", self.i)),
                    }
                }
            }
            Some(b'{') => {
                self.open()?;
                let mut out = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.close();
                    return Ok(V::Object(out));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return Err(format!("expected : at byte {}", self.i));
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value()?;
                    out.push((k, v));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.close();
                            return Ok(V::Object(out));
                        }
                        _ => return Err(format!("expected , or }} at byte {}", self.i)),
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => {
                let n = number_token(&self.t[self.i..]).ok_or_else(|| format!("bad number at byte {}", self.i))?;
                let x: f64 = n.parse().map_err(|_| "number")?;
                self.i += n.len();
                Ok(V::Primitive(P::Number(x)))
            }
            _ => Err(format!("unexpected text at byte {}", self.i)),
        }
    }
    fn open(&mut self) -> Result<(), String> {
        self.i += 1;
        self.depth += 1;
        if self.depth > 3000 { Err("too deep for this reader".into()) } else { Ok(()) }
    }
    fn close(&mut self) {
        self.i += 1;
        self.depth -= 1;
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.b.get(self.i..self.i + 4).ok_or("short escape")?;
        let mut n = 0u32;
        for &c in h {
            n = n * 16 + (c as char).to_digit(16).ok_or("bad escape")?;
        }
        self.i += 4;
        Ok(n)
    }
    fn string(&mut self) -> Result<String, String> {
        if self.b.get(self.i) != Some(&b'"') {
            return Err(format!("expected a string at byte {}", self.i));
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            let start = self.i;
            while matches!(self.b.get(self.i), Some(&c) if c != b'"' && c != b'\\' && c >= 0x20) {
                self.i += 1;
            }
            out.push_str(&self.t[start..self.i]);
            match self.b.get(self.i) {
                Some(b'"') => {
                    self.i += 1;
                    return Ok(out);
                }
                Some(b'\\') => {
                    self.i += 2;
                    match self.b.get(self.i - 1) {
                        Some(b'"') => out.push('"'),
                        Some(b'\\') => out.push('\\'),
                        Some(b'/') => out.push('/'),
                        Some(b'b') => out.push('\u{8}'),
                        Some(b'f') => out.push('\u{c}'),
                        Some(b'n') => out.push('\n'),
                        Some(b'r') => out.push('\r'),
                        Some(b't') => out.push('\t'),
                        Some(b'u') => {
                            let mut n = self.hex4()?;
                            if (0xd800..0xdc00).contains(&n) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 2;
                                let m = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&m) {
                                    return Err("lone surrogate".into());
                                }
                                n = 0x10000 + ((n - 0xd800) << 10) + (m - 0xdc00);
                            }
                            out.push(char::from_u32(n).ok_or("lone surrogate")?);
                        }
                        _ => return Err(format!("bad escape at byte {}", self.i)),
                    }
                }
                Some(_) => return Err(format!("raw control character at byte {}", self.i)),
                None => return Err("unterminated string".into()),
            }
        }
    }
}

/// The JSON number at the start of `t`.
pub fn number_token(t: &str) -> Option<&str> {
    let b = t.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while b.get(*i).is_some_and(u8::is_ascii_digit) {
            *i += 1;
        }
        *i > s
    };
    if b.first() == Some(&b'-') {
        i += 1;
    }
    if b.get(i) == Some(&b'0') {
        i += 1;
    } else if !digits(&mut i) {
        return None;
    }
    if b.get(i) == Some(&b'.') {
        i += 1;
        if !digits(&mut i) {
            return None;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if !digits(&mut i) {
            return None;
        }
    }
    Some(&t[..i])
}

/// A string as JSON.stringify writes it.
pub fn string_text(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Check that `text` is `v` in the layout of JSON.stringify. Numbers may have
/// any JSON spelling that reads back as exactly the same double.
pub fn matches(text: &str, v: &V, indent: usize) -> Result<(), String> {
    let mut m = M { t: text, i: 0, indent };
    m.value(v, 0)?;
    if m.i == text.len() { Ok(()) } else { Err(format!("text after the value at byte {}", m.i)) }
}

struct M<'a> {
    t: &'a str,
    i: usize,
    indent: usize,
}

impl M<'_> {
    fn eat(&mut self, w: &str) -> Result<(), String> {
        if self.t.as_bytes()[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(())
        } else {
            let mut e = (self.i + 60).min(self.t.len());
            while !self.t.is_char_boundary(e) {
                e -= 1;
            }
            Err(format!("expected {w:?} at byte {}, found {:?}", self.i, self.t.get(self.i..e)))
        }
    }
    fn nl(&mut self, depth: usize) -> Result<(), String> {
        if self.indent == 0 {
            return Ok(());
        }
        self.eat(&format!("\n{}", " ".repeat(depth * self.indent)))
    }
    fn value(&mut self, v: &V, depth: usize) -> Result<(), String> {
        match v {
            V::Primitive(P::Null) => self.eat("null"),
            V::Primitive(P::Bool(b)) => self.eat(if *b { "true" } else { "false" }),
            V::Primitive(P::Number(x)) if !x.is_finite() => self.eat("null"),
            V::Primitive(P::Number(x)) => {
                let n = number_token(&self.t[self.i..]).ok_or_else(|| format!("no number at byte {}", self.i))?;
                let y: f64 = n.parse().map_err(|_| "number")?;
                // Negative zero may be written as zero, as JSON.stringify does.
                if y.to_bits() != x.to_bits() && !(y == 0.0 && *x == 0.0) {
                    return Err(format!("number {} written as {n}", spec::number_text(*x)));
                }
                self.i += n.len();
                Ok(())
            }
            V::Primitive(P::String(s)) => {
                let mut w = String::new();
                string_text(s, &mut w);
                self.eat(&w)
            }
            V::Array(a) if a.is_empty() => self.eat("[]"),
            V::Object(o) if o.is_empty() => self.eat("{}"),
            V::Array(a) => {
                self.eat("[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.eat(",")?;
                    }
                    self.nl(depth + 1)?;
                    self.value(x, depth + 1)?;
                }
                self.nl(depth)?;
                self.eat("]")
            }
            V::Object(o) => {
                self.eat("{")?;
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        self.eat(",")?;
                    }
                    self.nl(depth + 1)?;
                    let mut w = String::new();
                    string_text(k, &mut w);
                    self.eat(&w)?;
                    self.eat(if self.indent > 0 { ": " } else { ":" })?;
                    self.value(x, depth + 1)?;
                }
                self.nl(depth)?;
                self.eat("}")
            }
        }
    }
}

/// Write a value as JSON, with random spacing and escapes that change nothing.
pub fn write(r: &mut crate::rng::Rng, v: &V, out: &mut String) {
    let sp = |r: &mut crate::rng::Rng, out: &mut String| {
        if r.pct(10) {
            out.push_str(r.pick::<&str>(&[" ", "\n", "\t", "  ", "\r\n"]));
        }
    };
    let string = |r: &mut crate::rng::Rng, s: &str, out: &mut String| {
        out.push('"');
        for c in s.chars() {
            if r.pct(3) {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04X}"));
                }
            } else {
                let mut w = String::new();
                string_text(&c.to_string(), &mut w);
                out.push_str(&w[1..w.len() - 1]);
            }
        }
        out.push('"');
    };
    sp(r, out);
    match v {
        V::Primitive(P::Null) => out.push_str("null"),
        V::Primitive(P::Bool(b)) => out.push_str(if *b { "true" } else { "false" }),
        V::Primitive(P::Number(x)) => {
            if !x.is_finite() {
                out.push_str("null");
            } else if r.pct(30) {
                out.push_str(&format!("{x:e}"));
            } else if r.pct(50) || x.abs() > 1e18 {
                out.push_str(&format!("{x:?}"));
            } else {
                out.push_str(&spec::number_text(*x));
            }
        }
        V::Primitive(P::String(s)) => string(r, s, out),
        V::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(r, x, out);
                sp(r, out);
            }
            out.push(']');
        }
        V::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                sp(r, out);
                string(r, k, out);
                sp(r, out);
                out.push(':');
                write(r, x, out);
            }
            sp(r, out);
            out.push('}');
        }
    }
    sp(r, out);
}

/// Text that some JSON dialect would take: usually not valid JSON.
pub fn nearly(r: &mut Rng, t: &str) -> String {
    const AROUND: &[&str] = &[
        "\u{feff}", "\u{a0}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{0}", "// x\n", "/* x */", "# x\n", ",", ";", "()", "\u{200b}", " ", "\n", "\r\n",
        "\t", "}", "]", "{}", "null", "1", "\"\"", "\u{1e}", ")]}'\n", "x", "\u{1a}",
    ];
    const TOKENS: &[&str] = &[
        "NaN", "Infinity", "-Infinity", "+1", "01", "-01", "1.", ".5", "-.5", "0x10", "1e", "1e+", "1_000", "-", "--1", "True", "FALSE", "None", "nul", "undefined",
        "'a'", "a", "`a`", "\"a\" \"b\"", "\"a\nb\"", "\"a\tb\"", "\"\u{1}\"", "\"\\x41\"", "\"\\u12\"", "\"\\u{41}\"", "\"\\'\"", "\"\\0\"", "\"\\\n\"", "\"a", "[1,]",
        "[,1]", "[1 2]", "[1,,2]", "{\"a\":1,}", "{a:1}", "{'a':1}", "{\"a\" 1}", "{\"a\"=1}", "{\"a\":}", "{\"a\"}", "{1:2}", "{,}", "[", "{", "1n", "1f", "00", "-0", "1E5",
        "1e05", "\"\\/\"", "\"\u{7f}\"", "\"\u{2028}\"", "", "[1]]", "{\"a\":1}}", "tru e", "\u{ff11}", "\u{661}", "1\u{a0}", "\"\\ud83d\\ude00\"",
    ];
    match r.below(5) {
        0 => format!("{}{t}", r.pick(AROUND)),
        1 => format!("{t}{}", r.pick(AROUND)),
        2 => (*r.pick(TOKENS)).to_string(),
        3 => {
            // one element of an array or one member of an object
            let x = r.pick(TOKENS);
            if r.pct(50) { format!("[{t},{x}]") } else { format!("{{\"k\":{x},\"l\":{t}}}") }
        }
        _ => {
            // something between two tokens
            let cuts: Vec<usize> = t.char_indices().filter(|(_, ch)| ",:[]{}".contains(*ch)).map(|(i, _)| i).collect();
            if cuts.is_empty() {
                return format!("{t}{}", r.pick(AROUND));
            }
            let i = *r.pick(&cuts) + r.below(2);
            format!("{}{}{}", &t[..i], r.pick(AROUND), &t[i..])
        }
    }
}
