//! Helpers shared by the monitors.

use crate::gen_::{self, V};
use crate::rng::Rng;
use toon::options::{DecodeOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode};
use toon::{JsonStreamEvent as E, StringOrNumberOrBoolOrNull as P};

pub fn eopts(delim: char, indent: usize, fold: Option<usize>) -> Option<EncodeOptions> {
    Some(EncodeOptions {
        indent: Some(indent),
        delimiter: Some(delim),
        key_folding: Some(if fold.is_some() { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
        flatten_depth: match fold {
            None | Some(usize::MAX) => None,
            Some(n) => Some(n),
        },
        replacer: None,
    })
}

pub fn dopts(indent: usize, strict: bool, expand: bool) -> Option<DecodeOptions> {
    Some(DecodeOptions {
        indent: Some(indent),
        strict: Some(strict),
        expand_paths: Some(if expand { ExpandPathsMode::Safe } else { ExpandPathsMode::Off }),
    })
}

pub fn decode(text: &str, indent: usize, strict: bool, expand: bool) -> Result<V, String> {
    toon::try_decode(text, dopts(indent, strict, expand)).map_err(|e| e.to_string())
}

pub fn delim(r: &mut Rng) -> char {
    *r.pick(&[',', ',', '\t', '|'])
}

pub fn indent(r: &mut Rng) -> usize {
    *r.pick(&[2, 2, 2, 1, 3, 4, 8])
}

pub fn result(r: &Result<V, String>) -> String {
    match r {
        Ok(v) => format!("Ok({})", gen_::show(v)),
        Err(e) => format!("Err({e})"),
    }
}

/// Independent event checker: the value a well-formed stream describes.
pub fn value_of_events(ev: &[E]) -> Result<V, String> {
    let mut at = 0;
    let v = read_value(ev, &mut at)?;
    if at != ev.len() {
        return Err(format!("{} events after the root value", ev.len() - at));
    }
    Ok(v)
}

fn read_value(ev: &[E], at: &mut usize) -> Result<V, String> {
    // An explicit stack: event streams may be deep.
    enum Frame {
        Obj(Vec<(String, V)>, String),
        Arr(Vec<V>),
    }
    let mut stack: Vec<Frame> = Vec::new();
    let mut done: Option<V>;
    loop {
        let e = ev.get(*at).ok_or("the stream ends inside a value")?;
        *at += 1;
        done = match e {
            E::Primitive { value } => Some(V::Primitive(value.clone())),
            E::StartArray { .. } => {
                stack.push(Frame::Arr(vec![]));
                None
            }
            E::StartObject => {
                stack.push(Frame::Obj(vec![], String::new()));
                None
            }
            E::EndArray => match stack.pop() {
                Some(Frame::Arr(a)) => Some(V::Array(a)),
                _ => return Err("EndArray does not match".into()),
            },
            E::EndObject => match stack.pop() {
                Some(Frame::Obj(o, _)) => Some(V::Object(o)),
                _ => return Err("EndObject does not match".into()),
            },
            E::Key { .. } => return Err("Key in value position".into()),
        };
        // place finished values
        if let Some(v) = done.take() {
            match stack.last_mut() {
                None => return Ok(v),
                Some(Frame::Arr(a)) => a.push(v),
                Some(Frame::Obj(o, k)) => o.push((std::mem::take(k), v)),
            }
        }
        // inside an object the next event is a key or the end
        if let Some(Frame::Obj(_, k)) = stack.last_mut() {
            match ev.get(*at) {
                Some(E::Key { key, .. }) => {
                    *k = key.clone();
                    *at += 1;
                    if matches!(ev.get(*at), Some(E::EndObject | E::EndArray | E::Key { .. })) {
                        return Err("a key without a value".into());
                    }
                }
                Some(E::EndObject) => {}
                Some(_) => return Err("a member value without a key".into()),
                None => return Err("the stream ends inside an object".into()),
            }
        }
    }
}

/// Declared and actual number of elements of every array in the stream.
pub fn array_counts(ev: &[E]) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    // (declared, seen, is array)
    let mut stack: Vec<(usize, usize, bool)> = Vec::new();
    for e in ev {
        match e {
            E::StartArray { .. } | E::StartObject | E::Primitive { .. } => {
                if let Some(t) = stack.last_mut() {
                    t.1 += 1;
                }
            }
            _ => {}
        }
        match e {
            E::StartArray { length } => stack.push((*length, 0, true)),
            E::StartObject => stack.push((0, 0, false)),
            E::EndArray | E::EndObject => {
                if let Some((d, s, true)) = stack.pop() {
                    out.push((d, s));
                }
            }
            _ => {}
        }
    }
    out
}

/// Plain event list of a value, from first principles.
pub fn events_of(v: &V, out: &mut Vec<E>) {
    match v {
        V::Primitive(p) => out.push(E::Primitive { value: p.clone() }),
        V::Array(a) => {
            out.push(E::StartArray { length: a.len() });
            for x in a {
                events_of(x, out);
            }
            out.push(E::EndArray);
        }
        V::Object(o) => {
            out.push(E::StartObject);
            for (k, x) in o {
                out.push(E::Key {
                    key: k.clone(),
                    was_quoted: !crate::spec::plain_key(k),
                });
                events_of(x, out);
            }
            out.push(E::EndObject);
        }
    }
}

pub fn same_events(a: &[E], b: &[E]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (E::Primitive { value: P::Number(p) }, E::Primitive { value: P::Number(q) }) => p.to_bits() == q.to_bits(),
            _ => x == y,
        })
}

/// Visit every scalar.
pub fn scalars<'a>(v: &'a V, f: &mut dyn FnMut(&'a P)) {
    match v {
        V::Primitive(p) => f(p),
        V::Array(a) => a.iter().for_each(|x| scalars(x, f)),
        V::Object(o) => o.iter().for_each(|(_, x)| scalars(x, f)),
    }
}

pub fn depth(v: &V) -> usize {
    match v {
        V::Primitive(_) => 0,
        V::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        V::Object(o) => 1 + o.iter().map(|(_, x)| depth(x)).max().unwrap_or(0),
    }
}

/// Remove runs of lines, then single lines and characters, while the text
/// stays bad.
pub fn shrink_text(text: &str, bad: &mut dyn FnMut(&str) -> bool) -> String {
    let mut cur = text.to_string();
    let mut budget = 2000;
    let until = std::time::Instant::now() + std::time::Duration::from_secs(4);
    let done = |b: i32| b <= 0 || std::time::Instant::now() > until;
    let mut step = cur.split('\n').count() / 2;
    while step > 0 {
        let mut at = 0;
        loop {
            let lines: Vec<&str> = cur.split('\n').collect();
            if at >= lines.len() || lines.len() == 1 {
                break;
            }
            let end = (at + step).min(lines.len());
            let t: Vec<&str> = lines[..at].iter().chain(&lines[end..]).copied().collect();
            let t = t.join("\n");
            budget -= 1;
            if done(budget) {
                return cur;
            }
            if bad(&t) {
                cur = t;
            } else {
                at = end;
            }
        }
        step /= 2;
    }
    loop {
        if cur.len() >= 400 || done(budget) {
            return cur;
        }
        let cs: Vec<char> = cur.chars().collect();
        let next = (0..cs.len()).find_map(|i| {
            let t: String = cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| c).collect();
            budget -= 1;
            (!done(budget) && bad(&t)).then_some(t)
        });
        match next {
            Some(t) => cur = t,
            None => return cur,
        }
    }
}
