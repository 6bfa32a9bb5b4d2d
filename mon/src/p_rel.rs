//! Relations between executions: C26, C27, C28, C29, C31, C32.

use crate::core::{Ctx, Prop, clip, guarded};
use crate::docs;
use crate::gen_::{self, V, same, show};
use crate::h;
use crate::json;
use crate::p_api::{lines_of, sopts, unique_keys, wild_events};
use crate::rng::Rng;
use crate::spec;
use toon::cli::conversion::{decode_to_json_chunks, encode_to_toon_lines};
use toon::decode::event_builder::{NodeValue, build_node_from_events, node_to_json};
use toon::options::{DecodeOptions, DecodeStreamOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode};
use toon::{JsonStreamEvent as E, StringOrNumberOrBoolOrNull as P};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C26",
        quick: 60000,
        thorough: 900_000,
        rule: "One evaluation decodes one document (valid free-form, canonical, or a mutant or soup that is accepted), encodes the value, decodes and encodes again, and compares values and texts; canonical documents must come back byte for byte, also with folding and expansion. Distinct by document and options; non-trivial: accepted documents with a container value.",
        assumptions: &["documents whose objects have unique keys", "with folding: values without dotted keys"],
        run: c26,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C27",
        quick: 60000,
        thorough: 900_000,
        rule: "One evaluation converts one JSON text to TOON and back with one option set through the text conversions and compares an independent strict reading of the result with one of the original; or sends a damaged JSON text, which must be rejected exactly when the strict reader rejects it. Distinct by text and options.",
        assumptions: &["numbers may differ by 16 units in the last place (the JSON parser in use does not round exactly)", "no duplicate keys, no number beyond the range of doubles, nesting at most 100"],
        run: c27,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C28",
        quick: 60000,
        thorough: 900_000,
        rule: "One evaluation feeds one event sequence (well formed, edited, random, or recorded from decoding) to the tree builder and compares the tree, its quoted-key sets and its JSON value with an independent stack machine, which also decides which sequences must be rejected. Distinct by sequence.",
        assumptions: &["declared array lengths are not compared with the number of elements"],
        run: c28,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C29",
        quick: 30000,
        thorough: 500_000,
        rule: "One evaluation runs one conversion with a random subset of the options unset and again with those set to the documented defaults, through one entry point, and compares; encoding is also compared with the layout model. Distinct by input and option subset.",
        assumptions: &[],
        run: c29,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C31",
        quick: 60000,
        thorough: 900_000,
        rule: "One evaluation decodes the same block of object lines in several surroundings (after another field, before one, after or below an array or object, nested one or two levels under a key, as a list item) and compares fields, acceptance and the shifted line number of the error. Distinct by block and options.",
        assumptions: &["blocks with blank lines, or with a dash at the depth of their fields, are not put inside list items", "path expansion off"],
        run: c31,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C32",
        quick: 60000,
        thorough: 900_000,
        rule: "One evaluation decodes one rejected document through every synchronous entry point and compares the error texts; every line number in them must be that of a line of the document, the lines up to the one named must be rejected too, and blank lines in front must raise every line number by their count. Distinct by document and options; non-trivial: rejected documents.",
        assumptions: &[],
        run: c32,
        cpu: 30.0,
        level: "exploration",
    },
];

// ---------------------------------------------------------------------- C26

/// A key that expansion would split if it were bare.
fn dotted(v: &V) -> bool {
    match v {
        V::Primitive(_) => false,
        V::Array(a) => a.iter().any(dotted),
        V::Object(o) => o.iter().any(|(k, x)| k.contains('.') || dotted(x)),
    }
}

fn c26_problem(text: &str, indent: usize, d: char, out: usize, fold: Option<usize>) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    let v = h::decode(text, indent, true, fold.is_some()).ok()?;
    if !unique_keys(&v) || (fold.is_some() && dotted(&v)) || h::depth(&v) > 200 {
        return None;
    }
    let enc = |v: &V| toon::encode(v.clone(), h::eopts(d, out, fold));
    let t1 = enc(&v);
    let v1 = match h::decode(&t1, out, true, fold.is_some()) {
        Ok(x) => x,
        Err(e) => return bad("re-encoded-rejected", format!("decoded {}\nencoded {t1:?}\nrejected: {e}", show(&v))),
    };
    if !spec::same_modulo_rows(&spec::read_back(&v), &spec::read_back(&v1)) {
        return bad("value-changed", format!("decoded {}\nencoded {t1:?}\ndecoded {}", show(&v), show(&v1)));
    }
    let t2 = enc(&v1);
    if t1 != t2 {
        return bad("not-stable", format!("first {t1:?}\nsecond {t2:?}"));
    }
    None
}

fn c26(c: &mut Ctx, idx: u64) {
    for k in 0..4 {
        let (d, out) = (h::delim(&mut c.rng), h::indent(&mut c.rng));
        let fold = match c.rng.below(4) {
            0 => Some(usize::MAX),
            1 => Some(c.rng.below(6)),
            _ => None,
        };
        let (text, indent) = if k < 2 {
            let x = docs::valid(&mut c.rng);
            (x.text(), x.indent)
        } else {
            docs::any_text(&mut c.rng)
        };
        let opts = format!("indent {indent}, written with {d:?} indent {out} fold {fold:?}");
        let r = c.guard("re-encoding", &text, || c26_problem(&text, indent, d, out, fold));
        if let Some(Some((kind, _))) = r {
            report(c, &kind, &text, &opts, &mut |t| c26_problem(t, indent, d, out, fold));
        }
        let ok = toon::try_decode(&text, h::dopts(indent, true, false)).is_ok_and(|v| !matches!(v, V::Primitive(_)));
        c.note(if ok { "container_documents" } else { "rejected_or_scalar" });
        c.seen(&(&text, &opts), ok);
    }
    // canonical text is a fixed point
    for _ in 0..3 {
        let v = match c.rng.below(400) {
            0 => {
                c.note("big_values");
                let cap = if c.rng.pct(5) { 100_003 } else { 5000 };
                gen_::big(&mut c.rng, cap)
            }
            1..150 => {
                let mut v = crate::p_encode::chainy(&mut c.rng, 0, false);
                crate::p_encode::undotted(&mut v);
                v
            }
            _ => gen_::root(&mut c.rng),
        };
        let (d, i) = (h::delim(&mut c.rng), h::indent(&mut c.rng));
        let fold = match c.rng.below(3) {
            0 if !dotted(&v) => Some(if c.rng.pct(50) { usize::MAX } else { c.rng.below(6) }),
            _ => None,
        };
        if h::depth(&v) > 60 {
            continue;
        }
        let problem = |v: &V| -> Option<String> {
            if (fold.is_some() && dotted(v)) || !unique_keys(v) {
                return None;
            }
            let t = toon::encode(v.clone(), h::eopts(d, i, fold));
            match h::decode(&t, i, true, fold.is_some()) {
                Ok(w) => {
                    let u = toon::encode(w, h::eopts(d, i, fold));
                    (u != t).then(|| format!("text {}\nbecame {}", clip(&t, 1500), clip(&u, 1500)))
                }
                Err(e) => Some(format!("rejected: {e}\n{}", clip(&t, 1500))),
            }
        };
        c.seen(&(show(&v), d, i, fold), !matches!(v, V::Primitive(_)));
        c.note(if fold.is_some() { "canonical_folded" } else { "canonical_plain" });
        let bad = c.guard("encode", &show(&v), || problem(&v).is_some());
        if bad == Some(true) {
            let small = gen_::shrink(&v, &mut |x| guarded(|| problem(x)).map_or(true, |r| r.is_some()));
            let det = guarded(|| problem(&small)).map_or_else(|p| p.text, |r| r.unwrap_or_default());
            c.fail("canonical-changed", &format!("delimiter {d:?} indent {i} fold {fold:?} {}", show(&small)), det);
        }
    }
    if idx < 3 {
        let x = docs::valid(&mut c.rng);
        c.sample(|| x.text());
    }
}

fn report(c: &mut Ctx, kind: &str, text: &str, opts: &str, test: &mut dyn FnMut(&str) -> Option<(String, String)>) {
    let small = h::shrink_text(text, &mut |t| guarded(|| test(t)).map_or(true, |r| r.is_some()));
    let det = guarded(|| test(&small)).map_or_else(|p| p.text, |r| r.map_or(String::new(), |r| format!("{}: {}", r.0, r.1)));
    c.fail(kind, &format!("{opts}\n{small}"), det);
}

// ---------------------------------------------------------------------- C27

fn near(a: f64, b: f64) -> bool {
    if a == b {
        return true;
    }
    a.is_finite() && b.is_finite() && (a < 0.0) == (b < 0.0) && a.to_bits().abs_diff(b.to_bits()) <= 16
}

/// Equal up to the order of the fields of table rows and a few units in the last
/// place of numbers.
fn json_same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Primitive(P::Number(x)), V::Primitive(P::Number(y))) => near(*x, *y),
        (V::Primitive(x), V::Primitive(y)) => x == y,
        (V::Object(x), V::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (l, w))| k == l && json_same(v, w)),
        (V::Array(x), V::Array(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let fields = spec::table_fields(x);
            x.iter().zip(y).all(|(v, w)| match (&fields, v) {
                (Some(f), V::Object(o)) => {
                    let row = f.iter().filter_map(|k| o.iter().find(|e| e.0 == *k).cloned()).collect();
                    json_same(&V::Object(row), w) || json_same(v, w)
                }
                _ => json_same(v, w),
            })
        }
        _ => false,
    }
}

fn overflows(t: &str) -> bool {
    // a number token that is not a finite double
    t.split(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c)))
        .any(|w| w.parse::<f64>().is_ok_and(|x| !x.is_finite()) && w.bytes().any(|b| b.is_ascii_digit()))
}

fn c27_problem(t: &str, d: char, i: usize, fold: Option<usize>) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    let want = json::read(t).ok();
    if overflows(t) || want.as_ref().is_some_and(|v| h::depth(v) > 100 || !unique_keys(v)) {
        return None;
    }
    let default = d == ',' && i == 2 && fold.is_none();
    let toon_text = if default {
        toon::json_to_toon(t)
    } else {
        encode_to_toon_lines(t, h::eopts(d, i, fold)).map(|l| l.join("\n"))
    };
    let toon_text = match (&want, toon_text) {
        (None, Err(_)) => return None,
        (None, Ok(x)) => return bad("invalid-json-accepted", format!("converted to {x:?}")),
        (Some(_), Err(e)) => return bad("valid-json-rejected", e.to_string()),
        (Some(_), Ok(x)) => x,
    };
    let want = want?;
    let expand = fold.is_some();
    if expand && dotted(&want) {
        return None;
    }
    let back = if default {
        toon::toon_to_json(&toon_text)
    } else {
        decode_to_json_chunks(&toon_text, h::dopts(i, true, expand)).map(|x| x.concat())
    };
    let back = match back {
        Ok(x) => x,
        Err(e) => return bad("own-output-rejected", format!("TOON {toon_text:?}\nrejected: {e}")),
    };
    match json::read(&back) {
        Ok(v) if json_same(&want, &v) => None,
        Ok(v) => bad("json-changed", format!("TOON {toon_text:?}\nJSON {back:?}\nwant {}\ngot {}", show(&want), show(&v))),
        Err(e) => bad("not-json", format!("{e}\nTOON {toon_text:?}\nJSON {back:?}")),
    }
}

fn c27(c: &mut Ctx, idx: u64) {
    for k in 0..5 {
        let v = match c.rng.below(500) {
            0 => {
                c.note("big_values");
                let cap = if c.rng.pct(5) { 60_000 } else { 5000 };
                gen_::big(&mut c.rng, cap)
            }
            1 => {
                c.note("deep_values");
                gen_::deeper(&mut c.rng, 79)
            }
            2..120 => {
                let mut v = crate::p_encode::chainy(&mut c.rng, 0, false);
                crate::p_encode::undotted(&mut v);
                v
            }
            _ => gen_::root(&mut c.rng),
        };
        let salt = c.rng.next();
        let text_of = |v: &V| {
            let mut t = String::new();
            json::write(&mut Rng::new(salt), v, &mut t);
            t
        };
        let mut t = text_of(&v);
        if k == 4 {
            t = if c.rng.pct(50) { docs::mutate(&mut c.rng, &t, 2) } else { json::nearly(&mut c.rng, &t) };
        }
        let (d, i, fold) = if k == 0 {
            (',', 2, None)
        } else {
            let fold = (c.rng.pct(40) && !dotted(&v)).then(|| if c.rng.pct(60) { usize::MAX } else { c.rng.below(6) });
            (h::delim(&mut c.rng), h::indent(&mut c.rng), fold)
        };
        let r = c.guard("converting", &t, || c27_problem(&t, d, i, fold));
        if let Some(Some((kind, _))) = r {
            let opts = format!("delimiter {d:?} indent {i} fold {fold:?}");
            if k < 4 {
                let small = gen_::shrink(&v, &mut |x| guarded(|| c27_problem(&text_of(x), d, i, fold)).map_or(true, |r| r.is_some()));
                t = text_of(&small);
            }
            report(c, &kind, &t, &opts, &mut |x| c27_problem(x, d, i, fold));
        }
        let valid = json::read(&t).is_ok();
        c.note(if valid { "json_round_trips" } else { "invalid_json" });
        if fold.is_some() {
            c.note("with_folding_and_expansion");
        }
        c.seen(&(&t, d, i, fold), !matches!(v, V::Primitive(_)));
        if k == 0 && idx < 3 {
            c.sample(|| t.clone());
        }
    }
}

// ---------------------------------------------------------------------- C28

/// The tree must have this value, and quoted keys exactly where the events say.
fn node_matches(n: &NodeValue, ev: &[E], at: &mut usize) -> Result<(), String> {
    let e = ev.get(*at).ok_or("tree larger than the stream")?;
    *at += 1;
    match (n, e) {
        (NodeValue::Primitive(p), E::Primitive { value }) => {
            if same(&V::Primitive(p.clone()), &V::Primitive(value.clone())) {
                Ok(())
            } else {
                Err(format!("{value:?} became {p:?}"))
            }
        }
        (NodeValue::Array(a), E::StartArray { .. }) => {
            for x in a {
                node_matches(x, ev, at)?;
            }
            *at += 1;
            matches!(ev.get(*at - 1), Some(E::EndArray)).then_some(()).ok_or_else(|| "an array lost elements".into())
        }
        (NodeValue::Object(o), E::StartObject) => {
            let mut quoted = std::collections::HashSet::new();
            for (k, x) in &o.entries {
                match ev.get(*at) {
                    Some(E::Key { key, was_quoted }) if key == k => {
                        if *was_quoted {
                            quoted.insert(key.clone());
                        }
                    }
                    other => return Err(format!("entry {k:?} where the stream has {other:?}")),
                }
                *at += 1;
                node_matches(x, ev, at)?;
            }
            if quoted != o.quoted_keys {
                return Err(format!("quoted keys {:?}, the stream quotes {quoted:?}", o.quoted_keys));
            }
            *at += 1;
            matches!(ev.get(*at - 1), Some(E::EndObject)).then_some(()).ok_or_else(|| "an object lost entries".into())
        }
        _ => Err(format!("{e:?} became another kind of node")),
    }
}

fn c28_problem(ev: &[E]) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    let want = h::value_of_events(ev);
    match (want, build_node_from_events(ev.to_vec())) {
        (Err(_), Err(_)) => None,
        (Err(e), Ok(n)) => bad("malformed-accepted", format!("{e}, but it built {}", show(&node_to_json(n)))),
        (Ok(_), Err(e)) => bad("well-formed-rejected", e.to_string()),
        (Ok(v), Ok(n)) => {
            let mut at = 0;
            if let Err(e) = node_matches(&n, ev, &mut at) {
                return bad("tree-differs", e);
            }
            let got = node_to_json(n);
            if same(&got, &v) { None } else { bad("value-differs", format!("want {}\ngot  {}", show(&v), show(&got))) }
        }
    }
}

/// Edits that leave a stream nearly right.
fn near_miss(r: &mut Rng, ev: &mut Vec<E>) {
    let keys: Vec<usize> = (0..ev.len()).filter(|i| matches!(ev[*i], E::Key { .. })).collect();
    let ends: Vec<usize> = (0..ev.len()).filter(|i| matches!(ev[*i], E::EndObject | E::EndArray)).collect();
    match r.below(8) {
        0 if !keys.is_empty() => {
            let i = *r.pick(&keys);
            ev.insert(i, E::Key { key: gen_::key(r, 20), was_quoted: r.pct(50) });
        }
        1 if !keys.is_empty() => {
            let i = *r.pick(&keys);
            ev.remove(i);
        }
        2 if !ends.is_empty() => {
            let i = *r.pick(&ends);
            ev.insert(i, E::Key { key: gen_::key(r, 20), was_quoted: r.pct(50) });
        }
        3 if !ends.is_empty() => {
            let i = *r.pick(&ends);
            ev[i] = if ev[i] == E::EndObject { E::EndArray } else { E::EndObject };
        }
        4 if !ends.is_empty() => {
            let i = *r.pick(&ends);
            ev.remove(i);
        }
        5 if !ends.is_empty() => {
            let i = *r.pick(&ends);
            let e = ev[i].clone();
            ev.insert(i, e);
        }
        6 => {
            let sh = docs::small_shape(r);
            let v = gen_::value(r, sh, 1);
            h::events_of(&v, ev);
        }
        _ => {
            if let Some(i) = (!keys.is_empty()).then(|| *r.pick(&keys)) {
                // drop the scalar below a key
                if matches!(ev.get(i + 1), Some(E::Primitive { .. })) {
                    ev.remove(i + 1);
                }
            }
        }
    }
}

fn c28(c: &mut Ctx, idx: u64) {
    for k in 0..6 {
        let ev = match k {
            0 | 1 => wild_events(&mut c.rng),
            2 | 3 => {
                let v = match c.rng.below(1500) {
                    0 => gen_::big(&mut c.rng, 20_000),
                    1..=4 => {
                        c.note("deep_streams");
                        gen_::deeper(&mut c.rng, 992)
                    }
                    _ => gen_::root(&mut c.rng),
                };
                let mut ev = Vec::new();
                h::events_of(&v, &mut ev);
                // flags and lengths as the caller likes
                for e in &mut ev {
                    match e {
                        E::Key { was_quoted, .. } if c.rng.pct(20) => *was_quoted = !*was_quoted,
                        E::StartArray { length } if c.rng.pct(5) => *length = c.rng.below(9),
                        _ => {}
                    }
                }
                if k == 3 {
                    near_miss(&mut c.rng, &mut ev);
                }
                ev
            }
            4 => {
                let (t, i) = docs::any_text(&mut c.rng);
                let strict = c.rng.pct(50);
                match toon::try_decode_stream_sync(lines_of(&t), sopts(i, strict)) {
                    Ok(mut ev) => {
                        if c.rng.pct(50) {
                            near_miss(&mut c.rng, &mut ev);
                        }
                        ev
                    }
                    Err(_) => continue,
                }
            }
            _ => {
                let mut ev = wild_events(&mut c.rng);
                near_miss(&mut c.rng, &mut ev);
                ev
            }
        };
        let tag = format!("{ev:?}");
        let good = h::value_of_events(&ev);
        match &good {
            Ok(_) => c.note("well_formed"),
            Err(e) if e.contains("events after") => c.note("malformed: events after the root value"),
            Err(e) => c.note(&format!("malformed: {e}")),
        }
        c.seen(&tag, true);
        if k == 2 && idx < 3 {
            c.sample(|| clip(&tag, 400));
        }
        let r = c.guard("event builder", &tag, || c28_problem(&ev));
        if let Some(Some((kind, det))) = r {
            c.fail(&kind, &tag, det);
        }
    }
}

// ---------------------------------------------------------------------- C29

fn c29_encode(c: &mut Ctx, idx: u64) {
    let r = &mut c.rng;
    let v = if r.below(20) == 0 {
        // a chain of keys long enough for any limit the defaults could hide
        let n = gen_::threshold(r, 300);
        (0..n).fold(gen_::prim(r, gen_::Shape::any(&mut r.clone())), |v, _| V::Object(vec![(gen_::ident(r), v)]))
    } else if r.pct(50) {
        crate::p_encode::chainy(r, 0, true)
    } else {
        gen_::root(r)
    };
    let set: Vec<bool> = (0..4).map(|_| r.pct(50)).collect();
    let (indent, delim) = (h::indent(r), h::delim(r));
    let fold = r.pct(70);
    let depth = r.below(6);
    let part = EncodeOptions {
        indent: set[0].then_some(indent),
        delimiter: set[1].then_some(delim),
        key_folding: set[2].then_some(if fold { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
        flatten_depth: set[3].then_some(depth),
        replacer: None,
    };
    let full = EncodeOptions {
        indent: Some(part.indent.unwrap_or(2)),
        delimiter: Some(part.delimiter.unwrap_or(',')),
        key_folding: Some(part.key_folding.unwrap_or(KeyFoldingMode::Off)),
        flatten_depth: Some(part.flatten_depth.unwrap_or(usize::MAX)),
        replacer: None,
    };
    let model = spec::Opts {
        indent: part.indent.unwrap_or(2),
        delim: part.delimiter.unwrap_or(','),
        fold: (set[2] && fold).then(|| part.flatten_depth.unwrap_or(usize::MAX)),
    };
    let tag = format!(
        "indent {:?} delimiter {:?} folding {:?} depth {:?}\n{}",
        part.indent,
        part.delimiter,
        part.key_folding,
        part.flatten_depth,
        show(&v)
    );
    let mut j = String::new();
    json::write(r, &v, &mut j);
    let mut forms = vec![Some(part)];
    if !set.iter().any(|x| *x) {
        forms.push(None);
    }
    let res = c.guard("encoding", &tag, || {
        let want = spec::text(&spec::encode(&v, model), model.indent);
        let all = || Some(full.clone());
        let events = toon::encode_stream_events(v.clone(), all());
        let from_json = encode_to_toon_lines(&j, all()).map_err(|e| e.to_string());
        forms.iter().find_map(|o| {
            let t = toon::encode(v.clone(), o.clone());
            if t != want {
                return Some(format!("encode {t:?}\nwith the defaults {want:?}"));
            }
            let l = toon::encode_lines(v.clone(), o.clone()).join("\n");
            if l != want {
                return Some(format!("encode_lines {l:?}\nwith the defaults {want:?}"));
            }
            let e = toon::encode_stream_events(v.clone(), o.clone());
            if !h::same_events(&e, &events) {
                return Some(format!("encode_stream_events {e:?}\nwith the defaults {events:?}"));
            }
            let a = encode_to_toon_lines(&j, o.clone()).map_err(|e| e.to_string());
            (a != from_json).then(|| format!("encode_to_toon_lines {a:?}\nwith the defaults {from_json:?}"))
        })
    });
    if let Some(Some(e)) = res {
        c.fail("unset-encode-option", &tag, e);
    }
    c.note(&format!("encode with {} options unset", set.iter().filter(|x| !**x).count()));
    c.seen(&tag, true);
    if idx < 2 {
        c.sample(|| tag.clone());
    }
}

/// Documents on which the decode options make a difference.
fn telling_text(r: &mut Rng) -> (String, usize) {
    let (t, i) = docs::any_text(r);
    let t = match r.below(4) {
        0 => {
            let mut l: Vec<String> = t.split('\n').map(String::from).collect();
            let at = r.below(l.len() + 1);
            l.insert(at, (*r.pick(&["a.b: 1", "x.y.z:", "a.b.c: 2", "a: 3", "\"a.b\": 4"])).to_string());
            l.join("\n")
        }
        1 => {
            let k = r.range(1, 4);
            (0..k).map(|n| format!("{}: {n}", *r.pick(&["a.b", "a.c", "b", "c.d.e", "c.d", "x"]))).collect::<Vec<_>>().join("\n")
        }
        _ => t,
    };
    (t, i)
}

fn c29_decode(c: &mut Ctx) {
    let r = &mut c.rng;
    let (text, indent) = telling_text(r);
    let set: Vec<bool> = (0..3).map(|_| r.pct(50)).collect();
    let (strict, expand) = (r.pct(50), if r.pct(50) { ExpandPathsMode::Safe } else { ExpandPathsMode::Off });
    let part = DecodeOptions {
        indent: set[0].then_some(indent),
        strict: set[1].then_some(strict),
        expand_paths: set[2].then_some(expand),
    };
    let full = DecodeOptions {
        indent: Some(part.indent.unwrap_or(2)),
        strict: Some(part.strict.unwrap_or(true)),
        expand_paths: Some(part.expand_paths.unwrap_or(ExpandPathsMode::Off)),
    };
    let tag = format!("{part:?}\n{text}");
    let mut forms = vec![Some(part.clone())];
    if !set.iter().any(|x| *x) {
        forms.push(None);
    }
    let show_all = |o: Option<DecodeOptions>| -> Vec<String> {
        let s = o.clone().map(|o| DecodeStreamOptions { indent: o.indent, strict: o.strict });
        let val = |x: Result<V, toon::error::ToonError>| x.map_or_else(|e| format!("Err {e}"), |v| show(&v));
        let ev = |x: Result<Vec<E>, toon::error::ToonError>| x.map_or_else(|e| format!("Err {e}"), |v| format!("{v:?}"));
        vec![
            val(toon::try_decode(&text, o.clone())),
            val(toon::try_decode_from_lines(lines_of(&text), o.clone())),
            ev(toon::try_decode_stream_sync(lines_of(&text), s.clone())),
            crate::p_api::block_on(toon::try_decode_stream(lines_of(&text), s)).map_or_else(|| "pending".into(), ev),
            decode_to_json_chunks(&text, o).map_or_else(|e| format!("Err {e}"), |x| x.concat()),
        ]
    };
    let res = c.guard("decoding", &tag, || {
        let want = show_all(Some(full.clone()));
        forms.iter().find_map(|o| {
            let got = show_all(o.clone());
            (got != want).then(|| format!("{got:?}\nwith the defaults {want:?}"))
        })
    });
    if let Some(Some(e)) = res {
        c.fail("unset-decode-option", &tag, e);
    }
    if !set.iter().any(|x| *x) {
        let r = c.guard("toon_to_json", &tag, || {
            let a = toon::toon_to_json(&text).map_err(|e| e.to_string());
            let b = toon::try_decode(&text, Some(full.clone())).map_err(|e| e.to_string());
            match (&a, &b) {
                (Err(x), Err(y)) if x == y => None,
                (Ok(x), Ok(y)) => {
                    let same = !unique_keys(y) || json::read(x).is_ok_and(|z| json_same(y, &z));
                    (!same).then(|| format!("toon_to_json {x}\nwith the defaults {}", show(y)))
                }
                _ => Some(format!("toon_to_json {a:?}\nwith the defaults {b:?}")),
            }
        });
        if let Some(Some(e)) = r {
            c.fail("toon-to-json-defaults", &tag, e);
        }
    }
    c.note(&format!("decode with {} options unset", set.iter().filter(|x| !**x).count()));
    c.seen(&tag, true);
}

fn c29(c: &mut Ctx, idx: u64) {
    for _ in 0..3 {
        c29_encode(c, idx);
        c29_decode(c);
    }
}

// ---------------------------------------------------------------------- C31

fn blank(l: &str) -> bool {
    l.trim().is_empty()
}

/// The lines one or more levels deeper; blank lines stay.
fn deeper(text: &str, by: usize) -> String {
    text.split('\n')
        .map(|l| if blank(l) { l.to_string() } else { format!("{}{l}", " ".repeat(by)) })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Every line number an error names.
pub fn named_lines(e: &str) -> Vec<usize> {
    let b = e.as_bytes();
    let mut out = Vec::new();
    for (i, _) in e.match_indices("ine ") {
        let starts = i > 0 && matches!(b[i - 1], b'L' | b'l') && (i < 2 || !b[i - 2].is_ascii_alphanumeric());
        let digits: String = e[i + 4..].chars().take_while(char::is_ascii_digit).collect();
        if starts && let Ok(n) = digits.parse() {
            out.push(n);
        }
    }
    out
}

/// The first line number an error names, when it starts with it.
fn error_line(e: &str) -> Option<usize> {
    let head = e.split_once(": ")?.0;
    if head.starts_with("Line ") || head.starts_with("Validation error at line ") { named_lines(head).first().copied() } else { None }
}

/// The members of a block as decoded in some surroundings, or the line of the
/// error, counted within the block.
type Seen = Result<Vec<(String, V)>, Option<isize>>;

fn see(text: &str, indent: usize, strict: bool, before: usize, pick: impl Fn(V) -> Option<Vec<(String, V)>>) -> Result<Seen, String> {
    match h::decode(text, indent, strict, false) {
        Ok(v) => {
            let s = show(&v);
            pick(v).map(Ok).ok_or_else(|| format!("unexpected shape {s} from {text:?}"))
        }
        Err(e) => Ok(Err(error_line(&e).map(|n| n as isize - before as isize))),
    }
}

fn object(v: V) -> Option<Vec<(String, V)>> {
    match v {
        V::Object(o) => Some(o),
        _ => None,
    }
}

/// Drop the expected first member.
fn without_first(v: V, k: &str) -> Option<Vec<(String, V)>> {
    let mut o = object(v)?;
    (!o.is_empty() && o[0].0 == k).then(|| {
        o.remove(0);
        o
    })
}

fn only(v: V, k: &str) -> Option<V> {
    let mut o = object(v)?;
    (o.len() == 1 && o[0].0 == k).then(|| o.remove(0).1)
}

fn tell(s: &Seen) -> String {
    match s {
        Ok(o) => show(&V::Object(o.clone())),
        Err(n) => format!("rejected at its line {n:?}"),
    }
}

fn seen_same(a: &Seen, b: &Seen) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => same(&V::Object(x.clone()), &V::Object(y.clone())),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

/// The block in each of its surroundings; all must agree.
fn c31_problem(block: &str, indent: usize, strict: bool, variant: u64) -> Option<(String, String)> {
    let i = " ".repeat(indent);
    // delimiters named by the headers around the block say nothing about it
    let marks = ["", "|", "\t"];
    let (m, m2) = (marks[(variant % 3) as usize], marks[(variant / 3 % 3) as usize]);
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    // After a first field the block can only be a continuation of the object.
    let reference = match see(&format!("zq1: 1\n{block}"), indent, strict, 1, |v| without_first(v, "zq1")) {
        Ok(s) => s,
        Err(e) => return bad("first-field-lost", e),
    };
    if reference.as_ref().is_ok_and(|o| !unique_keys(&V::Object(o.clone()))) {
        return None;
    }
    let mut places: Vec<(&str, Result<Seen, String>)> = Vec::new();
    // only a block that starts at the margin ends what stands above it
    let at_margin = block.split('\n').find(|l| !blank(l)).is_none_or(|l| !l.starts_with([' ', '\t']));
    // an array, a table and an object before it
    for (name, head) in [
        ("after an inline array", format!("zq1[1{m}]: 1")),
        ("after a list", format!("zq1[2{m}]:\n{i}- 1\n{i}- a: 1\n{i}{i}b: 2")),
        ("after a table", {
            let d = if m.is_empty() { "," } else { m };
            format!("zq1[2{m}]{{a{d}b}}:\n{i}1{d}2\n{i}3{d}4")
        }),
        ("after a list of lists", format!("zq1[1{m}]:\n{i}- [1{m2}]:\n{i}{i}- [1]: 1")),
        ("after a nested object", format!("zq1:\n{i}a:\n{i}{i}b: 1")),
    ] {
        if !at_margin {
            break;
        }
        let n = head.matches('\n').count() + 1;
        places.push((name, see(&format!("{head}\n{block}"), indent, strict, n, |v| without_first(v, "zq1"))));
    }
    places.push((
        "below a key",
        see(&format!("zq0:\n{i}zq1: 1\n{}", deeper(block, indent)), indent, strict, 2, |v| without_first(only(v, "zq0")?, "zq1")),
    ));
    places.push((
        "two levels down",
        see(
            &format!("zq0:\n{i}zq2:\n{i}{i}zq1: 1\n{}", deeper(block, 2 * indent)),
            indent,
            strict,
            3,
            |v| without_first(only(only(v, "zq0")?, "zq2")?, "zq1"),
        ),
    ));
    let first = |v: V| match v {
        V::Array(mut a) if a.len() == 1 => Some(a.remove(0)),
        _ => None,
    };
    // In a list item, a dash at the depth of the fields would be another item.
    let dash = |l: &str| (l.trim() == "-" || l.trim_start_matches(' ').starts_with("- ")) && l.len() - l.trim_start_matches(' ').len() < indent;
    let no_blank = !block.split('\n').any(|l| blank(l) || dash(l));
    if no_blank {
        // what shares the dash line with the item's first field
        let (dashed, below, n) = match variant / 9 % 5 {
            v if v == 0 || !at_margin => ("zq1: 1".to_string(), String::new(), 2),
            1 => (format!("zq1[1{m2}]: 1"), String::new(), 2),
            2 => (format!("zq1[1{m2}]{{a}}:"), format!("{i}{i}{i}1\n"), 3),
            3 => (format!("zq1[1{m2}]:"), format!("{i}{i}{i}- a: 1\n"), 3),
            _ => ("zq1:".to_string(), format!("{i}{i}{i}a: 1\n"), 3),
        };
        let item = format!("{i}- {dashed}\n{below}{}", deeper(block, 2 * indent));
        places.push((
            "in a list item",
            see(&format!("[1{m}]:\n{item}"), indent, strict, n, |v| without_first(first(v)?, "zq1")),
        ));
        places.push((
            "in a list item below a key",
            see(&format!("zq0[1{m}]:\n{item}"), indent, strict, n, |v| without_first(first(only(v, "zq0")?)?, "zq1")),
        ));
        places.push((
            "in a list in a list",
            see(&format!("[1{m}]:\n{i}- [1{m2}]:\n{}", deeper(&item, indent)), indent, strict, n + 1, |v| {
                without_first(first(first(v)?)?, "zq1")
            }),
        ));
        places.push((
            "in a list that is a field of a list item",
            see(&format!("[1{m}]:\n{i}- zq2: 1\n{i}{i}zq0[1{m2}]:\n{}", deeper(&item, 2 * indent)), indent, strict, n + 2, |v| {
                without_first(first(only(V::Object(without_first(first(v)?, "zq2")?), "zq0")?)?, "zq1")
            }),
        ));
    }
    // a field of any form behind it
    let follower = [
        "zq3: 1".to_string(),
        "\"zq3\": 1".to_string(),
        "zq3:".to_string(),
        format!("zq3[1{m}]: 1"),
        format!("\"zq3\"[2{m}]:\n{i}- 1\n{i}- 2"),
        format!("zq3[1{m}]{{a}}:\n{i}1"),
        format!("zq3:\n{i}a: \"x\""),
    ][(variant % 7) as usize]
        .clone();
    if let Ok(o) = &reference
        && !o.is_empty()
        && let Some(head) = block.split('\n').find(|l| !blank(l))
        && !head.starts_with([' ', '\t'])
        && !head.trim_start().starts_with(['-', '['])
    {
        places.push(("alone", see(block, indent, strict, 0, object)));
        let start = block.trim_start_matches(['\n', '\r']);
        // stray quotes that hide the colon make the item a string
        let key = head.split(':').next().unwrap_or("");
        if no_blank && (key.starts_with('"') || !key.contains('"')) && has_unquoted_colon(head) {
            places.push((
                "as a list item",
                see(&format!("[1{m}]:\n{i}- {}", deeper(start, 2 * indent).trim_start_matches(' ')), indent, strict, 1, |v| object(first(v)?)),
            ));
        }
        places.push((
            "as the value of a key",
            see(&format!("zq0:\n{}", deeper(block, indent)), indent, strict, 1, |v| object(only(v, "zq0")?)),
        ));
        // in lenient mode a line that belongs nowhere ends the document
        if strict {
            places.push((
                "before a field",
                see(&format!("{block}\n{follower}"), indent, strict, 0, |v| {
                    let mut o = object(v)?;
                    (o.pop()?.0 == "zq3").then_some(o)
                }),
            ));
        }
    } else if reference.is_err() {
        // whatever follows, the fault stays
        if let Ok(Ok(o)) = see(&format!("zq1: 1\n{block}\n{follower}"), indent, strict, 1, |v| without_first(v, "zq1")) {
            return bad("fault-hidden-by-a-field", format!("rejected alone, but followed by a field it is {}", show(&V::Object(o))));
        }
    }
    for (name, s) in places {
        match s {
            Err(e) => return bad("misplaced", format!("{name}: {e}")),
            Ok(s) => {
                if !seen_same(&s, &reference) {
                    return bad("depends-on-place", format!("{name}: {}\nafter a field: {}", tell(&s), tell(&reference)));
                }
            }
        }
    }
    None
}

fn has_unquoted_colon(l: &str) -> bool {
    let (mut quoted, mut escaped) = (false, false);
    for ch in l.chars() {
        match ch {
            _ if escaped => escaped = false,
            '\\' if quoted => escaped = true,
            '"' => quoted = !quoted,
            ':' if !quoted => return true,
            _ => {}
        }
    }
    false
}

fn c31(c: &mut Ctx, idx: u64) {
    for k in 0..5 {
        let (text, indent) = match k {
            0 => {
                let x = docs::valid(&mut c.rng);
                (x.text(), x.indent)
            }
            _ => docs::any_text(&mut c.rng),
        };
        if text.len() > 20_000 && !c.rng.pct(10) {
            continue;
        }
        let strict = c.rng.pct(70);
        let variant = c.rng.below(315) as u64;
        let r = c.guard("decoding", &text, || c31_problem(&text, indent, strict, variant));
        if let Some(Some((kind, _))) = r {
            report(c, &kind, &text, &format!("indent {indent} strict {strict} surroundings {variant}"), &mut |t| {
                c31_problem(t, indent, strict, variant)
            });
        }
        let ok = h::decode(&format!("zq1: 1\n{text}"), indent, strict, false).is_ok();
        c.note(if ok { "accepted_blocks" } else { "rejected_blocks" });
        c.seen(&(&text, indent, strict), !text.is_empty());
        if idx < 2 {
            c.sample(|| text.clone());
        }
    }
}

// ---------------------------------------------------------------------- C32

fn c32_problem(text: &str, indent: usize, strict: bool, expand: bool) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    let lines = text.split('\n').count();
    let o = || h::dopts(indent, strict, expand);
    let e = toon::try_decode(text, o()).err()?.to_string();
    let mut others = vec![
        ("try_decode_from_lines", toon::try_decode_from_lines(lines_of(text), o()).err().map(|e| e.to_string())),
        ("decode_to_json_chunks", decode_to_json_chunks(text, o()).err().map(|e| e.to_string())),
    ];
    if !expand {
        others.push(("try_decode_stream_sync", toon::try_decode_stream_sync(lines_of(text), sopts(indent, strict)).err().map(|e| e.to_string())));
        if strict && indent == 2 {
            others.push(("toon_to_json", toon::toon_to_json(text).err().map(|e| e.to_string())));
        }
    }
    for (name, x) in others {
        if x.as_ref() != Some(&e) {
            return bad("errors-differ", format!("try_decode: {e}\n{name}: {x:?}"));
        }
    }
    if e.trim().is_empty() {
        return bad("empty-error", "the error has no text".into());
    }
    if let Some(n) = error_line(&e)
        && !(1..=lines).contains(&n)
    {
        return bad("no-such-line", format!("{e}\nthe document has {lines} lines"));
    }
    // blank lines in front move the fault by their number
    for (k, blank) in [(1 + text.len() % 3, ""), (4 + text.len() % 9, " ")] {
        let moved = h::decode(&format!("{}{text}", format!("{blank}\n").repeat(k)), indent, strict, expand).err();
        let want = renumbered(&e, k);
        if moved.as_ref() != Some(&want) {
            return bad("fault-moves", format!("{e}\nwith {k} blank lines in front: {moved:?}\nexpected: {want}"));
        }
    }
    // the fault is in the lines up to the one named; a blank line is one by what
    // follows it
    if let Some(n) = error_line(&e) {
        let n = n + text.split('\n').skip(n - 1).take_while(|l| blank(l)).count();
        let head = text.split('\n').take(n).collect::<Vec<_>>().join("\n");
        if let Ok(v) = h::decode(&head, indent, strict, expand) {
            return bad("fault-behind-the-line", format!("{e}\nbut the first {n} lines decode to {}", show(&v)));
        }
    }
    None
}

/// The error with every line number raised.
fn renumbered(e: &str, by: usize) -> String {
    let b = e.as_bytes();
    let (mut out, mut done) = (String::new(), 0);
    for (i, _) in e.match_indices("ine ") {
        let starts = i > 0 && matches!(b[i - 1], b'L' | b'l') && (i < 2 || !b[i - 2].is_ascii_alphanumeric());
        let digits: String = e[i + 4..].chars().take_while(char::is_ascii_digit).collect();
        if starts && let Ok(n) = digits.parse::<usize>() {
            out.push_str(&e[done..i + 4]);
            out.push_str(&(n + by).to_string());
            done = i + 4 + digits.len();
        }
    }
    out.push_str(&e[done..]);
    out
}

fn c32(c: &mut Ctx, idx: u64) {
    for _ in 0..8 {
        let (text, indent) = docs::any_text(&mut c.rng);
        let strict = c.rng.pct(70);
        let expand = c.rng.pct(30);
        let r = c.guard("decoding", &text, || c32_problem(&text, indent, strict, expand));
        if let Some(Some((kind, _))) = r {
            report(c, &kind, &text, &format!("indent {indent} strict {strict} expand {expand}"), &mut |t| c32_problem(t, indent, strict, expand));
        }
        let e = h::decode(&text, indent, strict, expand).err();
        if let Some(e) = &e {
            c.note(if error_line(e).is_some() { "errors_with_a_line" } else { "errors_without_a_line" });
            if idx < 2 {
                c.sample(|| format!("{e}\n{text}"));
            }
        } else {
            c.note("accepted");
        }
        c.seen(&(&text, indent, strict, expand), e.is_some());
    }
}
