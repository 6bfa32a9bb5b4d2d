//! Monitors over the whole library surface: C11, C14, C18, C22.

use crate::core::{Ctx, Prop, Tier, clip, guarded, hash_of};
use crate::docs;
use crate::gen_::{self, Shape, V, same, show};
use crate::h;
use crate::json;
use crate::rng::Rng;
use crate::spec;
use crate::sys;
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Waker};
use toon::cli::conversion::{decode_to_json_chunks, encode_to_toon_lines};
use toon::cli::json_stream::json_stream_from_events;
use toon::cli::json_stringify::json_stringify_lines;
use toon::options::{DecodeStreamOptions, EncodeOptions};
use toon::{JsonStreamEvent as E, StringOrNumberOrBoolOrNull as P};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        quick: 64000,
        thorough: 900_000,
        rule: "One evaluation sends one document through every decoding entry point, or one value through every encoding one, and compares: acceptance, values, a grammar check of the event stream, quoted-key flags (keys are unique markers whose quotes are looked up in the text). Distinct by document or value and options; non-trivial: accepted documents and container values.",
        assumptions: &["rows of one table keep one key order on the encoding side", "keys unique per object where JSON text is compared"],
        run: c11,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C14",
        quick: 30000,
        thorough: 250_000,
        rule: "One evaluation sends one hostile input (noise, mutants, token soup, giant lines, deep nesting to 1100 levels, huge declared lengths, hostile JSON, hostile values) through all entry points with random options under the panic, stack, CPU-time and allocation monitors. Distinct by input.",
        assumptions: &["8 MiB stack", "indent at most 64; values nested at most 1000 deep", "memory bound: a fixed multiple of input plus output"],
        run: c14,
        cpu: 40.0,
        level: "exploration",
    },
    Prop {
        id: "C18",
        quick: 60000,
        thorough: 300_000,
        rule: "One evaluation prints one value with both JSON writers at one indent and walks the text with an independent matcher (layout, escapes, numbers read back bit by bit), or feeds one event sequence, valid or edited, to the event writer. The quick tier includes every Unicode scalar value. Distinct by value or sequence.",
        assumptions: &[],
        run: c18,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C22",
        quick: 2560,
        thorough: 12_000,
        rule: "One evaluation is one conversion whose result is compared with the first result for the same arguments: after other conversions, failures and panicking callbacks, on 6 concurrent threads in different orders, and in a second process with other surroundings (directory, environment, clock). Distinct by conversion.",
        assumptions: &["callbacks without side effects except the panicking ones"],
        run: c22,
        cpu: 40.0,
        level: "exploration",
    },
];

pub fn lines_of(t: &str) -> Vec<String> {
    t.split('\n').map(String::from).collect()
}

pub fn sopts(indent: usize, strict: bool) -> Option<DecodeStreamOptions> {
    Some(DecodeStreamOptions {
        indent: Some(indent),
        strict: Some(strict),
    })
}

pub fn unique_keys(v: &V) -> bool {
    match v {
        V::Primitive(_) => true,
        V::Array(a) => a.iter().all(unique_keys),
        V::Object(o) => {
            let mut k: Vec<&String> = o.iter().map(|e| &e.0).collect();
            k.sort();
            k.windows(2).all(|w| w[0] != w[1]) && o.iter().all(|e| unique_keys(&e.1))
        }
    }
}

/// Poll a future that never has to wait for another task.
pub fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1_000_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

// ---------------------------------------------------------------------- C11

fn c11_decode_problem(text: &str, indent: usize, strict: bool, deep: bool) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    let whole = h::decode(text, indent, strict, false);
    let from_lines = toon::try_decode_from_lines(lines_of(text), h::dopts(indent, strict, false)).map_err(|e| e.to_string());
    let events = toon::try_decode_stream_sync(lines_of(text), sopts(indent, strict)).map_err(|e| e.to_string());
    if whole.is_ok() != from_lines.is_ok() || whole.is_ok() != events.is_ok() {
        return bad(
            "entry-points-disagree",
            format!(
                "try_decode: {}\ntry_decode_from_lines: {}\ntry_decode_stream_sync: {}",
                h::result(&whole),
                h::result(&from_lines),
                events.as_ref().map_or_else(|e| format!("Err({e})"), |e| format!("Ok({e:?})"))
            ),
        );
    }
    if let (Ok(w), Ok(l), Ok(ev)) = (&whole, &from_lines, &events) {
        if !same(w, l) {
            return bad("values-disagree", format!("try_decode: {}\nfrom lines: {}", show(w), show(l)));
        }
        match h::value_of_events(ev) {
            Err(e) => return bad("malformed-events", format!("{e}\nevents: {ev:?}")),
            Ok(v) if !same(&v, w) => {
                return bad("events-disagree", format!("events: {ev:?}\ndescribe: {}\ntry_decode: {}", show(&v), show(w)));
            }
            Ok(_) => {}
        }
        for e in ev {
            if let E::Primitive { value: P::Number(x) } = e
                && (!x.is_finite() || (*x == 0.0 && x.is_sign_negative()))
            {
                return bad("number-event", format!("the event stream holds {x:?}"));
            }
        }
    }
    if deep {
        // expansion through both entry points
        let a = h::decode(text, indent, strict, true);
        let b = toon::try_decode_from_lines(lines_of(text), h::dopts(indent, strict, true)).map_err(|e| e.to_string());
        let agree = match (&a, &b) {
            (Ok(x), Ok(y)) => same(x, y),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !agree {
            return bad("expanding-entry-points-disagree", format!("text: {}\nlines: {}", h::result(&a), h::result(&b)));
        }
        // the asynchronous form of the event decoder
        match block_on(toon::try_decode_stream(lines_of(text), sopts(indent, strict))) {
            None => return bad("never-ready", "try_decode_stream".into()),
            Some(r) => {
                let ok = match (&r, &events) {
                    (Ok(x), Ok(y)) => h::same_events(x, y),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !ok {
                    return bad("async-events-disagree", format!("sync: {events:?}\nasync: {:?}", r.map_err(|e| e.to_string())));
                }
            }
        }
        // the JSON shortcut uses the default options
        let d = toon::try_decode(text, None);
        let e = h::decode(text, 2, true, false);
        match (&d, &e) {
            (Ok(x), Ok(y)) if same(x, y) => {}
            (Err(_), Err(_)) => {}
            _ => return bad("default-options", format!("None: {:?}\nindent 2, strict, no expansion: {}", d.map(|v| show(&v)).map_err(|e| e.to_string()), h::result(&e))),
        }
        let j = toon::toon_to_json(text);
        if j.is_ok() != d.is_ok() {
            return bad("toon-to-json-disagrees", format!("try_decode ok: {}, toon_to_json: {:?}", d.is_ok(), j.map_err(|e| e.to_string())));
        }
        if let (Ok(j), Ok(v)) = (&j, &d)
            && unique_keys(v)
            && let Err(e) = json::matches(j, v, 0)
        {
            return bad("toon-to-json-value", format!("{e}\njson: {j}\nvalue: {}", show(v)));
        }
    }
    None
}

fn report_text(c: &mut Ctx, kind: &str, text: &str, opts: &str, test: &mut dyn FnMut(&str) -> Option<(String, String)>) {
    let small = h::shrink_text(text, &mut |t| guarded(|| test(t)).map_or(true, |r| r.is_some_and(|r| r.0 == kind)));
    let d = guarded(|| test(&small)).map_or_else(|p| p.text, |r| r.map_or(String::new(), |r| r.1));
    c.fail(kind, &format!("{opts}\n{small}"), d);
}

/// Keys that cannot be mistaken for anything else in the text: `k12z` with an
/// optional tail that decides whether quotes are needed.
fn marker_keys(r: &mut Rng, v: &mut V, next: &mut usize) {
    match v {
        V::Primitive(_) => {}
        V::Array(a) => {
            // rows of one table must keep their common keys
            let table = spec::table_fields(a);
            if let Some(f) = table {
                let names: Vec<(String, String)> = f.into_iter().map(|k| (k, marker(r, next))).collect();
                for x in a {
                    if let V::Object(o) = x {
                        for (k, _) in o.iter_mut() {
                            if let Some((_, n)) = names.iter().find(|(o, _)| o == k) {
                                *k = n.clone();
                            }
                        }
                    }
                }
            } else {
                a.iter_mut().for_each(|x| marker_keys(r, x, next));
            }
        }
        V::Object(o) => {
            for (k, x) in o {
                *k = marker(r, next);
                marker_keys(r, x, next);
            }
        }
    }
}

fn marker(r: &mut Rng, next: &mut usize) -> String {
    *next += 1;
    let n = *next;
    match r.below(8) {
        0 => format!("k{n}z w"),
        1 => format!("k{n}z.w"),
        2 => format!("k{n}z:w"),
        3 => format!("k{n}z[1]"),
        4 => format!("k{n}z,w|"),
        5 => format!("k{n}z-w{{}}"),
        _ => format!("k{n}z"),
    }
}

/// The number in a marker key: `k12z…` gives 12.
fn marker_number(k: &str) -> Option<&str> {
    let rest = k.strip_prefix('k')?;
    let d = rest.bytes().take_while(u8::is_ascii_digit).count();
    (d > 0 && rest[d..].starts_with('z')).then(|| &k[..d + 2])
}

fn c11_flags(text: &str, indent: usize, strict: bool) -> Result<(u64, u64), String> {
    let Ok(ev) = toon::try_decode_stream_sync(lines_of(text), sopts(indent, strict)) else {
        return Ok((0, 0));
    };
    let (mut quoted, mut bare) = (0, 0);
    for e in &ev {
        let E::Key { key, was_quoted } = e else { continue };
        let Some(mark) = marker_number(key) else { continue };
        let mut hits = text.match_indices(mark);
        let Some((at, _)) = hits.next() else { continue };
        if hits.next().is_some() {
            continue;
        }
        // The key starts with the marker, so a quote just before it is its own.
        let written_quoted = text[..at].ends_with('"');
        if written_quoted != *was_quoted {
            return Err(format!("key {key:?}: flagged quoted {was_quoted}, written {}", if written_quoted { "in quotes" } else { "without quotes" }));
        }
        if written_quoted { quoted += 1 } else { bare += 1 }
    }
    Ok((quoted, bare))
}

fn one_row_order(v: &V) -> V {
    spec::read_back(v)
}

fn c11_encode_problem(v: &V, d: char, indent: usize) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    let o = || h::eopts(d, indent, None);
    let text = toon::encode(v.clone(), o());
    let lines = toon::encode_lines(v.clone(), o());
    if lines.join("\n") != text {
        return bad("lines-disagree", format!("encode:\n{text}\nencode_lines:\n{lines:?}"));
    }
    if let Some(l) = lines.iter().find(|l| l.contains('\n')) {
        return bad("line-with-newline", format!("{l:?}"));
    }
    let ev = toon::encode_stream_events(v.clone(), o());
    let mut want = Vec::new();
    h::events_of(&spec::normal(v), &mut want);
    if !h::same_events(&ev, &want) {
        return bad("encoder-events", format!("got {ev:?}\nwant {want:?}"));
    }
    match toon::try_decode_stream_sync(lines_of(&text), sopts(indent, true)) {
        Ok(dec) if h::same_events(&dec, &ev) => {}
        Ok(dec) => return bad("events-differ-from-decoding", format!("encoder {ev:?}\ndecoder {dec:?}\ntext:\n{text}")),
        Err(e) => return bad("not-decodable", format!("{e}\ntext:\n{text}")),
    }
    match (indent, d) {
        (2, ',') => {
            let plain = toon::encode(v.clone(), None);
            if plain != text {
                return bad("default-encode-options", format!("None:\n{plain}\nexplicit defaults:\n{text}"));
            }
        }
        _ => {}
    }
    None
}

fn c11(c: &mut Ctx, idx: u64) {
    // any text
    for k in 0..6 {
        let (text, indent) = docs::any_text(&mut c.rng);
        let strict = k % 2 == 0;
        let r = c.guard("decoding", &text, || c11_decode_problem(&text, indent, strict, true));
        if let Some(Some((kind, _))) = r {
            report_text(c, &kind, &text, &format!("indent {indent} strict {strict}"), &mut |t| {
                c11_decode_problem(t, indent, strict, true)
            });
        }
        let ok = toon::try_decode(&text, h::dopts(indent, strict, false)).is_ok();
        c.note(if ok { "texts_accepted" } else { "texts_rejected" });
        c.seen(&(&text, indent, strict), ok);
        if k == 0 {
            c.sample(|| format!("{text:?}"));
        }
        // The panicking forms must panic exactly when the others fail.
        if idx % 16 == 0 && k < 2 {
            let o = || h::dopts(indent, strict, false);
            let p = [
                guarded(|| toon::decode(&text, o())).is_ok(),
                guarded(|| toon::decode_from_lines(lines_of(&text), o())).is_ok(),
                guarded(|| toon::decode_stream_sync(lines_of(&text), sopts(indent, strict))).is_ok(),
                guarded(|| block_on(toon::decode_stream(lines_of(&text), sopts(indent, strict)))).is_ok(),
            ];
            if p.iter().any(|x| *x != ok) {
                c.fail("panicking-forms-disagree", &text, format!("try_decode ok: {ok}, decode, decode_from_lines, decode_stream_sync, decode_stream: {p:?}"));
            }
            c.note("panicking_forms_checked");
        }
    }
    // quoted-key flags
    for k in 0..3 {
        let sh = docs::small_shape(&mut c.rng);
        let mut v = gen_::value(&mut c.rng, sh, 0);
        let mut next = 0;
        marker_keys(&mut c.rng, &mut v, &mut next);
        let d = docs::of_value(&mut c.rng, &v);
        let mut text = d.text();
        if k == 2 {
            text = docs::mutate(&mut c.rng, &text, d.indent);
        }
        for strict in [true, false] {
            match c.guard("decoding", &text, || c11_flags(&text, d.indent, strict)) {
                Some(Ok((q, b))) => {
                    c.add("quoted_keys_seen", q);
                    c.add("bare_keys_seen", b);
                    c.seen(&(&text, strict, "flags"), q + b > 0);
                }
                Some(Err(e)) => c.fail("quoted-flag", &format!("indent {} strict {strict}\n{text}", d.indent), e),
                None => {}
            }
        }
    }
    // encoding
    for _ in 0..3 {
        let v = if c.rng.below(300) == 0 {
            c.note("big_values");
            let cap = if c.rng.pct(5) { 100_003 } else { 5000 };
            gen_::big(&mut c.rng, cap)
        } else if c.rng.below(200) == 0 {
            c.note("deep_values");
            gen_::deeper(&mut c.rng, 400)
        } else {
            gen_::root(&mut c.rng)
        };
        let v = one_row_order(&v);
        let d = h::delim(&mut c.rng);
        let indent = h::indent(&mut c.rng);
        c.seen(&(show(&v), d, indent), !matches!(v, V::Primitive(_)));
        let r = c.guard("encoding", &show(&v), || c11_encode_problem(&v, d, indent));
        if let Some(Some((kind, _))) = r {
            let small = gen_::shrink(&v, &mut |x| {
                let x = one_row_order(x);
                guarded(|| c11_encode_problem(&x, d, indent)).map_or(true, |r| r.is_some())
            });
            let small = one_row_order(&small);
            let det = guarded(|| c11_encode_problem(&small, d, indent)).map_or_else(|p| p.text, |r| r.map_or(String::new(), |r| r.1));
            c.fail(&kind, &format!("delimiter {d:?} indent {indent} {}", show(&small)), det);
        }
    }
    // JSON text in
    for k in 0..3 {
        let v = if c.rng.below(600) == 0 { gen_::big(&mut c.rng, 9000) } else { gen_::root(&mut c.rng) };
        let mut t = String::new();
        json::write(&mut c.rng, &v, &mut t);
        if k == 2 {
            t = if c.rng.pct(50) { docs::mutate(&mut c.rng, &t, 2) } else { json::nearly(&mut c.rng, &t) };
        }
        let parsed = serde_json::from_str::<serde_json::Value>(&t);
        let got = c.guard("json_to_toon", &t, || toon::json_to_toon(&t).map_err(|e| e.to_string()));
        let Some(got) = got else { continue };
        let want = parsed.map(|j| toon::encode(j, None));
        match (&got, &want) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            _ => c.fail("json-to-toon", &t, format!("json_to_toon: {got:?}\nencode of the parsed text: {want:?}")),
        }
        c.note(if got.is_ok() { "json_accepted" } else { "json_rejected" });
        c.seen(&(&t, "json"), got.is_ok());
    }
}

// ---------------------------------------------------------------------- C14

/// Texts whose size or shape is extreme.
fn extreme(r: &mut Rng, thorough: bool) -> (String, usize) {
    let big = if thorough { 200_000 } else { 40_000 };
    let frag = |r: &mut Rng| -> String {
        match r.below(4) {
            0 => (*r.pick(gen_::HOSTILE)).to_string(),
            1 => docs::soup_line(r),
            _ => (*r.pick(&[
                "- ", "[1]:", "[1]: ", "{", "}", "\"", "\\", "\\\"", "a.", ".", ",", "|", "\t", ":", "a:", "a: ", "[", "]", "\\\\", "0", "9", "e",
                "-", " ", "\"a\",", "\"a\":", "[1]{a}:", "a,b,", "é", "\u{a0}", "[1", "1]", "\r", "\"\"",
            ]))
            .to_string(),
        }
    };
    match r.below(12) {
        // one giant line
        0 | 1 => {
            let pre = if r.pct(50) { frag(r) } else { String::new() };
            let f = frag(r).replace('\n', " ");
            let k = big / f.len().max(1) / r.range(1, 20);
            let post = frag(r);
            (format!("{pre}{}{post}", f.repeat(k)), 2)
        }
        // many lines
        2 | 3 => {
            let a = docs::soup_line(r);
            let b = docs::soup_line(r);
            let head = docs::soup_line(r);
            let ind = " ".repeat(2 * r.below(3));
            let k = (if thorough { 6000 } else { 1500 }) / r.range(1, 10);
            let mut t = format!("{head}\n");
            for i in 0..k {
                t.push_str(&ind);
                t.push_str(if i % 2 == 0 { &a } else { &b });
                t.push('\n');
            }
            (t, 2)
        }
        // deep
        4 | 5 => {
            let n = if r.pct(30) { r.range(900, 1100) } else { r.range(20, 400) };
            let mut t = String::new();
            let kinds: &[&str] = match r.below(6) {
                0 => &["k:"],
                1 => &["- [1]:"],
                2 => &["- k:", "  k:"],
                3 => &["- k[1]:"],
                4 => &["k:", "k[1]:", "- [1]:", "- a:", "k[2]:"],
                _ => &["- - [1]:", "k[1]{a}:", "-", "- x", "[1]:", "a.b.c:"],
            };
            let one = *r.pick(kinds);
            let fixed = r.pct(70);
            for i in 0..n {
                t.push_str(&" ".repeat(i));
                let l = if fixed { one } else { *r.pick(kinds) };
                t.push_str(if i == 0 && l.starts_with("- [") { "[1]:" } else { l });
                t.push('\n');
            }
            t.push_str(&" ".repeat(n));
            t.push_str(r.pick::<&str>(&["- 1", "a: 1", "x", "- a: 1", "- [0]:"]));
            (t, 1)
        }
        // lengths that lie
        6 | 7 => {
            let n = *r.pick(&[
                "0", "1", "2", "99999999", "100000000", "100000001", "4294967296", "9223372036854775807", "9223372036854775808",
                "18446744073709551615", "18446744073709551616", "99999999999999999999999", "007", "-1", "+5", " 3", "1e3", "٣",
            ]);
            let m = *r.pick(&["", "|", "\t", ","]);
            let f = *r.pick(&["", "{a}", "{a,b}", "{\"a\"|b}", "{}", "{,}", "{a"]);
            let key = *r.pick(&["", "k", "\"q\"", "- ", "- k"]);
            let tail = *r.pick(&["", " 1,2", " x", "\n  1,2\n  3,4", "\n  - 1\n  - 2", "\n  - a: 1\n\n  - b: 2", "\n1", "\n\n\n"]);
            (format!("{key}[{n}{m}]{f}:{tail}\n"), 2)
        }
        // wide table, short rows
        8 => {
            let w = r.range(10, 300);
            let k = r.range(2, 60);
            let f: Vec<String> = (0..w).map(|i| format!("f{i}")).collect();
            let mut t = format!("t[{k}]{{{}}}:\n", f.join(","));
            for i in 0..k {
                t.push_str(&format!("  {}\n", vec!["1"; 1 + (i * 7) % w].join(",")));
            }
            (t, 2)
        }
        // dotted keys
        9 => {
            let n = if r.pct(20) { r.range(1000, if thorough { 150_000 } else { 60_000 }) } else { r.range(2, 400) };
            let mut t = String::new();
            for i in 0..if n > 400 { 1 } else { r.range(1, 6) } {
                t.push_str(&vec![*r.pick(&["a", "b"]); n / (i + 1) + 1].join("."));
                t.push_str(": 1\n");
            }
            (t, 2)
        }
        // long digits
        10 => {
            let n = r.range(300, 5000);
            let t = match r.below(4) {
                0 => "9".repeat(n),
                1 => format!("0.{}1", "0".repeat(n)),
                2 => format!("1e{}", "9".repeat(n.min(400))),
                _ => format!("-{}.{}e-{n}", "1".repeat(n), "7".repeat(n)),
            };
            (format!("a: {t}\nb[2]: {t},{t}\n"), 2)
        }
        _ => docs::any_text(r),
    }
}

fn text_size(v: &V) -> usize {
    match v {
        V::Primitive(P::String(s)) => s.len() + 8,
        V::Primitive(_) => 24,
        V::Array(a) => 8 + a.iter().map(text_size).sum::<usize>(),
        V::Object(o) => 8 + o.iter().map(|(k, x)| k.len() + 8 + text_size(x)).sum::<usize>(),
    }
}

/// Highest allowed live memory while converting. The factor covers one event,
/// one node and their growth strategy per byte of a document such as "1,1,1".
fn memory_bound(input: usize, output: usize) -> usize {
    (128 << 10) + 400 * input + 120 * output
}

fn watch<T>(c: &mut Ctx, what: &str, input: &str, in_size: usize, f: impl FnOnce() -> T, out_size: impl FnOnce(&T) -> usize) -> Option<T> {
    let (v, st) = sys::watch_alloc(|| guarded(f));
    c.evals += 1;
    match v {
        Err(p) => {
            assert!(!p.in_harness, "harness panic: {}", p.text);
            c.fail("panic", input, format!("{what} panicked: {}", p.text));
            None
        }
        Ok(v) => {
            let out = out_size(&v);
            let bound = match what {
                "encode" | "encode_stream_events" | "json_stringify_lines" => memory_bound(in_size, out) / 8,
                _ => memory_bound(in_size, out),
            };
            c.max(&format!("permille_of_memory_bound_{what}"), (st.peak as u64 * 1000) / bound as u64);
            c.add("allocations_watched", st.calls as u64);
            if st.peak > bound {
                c.fail(
                    "memory",
                    input,
                    format!("{what}: {} live bytes at the peak for {in_size} bytes of input and {out} of output (bound {bound}); largest single allocation {}", st.peak, st.largest),
                );
            }
            Some(v)
        }
    }
}

fn folds(o: &Option<EncodeOptions>) -> bool {
    o.as_ref().is_some_and(|o| o.key_folding == Some(toon::options::KeyFoldingMode::Safe))
}

fn wild_options(r: &mut Rng, replacer: bool) -> Option<EncodeOptions> {
    let fold = match r.below(6) {
        0..=2 => None,
        3 => Some(usize::MAX),
        4 => Some(usize::MAX - 1),
        _ => Some(r.below(5)),
    };
    let indent = *r.pick(&[0, 1, 2, 4, 16, 64]);
    let delim = h::delim(r);
    let mut o = h::eopts(delim, indent, fold);
    if replacer && let Some(o) = &mut o {
        let salt = r.next();
        o.replacer = Some(Arc::new(move |k, v, p| match (hash_of(k) ^ salt ^ p.len() as u64) % 7 {
            0 => None,
            1 => Some(gen_::n(f64::NAN)),
            2 if p.len() < 3 => Some(V::Array(vec![v.clone(), gen_::n(f64::INFINITY)])),
            _ => Some(v.clone()),
        }));
    }
    if r.pct(5) {
        return None;
    }
    o
}

/// One line of most of a megabyte: work that grows with the square of the length
/// of a line, string, key or row does not end in time.
fn c14_vast(c: &mut Ctx) {
    let r = &mut c.rng;
    let n = r.range(500_000, 900_000);
    let unit = match r.below(5) {
        0 => (*r.pick(gen_::HOSTILE)).replace('\n', " "),
        1 => docs::soup_line(r).replace(['\n', '{'], " "),
        2 => (*r.pick(&["\"", "\\", "\\\\", "\\\"", ",", "|", "\t", ":", "[", "]", "{", "}", "-", ".", " ", "\"\",", "a,", "\"a\",", "1,"])).to_string(),
        _ => (*r.pick(&["x", "0", "9", "é", "word ", "ab.", "\u{a0}", "1e"])).to_string(),
    };
    let pre = *r.pick(&["", "k: ", "k: \"", "\"", "- ", "k[2]: ", "k[2]: \"", "k[1]{a,b}:\n  ", "[1]:\n  - ", "[1]:\n  - \"", "[1]:\n  - k: ", "[", "k[", "k[1]", "{", "a"]);
    let post = *r.pick(&["", "\"", ": 1", "\": 1", ":", "]: 1", "\"]: 1", ",1", "\",1", "}:\n  1", " x"]);
    let body = if unit.is_empty() { "a".repeat(n) } else { unit.repeat(n / unit.len()) };
    let text = format!("{pre}{body}{post}");
    let strict = r.pct(60);
    let fold = if r.pct(50) { Some(usize::MAX) } else { None };
    let delim = h::delim(r);
    let escaped = serde_json::to_string(&body).expect("string");
    let jt = match r.below(4) {
        0 => escaped,
        1 => format!("{{{escaped}:{escaped}}}"),
        2 => format!("[{}]", vec!["1"; n / 4].join(",")),
        _ => text.clone(),
    };
    let tag = clip(&format!("{} bytes, strict {strict}: {pre:?} {unit:?} repeated {post:?}", text.len()), 400);
    let opts = h::dopts(2, strict, false);
    c.note("vast_lines");
    c.seen(&tag, true);
    let size = text.len();
    let v = watch(c, "try_decode", &tag, size, || toon::try_decode(&text, opts).ok(), |v| v.as_ref().map_or(0, text_size)).flatten();
    watch(c, "toon_to_json", &tag, size, || toon::toon_to_json(&text).ok(), |j| j.as_ref().map_or(0, String::len));
    watch(c, "json_to_toon", &tag, jt.len(), || toon::json_to_toon(&jt).ok(), |j| j.as_ref().map_or(0, String::len));
    let wide = |v: &V| matches!(v, V::Object(o) if o.len() > 1000);
    if let Some(v) = v
        && !wide(&v)
    {
        let out = text_size(&v);
        watch(c, "encode", &tag, out, || toon::encode(v.clone(), h::eopts(delim, 2, fold)), String::len);
        watch(c, "json_stringify_lines", &tag, out, || json_stringify_lines(&v, 2), |j| j.iter().map(String::len).sum());
    }
}

fn c14(c: &mut Ctx, idx: u64) {
    if idx % 200 == 7 {
        c14_vast(c);
    }
    let thorough = c.tier == Tier::Thorough;
    // documents
    let (text, ind) = match idx % 4 {
        0 => extreme(&mut c.rng, thorough),
        _ => docs::any_text(&mut c.rng),
    };
    c.max("document_bytes", text.len() as u64);
    let strict = c.rng.pct(50);
    let expand = c.rng.pct(40);
    let indent = if c.rng.pct(75) { ind } else { *c.rng.pick(&[0, 1, 2, 3, 4, 8, 16, 64]) };
    let size = text.len();
    let opts = h::dopts(indent, strict, expand);
    let tag = format!("indent {indent} strict {strict} expand {expand}\n{text}");
    let v = watch(c, "try_decode", &tag, size, || toon::try_decode(&text, opts.clone()).ok(), |v| v.as_ref().map_or(0, text_size)).flatten();
    c.note(if v.is_some() { "documents_accepted" } else { "documents_rejected" });
    c.seen(&text, true);
    if idx < 4 {
        c.sample(|| clip(&text, 200));
    }
    let osz = v.as_ref().map_or(0, text_size);
    watch(c, "try_decode_stream_sync", &tag, size, || toon::try_decode_stream_sync(lines_of(&text), sopts(indent, strict)).ok(), |e| {
        e.as_ref().map_or(0, |e| {
            e.iter()
                .map(|e| match e {
                    E::Key { key, .. } => key.len() + 8,
                    E::Primitive { value: P::String(s) } => s.len() + 8,
                    _ => 8,
                })
                .sum()
        })
    });
    watch(c, "toon_to_json", &tag, size, || toon::toon_to_json(&text).ok(), |j| j.as_ref().map_or(0, String::len));
    watch(c, "decode_to_json_chunks", &tag, size, || decode_to_json_chunks(&text, opts.clone()).ok(), |j| {
        j.as_ref().map_or(0, |j| j.iter().map(String::len).sum())
    });
    watch(c, "json_to_toon", &tag, size, || toon::json_to_toon(&text).ok(), |j| j.as_ref().map_or(0, String::len));
    // whatever was decoded can be encoded
    if let Some(v) = &v {
        let o = wild_options(&mut c.rng, false);
        let levels = if folds(&o) { 1 + h::depth(v) } else { 1 };
        watch(c, "encode", &tag, osz * levels, || toon::encode(v.clone(), o.clone()), String::len);
    }
    // JSON text
    let jt = match c.rng.below(8) {
        0 => {
            let most = if c.rng.pct(50) { 127 } else { 20_000 };
            let n = c.rng.range(1, most);
            let (a, b) = *c.rng.pick(&[("[", "]"), ("{\"a\":", "}"), ("[1,", "]"), ("[{\"k\":1,\"a\":", "}]")]);
            let close = if c.rng.pct(80) { b.repeat(n) } else { String::new() };
            format!("{}1{close}", a.repeat(n))
        }
        1 => (*c.rng.pick(&["1e999", "-1e999", "1e-999", "-0", "-0.0", "123456789012345678901234567890", "\"\\ud800\"", "\u{feff}{}", "", "nul", "{\"a\":1,\"a\":2}"])).to_string(),
        k => {
            let v = gen_::root(&mut c.rng);
            let mut t = String::new();
            json::write(&mut c.rng, &v, &mut t);
            if k > 4 {
                t = if c.rng.pct(50) { docs::mutate(&mut c.rng, &t, 2) } else { json::nearly(&mut c.rng, &t) };
            }
            t
        }
    };
    let o = wild_options(&mut c.rng, false);
    let jn = jt.len();
    let r = watch(c, "encode_to_toon_lines", &jt, jn, || encode_to_toon_lines(&jt, o.clone()).ok(), |l| {
        l.as_ref().map_or(0, |l| l.iter().map(|l| l.len() + 1).sum())
    });
    c.note(if matches!(r, Some(Some(_))) { "json_accepted" } else { "json_rejected" });
    watch(c, "json_to_toon", &jt, jn, || toon::json_to_toon(&jt).ok(), |j| j.as_ref().map_or(0, String::len));
    // values
    let v = wild_value(&mut c.rng);
    let n = text_size(&v);
    let with_replacer = c.rng.pct(30);
    let o = wild_options(&mut c.rng, with_replacer);
    let tag = clip(&show(&v), 3000);
    c.max("value_depth", h::depth(&v) as u64);
    c.seen(&tag, true);
    // a replacer is handed (and may copy) each subtree and its path, and folding
    // beside literal dotted names compares whole paths: once per level at most
    let levels = 1 + if with_replacer || folds(&o) { h::depth(&v) } else { 0 };
    let n_enc = n * levels * if with_replacer { 8 } else { 1 };
    watch(c, "encode", &tag, n_enc, || toon::encode(v.clone(), o.clone()), String::len);
    watch(c, "encode_stream_events", &tag, n_enc, || toon::encode_stream_events(v.clone(), o.clone()), |e| e.len() * 16);
    let ji = *c.rng.pick(&[0, 1, 2, 8, 16, 64]);
    watch(c, "json_stringify_lines", &tag, n, || json_stringify_lines(&v, ji), |j| j.iter().map(String::len).sum());
    // event sequences
    let ev = wild_events(&mut c.rng);
    let n = ev.len() * 16;
    let tag = format!("{ev:?}");
    c.seen(&tag, true);
    watch(c, "json_stream_from_events", &tag, n, || json_stream_from_events(ev, ji).ok(), |j| j.as_ref().map_or(0, |j| j.iter().map(|s| s.len() + 24).sum()));
}

/// Values with anything in them: equal keys, non-finite numbers, depth.
fn wild_value(r: &mut Rng) -> V {
    let mut v = match r.below(12) {
        0 | 2 => {
            let n = if r.pct(20) { r.range(300, 1000) } else { r.range(10, 200) };
            // a leaf or an outermost name much longer than the rest makes any
            // per-level copy of either stand out
            let mut v = match r.below(4) {
                0 => gen_::s(&"leaf ".repeat(r.range(100, 600))),
                1 => V::Array((0..r.range(50, 300)).map(|i| V::Object(vec![("a".into(), gen_::n(i as f64)), ("b".into(), gen_::s("x"))])).collect()),
                _ => gen_::s("leaf"),
            };
            let k = r.below(4);
            let name = *r.pick(&["k", "k", "k k", "k.k"]);
            let long = r.pct(30).then(|| name.repeat(r.range(300, 900)));
            for i in 0..n {
                let name: String = match &long {
                    Some(l) if i + 1 == n => l.clone(),
                    _ => name.to_string(),
                };
                v = match if k == 3 { i % 3 } else { k } {
                    0 => V::Array(vec![v]),
                    1 => V::Object(vec![(name, v)]),
                    _ => V::Array(vec![V::Object(vec![(name, v)])]),
                };
            }
            v
        }
        1 => {
            let sh = Shape::any(r);
            gen_::large(r, sh)
        }
        3 if r.pct(5) => gen_::big(r, 20_000),
        _ => gen_::root(r),
    };
    if r.pct(40) {
        spoil(r, &mut v);
    }
    v
}

fn spoil(r: &mut Rng, v: &mut V) {
    match v {
        V::Primitive(p) => {
            if r.pct(20) {
                *p = P::Number(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN]));
            }
        }
        V::Array(a) => a.iter_mut().for_each(|x| spoil(r, x)),
        V::Object(o) => {
            o.iter_mut().for_each(|(_, x)| spoil(r, x));
            if o.len() > 1 && r.pct(30) {
                let k = o[0].0.clone();
                let j = r.range(1, o.len() - 1);
                o[j].0 = k;
            }
        }
    }
}

fn wild_event(r: &mut Rng) -> E {
    match r.below(6) {
        0 => E::StartObject,
        1 => E::EndObject,
        2 => E::StartArray { length: r.below(3) },
        3 => E::EndArray,
        4 => E::Key {
            key: gen_::key(r, 20),
            was_quoted: r.pct(50),
        },
        _ => {
            let sh = docs::small_shape(r);
            match gen_::prim(r, sh) {
                V::Primitive(value) => E::Primitive { value },
                _ => E::EndArray,
            }
        }
    }
}

pub fn wild_events(r: &mut Rng) -> Vec<E> {
    if r.pct(30) {
        let k = r.below(12);
        return (0..k).map(|_| wild_event(r)).collect();
    }
    let sh = docs::small_shape(r);
    let v = gen_::value(r, sh, 0);
    let mut ev = Vec::new();
    h::events_of(&v, &mut ev);
    for _ in 0..r.below(4) {
        if ev.is_empty() {
            break;
        }
        let i = r.below(ev.len());
        match r.below(5) {
            0 => {
                ev.remove(i);
            }
            1 => {
                let e = ev[i].clone();
                ev.insert(i, e);
            }
            2 => {
                let j = r.below(ev.len());
                ev.swap(i, j);
            }
            3 => ev.insert(i, wild_event(r)),
            _ => ev.truncate(i),
        }
    }
    ev
}

// ---------------------------------------------------------------------- C18

/// The faults the property names, found by an independent stack machine.
fn named_fault(ev: &[E]) -> Option<&'static str> {
    // (is object, waiting for the value of a key)
    let mut st: Vec<(bool, bool)> = Vec::new();
    for e in ev {
        let starts_value = matches!(e, E::StartObject | E::StartArray { .. } | E::Primitive { .. });
        if starts_value && let Some((true, w)) = st.last_mut() {
            if !*w {
                return Some("an object member without a key");
            }
            *w = false;
        }
        match e {
            E::StartObject => st.push((true, false)),
            E::StartArray { .. } => st.push((false, false)),
            E::EndObject => match st.pop() {
                Some((true, false)) => {}
                Some((true, true)) => return Some("a key without a value"),
                _ => return Some("a mismatched end of an object"),
            },
            E::EndArray => match st.pop() {
                Some((false, _)) => {}
                _ => return Some("a mismatched end of an array"),
            },
            E::Key { .. } => match st.last_mut() {
                Some((true, w)) if !*w => *w = true,
                Some((true, _)) => return Some("a key without a value"),
                _ => return Some("a key outside an object"),
            },
            E::Primitive { .. } => {}
        }
    }
    if st.is_empty() { None } else { Some("a missing end") }
}

fn c18_value_problem(v: &V, indent: usize) -> Option<(String, String)> {
    let bad = |k: &str, d: String| Some((k.to_string(), d));
    let a = json_stringify_lines(v, indent).concat();
    if let Err(e) = json::matches(&a, v, indent) {
        return bad("value-writer", format!("{e}\ntext: {a}"));
    }
    let mut ev = Vec::new();
    h::events_of(v, &mut ev);
    match json_stream_from_events(ev, indent) {
        Err(e) => return bad("event-writer-error", e.to_string()),
        Ok(b) => {
            let b = b.concat();
            if a != b {
                return bad("writers-differ", format!("from the value: {a}\nfrom events: {b}"));
            }
        }
    }
    let want = spec::normal(v);
    match json::read(&a) {
        Ok(w) if same(&spec::normal(&w), &want) => None,
        Ok(w) => bad("reads-back-differently", format!("text: {a}\nread: {}", show(&w))),
        Err(e) => bad("not-json", format!("{e}\ntext: {a}")),
    }
}

fn c18_value(c: &mut Ctx, v: &V, indent: usize) {
    c.seen(&(show(v), indent), !matches!(v, V::Primitive(_)) || h::depth(v) == 0);
    let r = c.guard("writing JSON", &show(v), || c18_value_problem(v, indent));
    if let Some(Some((kind, _))) = r {
        let small = gen_::shrink(v, &mut |x| guarded(|| c18_value_problem(x, indent)).map_or(true, |r| r.is_some()));
        let d = guarded(|| c18_value_problem(&small, indent)).map_or_else(|p| p.text, |r| r.map_or(String::new(), |r| r.1));
        c.fail(&kind, &format!("indent {indent} {}", show(&small)), d);
    }
}

const SCALAR_BLOCK: u64 = 512;

fn c18(c: &mut Ctx, idx: u64) {
    // every Unicode scalar value, spread over the cases
    let blocks = 0x11_0000u64 / SCALAR_BLOCK;
    if idx < blocks {
        let from = (idx * SCALAR_BLOCK) as u32;
        let st: String = (from..from + SCALAR_BLOCK as u32).filter_map(char::from_u32).collect();
        let n = st.chars().count() as u64;
        c.add("unicode_scalars_written", n);
        c18_value(c, &V::Object(vec![(st.clone(), gen_::s(&st))]), 0);
        if from < 0x400 {
            for ch in st.chars() {
                c18_value(c, &V::Array(vec![gen_::s(&ch.to_string()), gen_::s(&format!("a{ch}b"))]), 2);
            }
        }
    }
    for _ in 0..4 {
        let mut v = match c.rng.below(600) {
            0..30 => wild_value(&mut c.rng),
            30..32 => {
                c.note("big_values");
                let cap = if c.rng.pct(5) { 100_003 } else { 5000 };
                gen_::big(&mut c.rng, cap)
            }
            32 => {
                c.note("deep_values");
                gen_::deeper(&mut c.rng, 992)
            }
            _ => gen_::root(&mut c.rng),
        };
        if c.rng.pct(15) {
            spoil(&mut c.rng, &mut v);
        }
        let deep = h::depth(&v) > 200;
        let indent = *c.rng.pick(if deep { &[0, 0, 1, 2, 4] } else { &[0, 0, 1, 2, 2, 3, 4, 8, 16][..] });
        c18_value(c, &v, indent);
    }
    for _ in 0..4 {
        let ev = wild_events(&mut c.rng);
        let indent = *c.rng.pick(&[0, 2, 4]);
        let tag = format!("{ev:?}");
        let fault = named_fault(&ev);
        let value = h::value_of_events(&ev).ok();
        let Some(r) = c.guard("event writer", &tag, || json_stream_from_events(ev, indent).map(|x| x.concat()).map_err(|e| e.to_string())) else {
            continue;
        };
        c.seen(&tag, true);
        match (fault, &r) {
            (Some(f), Ok(t)) => c.fail("malformed-accepted", &tag, format!("{f}, but it produced {t:?}")),
            (Some(f), Err(_)) => c.note(&format!("rejected: {f}")),
            (None, Err(e)) => {
                if value.is_some() {
                    c.fail("well-formed-rejected", &tag, e.clone());
                } else {
                    c.note("rejected: no root or several");
                }
            }
            (None, Ok(t)) => match &value {
                Some(v) => {
                    c.note("well-formed sequences written");
                    if let Err(e) = json::matches(t, v, indent) {
                        c.fail("event-writer", &tag, format!("{e}\ntext: {t}"));
                    }
                }
                None => c.fail("malformed-accepted", &tag, format!("no root or several, but it produced {t:?}")),
            },
        }
    }
    if idx < 3 {
        let v = gen_::root(&mut c.rng);
        c.sample(|| json_stringify_lines(&v, 0).concat());
    }
}

// ---------------------------------------------------------------------- C22

#[derive(Clone)]
enum Op {
    Encode(V, Option<EncodeOptions>, String),
    Replaced(V, u64),
    Decode(String, usize, bool, bool),
    Events(String, usize, bool),
    ToJson(String),
    ToToon(String),
    Chunks(String, usize, bool, bool),
}

/// What the conversion's own callbacks run while it is under way.
type During = Arc<dyn Fn() + Send + Sync>;

impl Op {
    fn run(&self) -> String {
        self.run_during(&(Arc::new(|| ()) as During))
    }
    /// Run with something else done in every callback: the replacer's, or that
    /// of the iterator the lines come from.
    fn run_during(&self, during: &During) -> String {
        let during = Arc::clone(during);
        match self {
            Op::Encode(v, o, _) => toon::encode(v.clone(), o.clone()),
            Op::Replaced(v, salt) => {
                let calls = Arc::new(std::sync::Mutex::new(Vec::new()));
                let (log, salt) = (calls.clone(), *salt);
                let o = EncodeOptions {
                    replacer: Some(Arc::new(move |k: &str, v: &V, p: &[toon::options::PathSegment]| {
                        during();
                        log.lock().unwrap_or_else(|e| e.into_inner()).push(hash_of(&(k, show(v), format!("{p:?}"))));
                        match (hash_of(k) ^ salt ^ p.len() as u64) % 7 {
                            0 => None,
                            1 => Some(gen_::s("replaced")),
                            2 if p.len() < 4 => Some(V::Object(vec![("new".into(), V::Array(vec![gen_::n(f64::NAN), v.clone()]))])),
                            _ => Some(v.clone()),
                        }
                    })),
                    ..h::eopts([',', '|', '\t'][(salt % 3) as usize], 2, (salt % 5 == 0).then_some(usize::MAX)).unwrap_or_else(|| unreachable!())
                };
                let t = toon::encode(v.clone(), Some(o));
                let calls = calls.lock().unwrap_or_else(|e| e.into_inner());
                format!("{t}\n{} calls, {:016x}", calls.len(), hash_of(&*calls))
            }
            Op::Decode(t, i, s, e) => match toon::try_decode(t, h::dopts(*i, *s, *e)) {
                Ok(v) => show(&v),
                Err(e) => format!("Err {e}"),
            },
            Op::Events(t, i, s) => match toon::try_decode_stream_sync(lines_of(t).into_iter().inspect(|_| during()), sopts(*i, *s)) {
                Ok(v) => format!("{v:?}"),
                Err(e) => format!("Err {e}"),
            },
            Op::ToJson(t) => toon::toon_to_json(t).unwrap_or_else(|e| format!("Err {e}")),
            Op::ToToon(t) => toon::json_to_toon(t).unwrap_or_else(|e| format!("Err {e}")),
            Op::Chunks(t, i, s, e) => match decode_to_json_chunks(t, h::dopts(*i, *s, *e)) {
                Ok(v) => v.concat(),
                Err(e) => format!("Err {e}"),
            },
        }
    }
    fn tag(&self) -> String {
        match self {
            Op::Encode(v, _, o) => format!("encode {o} {}", show(v)),
            Op::Replaced(v, salt) => format!("encode with replacer {salt} {}", show(v)),
            Op::Decode(t, i, s, e) => format!("try_decode indent {i} strict {s} expand {e}\n{t}"),
            Op::Events(t, i, s) => format!("try_decode_stream_sync indent {i} strict {s}\n{t}"),
            Op::ToJson(t) => format!("toon_to_json\n{t}"),
            Op::ToToon(t) => format!("json_to_toon\n{t}"),
            Op::Chunks(t, i, s, e) => format!("decode_to_json_chunks indent {i} strict {s} expand {e}\n{t}"),
        }
    }
}

/// Conversions that resemble each other: the same text under other options,
/// small variations of one text, the same value in other forms.
/// The same value with some names and strings of a length worth remembering.
fn lengthen(r: &mut Rng, v: &V) -> V {
    fn long(r: &mut Rng, s: &str) -> String {
        let mut s = s.to_string();
        let n = r.range(16, 90);
        let sep = *r.pick(&["_", " ", ".", "-", "x"]);
        while s.len() < n {
            s.push_str(sep);
            s.push_str(r.pick::<&str>(gen_::WORDS));
        }
        s
    }
    renamed(r, v, &|r, s| if r.pct(50) { long(r, s) } else { s.to_string() })
}

/// The same value with characters inside names and strings exchanged: equal in
/// every length, first and last character.
fn twin(r: &mut Rng, v: &V) -> V {
    renamed(r, v, &|r, s| {
        let mut b: Vec<char> = s.chars().collect();
        if b.len() < 3 || r.pct(30) {
            return s.to_string();
        }
        let i = r.range(1, b.len() - 2);
        if r.pct(30) {
            let j = r.range(1, b.len() - 2);
            b.swap(i, j);
        } else if b[i].is_ascii() {
            b[i] = *r.pick(&[' ', ':', '_', 'x', '-', ',', '.', '1', '"', '\\', '|', '[', '\t']);
        }
        b.into_iter().collect()
    })
}

fn renamed(r: &mut Rng, v: &V, f: &dyn Fn(&mut Rng, &str) -> String) -> V {
    match v {
        V::Object(o) => {
            let mut out: Vec<(String, V)> = Vec::new();
            for (k, x) in o {
                let n = f(r, k);
                let n = if out.iter().any(|e| e.0 == n) || o.iter().any(|e| e.0 == n) { k.clone() } else { n };
                let x = renamed(r, x, f);
                out.push((n, x));
            }
            V::Object(out)
        }
        V::Array(a) => V::Array(a.iter().map(|x| renamed(r, x, f)).collect()),
        V::Primitive(toon::StringOrNumberOrBoolOrNull::String(s)) => gen_::s(&f(r, s)),
        other => other.clone(),
    }
}

fn related_ops(r: &mut Rng, count: usize) -> Vec<Op> {
    let mut out = Vec::new();
    while out.len() < count {
        let v = if r.pct(40) {
            // many keys: anything that depends on hashing shows in the order
            let k = r.range(8, 40);
            let sh = docs::small_shape(r);
            let mut o: Vec<(String, V)> = Vec::new();
            for i in 0..k {
                let k = format!("{}{}.{}", r.pick(gen_::WORDS), i % 7, r.pick(gen_::WORDS));
                if o.iter().any(|e| e.0 == k) {
                    continue;
                }
                let x = if r.pct(30) {
                    gen_::value(r, sh, 1)
                } else {
                    V::Object(vec![("p".into(), V::Object(vec![("q".into(), gen_::prim(r, sh))]))])
                };
                o.push((k, x));
            }
            V::Object(o)
        } else {
            gen_::root(r)
        };
        if gen_::size(&v) > 400 {
            continue;
        }
        let d = h::delim(r);
        let i = h::indent(r);
        // two that only a full comparison tells apart
        let twins = r.pct(50).then(|| {
            let a = if r.pct(60) { lengthen(r, &v) } else { v.clone() };
            let b = twin(r, &a);
            (a, b)
        });
        if let Some((a, b)) = twins {
            let f = *r.pick(&[None, Some(usize::MAX)]);
            for v in [&a, &b, &a] {
                out.push(Op::Encode(v.clone(), h::eopts(d, i, f), format!("{d:?} {i} {f:?}")));
            }
            for v in [&b, &a] {
                let t = toon::encode(v.clone(), h::eopts(d, i, f));
                out.push(Op::Decode(t.clone(), i, true, f.is_some()));
                out.push(Op::Chunks(t, i, true, false));
            }
        }
        let text = toon::encode(v.clone(), h::eopts(d, i, None));
        for (d, i, f) in [(d, i, None), (',', 2, None), (',', 2, Some(usize::MAX)), ('|', i, Some(2)), ('\t', 2, Some(usize::MAX))] {
            out.push(Op::Encode(v.clone(), h::eopts(d, i, f), format!("{d:?} {i} {f:?}")));
        }
        for _ in 0..2 {
            out.push(Op::Replaced(v.clone(), r.next()));
        }
        for _ in 0..2 {
            let t = if r.pct(50) { docs::mutate(r, &text, i) } else { text.clone() };
            out.push(Op::Decode(t.clone(), i, true, r.pct(50)));
            out.push(Op::Decode(t.clone(), i, false, r.pct(50)));
            out.push(Op::Events(t.clone(), i, r.pct(50)));
            out.push(Op::ToJson(t.clone()));
            out.push(Op::Chunks(t, i, r.pct(50), r.pct(50)));
        }
        let mut j = String::new();
        json::write(r, &v, &mut j);
        out.push(Op::ToToon(j));
        let (t, i) = docs::any_text(r);
        out.push(Op::Decode(t, i, r.pct(50), r.pct(50)));
    }
    out.truncate(count);
    out
}

fn panicking_encode(seed: u64) {
    let o = EncodeOptions {
        indent: None,
        delimiter: None,
        key_folding: None,
        flatten_depth: None,
        replacer: Some(Arc::new(move |k, v, p| {
            assert!((hash_of(k) ^ seed ^ p.len() as u64) % 3 != 0, "callback");
            Some(v.clone())
        })),
    };
    let mut r = Rng::new(seed);
    let v = gen_::object(&mut r, Shape { hostile_keys: 10, hostile_strings: 10, max_depth: 3, width: 4 }, 0);
    let _ = guarded(|| toon::encode(v, Some(o)));
}

fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..n).collect();
    for j in (1..n).rev() {
        let k = r.below(j + 1);
        o.swap(j, k);
    }
    o
}

const OPS: usize = 75;

fn c22(c: &mut Ctx, idx: u64) {
    let mut gen_rng = c.rng.clone();
    let ops = related_ops(&mut gen_rng, OPS);
    let before: Vec<String> = ops.iter().map(Op::tag).collect();
    let first: Vec<Result<String, String>> = ops.iter().map(|o| guarded(|| o.run()).map_err(|p| p.text)).collect();
    for (k, f) in first.iter().enumerate() {
        if let Err(p) = f {
            c.fail("panic", &ops[k].tag(), p.clone());
            return;
        }
        c.seen(&before[k], true);
    }
    let want: Vec<String> = first.into_iter().map(|f| f.unwrap_or_default()).collect();
    if idx < 2 {
        c.sample(|| clip(&want.join("\n---\n"), 400));
    }
    let check = |c: &mut Ctx, k: usize, got: Result<String, String>, when: &str| {
        c.evals += 1;
        match got {
            Ok(g) if g == want[k] => {}
            Ok(g) => c.fail("not-repeatable", &ops[k].tag(), format!("{when}:\n{g}\nfirst:\n{}", want[k])),
            Err(p) => c.fail("not-repeatable", &ops[k].tag(), format!("{when}: panic {p}\nfirst:\n{}", want[k])),
        }
    };
    // the same thread, another order, with failures in between
    let order = shuffled(&mut c.rng, OPS);
    for &k in &order {
        if c.rng.pct(15) {
            let s = c.rng.next();
            panicking_encode(s);
            c.note("panicking_callbacks");
        }
        let got = guarded(|| ops[k].run()).map_err(|p| p.text);
        check(c, k, got, "repeated on the same thread");
    }
    // from within the callbacks of one another
    let inner = Arc::new(ops.clone());
    for _ in 0..6 {
        let hosts: Vec<usize> = (0..OPS).filter(|&k| matches!(ops[k], Op::Replaced(..) | Op::Events(..))).collect();
        if hosts.is_empty() {
            break;
        }
        let host = hosts[c.rng.below(hosts.len())];
        let results: Arc<std::sync::Mutex<Vec<(usize, Result<String, String>)>>> = Arc::default();
        let (ops2, results2, seed, calls) = (Arc::clone(&inner), Arc::clone(&results), c.rng.next(), AtomicUsize::new(0));
        let during: During = Arc::new(move || {
            let n = calls.fetch_add(1, Ordering::Relaxed);
            if n < 12 {
                let k = (seed as usize).wrapping_add(n.wrapping_mul(31)) % OPS;
                let got = guarded(|| ops2[k].run()).map_err(|p| p.text);
                results2.lock().unwrap_or_else(|e| e.into_inner()).push((k, got));
            }
        });
        let got = guarded(|| ops[host].run_during(&during)).map_err(|p| p.text);
        check(c, host, got, "with other conversions run in its callbacks");
        let list = std::mem::take(&mut *results.lock().unwrap_or_else(|e| e.into_inner()));
        for (k, got) in list {
            c.note("results_from_within_callbacks");
            check(c, k, got, &format!("within a callback of {}", clip(&before[host], 300)));
        }
    }
    // concurrent threads
    let threads = 6;
    let shared = Arc::new(ops.clone());
    let barrier = Arc::new(std::sync::Barrier::new(threads));
    let mut handles = Vec::new();
    for t in 0..threads {
        let ops = Arc::clone(&shared);
        let barrier = Arc::clone(&barrier);
        let seed = c.rng.next() ^ t as u64;
        handles.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let mut r = Rng::new(seed);
            let order = shuffled(&mut r, OPS);
            barrier.wait();
            let mut out = Vec::new();
            for k in order {
                if r.pct(5) {
                    panicking_encode(r.next());
                }
                if r.pct(5) {
                    std::thread::yield_now();
                }
                out.push((k, guarded(|| ops[k].run()).map_err(|p| p.text)));
            }
            out
        }));
    }
    for (t, hnd) in handles.into_iter().enumerate() {
        match hnd.map(std::thread::JoinHandle::join) {
            Ok(Ok(rs)) => {
                for (k, got) in rs {
                    check(c, k, got, &format!("on concurrent thread {t}"));
                    c.note("concurrent_results");
                }
            }
            _ => panic!("a worker thread failed"),
        }
    }
    // another process, elsewhere, in reverse order
    let exe = std::env::current_exe().expect("exe");
    let o = std::process::Command::new(exe)
        .args(["helper", "digest", &c.seed.to_string(), &idx.to_string()])
        .current_dir("/")
        .env_clear()
        .output()
        .expect("helper");
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let theirs: Vec<&str> = text.lines().collect();
    let asked = String::from_utf8_lossy(&o.stderr).lines().find_map(|l| l.strip_prefix("asked ").and_then(|n| n.parse().ok()));
    c.add("environment_and_clock_reads_answered", asked.unwrap_or(0));
    if !o.status.success() || theirs.len() != OPS {
        c.fail("second-process", &format!("case {idx}"), format!("the second process ended with {:?} after {} results", o.status, theirs.len()));
        return;
    }
    for k in 0..OPS {
        c.evals += 1;
        c.note("results_from_another_process");
        if theirs[k] != format!("{:016x}", hash_of(&want[k])) {
            let again = ops[k].run();
            c.fail("differs-between-processes", &ops[k].tag(), format!("here:\n{again}\nanother process gave a different text"));
        }
    }
    // arguments are untouched
    for (k, o) in ops.iter().enumerate() {
        if o.tag() != before[k] {
            c.fail("argument-changed", &before[k], o.tag());
        }
    }
}

pub fn helper(a: &[String]) -> i32 {
    crate::core::install_panic_hook();
    if a.first().map(String::as_str) != Some("digest") || a.len() < 3 {
        return 2;
    }
    let (seed, idx) = (a[1].parse().unwrap_or(1), a[2].parse().unwrap_or(0));
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut r = Rng::for_case(seed, "C22", idx);
            let ops = related_ops(&mut r, OPS);
            let mut out = vec![String::new(); OPS];
            let mut total = 0;
            for k in (0..OPS).rev() {
                // every variable set, a clock that leaps
                let (text, asked) = crate::sys::elsewhere(hash_of(&(seed, idx, k)), || ops[k].run());
                out[k] = format!("{:016x}", hash_of(&text));
                total += asked;
            }
            eprintln!("asked {total}");
            for l in out {
                println!("{l}");
            }
        })
        .map_or(2, |h| h.join().map_or(3, |()| 0))
}
