//! C25: the JavaScript-facing functions, called natively. With the stand-in
//! host (feature jshost) option objects and thrown errors are observed too.

use crate::core::{Ctx, Prop};
use crate::gen_::{self, V};
use crate::{docs, json};

pub static PROPS: &[Prop] = &[Prop {
    id: "C25",
    quick: 300000,
    thorough: 3_000_000,
    rule: "One evaluation is one call of a binding (encode, decode, decode_pretty, and with the stand-in host the two with option objects) on one text, whose result or thrown error is compared with the library's. Distinct by binding, options and text; non-trivial when the call succeeds.",
    assumptions: &["names are unique within each object of a decoded document", "option objects hold values of the documented types"],
    run: c25,
    cpu: 30.0,
    level: "exploration",
}];

fn unique(v: &V) -> bool {
    match v {
        V::Primitive(_) => true,
        V::Array(a) => a.iter().all(unique),
        V::Object(o) => {
            let mut seen = std::collections::HashSet::new();
            o.iter().all(|(k, x)| seen.insert(k) && unique(x))
        }
    }
}

/// The error is dropped at once: natively only the stand-in can hold one.
fn call<E>(c: &mut Ctx, what: &str, tag: &str, f: impl FnOnce() -> Result<String, E>) -> Option<Result<String, ()>> {
    c.guard(what, tag, || f().map_err(|_| ()))
}

const HOST: bool = cfg!(feature = "jshost");

fn c25(c: &mut Ctx, idx: u64) {
    if idx == 0 {
        c.add("stand_in_host", u64::from(HOST));
        let v = toon::wasm::version();
        if v.is_empty() {
            c.fail("version", "", "the version is empty".into());
        }
    }
    if idx % 2 == 0 { encoding(c) } else { decoding(c) }
}

fn big_or_root(c: &mut Ctx) -> V {
    match c.rng.below(300) {
        0 => {}
        1 => {
            c.note("deep_values");
            return gen_::deeper(&mut c.rng, 79);
        }
        _ => return gen_::root(&mut c.rng),
    }
    c.note("big_values");
    let cap = if c.rng.pct(3) { 70_003 } else { 5000 };
    gen_::big(&mut c.rng, cap)
}

fn encoding(c: &mut Ctx) {
    let v = big_or_root(c);
    let mut text = String::new();
    json::write(&mut c.rng, &v, &mut text);
    if c.rng.pct(15) {
        text = if c.rng.pct(50) { docs::mutate(&mut c.rng, &text, 2) } else { json::nearly(&mut c.rng, &text) };
    }
    let parsed: Result<serde_json::Value, _> = serde_json::from_str(&text);
    let want = parsed.map(V::from).map_err(|_| ());
    if want.is_err() && !HOST {
        return;
    }
    compare(c, "encode", &text, want.clone().map(|v| toon::encode(v, None)), |t| toon::wasm::encode(t));
    #[cfg(feature = "jshost")]
    host::encoding(c, &text, &want);
}

fn compare<E>(c: &mut Ctx, what: &str, text: &str, want: Result<String, ()>, f: impl FnOnce(&str) -> Result<String, E>) {
    c.seen(&(what, text), want.is_ok());
    c.note(&format!("{what}_{}", if want.is_ok() { "returned" } else { "threw" }));
    let Some(got) = call(c, what, text, || f(text)) else { return };
    c.sample(|| format!("{what} of {text:?} => {got:?}"));
    if got != want {
        c.fail("encode", &format!("{what}\n{text}"), format!("library {want:?}\nbinding {got:?}"));
    }
}

fn check_json<E>(c: &mut Ctx, what: &str, text: &str, want: &Result<V, ()>, indent: usize, f: impl FnOnce(&str) -> Result<String, E>) {
    c.seen(&(what, text), want.is_ok());
    c.note(&format!("{what}_{}", if want.is_ok() { "returned" } else { "threw" }));
    let Some(got) = call(c, what, text, || f(text)) else { return };
    c.sample(|| format!("{what} of {text:?} => {got:?}"));
    let problem = match (&got, want) {
        (Err(()), Err(())) => None,
        (Ok(j), Ok(v)) => json::matches(j, v, indent).err(),
        _ => Some("one fails, the other does not".to_string()),
    };
    if let Some(e) = problem {
        c.fail("decode", &format!("{what}\n{text}"), format!("{e}\nlibrary {:?}\nbinding {got:?}", want.as_ref().map(gen_::show)));
    }
}

fn decoding(c: &mut Ctx) {
    let (text, indent) = if c.rng.pct(50) {
        let v = big_or_root(c);
        let d = crate::h::delim(&mut c.rng);
        (docs::canonical(&v, d, 2).text(), 2)
    } else {
        docs::any_text(&mut c.rng)
    };
    let want = toon::try_decode(&text, None).map_err(|_| ());
    if want.as_ref().is_ok_and(|v| !unique(v)) {
        c.note("skipped_for_equal_names");
        return;
    }
    if want.is_ok() || HOST {
        check_json(c, "decode", &text, &want, 0, |t| toon::wasm::decode(t));
        check_json(c, "decode_pretty", &text, &want, 2, |t| toon::wasm::decode_pretty(t));
        if let Ok(j) = toon::toon_to_json(&text)
            && let Some(got) = call(c, "decode", &text, || toon::wasm::decode(&text))
            && got.as_ref().is_ok_and(|g| *g != j)
        {
            c.fail("text", &text, format!("library {j}\nbinding {got:?}"));
        }
    }
    #[cfg(feature = "jshost")]
    host::decoding(c, &text, indent);
    let _ = indent;
}

#[cfg(feature = "jshost")]
mod host {
    use super::{check_json, compare, unique};
    use crate::core::Ctx;
    use crate::gen_::V;
    use toon::options::{DecodeOptions, EncodeOptions, ExpandPathsMode, KeyFoldingMode};
    use wasm_bindgen::JsValue;

    fn nothing(c: &mut Ctx) -> JsValue {
        if c.rng.pct(50) { JsValue::UNDEFINED } else { JsValue::NULL }
    }

    /// Not an object: something is thrown.
    fn no_object(c: &mut Ctx) -> JsValue {
        match c.rng.below(3) {
            0 => JsValue::from(2.0),
            1 => JsValue::from("safe"),
            _ => JsValue::TRUE,
        }
    }

    fn add(c: &mut Ctx, f: &mut Vec<(String, JsValue)>, name: &str, v: JsValue) {
        f.push((name.to_string(), v));
        if c.rng.pct(10) {
            f.push((format!("{name}_"), JsValue::from("ignored")));
        }
    }

    pub fn encoding(c: &mut Ctx, text: &str, parsed: &Result<V, ()>) {
        if c.rng.pct(8) {
            let o = nothing(c);
            compare(c, "encode_with_options(nothing)", text, parsed.clone().map(|v| toon::encode(v, None)), |t| toon::wasm::encode_with_options(t, o));
            return;
        }
        if c.rng.pct(5) {
            let o = no_object(c);
            compare(c, "encode_with_options(no object)", text, Err(()), |t| toon::wasm::encode_with_options(t, o));
            return;
        }
        let mut o = EncodeOptions { indent: None, delimiter: None, key_folding: None, flatten_depth: None, replacer: None };
        let mut f = Vec::new();
        if c.rng.pct(50) {
            let n = c.rng.below(9);
            o.indent = Some(n);
            add(c, &mut f, "indent", JsValue::from(n as f64));
        }
        if c.rng.pct(50) {
            let d = *c.rng.pick(&[',', '|', '\t']);
            o.delimiter = Some(d);
            add(c, &mut f, "delimiter", JsValue::from(d.to_string()));
        }
        if c.rng.pct(60) {
            let safe = c.rng.pct(80);
            o.key_folding = Some(if safe { KeyFoldingMode::Safe } else { KeyFoldingMode::Off });
            add(c, &mut f, "keyFolding", JsValue::from(if safe { "safe" } else { "off" }));
        }
        if c.rng.pct(40) {
            let n = c.rng.below(5);
            o.flatten_depth = Some(n);
            add(c, &mut f, "flattenDepth", JsValue::from(n as f64));
        }
        if c.rng.pct(20) {
            let v = nothing(c);
            for name in ["indent", "delimiter", "keyFolding", "flattenDepth"] {
                if !f.iter().any(|(n, _)| n == name) {
                    f.push((name.to_string(), v.clone()));
                }
            }
        }
        let what = format!("encode_with_options({f:?})");
        let want = parsed.clone().map(|v| toon::encode(v, Some(o)));
        c.note("option_objects_for_encoding");
        compare_counted(c, &what, text, want, JsValue::object(f));
    }

    fn compare_counted(c: &mut Ctx, what: &str, text: &str, want: Result<String, ()>, o: JsValue) {
        c.seen(&(what, text), want.is_ok());
        let Some(got) = super::call(c, what, text, || toon::wasm::encode_with_options(text, o)) else { return };
        if got != want {
            c.fail("encode_with_options", &format!("{what}\n{text}"), format!("library {want:?}\nbinding {got:?}"));
        }
    }

    pub fn decoding(c: &mut Ctx, text: &str, indent: usize) {
        if c.rng.pct(8) {
            let o = nothing(c);
            let want = toon::try_decode(text, None).map_err(|_| ());
            if want.as_ref().map_or(true, unique) {
                check_json(c, "decode_with_options(nothing)", text, &want, 0, |t| toon::wasm::decode_with_options(t, o));
            }
            return;
        }
        if c.rng.pct(5) {
            let o = no_object(c);
            check_json(c, "decode_with_options(no object)", text, &Err(()), 0, |t| toon::wasm::decode_with_options(t, o));
            return;
        }
        let mut o = DecodeOptions { indent: None, strict: None, expand_paths: None };
        let mut f = Vec::new();
        if indent != 2 || c.rng.pct(50) {
            o.indent = Some(indent);
            add(c, &mut f, "indent", JsValue::from(indent as f64));
        }
        if c.rng.pct(60) {
            let b = c.rng.pct(40);
            o.strict = Some(b);
            add(c, &mut f, "strict", JsValue::from(b));
        }
        if c.rng.pct(50) {
            let safe = c.rng.pct(80);
            o.expand_paths = Some(if safe { ExpandPathsMode::Safe } else { ExpandPathsMode::Off });
            add(c, &mut f, "expandPaths", JsValue::from(if safe { "safe" } else { "off" }));
        }
        let want = toon::try_decode(text, Some(o)).map_err(|_| ());
        if want.as_ref().is_ok_and(|v| !unique(v)) {
            return;
        }
        c.note("option_objects_for_decoding");
        c.note(if want.is_ok() { "option_objects_accepted" } else { "option_objects_refused" });
        let key = format!("{f:?}\n{text}");
        c.seen(&key, want.is_ok());
        let shown = format!("decode_with_options({f:?})");
        let Some(got) = super::call(c, &shown, text, || toon::wasm::decode_with_options(text, JsValue::object(f))) else { return };
        let problem = match (&got, &want) {
            (Err(()), Err(())) => None,
            (Ok(j), Ok(v)) => crate::json::matches(j, v, 0).err(),
            _ => Some("one fails, the other does not".to_string()),
        };
        if let Some(e) = problem {
            c.fail("decode_with_options", &key, format!("{e}\nlibrary {:?}\nbinding {got:?}", want.as_ref().map(crate::gen_::show)));
        }
    }
}
