//! Monitors on the encoding side: C01–C05, C16, C17.

use crate::core::{Ctx, Prop, Tier, clip, hash_of};
use crate::gen_::{self, Shape, V, same, show};
use crate::h;
use crate::rng::Rng;
use crate::spec::{self, Opts};
use std::sync::{Arc, Mutex};
use toon::options::{EncodeOptions, PathSegment};
use toon::{JsonStreamEvent as E, StringOrNumberOrBoolOrNull as P};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        quick: 40000,
        thorough: 960000,
        rule: "One evaluation encodes one value (random shape with hostile strings, or one of all strings of up to 3 (thorough: 4) characters over a 22-character alphabet placed in ten positions at once) with one delimiter and indent, decodes the text strictly and compares. Non-trivial: a container; distinct by value and options.",
        assumptions: &["object keys are unique", "indent between 1 and 8", "nesting at most about 60 levels"],
        run: c01,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C02",
        quick: 24000,
        thorough: 960000,
        rule: "One evaluation encodes one value with safe folding and one flatten depth, decodes it with safe expansion and compares; the same value is also sent through expansion without folding. Non-trivial: the folded text differs from the unfolded text; distinct by value and options.",
        assumptions: &["no key is a dotted path of identifiers", "object keys are unique", "nesting at most about 60 levels"],
        run: c02,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C03",
        quick: 32000,
        thorough: 960000,
        rule: "One evaluation compares the complete encoder output for one value and option set with an independently written layout model, line by line. Non-trivial: more than one line; distinct by value and options.",
        assumptions: &["object keys are unique"],
        run: c03,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C04",
        quick: 40000,
        thorough: 960000,
        rule: "One evaluation encodes one scalar or key in nine positions and compares every token with the stated quoting and number rules (all strings of up to 3, thorough 4, characters over 22 characters; random Unicode and numeric-like strings; random doubles over all exponents). Non-trivial: every string or number; distinct by content and delimiter.",
        assumptions: &[],
        run: c04,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C05",
        quick: 24000,
        thorough: 960000,
        rule: "One evaluation encodes one object (single-key chains, dotted keys, collisions, list items) with folding at one flatten depth and compares with the folding model, checks that no decoded object has a repeated key, and that folding off joins nothing. Non-trivial: folding changed the text or a chain was blocked; distinct by value and options.",
        assumptions: &["object keys are unique"],
        run: c05,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C16",
        quick: 40000,
        thorough: 600000,
        rule: "One evaluation runs one replacer over one value through the three encoding entry points, records every call and compares the recorded history and the outcome with a model traversal. Non-trivial: at least three calls; distinct by value and replacer.",
        assumptions: &["the replacer is deterministic"],
        run: c16,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C17",
        quick: 15000,
        thorough: 600000,
        rule: "One evaluation sends one value holding non-finite numbers and negative zeros through encoding, event encoding and a replacer, or one JSON number through the conversions, and compares with the stated normal form. Non-trivial: the value holds a number needing care; distinct by value.",
        assumptions: &["JSON numbers enter as parsed serde_json numbers"],
        run: c17,
        cpu: 30.0,
        level: "exploration",
    },
];

fn case_value(r: &mut Rng, thorough: bool) -> V {
    if r.below(150) == 0 {
        let cap = if thorough || r.pct(5) { 100_003 } else { 9000 };
        return gen_::big(r, cap);
    }
    if r.pct(if thorough { 3 } else { 1 }) {
        return if r.pct(25) {
            gen_::deep(r)
        } else if r.pct(33) {
            gen_::deeper(r, 450)
        } else {
            let sh = Shape::any(r);
            gen_::large(r, sh)
        };
    }
    gen_::root(r)
}

/// The same string in every position of one document.
fn everywhere(x: &str) -> V {
    let st = gen_::s(x);
    let one = |k: &str, v: V| V::Object(vec![(k.to_string(), v)]);
    V::Object(vec![
        ("plain".into(), st.clone()),
        ("inline".into(), V::Array(vec![st.clone(), gen_::n(1.0), st.clone()])),
        ("list".into(), V::Array(vec![st.clone(), V::Array(vec![st.clone(), st.clone()]), V::Array(vec![st.clone()])])),
        (
            "rows".into(),
            V::Array(vec![
                V::Object(vec![("q".into(), st.clone()), (format!("{x}f"), gen_::n(2.0)), ("w".into(), st.clone())]),
                V::Object(vec![("q".into(), st.clone()), (format!("{x}f"), gen_::n(3.0)), ("w".into(), st.clone())]),
            ]),
        ),
        ("row1".into(), V::Array(vec![one(x, st.clone())])),
        (
            "items".into(),
            V::Array(vec![
                V::Object(vec![
                    (x.to_string(), st.clone()),
                    (format!("{x}2"), V::Array(vec![one(x, gen_::n(1.0)), one(x, st.clone())])),
                    (format!("{x}3"), one(x, st.clone())),
                ]),
                V::Object(vec![(x.to_string(), V::Array(vec![one(x, st.clone())])), ("t".into(), st.clone())]),
                V::Object(vec![(x.to_string(), V::Array(vec![st.clone()])), ("t".into(), gen_::n(1.0))]),
                V::Object(vec![(x.to_string(), V::Object(vec![])), ("t".into(), st.clone())]),
                V::Object(vec![(x.to_string(), one(x, V::Array(vec![V::Array(vec![])])))]),
            ]),
        ),
        (format!("{x}k"), one(x, st.clone())),
        (format!("{x}Z"), V::Array(vec![st.clone()])),
        (format!("Y{x}"), V::Array(vec![one(x, V::Array(vec![st.clone()]))])),
        (format!("{x}l"), V::Array(vec![V::Array(vec![]), st])),
    ])
}

fn small_len(t: Tier) -> u32 {
    if t == Tier::Quick { 3 } else { 4 }
}

/// The slice of the small strings this case is responsible for.
fn small_slice(c: &Ctx, idx: u64, cases: u64, len: u32) -> std::ops::Range<u64> {
    let _ = c;
    let all = gen_::small_count(len);
    let per = all.div_ceil(cases.max(1));
    (idx * per).min(all)..((idx + 1) * per).min(all)
}

fn cases(id: &str, t: Tier) -> u64 {
    PROPS
        .iter()
        .find(|p| p.id == id)
        .map_or(1, |p| if t == Tier::Quick { p.quick } else { p.thorough })
}

// ---------------------------------------------------------------------- C01

fn round_trip(v: &V, d: char, indent: usize) -> Result<(), (String, String)> {
    let text = toon::encode(v.clone(), h::eopts(d, indent, None));
    match h::decode(&text, indent, true, false) {
        Ok(w) if spec::same_modulo_rows(v, &w) => Ok(()),
        Ok(w) => Err(("value-changed".into(), format!("text:\n{text}\n--- decoded ---\n{}", show(&w)))),
        Err(e) => Err(("rejected".into(), format!("error: {e}\ntext:\n{text}"))),
    }
}

fn report_value(c: &mut Ctx, what: &str, v: &V, opts: &str, test: &mut dyn FnMut(&V) -> Option<String>) {
    let small = gen_::shrink(v, &mut |x| {
        crate::core::guarded(|| test(x)).map_or(true, |o| o.is_some())
    });
    let detail = crate::core::guarded(|| test(&small))
        .unwrap_or_else(|p| Some(format!("panic: {}", p.text)))
        .unwrap_or_default();
    c.fail(what, &format!("{opts} {}", show(&small)), detail);
}

fn c01_one(c: &mut Ctx, v: &V, d: char, indent: usize) {
    c.seen(&(show(v), d, indent), !matches!(v, V::Primitive(_)));
    let r = c.guard("round trip", &show(v), || round_trip(v, d, indent));
    if let Some(Err((kind, _))) = r {
        report_value(c, &kind, v, &format!("delimiter {d:?} indent {indent}"), &mut |x| {
            round_trip(x, d, indent).err().map(|e| e.1)
        });
    }
}

fn c01(c: &mut Ctx, idx: u64) {
    for _ in 0..20 {
        let v = case_value(&mut c.rng, c.tier == Tier::Thorough);
        let d = h::delim(&mut c.rng);
        let i = h::indent(&mut c.rng);
        c.add("values_nested", u64::from(h::depth(&v) > 1));
        c.max("depth", h::depth(&v) as u64);
        c.max("nodes", gen_::size(&v) as u64);
        c01_one(c, &v, d, i);
    }
    let v = gen_::root(&mut c.rng);
    c.sample(|| clip(&toon::encode(v, None), 300));
    for k in small_slice(c, idx, cases("C01", c.tier), small_len(c.tier)) {
        let x = gen_::small_string(k);
        let v = everywhere(&x);
        let d = [',', '\t', '|'][(k % 3) as usize];
        c01_one(c, &v, d, 2);
        c01_one(c, &gen_::s(&x), d, 2);
        c01_one(c, &V::Array(vec![gen_::s(&x), gen_::s(&x)]), d, 2);
        c.note("small_strings_in_all_positions");
    }
}

// ---------------------------------------------------------------------- C02

fn dotted_path(k: &str) -> bool {
    k.contains('.') && k.split('.').all(spec::segment)
}

/// Values rich in single-key chains.
pub fn chainy(r: &mut Rng, depth: usize, dotted: bool) -> V {
    let sh = Shape {
        hostile_keys: 10,
        hostile_strings: 20,
        max_depth: 3,
        width: 3,
    };
    let key = |r: &mut Rng| -> String {
        if dotted && r.pct(25) {
            let k = r.range(2, 3);
            return (0..k).map(|_| (*r.pick(&["a", "b", "c"])).to_string()).collect::<Vec<_>>().join(".");
        }
        match r.below(10) {
            0..=6 => (*r.pick(&["a", "b", "c", "x"])).to_string(),
            7 => gen_::ident(r),
            8 => (*r.pick(&["a.", "a..b", "1a", "a-b", "_", "A9", "é", "a b", ""])).to_string(),
            _ => gen_::key(r, 30),
        }
    };
    if depth == 0 || r.pct(12) {
        return match r.below(8) {
            0 => V::Object(vec![]),
            1 => V::Array(vec![]),
            2 => gen_::array(r, sh, 1),
            _ => gen_::prim(r, sh),
        };
    }
    if r.pct(15) {
        let k = r.range(1, 3);
        return V::Array((0..k).map(|_| chainy(r, depth - 1, dotted)).collect());
    }
    let k = *r.pick(&[1, 1, 1, 1, 2, 3]);
    let mut e: Vec<(String, V)> = Vec::new();
    for _ in 0..k {
        let kk = key(r);
        if e.iter().any(|(q, _)| *q == kk) {
            continue;
        }
        let v = chainy(r, depth - 1, dotted);
        e.push((kk, v));
    }
    if r.below(150) == 0 {
        // a literal key among many members that equals what a chain folds to
        let folded = format!("{}.{}", r.pick(&["a", "b", "x"]), r.pick(&["a", "b", "wz"]));
        if dotted && r.pct(70) && !e.iter().any(|(q, _)| *q == folded) {
            let (head, tail) = folded.split_once('.').unwrap_or_default();
            e.retain(|(q, _)| q != head);
            let at = r.below(e.len() + 1);
            e.insert(at, (head.to_string(), V::Object(vec![(tail.to_string(), gen_::n(1.0))])));
            let at = r.below(e.len() + 1);
            e.insert(at, (folded, gen_::n(2.0)));
        }
        for i in 0..gen_::threshold(r, 300) {
            let at = r.below(e.len() + 1);
            e.insert(at, (format!("wz{i}"), gen_::n(i as f64)));
        }
    }
    V::Object(e)
}

pub fn undotted(v: &mut V) {
    match v {
        V::Primitive(_) => {}
        V::Array(a) => a.iter_mut().for_each(undotted),
        V::Object(o) => {
            for i in 0..o.len() {
                if dotted_path(&o[i].0) {
                    let mut k = o[i].0.replace('.', "_");
                    while o.iter().enumerate().any(|(j, (q, _))| j != i && *q == k) {
                        k.push('_');
                    }
                    o[i].0 = k;
                }
                undotted(&mut o[i].1);
            }
        }
    }
}

/// Gives the root object literal dotted keys that equal paths of members below
/// it, or almost equal them.
fn literal_paths(r: &mut Rng, v: &mut V) {
    fn walk(o: &[(String, V)], prefix: &str, out: &mut Vec<String>) {
        for (k, x) in o {
            let path = if prefix.is_empty() { k.clone() } else { format!("{prefix}.{k}") };
            if let V::Object(below) = x {
                walk(below, &path, out);
            }
            if !prefix.is_empty() && out.len() < 200 {
                out.push(path);
            }
        }
    }
    let V::Object(o) = v else { return };
    let mut paths = Vec::new();
    walk(o, "", &mut paths);
    if paths.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let mut path = r.pick(&paths).clone();
        if r.pct(20) {
            // the same without its first or last segment
            let cut = if r.pct(50) { path.find('.').map(|i| path[i + 1..].to_string()) } else { path.rfind('.').map(|i| path[..i].to_string()) };
            path = cut.unwrap_or(path);
        }
        if o.iter().all(|(k, _)| *k != path) {
            let at = r.below(o.len() + 1);
            let x = if r.pct(80) { gen_::n(9.0) } else { V::Object(vec![("m".into(), V::Object(vec![("q".into(), gen_::null())]))]) };
            o.insert(at, (path, x));
        }
    }
}

fn flatten_depth(r: &mut Rng) -> usize {
    *r.pick(&[usize::MAX, usize::MAX, 0, 1, 2, 2, 3, 3, 4, 5, 7])
}

fn fold_trip(v: &V, d: char, i: usize, fold: Option<usize>) -> Option<String> {
    let text = toon::encode(v.clone(), h::eopts(d, i, fold));
    let back = h::decode(&text, i, true, true);
    match &back {
        Ok(w) if spec::same_modulo_rows(v, w) => None,
        _ => Some(format!("fold {fold:?}\ntext:\n{text}\n--- decoded with expansion ---\n{}", h::result(&back))),
    }
}

fn c02(c: &mut Ctx, _idx: u64) {
    for _ in 0..25 {
        let mut v = if c.rng.pct(75) {
            let dep = *c.rng.pick(&[2, 3, 4, 5, 6, 8]);
            chainy(&mut c.rng, dep, false)
        } else if c.rng.pct(3) {
            if c.rng.pct(50) { gen_::deeper(&mut c.rng, 79) } else { gen_::deep(&mut c.rng) }
        } else if c.rng.pct(1) {
            gen_::big(&mut c.rng, 4100)
        } else {
            gen_::root(&mut c.rng)
        };
        undotted(&mut v);
        let d = h::delim(&mut c.rng);
        let i = h::indent(&mut c.rng);
        let n = flatten_depth(&mut c.rng);
        let folded = toon::encode(v.clone(), h::eopts(d, i, Some(n)));
        let plain = toon::encode(v.clone(), h::eopts(d, i, None));
        c.seen(&(show(&v), d, i, n), folded != plain);
        c.add("folded_documents", u64::from(folded != plain));
        for f in [Some(n), None] {
            let r = c.guard("fold and expand", &show(&v), || fold_trip(&v, d, i, f));
            if let Some(Some(_)) = r {
                report_value(c, "fold-round-trip", &v, &format!("delimiter {d:?} indent {i} fold {f:?}"), &mut |x| {
                    let mut y = x.clone();
                    undotted(&mut y);
                    fold_trip(&y, d, i, f)
                });
            }
        }
        if folded != plain {
            c.sample(|| clip(&folded, 300));
        }
    }
}

// ---------------------------------------------------------------------- C03

fn layout(v: &V, o: Opts) -> Option<String> {
    let want = spec::text(&spec::encode(v, o), o.indent);
    let lines = toon::encode_lines(v.clone(), h::eopts(o.delim, o.indent, o.fold));
    let got = toon::encode(v.clone(), h::eopts(o.delim, o.indent, o.fold));
    if got != want {
        return Some(format!("expected:\n{want}\n--- got ---\n{got}"));
    }
    if lines.join("\n") != got {
        return Some("encode and encode_lines differ".into());
    }
    if let Some(l) = lines.iter().find(|l| l.ends_with(' ') || l.contains('\n')) {
        return Some(format!("line with trailing space or line break: {l:?}"));
    }
    if got.ends_with('\n') {
        return Some("trailing newline".into());
    }
    if matches!(v, V::Object(o) if o.is_empty()) && !lines.is_empty() {
        return Some("an empty root object produced text".into());
    }
    None
}

fn c03(c: &mut Ctx, _idx: u64) {
    for _ in 0..25 {
        let v = if c.rng.pct(50) {
            // quiet scalars, busy shapes
            let sh = Shape {
                hostile_keys: 3,
                hostile_strings: 3,
                max_depth: *c.rng.pick(&[2, 3, 4, 5]),
                width: *c.rng.pick(&[2, 3, 4]),
            };
            if c.rng.pct(40) { gen_::array(&mut c.rng, sh, 0) } else { gen_::object(&mut c.rng, sh, 0) }
        } else if c.rng.below(250) == 0 {
            gen_::deeper(&mut c.rng, 992)
        } else {
            case_value(&mut c.rng, c.tier == Tier::Thorough)
        };
        let o = Opts {
            delim: h::delim(&mut c.rng),
            indent: *c.rng.pick(&[2, 2, 0, 1, 3, 4, 8]),
            fold: None,
        };
        let lines = spec::encode(&v, o);
        for l in &lines {
            if let Some(hd) = &l.header {
                c.note(match hd.form {
                    spec::Form::Inline => "inline_arrays",
                    spec::Form::Table => "tables",
                    spec::Form::List => "lists",
                });
            }
        }
        c.seen(&(show(&v), o.delim, o.indent), lines.len() > 1);
        c.max("lines", lines.len() as u64);
        if c.guard("encode", &show(&v), || layout(&v, o)).flatten().is_some() {
            report_value(c, "layout", &v, &format!("{o:?}"), &mut |x| layout(x, o));
        }
        if lines.len() > 3 {
            c.sample(|| clip(&spec::text(&lines, o.indent), 300));
        }
    }
}

// ---------------------------------------------------------------------- C04

fn number_grammar(x: &str) -> bool {
    let t = x.strip_prefix('-').unwrap_or(x);
    let (int, frac) = t.split_once('.').map_or((t, None), |(i, f)| (i, Some(f)));
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    digits(int)
        && (int == "0" || !int.starts_with('0'))
        && frac.is_none_or(|f| digits(f) && !f.ends_with('0'))
        && x != "-0"
}

/// The documents that hold one scalar, and what each must be.
fn scalar_positions(p: &V, tok: &str, d: char) -> Vec<(V, String)> {
    let m = if d == ',' { String::new() } else { d.to_string() };
    let ob = |k: &str, v: V| V::Object(vec![(k.into(), v)]);
    vec![
        (p.clone(), tok.to_string()),
        (ob("k", p.clone()), format!("k: {tok}")),
        (V::Array(vec![p.clone(), p.clone()]), format!("[2{m}]: {tok}{d}{tok}")),
        (ob("k", V::Array(vec![p.clone()])), format!("k[1{m}]: {tok}")),
        (
            V::Array(vec![ob("k", p.clone()), ob("k", p.clone())]),
            format!("[2{m}]{{k}}:\n  {tok}\n  {tok}"),
        ),
        (
            V::Array(vec![V::Object(vec![("a".into(), p.clone()), ("b".into(), p.clone())])]),
            format!("[1{m}]{{a{d}b}}:\n  {tok}{d}{tok}"),
        ),
        (V::Array(vec![p.clone(), V::Object(vec![])]), format!("[2{m}]:\n  - {tok}\n  -")),
        (
            V::Array(vec![V::Object(vec![("a".into(), p.clone()), ("b".into(), V::Array(vec![]))])]),
            format!("[1{m}]:\n  - a: {tok}\n    b[0{m}]:"),
        ),
        (V::Array(vec![V::Array(vec![p.clone()])]), format!("[1{m}]:\n  - [1{m}]: {tok}")),
    ]
}

fn key_positions(k: &str, tok: &str, d: char) -> Vec<(V, String)> {
    let m = if d == ',' { String::new() } else { d.to_string() };
    let ob = |k: &str, v: V| V::Object(vec![(k.into(), v)]);
    let one = gen_::n(1.0);
    vec![
        (ob(k, one.clone()), format!("{tok}: 1")),
        (ob(k, V::Array(vec![one.clone()])), format!("{tok}[1{m}]: 1")),
        (ob(k, V::Array(vec![V::Object(vec![])])), format!("{tok}[1{m}]:\n  -")),
        (ob(k, ob(k, one.clone())), format!("{tok}:\n  {tok}: 1")),
        (ob(k, V::Object(vec![])), format!("{tok}:")),
        (V::Array(vec![ob(k, one.clone())]), format!("[1{m}]{{{tok}}}:\n  1")),
        (
            V::Array(vec![ob(k, V::Array(vec![one.clone()]))]),
            format!("[1{m}]:\n  - {tok}[1{m}]: 1"),
        ),
        (V::Array(vec![ob(k, V::Object(vec![]))]), format!("[1{m}]:\n  - {tok}:")),
        (
            V::Array(vec![ob(k, V::Array(vec![ob(k, one.clone())]))]),
            format!("[1{m}]:\n  - {tok}[1{m}]{{{tok}}}:\n      1"),
        ),
    ]
}

fn c04_positions(c: &mut Ctx, what: &str, x: &str, d: char, docs: Vec<(V, String)>) {
    for (v, want) in docs {
        let Some(got) = c.guard("encode", x, || toon::encode(v.clone(), h::eopts(d, 2, None))) else {
            continue;
        };
        if got != want {
            c.fail(
                what,
                &format!("{d:?} {x:?}"),
                format!("value {}\nexpected:\n{want}\n--- got ---\n{got}", show(&v)),
            );
            return;
        }
    }
}

fn c04_string(c: &mut Ctx, x: &str, d: char) {
    let q = spec::must_quote(x, d);
    c.note(if q { "quoted_strings" } else { "unquoted_strings" });
    let tok = if q { spec::quote(x) } else { x.to_string() };
    c.seen(&("s", x, d), true);
    c04_positions(c, "string", x, d, scalar_positions(&gen_::s(x), &tok, d));
    c.note(if spec::plain_key(x) { "unquoted_keys" } else { "quoted_keys" });
    c.seen(&("k", x, d), true);
    c04_positions(c, "key", x, d, key_positions(x, &spec::key_text(x), d));
}

fn c04_number(c: &mut Ctx, x: f64, d: char) {
    c.seen(&("n", x.to_bits()), true);
    c.note("numbers");
    let Some(tok) = c.guard("encode", &format!("{x:e}"), || toon::encode(gen_::n(x), h::eopts(d, 2, None))) else {
        return;
    };
    let back: f64 = tok.parse().unwrap_or(f64::NAN);
    let want = if x == 0.0 { 0.0f64 } else { x };
    if !number_grammar(&tok) || back.to_bits() != want.to_bits() {
        c.fail("number", &format!("{x:e}"), format!("written as {tok:?}, reads as {back:e}"));
        return;
    }
    c04_positions(c, "number-position", &tok, d, scalar_positions(&gen_::n(x), &tok, d));
}

fn c04(c: &mut Ctx, idx: u64) {
    for k in small_slice(c, idx, cases("C04", c.tier), small_len(c.tier)) {
        let x = gen_::small_string(k);
        for d in [',', '\t', '|'] {
            c04_string(c, &x, d);
        }
    }
    let d = h::delim(&mut c.rng);
    for _ in 0..20 {
        let x = gen_::string(&mut c.rng);
        c04_string(c, &x, d);
        let x = gen_::numberish(&mut c.rng);
        c04_string(c, &x, d);
    }
    if idx % 9 == 0 {
        let n = gen_::threshold(&mut c.rng, if idx % 261 == 0 { 100_003 } else { 5000 });
        let x = gen_::long_string(&mut c.rng, n);
        c.note("long_strings");
        c.max("string_bytes", x.len() as u64);
        c04_string(c, &x, d);
    }
    for ch in ["", "a"] {
        let x = format!("{ch}{}{}", gen_::any_char(&mut c.rng), if c.rng.pct(50) { "b" } else { "" });
        c04_string(c, &x, d);
    }
    for _ in 0..20 {
        let x = gen_::number(&mut c.rng);
        c04_number(c, x, d);
    }
    c.sample(|| "every string also as a key, cell, inline element, list item and root".into());
}

// ---------------------------------------------------------------------- C05

fn repeated_key(v: &V) -> Option<String> {
    match v {
        V::Primitive(_) => None,
        V::Array(a) => a.iter().find_map(repeated_key),
        V::Object(o) => {
            let mut seen = std::collections::HashSet::new();
            for (k, x) in o {
                if !seen.insert(k.as_str()) {
                    return Some(k.clone());
                }
                if let Some(k) = repeated_key(x) {
                    return Some(k);
                }
            }
            None
        }
    }
}

fn fold_layout(v: &V, o: Opts) -> Option<String> {
    let want = spec::text(&spec::encode(v, o), o.indent);
    let got = toon::encode(v.clone(), h::eopts(o.delim, o.indent, o.fold));
    if got != want {
        return Some(format!("expected:\n{want}\n--- got ---\n{got}"));
    }
    match h::decode(&got, o.indent, true, false) {
        Ok(w) => repeated_key(&w).map(|k| format!("key {k:?} appears twice in one object:\n{got}")),
        Err(e) => Some(format!("folded text is rejected: {e}\n{got}")),
    }
}

fn c05(c: &mut Ctx, _idx: u64) {
    for _ in 0..25 {
        let dep = *c.rng.pick(&[2, 3, 4, 5, 6, 8]);
        let mut v = if c.rng.pct(85) {
            chainy(&mut c.rng, dep, true)
        } else if c.rng.pct(1) {
            gen_::big(&mut c.rng, 4100)
        } else if c.rng.pct(4) {
            let most = if c.rng.pct(50) { 20 } else { 200 };
            gen_::deeper(&mut c.rng, most)
        } else {
            gen_::root(&mut c.rng)
        };
        if c.rng.pct(35) {
            literal_paths(&mut c.rng, &mut v);
            c.note("literal_keys_planted");
        }
        let n = flatten_depth(&mut c.rng);
        let o = Opts {
            delim: h::delim(&mut c.rng),
            indent: h::indent(&mut c.rng),
            fold: Some(n),
        };
        let free = spec::text(&spec::encode(&v, Opts { fold: Some(usize::MAX), ..o }), 2);
        let off = spec::text(&spec::encode(&v, Opts { fold: None, ..o }), 2);
        c.seen(&(show(&v), n, o.delim, o.indent), free != off);
        c.add("documents_with_chains", u64::from(free != off));
        if c.guard("encode", &show(&v), || fold_layout(&v, o)).flatten().is_some() {
            report_value(c, "folding", &v, &format!("{o:?}"), &mut |x| fold_layout(x, o));
        }
        // Folding off, whatever the flatten depth says.
        let mut e = h::eopts(o.delim, o.indent, None).unwrap_or_else(|| unreachable!());
        e.flatten_depth = Some(n);
        let got = toon::encode(v.clone(), Some(e));
        let want = spec::text(&spec::encode(&v, Opts { fold: None, ..o }), o.indent);
        if got != want {
            c.fail("folding-off", &show(&v), format!("expected:\n{want}\n--- got ---\n{got}"));
        }
        if free != off {
            c.sample(|| clip(&free, 300));
        }
    }
}

// ---------------------------------------------------------------------- C16

#[derive(Clone, Debug, PartialEq)]
struct Call {
    key: String,
    value: String,
    path: Vec<PathSegment>,
}

/// What the replacer does is a fixed function of the path and the salt.
fn decide(key: &str, value: &V, path: &[PathSegment], salt: u64, mode: u8) -> Option<V> {
    let hsh = hash_of(&(key, format!("{path:?}"), salt));
    match mode {
        0 => Some(value.clone()),
        1 => {
            if hsh % 4 == 0 {
                None
            } else {
                Some(value.clone())
            }
        }
        _ => {
            // New containers are only handed out near the root, so that
            // substituting the children of a substitute comes to an end.
            let deep = path.len() > 4;
            match hsh % 12 {
                0 => None,
                1 => Some(gen_::s("swapped")),
                2 => Some(gen_::n([f64::NAN, -0.0, f64::INFINITY, 7.5][(hsh / 16 % 4) as usize])),
                3 if !deep => Some(V::Object(vec![
                    ("p".into(), gen_::n(1.0)),
                    ("q".into(), V::Array(vec![gen_::n(f64::NAN), gen_::s("x")])),
                ])),
                4 if !deep => Some(V::Array(vec![gen_::n(-0.0), value.clone(), V::Object(vec![])])),
                5 => Some(V::Object(vec![])),
                6 => Some(gen_::null()),
                _ => Some(value.clone()),
            }
        }
    }
}

fn model_walk(key: &str, v: V, path: &mut Vec<PathSegment>, salt: u64, mode: u8, log: &mut Vec<Call>) -> Option<V> {
    log.push(Call {
        key: key.to_string(),
        value: show(&v),
        path: path.clone(),
    });
    let next = decide(key, &v, path, salt, mode);
    let next = match next {
        None if path.is_empty() => v,
        None => return None,
        Some(x) => spec::normal(&x),
    };
    Some(match next {
        V::Primitive(p) => V::Primitive(p),
        V::Array(a) => {
            let mut out = Vec::new();
            for (i, x) in a.into_iter().enumerate() {
                path.push(PathSegment::Index(i));
                out.extend(model_walk(&format!("{i}"), x, path, salt, mode, log));
                path.pop();
            }
            V::Array(out)
        }
        V::Object(o) => {
            let mut out = Vec::new();
            for (k, x) in o {
                path.push(PathSegment::Key(k.clone()));
                if let Some(y) = model_walk(&k, x, path, salt, mode, log) {
                    out.push((k, y));
                }
                path.pop();
            }
            V::Object(out)
        }
    })
}

fn c16(c: &mut Ctx, _idx: u64) {
    for _ in 0..15 {
        let v = if c.rng.pct(60) {
            let sh = Shape {
                hostile_keys: 20,
                hostile_strings: 5,
                max_depth: *c.rng.pick(&[1, 2, 3, 4]),
                width: 3,
            };
            gen_::value(&mut c.rng, sh, 0)
        } else if c.rng.pct(1) {
            gen_::big(&mut c.rng, 600)
        } else if c.rng.below(600) == 0 {
            c.note("deep_values");
            gen_::deeper(&mut c.rng, 300)
        } else {
            gen_::root(&mut c.rng)
        };
        if gen_::size(&v) > 1500 {
            continue;
        }
        let mode = c.rng.below(3) as u8;
        let salt = c.rng.next();
        let d = h::delim(&mut c.rng);
        let fold = if c.rng.pct(20) { Some(usize::MAX) } else { None };
        let mut want_log = Vec::new();
        let want = model_walk("", spec::normal(&v), &mut Vec::new(), salt, mode, &mut want_log)
            .unwrap_or_else(gen_::null);
        let want_text = toon::encode(want.clone(), h::eopts(d, 2, fold));
        let want_lines = toon::encode_lines(want.clone(), h::eopts(d, 2, fold));
        let want_events = toon::encode_stream_events(want.clone(), h::eopts(d, 2, fold));
        c.seen(&(show(&v), salt, mode), want_log.len() >= 3);
        c.add("calls_expected", want_log.len() as u64);
        for api in 0..3 {
            let log: Arc<Mutex<Vec<Call>>> = Arc::new(Mutex::new(Vec::new()));
            let sink = log.clone();
            let opts = EncodeOptions {
                replacer: Some(Arc::new(move |k: &str, x: &V, p: &[PathSegment]| {
                    let mut l = sink.lock().unwrap_or_else(|e| e.into_inner());
                    if l.len() < 200_000 {
                        l.push(Call {
                            key: k.to_string(),
                            value: show(x),
                            path: p.to_vec(),
                        });
                    }
                    decide(k, x, p, salt, mode)
                })),
                ..h::eopts(d, 2, fold).unwrap_or_else(|| unreachable!())
            };
            let input = v.clone();
            let bad = c.guard("encode with replacer", &show(&v), || match api {
                0 => {
                    let t = toon::encode(input, Some(opts));
                    (t != want_text).then(|| format!("text differs, expected:\n{want_text}\n--- got ---\n{t}"))
                }
                1 => {
                    let t = toon::encode_lines(input, Some(opts));
                    (t != want_lines).then(|| format!("lines differ: expected {want_lines:?} got {t:?}"))
                }
                _ => {
                    let t = toon::encode_stream_events(input, Some(opts));
                    (!h::same_events(&t, &want_events)).then(|| format!("events differ: expected {want_events:?} got {t:?}"))
                }
            });
            let got = log.lock().map(|l| l.clone()).unwrap_or_default();
            c.add("calls_recorded", got.len() as u64);
            if got != want_log {
                let at = got.iter().zip(&want_log).position(|(a, b)| a != b).unwrap_or(got.len().min(want_log.len()));
                c.fail(
                    "call-history",
                    &format!("mode {mode} salt {salt} {}", show(&v)),
                    format!(
                        "api {api}: call {at} differs: expected {:?}, got {:?} ({} expected, {} recorded)",
                        want_log.get(at),
                        got.get(at),
                        want_log.len(),
                        got.len()
                    ),
                );
                break;
            }
            if let Some(Some(b)) = bad {
                c.fail("outcome", &format!("mode {mode} salt {salt} {}", show(&v)), b);
                break;
            }
        }
        if want_log.len() >= 3 {
            c.sample(|| format!("{} calls over {}", want_log.len(), clip(&show(&v), 200)));
        }
    }
}

// ---------------------------------------------------------------------- C17

fn sprinkle(r: &mut Rng, v: &mut V) -> usize {
    match v {
        V::Primitive(p) => {
            if r.pct(35) {
                *p = P::Number(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, -f64::NAN, 0.0]));
                1
            } else {
                0
            }
        }
        V::Array(a) => a.iter_mut().map(|x| sprinkle(r, x)).sum(),
        V::Object(o) => o.iter_mut().map(|(_, x)| sprinkle(r, x)).sum(),
    }
}

fn normal_checks(v: &V, d: char) -> Option<String> {
    let want = spec::normal(v);
    let t = toon::encode(v.clone(), h::eopts(d, 2, None));
    let m = spec::text(
        &spec::encode(
            &want,
            Opts {
                delim: d,
                indent: 2,
                fold: None,
            },
        ),
        2,
    );
    if t != m {
        return Some(format!("encoded text, expected:\n{m}\n--- got ---\n{t}"));
    }
    let ev = toon::encode_stream_events(v.clone(), h::eopts(d, 2, None));
    let mut we = Vec::new();
    h::events_of(&want, &mut we);
    if !h::same_events(&ev, &we) {
        return Some(format!("events: {ev:?}"));
    }
    for e in &ev {
        if let E::Primitive { value: P::Number(x) } = e
            && (!x.is_finite() || (*x == 0.0 && x.is_sign_negative()))
        {
            return Some(format!("the event stream holds {x:?}"));
        }
    }
    let w = toon::encode::normalize::normalize_json_value(v.clone());
    if !same(&w, &want) {
        return Some(format!("normalised to {}", show(&w)));
    }
    None
}

fn serde_of(v: &V) -> serde_json::Value {
    use serde_json::Value as J;
    match v {
        V::Primitive(P::Null) => J::Null,
        V::Primitive(P::Bool(b)) => J::Bool(*b),
        V::Primitive(P::Number(x)) => serde_json::Number::from_f64(*x).map_or(J::Null, J::Number),
        V::Primitive(P::String(s)) => J::String(s.clone()),
        V::Array(a) => J::Array(a.iter().map(serde_of).collect()),
        V::Object(o) => J::Object(o.iter().map(|(k, x)| (k.clone(), serde_of(x))).collect()),
    }
}

fn same_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (a, b) {
        (J::Number(x), J::Number(y)) => x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_json(a, b)),
        (J::Object(x), J::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same_json(a, b))
        }
        _ => a == b,
    }
}

fn conversions(v: &V) -> Option<String> {
    let n = spec::normal(v);
    let j = serde_of(&n);
    let got = serde_json::Value::from(n.clone());
    if !same_json(&got, &j) {
        return Some(format!("to JSON: expected {j} got {got}"));
    }
    let back = V::from(j.clone());
    if !same(&back, &n) {
        return Some(format!("from JSON: expected {} got {}", show(&n), show(&back)));
    }
    // The one-step conversions: parts put together without a change.
    fn rebuilt(v: &V) -> V {
        match v {
            V::Primitive(P::Bool(b)) => V::from(*b),
            V::Primitive(P::String(s)) => V::from(s.as_str()),
            V::Primitive(p) => V::from(p.clone()),
            V::Array(a) => V::from(a.iter().map(rebuilt).collect::<Vec<V>>()),
            V::Object(o) => V::from(o.iter().map(|(k, x)| (k.clone(), rebuilt(x))).collect::<Vec<_>>()),
        }
    }
    let put = rebuilt(&n);
    if !same(&put, &n) {
        return Some(format!("put together: expected {} got {}", show(&n), show(&put)));
    }
    let j2 = serde_of(v);
    let got = serde_json::Value::from(v.clone());
    if !same_json(&got, &j2) {
        return Some(format!("to JSON: expected {j2} got {got}"));
    }
    None
}

fn c17(c: &mut Ctx, _idx: u64) {
    for _ in 0..25 {
        let big = c.rng.below(250) == 0;
        let cap = if big && c.rng.pct(10) { 100_003 } else { 9000 };
        let deep = !big && c.rng.below(3000) == 0;
        let mut v = if big {
            gen_::big(&mut c.rng, cap)
        } else if deep {
            gen_::deeper(&mut c.rng, 700)
        } else {
            gen_::root(&mut c.rng)
        };
        let k = sprinkle(&mut c.rng, &mut v);
        let d = h::delim(&mut c.rng);
        c.seen(&show(&v), k > 0);
        c.add("special_numbers_placed", k as u64);
        if c.guard("normalise", &show(&v), || normal_checks(&v, d)).flatten().is_some() {
            report_value(c, "normalisation", &v, &format!("{d:?}"), &mut |x| normal_checks(x, d));
        }
        if c.guard("convert", &show(&v), || conversions(&v)).flatten().is_some() {
            report_value(c, "conversion", &v, "", &mut conversions);
        }
        // Values handed back by a replacer are normalised too, wherever it
        // puts them.
        let (holder, want, at) = holder(&mut c.rng, spec::normal(&v));
        let sub = v.clone();
        let here = at.clone();
        let replacer: toon::options::EncodeReplacer = Arc::new(move |_k: &str, x: &V, p: &[PathSegment]| {
            if p == &here[..] { Some(sub.clone()) } else { Some(x.clone()) }
        });
        let opts = || EncodeOptions { replacer: Some(replacer.clone()), ..h::eopts(d, 2, None).unwrap_or_else(|| unreachable!()) };
        c.note(&format!("put_at_depth_{}", at.len()));
        let input = format!("{} at {at:?} of {}", show(&v), show(&holder));
        let got = c.guard("encoding with a replacer", &input, || {
            (toon::encode_stream_events(holder.clone(), Some(opts())), toon::encode(holder.clone(), Some(opts())))
        });
        if let Some((ev, text)) = got {
            let mut we = Vec::new();
            h::events_of(&want, &mut we);
            if !h::same_events(&ev, &we) {
                c.fail("replacer-normalisation", &input, format!("events {}", clip(&format!("{ev:?}"), 2000)));
            }
            let plain = toon::encode(want.clone(), h::eopts(d, 2, None));
            if text != plain {
                c.fail("replacer-normalisation", &input, format!("text {}", clip(&text, 2000)));
            }
        }
    }
    // Single numbers of every kind.
    for _ in 0..30 {
        let x = match c.rng.below(7) {
            0 => c.rng.next() as i64 as f64,
            1 => f64::from_bits(c.rng.next()),
            2 => *c.rng.pick(&[-0.0, 0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            _ => gen_::number(&mut c.rng),
        };
        let want = if !x.is_finite() {
            gen_::null()
        } else if x == 0.0 {
            gen_::n(0.0)
        } else {
            gen_::n(x)
        };
        c.seen(&x.to_bits(), true);
        if !same(&V::from(x), &want) || !same(&V::Primitive(P::from_f64(x)), &want) {
            c.fail("from-f64", &format!("{x:?}"), show(&V::from(x)));
        }
        let i = c.rng.next();
        let i = match c.rng.below(3) {
            0 => i >> 40,
            1 => i >> 10,
            _ => i,
        };
        let js: serde_json::Value = i.into();
        if !same(&V::from(js), &gen_::n(i as f64)) {
            c.fail("from-u64", &i.to_string(), "number changed".into());
        }
        let si = i as i64;
        let js: serde_json::Value = si.into();
        if !same(&V::from(js), &gen_::n(si as f64)) || !same(&V::from(si), &gen_::n(si as f64)) {
            c.fail("from-i64", &si.to_string(), "number changed".into());
        }
        c.note("single_numbers");
    }
    let t = gen_::string(&mut c.rng);
    if !same(&V::from(t.as_str()), &gen_::s(&t)) || !same(&V::from(t.clone()), &gen_::s(&t)) {
        c.fail("from-str", &t, "string changed".into());
    }
    c.sample(|| "NaN, infinities and -0 at random positions".into());
}

/// A value with a hole, the same with the hole filled, and the path to it.
fn holder(r: &mut Rng, filling: V) -> (V, V, Vec<PathSegment>) {
    let (mut hole, mut full, mut path) = (gen_::n(7.0), filling, Vec::new());
    for _ in 0..r.below(4) {
        let n = r.below(3);
        let at = r.below(n + 1);
        let side = |i: usize| if i % 2 == 0 { gen_::n(i as f64) } else { gen_::s("x") };
        if r.pct(50) {
            let wrap = |x: V| V::Array((0..=n).map(|i| if i == at { x.clone() } else { side(i) }).collect());
            (hole, full) = (wrap(hole), wrap(full));
            path.insert(0, PathSegment::Index(at));
        } else {
            let wrap = |x: V| {
                V::Object((0..=n).map(|i| (format!("k{i}"), if i == at { x.clone() } else { side(i) })).collect())
            };
            (hole, full) = (wrap(hole), wrap(full));
            path.insert(0, PathSegment::Key(format!("k{at}")));
        }
    }
    (hole, full, path)
}
