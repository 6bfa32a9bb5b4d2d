//! Monitors on the decoding side: C06–C10, C15, C23, C24.

use crate::core::{Ctx, Prop, Tier, clip};
use crate::docs::{self, DL, Doc, text_of, with_count};
use crate::gen_::{self, V, same, show};
use crate::h;
use crate::rng::Rng;
use crate::spec;
use toon::options::DecodeStreamOptions;
use toon::{JsonStreamEvent as E, StringOrNumberOrBoolOrNull as P};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C06",
        quick: 320000,
        thorough: 3000000,
        rule: "One evaluation decodes one document strictly: a valid document with one header count, row, item or inline element changed (must be rejected), or any text (if accepted, every array event must have seen as many elements as declared). Non-trivial: a changed document, or an accepted one with an array; distinct by text.",
        assumptions: &["object keys are unique within the generated documents"],
        run: c06,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C07",
        quick: 120000,
        thorough: 600000,
        rule: "One evaluation puts one fault (tab in the indentation, indentation off the grid, blank line inside an array) at one line of a valid document and requires an error naming that line, or puts blank lines where they are allowed and requires the same result. Every line of every document is faulted in turn. Distinct by text.",
        assumptions: &["one fault per document"],
        run: c07,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C08",
        quick: 600000,
        thorough: 5000000,
        rule: "One evaluation decodes one document of unique markers strictly after moving, inserting, deleting or re-indenting lines or changing counts; when it is accepted every marker in the text must be in the result. Non-trivial: a changed document that was accepted; distinct by text.",
        assumptions: &["field names of an empty table are not content"],
        run: c08,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C09",
        quick: 240000,
        thorough: 3000000,
        rule: "One evaluation compares strict and lenient decoding of one text (hostile, mutated or valid), or applies one relaxation (blank lines, odd indentation, wrong counts, short or long rows) to a valid document and compares lenient decoding with the stated outcome. Non-trivial: accepted by strict, or relaxed; distinct by text.",
        assumptions: &["declared lengths stay within the documented cap of 100 million"],
        run: c09,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C10",
        quick: 320000,
        thorough: 3000000,
        rule: "One evaluation writes one value with random liberties (quoting, spacing, delimiters, list forms, number spellings, deeper indentation, blank lines, trailing blanks) and requires both modes to decode it to the value. Non-trivial: at least one liberty was taken; distinct by text.",
        assumptions: &["object keys are unique", "numbers are spelled so that they read as the same double"],
        run: c10,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C15",
        quick: 720000,
        thorough: 4000000,
        rule: "One evaluation decodes one document of dotted, quoted and literal keys with path expansion in one mode and compares the value or the conflict with the merge model. Non-trivial: a key was expanded; distinct by text and mode.",
        assumptions: &["raw keys are unique within each object"],
        run: c15,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C23",
        quick: 40_000,
        thorough: 600_000,
        rule: "One evaluation puts one quoted literal in one of thirteen positions and decodes it in both modes: bodies over a 19-character alphabet up to 4 (thorough: 5) characters, every character after a backslash, and random strings; malformed literals must be rejected, well-formed ones must give the stated string. Distinct by body and position.",
        assumptions: &["a line feed ends a line, so no literal contains a raw one"],
        run: c23,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C24",
        quick: 60_000,
        thorough: 600_000,
        rule: "One evaluation puts one unquoted token in one of eight positions and decodes it in both modes: all tokens of up to 5 (thorough: 6) characters over a 12-character alphabet and random near-numbers, doubles and words; type, exact bits and text are compared with the stated rule. Distinct by token and position.",
        assumptions: &["the reference for the nearest double is Rust's own parser"],
        run: c24,
        cpu: 30.0,
        level: "exploration",
    },
];

fn strict(text: &str, indent: usize) -> Result<V, String> {
    h::decode(text, indent, true, false)
}
fn lenient(text: &str, indent: usize) -> Result<V, String> {
    h::decode(text, indent, false, false)
}

fn events(text: &str, indent: usize, st: bool) -> Result<Vec<E>, String> {
    toon::try_decode_stream_sync(
        text.split('\n').map(String::from),
        Some(DecodeStreamOptions { indent: Some(indent), strict: Some(st) }),
    )
    .map_err(|e| e.to_string())
}

/// A valid document must decode to its value, or the machinery is wrong about
/// it (C01 and C10 report that; the mutants made from it would mean nothing).
fn sound(c: &mut Ctx, d: &Doc) -> bool {
    let t = d.text();
    match c.guard("decoding", &t, || strict(&t, d.indent)) {
        Some(Ok(v)) if same(&v, &d.value) => true,
        _ => {
            c.note("document_not_usable");
            false
        }
    }
}

// ---------------------------------------------------------------------- C06

fn c06(c: &mut Ctx, _idx: u64) {
    if c.rng.pct(40) {
        c06_any(c);
        return;
    }
    let d = docs::valid(&mut c.rng);
    if !sound(c, &d) {
        return;
    }
    let heads: Vec<usize> = (0..d.lines.len()).filter(|&i| d.lines[i].count.is_some()).collect();
    let rows: Vec<usize> = (0..d.lines.len()).filter(|&i| d.lines[i].cells.is_some()).collect();
    for _ in 0..heads.len().min(5) {
        let i = heads[c.rng.below(heads.len())];
        let n = d.lines[i].count.map_or(0, |x| x.2) as u64;
        let m = match c.rng.below(7) {
            // equal in eight, sixteen or twenty-four bits
            6 => n + *c.rng.pick(&[256, 512, 1 << 16, 1 << 24]),
            0 => 0,
            1 => n.saturating_sub(1),
            2 => n + 1,
            3 => n + 2 + c.rng.below(30) as u64,
            4 => n.saturating_sub(2),
            _ => *c.rng.pick(&[1, 10, 1000, 99_999_999, 100_000_000, 100_000_001]),
        };
        if m == n {
            continue;
        }
        let mut l = d.lines.clone();
        l[i] = with_count(&l[i], m);
        let what = if d.is_inline(i) { "inline_count" } else { "list_or_table_count" };
        must_reject(c, &l, d.indent, what, i);
    }
    for _ in 0..rows.len().min(4) {
        let i = rows[c.rng.below(rows.len())];
        let mut l = d.lines.clone();
        let Some((cells, dl)) = l[i].cells.clone() else { continue };
        let mut cells = cells;
        let what = match c.rng.below(4) {
            // equal in eight or sixteen bits
            _ if c.rng.below(150) == 0 => {
                let k = if c.rng.below(60) == 0 { 1 << 16 } else { 256 * c.rng.range(1, 2) };
                match c.rng.below(2) {
                    0 => {
                        let j = c.rng.below(cells.len() + 1);
                        cells.splice(j..j, (0..k).map(|i| i.to_string()));
                        "many_cells_added"
                    }
                    _ => {
                        let x = l[i].clone();
                        l.splice(i..i, (0..k).map(|_| x.clone()));
                        must_reject(c, &l, d.indent, "many_rows_added", i);
                        continue;
                    }
                }
            }
            0 if cells.len() > 1 => {
                let j = c.rng.below(cells.len());
                cells.remove(j);
                // an empty or marked line would be a different fault
                if cells.iter().all(|x| x.trim().is_empty()) {
                    continue;
                }
                "cell_removed"
            }
            1 => {
                l.remove(i);
                must_reject(c, &l, d.indent, "row_removed", i);
                continue;
            }
            2 => {
                let x = l[i].clone();
                l.insert(i, x);
                must_reject(c, &l, d.indent, "row_added", i);
                continue;
            }
            _ => {
                let j = c.rng.below(cells.len() + 1);
                let x = (*c.rng.pick(&["zz", "\"z,z\"", "7", "null", "\"z: z\"", ""])).to_string();
                // outer tabs are indentation or trailing blanks
                if x.is_empty() && (dl == '\t' && (j == 0 || j == cells.len()) || cells.iter().all(|x| x.trim().is_empty())) {
                    continue;
                }
                cells.insert(j, x);
                "cell_added"
            }
        };
        // a leading tab or blank would be indentation
        if cells[0].is_empty() && (dl == '\t' || cells.len() == 1) || cells.last().is_some_and(|x| x.is_empty() && dl == '\t') {
            continue;
        }
        l[i].text = cells.join(&dl.to_string());
        must_reject(c, &l, d.indent, what, i);
    }
    for _ in 0..heads.len().min(3) {
        let i = heads[c.rng.below(heads.len())];
        let Some((_, b, n)) = d.lines[i].count else { continue };
        let mut l = d.lines.clone();
        if d.is_inline(i) {
            let sep = match l[i].text.as_bytes().get(b) {
                Some(b'\t') => '\t',
                Some(b'|') => '|',
                _ => ',',
            };
            let x = *c.rng.pick(&["zz", "\"a,b\"", "5", "\"x|y\"", "\"\"", ""]);
            // trailing tabs are trailing blanks
            if x.is_empty() && sep == '\t' {
                continue;
            }
            let mut t = format!("{}{sep}{x}", l[i].text.trim_end());
            if c.rng.below(100) == 0 {
                let k = if c.rng.below(60) == 0 { 1 << 16 } else { 256 };
                for _ in 1..k {
                    t.push(sep);
                    t.push('7');
                }
            }
            l[i].text = t;
            must_reject(c, &l, d.indent, "inline_element_added", i);
        } else if n == 0 {
            let t = format!("{} zz", l[i].text.trim_end());
            l[i].text = t;
            must_reject(c, &l, d.indent, "empty_array_with_a_value", i);
        } else if d.lines.get(i + 1).is_some_and(|m| m.cells.is_none()) {
            // list items: drop, repeat or add one
            let at = d.lines[i + 1].depth;
            let end = {
                let mut e = i + 1;
                while e < d.lines.len() && d.lines[e].depth >= at {
                    e += 1;
                }
                e
            };
            let starts: Vec<usize> = (i + 1..end)
                .filter(|&j| d.lines[j].depth == at && (d.lines[j].text.starts_with("- ") || d.lines[j].text.trim_end() == "-"))
                .collect();
            if starts.is_empty() {
                continue;
            }
            let j = starts[c.rng.below(starts.len())];
            let e = d.subtree(j);
            match c.rng.below(3) {
                0 => {
                    l.drain(j..e);
                    must_reject(c, &l, d.indent, "item_removed", i);
                }
                1 => {
                    let copy: Vec<DL> = l[j..e].to_vec();
                    let k = if c.rng.below(100) == 0 && copy.len() < 20 { 256 } else { 1 };
                    l.splice(j..j, (0..k).flat_map(|_| copy.clone()));
                    must_reject(c, &l, d.indent, "item_repeated", i);
                }
                _ => {
                    let mut x = l[j].clone();
                    x.text = (*c.rng.pick(&["-", "- z", "- k: 1", "- [0]:", "- [1]: z", "- \"q\""])).to_string();
                    x.count = None;
                    l.insert(if c.rng.pct(50) { j } else { e }, x);
                    must_reject(c, &l, d.indent, "item_added", i);
                }
            }
        }
    }
    // A directed case: tables and lists in every context, last in the document.
    let ctx = c.rng.below(5);
    let r = &mut c.rng;
    let n = r.below(4);
    let m = loop {
        let m = r.below(5);
        if m != n {
            break m;
        }
    };
    let (head, body): (String, Vec<String>) = match r.below(4) {
        0 => (format!("[{n}]{{a,b}}:"), (0..m).map(|i| format!("{i},x{i}")).collect()),
        1 => (format!("[{n}]:"), (0..m).map(|i| format!("- {i}")).collect()),
        2 => (format!("[{n}]:"), (0..m).map(|_| "-".to_string()).collect()),
        _ => (format!("[{n}]:"), (0..m).map(|i| format!("- k: {i}")).collect()),
    };
    let mut t = String::new();
    let pre = match ctx {
        0 => {
            t.push_str(&head);
            2
        }
        1 => {
            t.push_str(&format!("k{head}"));
            2
        }
        2 => {
            t.push_str(&format!("o:\n  k{head}"));
            4
        }
        3 => {
            t.push_str(&format!("[1]:\n  - {head}"));
            4
        }
        _ => {
            t.push_str(&format!("l[1]:\n  - k{head}"));
            6
        }
    };
    for b in body {
        t.push_str(&format!("\n{}{b}", " ".repeat(pre)));
    }
    if c.rng.pct(30) && ctx == 1 {
        t.push_str("\nlast: 1");
    }
    must_reject_text(c, &t, 2, "directed");
}

fn must_reject(c: &mut Ctx, l: &[DL], indent: usize, what: &str, at: usize) {
    let t = text_of(l, indent);
    let _ = at;
    must_reject_text(c, &t, indent, what);
}

fn must_reject_text(c: &mut Ctx, t: &str, indent: usize, what: &str) {
    c.note(&format!("mutant_{what}"));
    c.seen(t, true);
    c.sample(|| format!("{what}, indent {indent}:\n{t}"));
    if let Some(Ok(v)) = c.guard("decoding", t, || strict(t, indent)) {
        c.fail("accepted", t, format!("{what}: strict decoding (indent {indent}) accepted a wrong length\nvalue: {}", clip(&show(&v), 600)));
    }
}

fn c06_any(c: &mut Ctx) {
    for _ in 0..20 {
        let (t, indent) = docs::any_text(&mut c.rng);
        let Some(r) = c.guard("decoding", &t, || events(&t, indent, true)) else { continue };
        match r {
            Ok(ev) => {
                let counts = h::array_counts(&ev);
                c.seen(&t, !counts.is_empty());
                c.note("any_text_accepted");
                c.add("arrays_checked", counts.len() as u64);
                if let Some((d, s)) = counts.iter().find(|(d, s)| d != s) {
                    let detail = format!("strict decoding (indent {indent}) accepted an array declaring {d} with {s} elements");
                    let small = h::shrink_text(&t, &mut |x| {
                        events(x, indent, true).is_ok_and(|ev| h::array_counts(&ev).iter().any(|(d, s)| d != s))
                    });
                    c.fail("count", &small, detail);
                }
            }
            Err(_) => {
                c.seen(&t, false);
                c.note("any_text_rejected");
            }
        }
    }
}

// ---------------------------------------------------------------------- C07

/// The line number an error message names, if it names the expected one.
fn names_line(e: &str, want: usize) -> bool {
    let low = e.to_lowercase();
    let mut after_line = Vec::new();
    let mut rest = low.as_str();
    while let Some(i) = rest.find("line") {
        rest = &rest[i + 4..];
        let t = rest.trim_start_matches(|c: char| !c.is_ascii_digit() && !c.is_alphabetic());
        let d: String = t.chars().take_while(char::is_ascii_digit).collect();
        if let Ok(n) = d.parse::<usize>() {
            after_line.push(n);
        }
    }
    if !after_line.is_empty() {
        return after_line[0] == want;
    }
    low.split(|c: char| !c.is_ascii_digit()).any(|d| d.parse::<usize>() == Ok(want))
}

fn c07(c: &mut Ctx, idx: u64) {
    let d = if idx % 10_001 == 5 {
        // line numbers past sixteen bits
        let n = 65_530 + c.rng.below(5000);
        let v = V::Array((0..n).map(|i| if i % 2 == 0 { gen_::n(i as f64) } else { V::Array(vec![]) }).collect());
        docs::canonical(&V::Object(vec![("k".into(), v), ("z".into(), gen_::null())]), ',', 2)
    } else {
        docs::valid(&mut c.rng)
    };
    if !sound(c, &d) {
        return;
    }
    let lines: Vec<String> = d
        .lines
        .iter()
        .map(|l| format!("{}{}", " ".repeat(l.depth * d.indent), l.text))
        .collect();
    let n = lines.len();
    // every line in turn for small documents, a sample of large ones
    let at: Vec<usize> = match n {
        0..=40 => (0..n).collect(),
        41..=2000 => (0..40).map(|_| c.rng.below(n)).collect(),
        // near the end, where line numbers are largest
        _ => vec![n - 1, n - 1 - c.rng.below(n / 50), c.rng.below(n)],
    };
    c.max("lines", n as u64);
    for &i in &at {
        let ind = d.lines[i].depth * d.indent;
        // a tab somewhere in the indentation
        let mut t = lines.clone();
        t[i] = if ind == 0 {
            format!("\t{}", lines[i])
        } else {
            let p = c.rng.below(ind + 1);
            if p < ind && c.rng.pct(50) {
                format!("{}\t{}", &lines[i][..p], &lines[i][p + 1..])
            } else {
                format!("{}\t{}", &lines[i][..p], &lines[i][p..])
            }
        };
        fault(c, &t, d.indent, i + 1, "tab");
        // indentation off the grid
        if d.indent > 1 {
            let k = c.rng.range(1, d.indent - 1);
            let mut t = lines.clone();
            t[i] = if ind > 0 && c.rng.pct(50) { lines[i][k..].to_string() } else { format!("{}{}", " ".repeat(k), lines[i]) };
            fault(c, &t, d.indent, i + 1, "indentation");
            // off the grid by as much as a short counter would lose
            let k = *c.rng.pick(&[1usize << 8, 1 << 16]);
            if !k.is_multiple_of(d.indent) && c.rng.below(if k == 256 { 4 } else { 200 }) == 0 {
                let mut t = lines.clone();
                t[i] = format!("{}{}", " ".repeat(k), lines[i]);
                fault(c, &t, d.indent, i + 1, "wide_indentation");
            }
        }
        // blank line before line i
        let mut blank = (*c.rng.pick(&["", "", " ", "   ", "\t", "  \t", "        ", "\u{a0}", " \u{3000}", "\u{c}", "\u{85}", "\r"])).to_string();
        if c.rng.pct(30) {
            // anything between a few and a great many blanks
            let k = if c.rng.below(50) == 0 { c.rng.below(70_000) } else { c.rng.below(90) };
            blank.push_str(&" ".repeat(k));
            if c.rng.pct(15) {
                blank.push_str(c.rng.pick(&["\t", " \t ", "\u{a0}", "\u{2003}  ", "\r"]));
            }
        }
        let shared = i > 0 && d.lines[i].scopes.iter().any(|s| d.lines[i - 1].scopes.contains(s));
        let mut t = lines.clone();
        t.insert(i, blank.clone());
        if shared {
            fault(c, &t, d.indent, i + 1, "blank_in_array");
        } else {
            allowed(c, &t, &d, "blank_outside");
        }
    }
    // several allowed blanks at once, at the ends too
    let mut t: Vec<String> = Vec::new();
    for i in 0..=n {
        let shared = i > 0 && i < n && d.lines[i].scopes.iter().any(|s| d.lines[i - 1].scopes.contains(s));
        if !shared {
            for _ in 0..c.rng.below(3) {
                t.push((*c.rng.pick(&["", " ", "     ", "\t", "\u{a0}", "\u{c}"])).to_string());
            }
        }
        if i < n {
            t.push(lines[i].clone());
        }
    }
    allowed(c, &t, &d, "blanks_everywhere_allowed");
    // the same, then one fault: the number must count the blank lines
    if n > 0 {
        let j = c.rng.below(t.len());
        if !t[j].trim().is_empty() {
            let mut u = t.clone();
            u[j] = format!("\t{}", u[j]);
            fault(c, &u, d.indent, j + 1, "tab_after_blanks");
        }
        let inner: Vec<usize> = (1..n).filter(|&i| d.lines[i].scopes.iter().any(|s| d.lines[i - 1].scopes.contains(s))).collect();
        if !inner.is_empty() {
            // the number of blank lines in front of line i, and a blank in an array among them
            let i = inner[c.rng.below(inner.len())];
            let mut seen = 0;
            let at = t.iter().position(|x| {
                seen += usize::from(!x.trim().is_empty());
                seen == i + 1
            });
            if let Some(at) = at {
                let mut u = t.clone();
                u.insert(at, (*c.rng.pick(&["", "  ", "\t"])).to_string());
                fault(c, &u, d.indent, at + 1, "blank_in_array_after_blanks");
            }
        }
    }
}

fn fault(c: &mut Ctx, lines: &[String], indent: usize, line: usize, what: &str) {
    let t = lines.join("\n");
    c.note(&format!("fault_{what}"));
    c.seen(&t, true);
    c.sample(|| format!("{what} at line {line}, indent {indent}:\n{t}"));
    match c.guard("decoding", &t, || strict(&t, indent)) {
        Some(Ok(_)) => c.fail("fault-accepted", &t, format!("{what} at line {line} (indent {indent}) was accepted")),
        Some(Err(e)) if !names_line(&e, line) => {
            c.fail("wrong-line", &t, format!("{what} at line {line} (indent {indent}) was reported as: {e}"));
        }
        _ => {}
    }
}

fn allowed(c: &mut Ctx, lines: &[String], d: &Doc, what: &str) {
    let t = lines.join("\n");
    c.note(what);
    c.seen(&t, true);
    for st in [true, false] {
        if let Some(r) = c.guard("decoding", &t, || h::decode(&t, d.indent, st, false))
            && !r.as_ref().is_ok_and(|v| same(v, &d.value))
        {
            c.fail("blank-changed", &t, format!("{what} (strict {st}, indent {}): {}", d.indent, clip(&h::result(&r), 600)));
        }
    }
}

// ---------------------------------------------------------------------- C08

fn markers(t: &str) -> Vec<String> {
    let b: Vec<char> = t.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if matches!(b[i], 'k' | 'v' | 'm') {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 1 && j < b.len() && b[j] == 'z' {
                out.push(b[i..=j].iter().collect());
                i = j;
            }
        }
        i += 1;
    }
    out
}

/// Markers that count as content: field names of an empty table do not.
fn content_markers(t: &str) -> Vec<String> {
    let mut out = Vec::new();
    for l in t.split('\n') {
        let empty_table = l.find("{").filter(|&i| l[..i].ends_with("[0]") || l[..i].ends_with("[0|]") || l[..i].ends_with("[0\t]"));
        match empty_table {
            Some(i) => {
                out.extend(markers(&l[..i]));
                if let Some(j) = l.find('}') {
                    out.extend(markers(&l[j..]));
                }
            }
            None => out.extend(markers(l)),
        }
    }
    out
}

fn c08(c: &mut Ctx, _idx: u64) {
    let mut next = 0;
    let v = docs::marked(&mut c.rng, &mut next, 0, true);
    let d = docs::of_value(&mut c.rng, &v);
    let text = d.text();
    c08_check(c, &text, d.indent, "valid");
    for _ in 0..3 {
        c08_slight(c, &d);
    }
    for _ in 0..6 {
        let mut l: Vec<(usize, String)> = d.lines.iter().map(|x| (x.depth * d.indent, x.text.clone())).collect();
        for _ in 0..c.rng.range(1, 3) {
            if l.is_empty() {
                l.push((0, "m900z: m901z".into()));
            }
            let i = c.rng.below(l.len());
            match c.rng.below(10) {
                0 => l[i].0 += d.indent,
                1 => l[i].0 = l[i].0.saturating_sub(d.indent),
                2 | 3 | 4 => {
                    next += 1;
                    let m = match c.rng.below(8) {
                        0 => format!("m{next}z: 1"),
                        1 => format!("- m{next}z"),
                        2 => format!("m{next}z"),
                        3 => format!("m{next}z,v{next}z"),
                        4 => format!("m{next}z:"),
                        5 => format!("- m{next}z: v{next}z"),
                        6 => format!("m{next}z[1]: v{next}z"),
                        _ => format!("- [1]: m{next}z"),
                    };
                    let m = if c.rng.below(8) == 0 { format!("{}{m}", c.rng.pick(docs::PREFIXES)) } else { m };
                    let at = c.rng.below(l.len() + 1);
                    let near = if at > 0 { l[at - 1].0 } else { 0 };
                    let ind = match c.rng.below(4) {
                        0 => near,
                        1 => near + d.indent,
                        2 => near.saturating_sub(d.indent),
                        _ => c.rng.below(5) * d.indent,
                    };
                    l.insert(at, (ind, m));
                }
                5 => {
                    l.remove(i);
                }
                6 => {
                    let j = c.rng.below(l.len());
                    l.swap(i, j);
                }
                7 => {
                    // move a block deeper or shallower
                    let j = c.rng.range(i, l.len() - 1);
                    let up = c.rng.pct(50);
                    for x in &mut l[i..=j] {
                        x.0 = if up { x.0 + d.indent } else { x.0.saturating_sub(d.indent) };
                    }
                }
                8 => {
                    let heads: Vec<usize> = (0..d.lines.len()).filter(|&j| d.lines[j].count.is_some()).collect();
                    if !heads.is_empty() {
                        let j = heads[c.rng.below(heads.len())];
                        let t = with_count(&d.lines[j], c.rng.below(4) as u64).text;
                        if let Some(x) = l.iter_mut().find(|x| x.1 == d.lines[j].text) {
                            x.1 = t;
                        }
                    }
                }
                _ => l[i].0 = c.rng.below(5) * d.indent,
            }
        }
        let t = l.iter().map(|(k, x)| format!("{}{x}", " ".repeat(*k))).collect::<Vec<_>>().join("\n");
        c08_check(c, &t, d.indent, "changed");
    }
}

/// Lines that are not blank although little or nothing of them shows.
const SLIGHT: &[&str] = &[
    "\u{200b}", "\u{200c}", "\u{200d}", "\u{2060}", "\u{feff}", "\u{ad}", "\u{34f}", "\u{180e}", "\u{0}", "\u{7f}", "\u{1b}",
    "\u{1}", "\u{8}", "\u{1a}", "\u{1c}", "\u{1f}", "\u{2800}", "\u{3164}", "\u{e000}", "\u{fffd}", "\u{fe0f}", "\u{301}",
];

/// A line put in between with nothing unique in it: either the document is
/// rejected or its meaning changes.
fn c08_slight(c: &mut Ctx, d: &Doc) {
    let mut l: Vec<String> = d.lines.iter().map(|x| format!("{}{}", " ".repeat(x.depth * d.indent), x.text)).collect();
    let Ok(before) = strict(&d.text(), d.indent) else { return };
    let mut x = String::new();
    for _ in 0..c.rng.range(1, 2) {
        let from = if c.rng.pct(60) { SLIGHT } else { docs::PREFIXES };
        x.push_str(c.rng.pick(from));
    }
    if x.trim().is_empty() || x.trim() == "-" {
        return;
    }
    let at = c.rng.below(l.len() + 1);
    let near = if at > 0 { d.lines[at - 1].depth } else { 0 };
    let depth = (near + c.rng.below(3)).saturating_sub(c.rng.below(2));
    l.insert(at, format!("{}{x}", " ".repeat(depth * d.indent)));
    let t = l.join("\n");
    c.seen(&t, true);
    let Some(r) = c.guard("decoding", &t, || strict(&t, d.indent)) else { return };
    c.note(if r.is_ok() { "slight_accepted" } else { "slight_rejected" });
    if r.is_ok_and(|v| same(&v, &before)) {
        c.fail("line-passed-over", &t, format!("line {} holds {x:?} and leaves no trace in the result (indent {})", at + 1, d.indent));
    }
}

fn lost(t: &str, indent: usize) -> Option<(String, V)> {
    let v = strict(t, indent).ok()?;
    let shown = show(&v);
    let have: std::collections::HashSet<String> = markers(&shown).into_iter().collect();
    content_markers(t).into_iter().find(|m| !have.contains(m)).map(|m| (m, v))
}

fn c08_check(c: &mut Ctx, t: &str, indent: usize, what: &str) {
    let Some(r) = c.guard("decoding", t, || strict(t, indent)) else { return };
    c.note(&format!("{what}_{}", if r.is_ok() { "accepted" } else { "rejected" }));
    c.seen(t, what == "changed" && r.is_ok());
    if r.is_ok() && what == "changed" {
        c.sample(|| format!("accepted after changes, indent {indent}:\n{t}"));
    }
    if r.is_ok() {
        c.add("markers_followed", content_markers(t).len() as u64);
    }
    if let Some((m, _)) = lost(t, indent) {
        let small = h::shrink_text(t, &mut |x| lost(x, indent).is_some());
        let (m, v) = lost(&small, indent).unwrap_or((m, gen_::null()));
        c.fail("content-lost", &small, format!("strict decoding (indent {indent}) accepted the document without {m}: {}", show(&v)));
    }
}

// ---------------------------------------------------------------------- C09

fn c09(c: &mut Ctx, _idx: u64) {
    for _ in 0..8 {
        let (t, indent) = docs::any_text(&mut c.rng);
        let expand = c.rng.pct(25);
        let Some(s) = c.guard("strict decoding", &t, || h::decode(&t, indent, true, expand)) else { continue };
        let Some(l) = c.guard("lenient decoding", &t, || h::decode(&t, indent, false, expand)) else { continue };
        c.seen(&(&t, expand), s.is_ok());
        c.note(if s.is_ok() { "strict_accepted" } else if l.is_ok() { "only_lenient_accepted" } else { "both_rejected" });
        if let Ok(v) = &s
            && !l.as_ref().is_ok_and(|w| same(v, w))
        {
            let small = h::shrink_text(&t, &mut |x| {
                h::decode(x, indent, true, expand)
                    .is_ok_and(|v| !h::decode(x, indent, false, expand).is_ok_and(|w| same(&v, &w)))
            });
            c.fail("differs", &small, format!("indent {indent}, expansion {expand}\nstrict: {}\nlenient: {}", clip(&h::result(&s), 500), clip(&h::result(&l), 500)));
        }
    }
    relaxations(c);
    rows(c);
}

fn relaxations(c: &mut Ctx) {
    let d = docs::valid(&mut c.rng);
    if !sound(c, &d) {
        return;
    }
    let n = d.lines.len();
    let lines: Vec<String> = d
        .lines
        .iter()
        .map(|l| format!("{}{}", " ".repeat(l.depth * d.indent), l.text))
        .collect();
    // blank lines anywhere
    let mut t = Vec::new();
    for l in &lines {
        while c.rng.pct(30) {
            t.push((*c.rng.pick(&["", " ", "     ", "\t", " \t "])).to_string());
        }
        t.push(l.clone());
    }
    relaxed(c, &t.join("\n"), &d, "blank_lines");
    // odd indentation
    if d.indent > 1 && n > 0 {
        let t: Vec<String> = lines
            .iter()
            .map(|l| if c.rng.pct(40) { format!("{}{l}", " ".repeat(c.rng.range(1, d.indent - 1))) } else { l.clone() })
            .collect();
        relaxed(c, &t.join("\n"), &d, "odd_indentation");
    }
    // larger counts anywhere, smaller counts of inline arrays
    let mut l = d.lines.clone();
    let mut changed = false;
    for i in 0..n {
        if let Some((_, _, k)) = d.lines[i].count
            && c.rng.pct(50)
        {
            let m = if d.is_inline(i) && c.rng.pct(50) {
                c.rng.below(k) as u64
            } else {
                k as u64 + *c.rng.pick(&[1, 1, 2, 7, 1000, 99_000_000])
            };
            l[i] = with_count(&d.lines[i], m);
            changed = true;
        }
    }
    if changed {
        relaxed(c, &text_of(&l, d.indent), &d, "counts");
    }
    // all of it at once, and now and then very many blank lines
    let many = c.rng.pct(10);
    let mut t = Vec::new();
    for x in &l {
        let mut k = 0;
        while c.rng.pct(if k == 0 { 15 } else if many { 99 } else { 30 }) && k < 400 {
            t.push((*c.rng.pick(&["", "", " ", "     ", "\t"])).to_string());
            k += 1;
        }
        let odd = if d.indent > 1 && c.rng.pct(20) { c.rng.range(1, d.indent - 1) } else { 0 };
        t.push(format!("{}{}", " ".repeat(x.depth * d.indent + odd), x.text));
    }
    relaxed(c, &t.join("\n"), &d, "all_at_once");
    // smaller counts of lists and tables: never an error
    let mut l = d.lines.clone();
    let mut changed = false;
    for i in 0..n {
        if let Some((_, _, k)) = d.lines[i].count
            && k > 0
            && !d.is_inline(i)
            && c.rng.pct(50)
        {
            l[i] = with_count(&d.lines[i], c.rng.below(k) as u64);
            changed = true;
        }
    }
    if changed {
        let t = text_of(&l, d.indent);
        c.note("relaxed_smaller_counts");
        c.seen(&t, true);
        if let Some(Err(e)) = c.guard("lenient decoding", &t, || lenient(&t, d.indent)) {
            c.fail("lenient-rejects", &t, format!("smaller counts (indent {}): {e}", d.indent));
        }
    }
}

fn relaxed(c: &mut Ctx, t: &str, d: &Doc, what: &str) {
    c.note(&format!("relaxed_{what}"));
    c.seen(t, true);
    c.sample(|| format!("{what}, indent {}:\n{t}", d.indent));
    if let Some(r) = c.guard("lenient decoding", t, || lenient(t, d.indent))
        && !r.as_ref().is_ok_and(|v| same(v, &d.value))
    {
        c.fail("relaxation", t, format!("{what} (indent {}), expected {}\ngot {}", d.indent, clip(&show(&d.value), 500), clip(&h::result(&r), 500)));
    }
}

/// Tables whose rows have too few or too many cells, lists shorter than
/// declared, lenient.
fn rows(c: &mut Ctx) {
    let r = &mut c.rng;
    let fields = r.range(1, 4);
    let names: Vec<String> = (0..fields).map(|i| format!("f{i}")).collect();
    let d = h::delim(r);
    let m = if d == ',' { String::new() } else { d.to_string() };
    let n = r.range(1, 4);
    let mut body = Vec::new();
    let mut want = Vec::new();
    for i in 0..n {
        let k = r.range(1, fields + 2);
        let cells: Vec<V> = (0..k)
            .map(|j| match r.below(4) {
                0 => gen_::n((i * 10 + j) as f64),
                1 => gen_::b(true),
                2 => gen_::s(&format!("a{d}b: {i}")),
                _ => gen_::s(&format!("c{i}x{j}")),
            })
            .collect();
        body.push(
            cells
                .iter()
                .map(|x| match x {
                    V::Primitive(p) => spec::prim_text(p, d),
                    _ => String::new(),
                })
                .collect::<Vec<_>>()
                .join(&d.to_string()),
        );
        want.push(V::Object(
            names
                .iter()
                .enumerate()
                .map(|(j, f)| (f.clone(), cells.get(j).cloned().unwrap_or_else(gen_::null)))
                .collect(),
        ));
    }
    let declared = n + *r.pick(&[0, 0, 1, 5]);
    let head = format!("[{declared}{m}]{{{}}}:", names.join(&d.to_string()));
    let want = V::Array(want);
    let (pre, pad, post, want) = match r.below(4) {
        0 => (head, 2, "", want),
        1 => (format!("k{head}"), 2, "\nz: 1", V::Object(vec![("k".into(), want), ("z".into(), gen_::n(1.0))])),
        2 => (
            format!("[1]:\n  - k{head}"),
            6,
            "\n    z: 1",
            V::Array(vec![V::Object(vec![("k".into(), want), ("z".into(), gen_::n(1.0))])]),
        ),
        _ => (format!("[2]:\n  - {head}"), 4, "\n  - 5", V::Array(vec![want, gen_::n(5.0)])),
    };
    let mut t = pre;
    for b in body {
        t.push_str(&format!("\n{}{b}", " ".repeat(pad)));
    }
    t.push_str(post);
    c.note("ragged_tables");
    c.seen(&t, true);
    if let Some(res) = c.guard("lenient decoding", &t, || lenient(&t, 2))
        && !res.as_ref().is_ok_and(|v| same(v, &want))
    {
        c.fail("ragged", &t, format!("expected {}\ngot {}", show(&want), h::result(&res)));
    }
}

// ---------------------------------------------------------------------- C10

fn c10(c: &mut Ctx, idx: u64) {
    if idx % 50 == 0 {
        c10_small(c);
    }
    let mut v = gen_::root(&mut c.rng);
    if c.rng.pct(40) {
        let sh = docs::small_shape(&mut c.rng);
        v = gen_::value(&mut c.rng, sh, 0);
    } else if c.rng.below(400) == 0 {
        let cap = if c.rng.pct(5) { 100_003 } else { 5000 };
        v = gen_::big(&mut c.rng, cap);
        c.note("big_documents");
    } else if c.rng.below(300) == 0 {
        v = gen_::deeper(&mut c.rng, 260);
        c.note("deep_documents");
    }
    for _ in 0..4 {
        let indent = h::indent(&mut c.rng);
        let free = *c.rng.pick(&[5, 20, 50, 90]);
        let d = docs::free_form(&mut c.rng, &v, free, indent);
        let mut lines: Vec<String> = Vec::new();
        let blanks = c.rng.pct(30);
        for (i, l) in d.lines.iter().enumerate() {
            let shared = i > 0 && l.scopes.iter().any(|s| d.lines[i - 1].scopes.contains(s));
            if blanks && !shared && c.rng.pct(30) {
                lines.push((*c.rng.pick(&["", "  ", "\t"])).to_string());
            }
            lines.push(format!("{}{}", " ".repeat(l.depth * indent), l.text));
        }
        let mut t = lines.join("\n");
        if c.rng.pct(20) {
            t.push_str(c.rng.pick(&["\n", "\n\n", "\n  \n", "\n\t"]));
        }
        c.seen(&t, d.liberties > 0 || blanks);
        c.add("liberties", d.liberties);
        c.sample(|| format!("indent {indent}:\n{t}"));
        for st in [true, false] {
            let Some(r) = c.guard("decoding", &t, || h::decode(&t, indent, st, false)) else { continue };
            if !r.as_ref().is_ok_and(|x| same(x, &d.value)) {
                c.fail(
                    "reading",
                    &t,
                    format!("strict {st}, indent {indent}\nexpected {}\ngot {}", clip(&show(&d.value), 900), clip(&h::result(&r), 900)),
                );
            }
        }
    }
}

fn c10_small(c: &mut Ctx) {
    for t in ["", "\n", "  ", "\n\n", " \n\t\n   ", "\t"] {
        for st in [true, false] {
            let r = h::decode(t, 2, st, false);
            c.seen(&(t, st), true);
            if !r.as_ref().is_ok_and(|v| same(v, &V::Object(vec![]))) {
                c.fail("empty-document", t, format!("strict {st}: {}", h::result(&r)));
            }
        }
    }
    for (t, want) in [
        ("hello", gen_::s("hello")),
        ("hello world  ", gen_::s("hello world")),
        ("\nhello\n\n", gen_::s("hello")),
        ("true", gen_::b(true)),
        ("null\n", gen_::null()),
        ("-1.5e1", gen_::n(-15.0)),
        ("\"a: b\"", gen_::s("a: b")),
        ("\"\"", gen_::s("")),
        ("a,b", gen_::s("a,b")),
        ("a[1", gen_::s("a[1")),
        ("- x", gen_::s("- x")),
        ("{}", gen_::s("{}")),
        ("[]", gen_::s("[]")),
        ("[2]", gen_::s("[2]")),
    ] {
        for st in [true, false] {
            let r = h::decode(t, 2, st, false);
            c.seen(&(t, st), true);
            if !r.as_ref().is_ok_and(|v| same(v, &want)) {
                c.fail("lone-scalar", t, format!("strict {st}: expected {}, got {}", show(&want), h::result(&r)));
            }
        }
    }
}

// ---------------------------------------------------------------------- C15

#[derive(Clone, Debug)]
enum Node {
    Leaf(V),
    List(Vec<Node>),
    /// Rows share their keys.
    Table(Vec<(String, bool)>, Vec<Vec<V>>),
    Obj(Vec<(String, bool, Node)>),
}

fn raw_key(r: &mut Rng) -> (String, bool) {
    let seg = |r: &mut Rng| (*r.pick(&["a", "b", "c", "a", "b", "_d", "e1"])).to_string();
    let k = match r.below(12) {
        0..=3 => seg(r),
        4..=6 => format!("{}.{}", seg(r), seg(r)),
        7 | 8 => format!("{}.{}.{}", seg(r), seg(r), seg(r)),
        9 => (*r.pick(&["a.1", "a..b", ".a", "a.", "1.a", "a-b.c", "a.b c", ".", "é.a", "a.é", "a.b-", "_.a", "a._"])).to_string(),
        10 => format!("{}.{}.{}.{}", seg(r), seg(r), seg(r), seg(r)),
        _ => seg(r),
    };
    let quoted = r.pct(18);
    (k, quoted)
}

fn raw_keys(r: &mut Rng, n: usize) -> Vec<(String, bool)> {
    let mut out: Vec<(String, bool)> = Vec::new();
    for _ in 0..n * 4 {
        if out.len() == n {
            break;
        }
        let k = raw_key(r);
        if !out.iter().any(|o| o.0 == k.0) {
            out.push(k);
        }
    }
    out
}

fn node(r: &mut Rng, depth: usize, root: bool) -> Node {
    let k = if root { r.range(3, 9) } else if depth >= 4 { 0 } else { r.below(10) };
    match k {
        0..=2 => Node::Leaf(match r.below(5) {
            0 => gen_::null(),
            1 => gen_::b(true),
            2 => gen_::s("a.b"),
            _ => gen_::n(r.below(50) as f64),
        }),
        3 => {
            if root && r.pct(50) {
                return node(r, depth, root);
            }
            match r.below(3) {
                0 => Node::Leaf(V::Array((0..r.below(3)).map(|i| gen_::n(i as f64)).collect())),
                1 => Node::List((0..r.range(1, 3)).map(|_| node(r, depth + 1, false)).collect()),
                _ => {
                    let w = r.range(1, 3);
                    let ks = raw_keys(r, w);
                    let rows = (0..r.range(1, 2)).map(|_| ks.iter().map(|_| gen_::n(r.below(90) as f64)).collect()).collect();
                    Node::Table(ks, rows)
                }
            }
        }
        _ => {
            let n = if root { r.range(1, 5) } else { r.below(4) };
            let mut o: Vec<(String, bool, Node)> = raw_keys(r, n).into_iter().map(|(k, q)| (k, q, node(r, depth + 1, false))).collect();
            if r.below(60) == 0 {
                // many members around the others, on their own or below one of them
                let parent = if o.is_empty() { "wz".to_string() } else { o[r.below(o.len())].0.clone() };
                let kind = r.below(3);
                for i in 0..gen_::threshold(r, 300) {
                    let k = match kind {
                        0 => format!("wz{i}"),
                        1 => format!("{parent}.wz{i}"),
                        _ => format!("wz{}.wz{i}", i / 3),
                    };
                    let at = if kind == 1 && r.pct(80) { o.len() } else { r.below(o.len() + 1) };
                    o.insert(at, (k.clone(), !spec::plain_key(&k), Node::Leaf(gen_::n(i as f64))));
                }
            }
            if r.below(60) == 0 {
                // a long path, and another that leaves it late
                let k = r.range(5, 60);
                let path: Vec<&str> = (0..k).map(|_| *r.pick(&["a", "b", "c"])).collect();
                let cut = r.range(1, k - 1);
                let fork = format!("{}.wy", path[..cut].join("."));
                for k in [path.join("."), fork] {
                    if !o.iter().any(|x| x.0 == k) {
                        let at = r.below(o.len() + 1);
                        o.insert(at, (k, false, Node::Leaf(gen_::n(1.0))));
                    }
                }
            }
            if r.below(40) == 0 {
                // the same, each path as dotted keys and nested objects in turn
                let k = r.range(2, 40);
                let path: Vec<&str> = (0..k).map(|_| *r.pick(&["a", "b", "c"])).collect();
                for i in 0..r.range(2, 4) {
                    let cut = if r.pct(50) { k } else { r.range(1, k) };
                    let leaf = if r.pct(15) { Node::Leaf(gen_::n(i as f64)) } else { Node::Obj(vec![(format!("wx{i}"), false, Node::Leaf(gen_::n(1.0)))]) };
                    let step = r.range(1, 12);
                    let (key, x) = spread(r, &path[..cut], leaf, step);
                    if !o.iter().any(|e| e.0 == key) {
                        let at = r.below(o.len() + 1);
                        o.insert(at, (key, false, x));
                    }
                }
            }
            Node::Obj(o)
        }
    }
}

/// A path cut into dotted keys, one below the other.
fn spread(r: &mut Rng, path: &[&str], leaf: Node, step: usize) -> (String, Node) {
    let n = r.range(1, step).min(path.len());
    let rest = if n == path.len() {
        leaf
    } else {
        let (k, x) = spread(r, &path[n..], leaf, step);
        Node::Obj(vec![(k, false, x)])
    };
    (path[..n].join("."), rest)
}

fn raw_key_text(k: &str, q: bool) -> String {
    if q { spec::quote(k) } else { k.to_string() }
}

fn write_node(n: &Node, lead: &str, depth: usize, below: usize, out: &mut Vec<(usize, String)>) {
    match n {
        Node::Leaf(V::Primitive(p)) => {
            let sep = if lead.is_empty() || lead == "- " { "" } else { ": " };
            out.push((depth, format!("{lead}{sep}{}", spec::prim_text(p, ','))));
        }
        Node::Leaf(V::Array(a)) => {
            let t: Vec<String> = a.iter().filter_map(|x| if let V::Primitive(p) = x { Some(spec::prim_text(p, ',')) } else { None }).collect();
            out.push((depth, format!("{lead}[{}]: {}", a.len(), t.join(",")).trim_end().to_string()));
        }
        Node::Leaf(V::Object(_)) => {}
        Node::List(a) => {
            out.push((depth, format!("{lead}[{}]:", a.len())));
            for x in a {
                write_item(x, below, out);
            }
        }
        Node::Table(ks, rows) => {
            let names: Vec<String> = ks.iter().map(|(k, q)| raw_key_text(k, *q)).collect();
            out.push((depth, format!("{lead}[{}]{{{}}}:", rows.len(), names.join(","))));
            for row in rows {
                let t: Vec<String> = row.iter().filter_map(|x| if let V::Primitive(p) = x { Some(spec::prim_text(p, ',')) } else { None }).collect();
                out.push((below, t.join(",")));
            }
        }
        Node::Obj(o) => {
            let mut d = depth;
            if !lead.is_empty() {
                out.push((depth, format!("{lead}:")));
                d = below;
            }
            for (k, q, x) in o {
                write_node(x, &raw_key_text(k, *q), d, d + 1, out);
            }
        }
    }
}

fn write_item(n: &Node, depth: usize, out: &mut Vec<(usize, String)>) {
    match n {
        Node::Obj(o) => match o.first() {
            None => out.push((depth, "-".into())),
            Some((k, q, x)) => {
                write_node(x, &format!("- {}", raw_key_text(k, *q)), depth, depth + 2, out);
                for (k, q, x) in &o[1..] {
                    write_node(x, &raw_key_text(k, *q), depth + 1, depth + 2, out);
                }
            }
        },
        _ => write_node(n, "- ", depth, depth + 1, out),
    }
}

struct Expand {
    strict: bool,
    expanded: u64,
    conflicts: u64,
}

impl Expand {
    fn node(&mut self, n: &Node) -> Result<V, ()> {
        Ok(match n {
            Node::Leaf(v) => v.clone(),
            Node::List(a) => {
                let mut o = Vec::new();
                for x in a {
                    o.push(self.node(x)?);
                }
                V::Array(o)
            }
            Node::Table(ks, rows) => {
                let mut o = Vec::new();
                for row in rows {
                    let members: Vec<(String, bool, Node)> =
                        ks.iter().zip(row).map(|((k, q), v)| (k.clone(), *q, Node::Leaf(v.clone()))).collect();
                    o.push(self.node(&Node::Obj(members))?);
                }
                V::Array(o)
            }
            Node::Obj(o) => {
                let mut out: Vec<(String, V)> = Vec::new();
                for (k, q, x) in o {
                    let v = self.node(x)?;
                    let parts: Vec<&str> = k.split('.').collect();
                    if !q && parts.len() > 1 && parts.iter().all(|p| spec::segment(p)) {
                        self.expanded += 1;
                        let mut w = v;
                        for p in parts[1..].iter().rev() {
                            w = V::Object(vec![((*p).to_string(), w)]);
                        }
                        self.merge(&mut out, parts[0], w)?;
                    } else {
                        self.merge(&mut out, k, v)?;
                    }
                }
                V::Object(out)
            }
        })
    }
    fn merge(&mut self, into: &mut Vec<(String, V)>, k: &str, v: V) -> Result<(), ()> {
        let Some(i) = into.iter().position(|(x, _)| x == k) else {
            into.push((k.to_string(), v));
            return Ok(());
        };
        match (&mut into[i].1, v) {
            (V::Object(a), V::Object(b)) => {
                for (k, x) in b {
                    self.merge(a, &k, x)?;
                }
                Ok(())
            }
            (slot, v) => {
                self.conflicts += 1;
                if self.strict {
                    return Err(());
                }
                *slot = v;
                Ok(())
            }
        }
    }
}

fn c15(c: &mut Ctx, _idx: u64) {
    let n = node(&mut c.rng, 0, true);
    let mut lines = Vec::new();
    write_node(&n, "", 0, 1, &mut lines);
    let indent = h::indent(&mut c.rng);
    let t = lines.iter().map(|(d, x)| format!("{}{x}", " ".repeat(d * indent))).collect::<Vec<_>>().join("\n");
    for st in [true, false] {
        let mut e = Expand { strict: st, expanded: 0, conflicts: 0 };
        let want = e.node(&n);
        c.seen(&(&t, st), e.expanded > 0);
        c.add("keys_expanded", e.expanded);
        c.add("conflicts", e.conflicts);
        c.sample(|| format!("strict {st}:\n{t}"));
        let Some(r) = c.guard("decoding with expansion", &t, || h::decode(&t, indent, st, true)) else { continue };
        let ok = match (&want, &r) {
            (Ok(a), Ok(b)) => same(a, b),
            (Err(()), Err(_)) => true,
            _ => false,
        };
        if !ok {
            let w = want.map_or_else(|()| "a conflict error".to_string(), |v| show(&v));
            c.fail("expansion", &t, format!("strict {st}, indent {indent}\nexpected {w}\ngot {}", h::result(&r)));
        }
    }
    // expansion off leaves keys alone
    if let Some(r) = c.guard("decoding", &t, || strict(&t, indent)) {
        let want = literal(&n);
        c.seen(&(&t, "off"), false);
        if !r.as_ref().is_ok_and(|v| same(v, &want)) {
            c.fail("off", &t, format!("expansion off, expected {}\ngot {}", show(&want), h::result(&r)));
        }
    }
}

fn literal(n: &Node) -> V {
    match n {
        Node::Leaf(v) => v.clone(),
        Node::List(a) => V::Array(a.iter().map(literal).collect()),
        Node::Table(ks, rows) => V::Array(
            rows.iter()
                .map(|r| V::Object(ks.iter().zip(r).map(|((k, _), v)| (k.clone(), v.clone())).collect()))
                .collect(),
        ),
        Node::Obj(o) => V::Object(o.iter().map(|(k, _, x)| (k.clone(), literal(x))).collect()),
    }
}

// ---------------------------------------------------------------------- C23

fn ob(k: &str, v: V) -> V {
    V::Object(vec![(k.to_string(), v)])
}

const QUOTED: usize = 13;

/// The literal in one position: document, the value when it stands for `x`,
/// and whether the position is a key.
fn place_quoted(pos: usize, lit: &str, x: &str) -> (String, V, bool) {
    let n1 = || gen_::n(1.0);
    let sx = || gen_::s(x);
    match pos {
        0 => (format!("k: {lit}"), ob("k", sx()), false),
        1 => (format!("- {lit}").replacen("- ", "[1]:\n  - ", 1), V::Array(vec![sx()]), false),
        2 => (format!("k[2]: {lit},1"), ob("k", V::Array(vec![sx(), n1()])), false),
        3 => (
            format!("k[1]{{a,b}}:\n  1,{lit}"),
            ob("k", V::Array(vec![V::Object(vec![("a".into(), n1()), ("b".into(), sx())])])),
            false,
        ),
        4 => (lit.to_string(), sx(), false),
        5 => (format!("[2|]: 1|{lit}"), V::Array(vec![n1(), sx()]), false),
        6 => (format!("[1]:\n  - k: 1\n    m: {lit}"), V::Array(vec![V::Object(vec![("k".into(), n1()), ("m".into(), sx())])]), false),
        7 => (format!("{lit}: 1"), ob(x, n1()), true),
        8 => (format!("{lit}[1]: 1"), ob(x, V::Array(vec![n1()])), true),
        9 => (format!("[1]{{{lit}}}:\n  1"), V::Array(vec![ob(x, n1())]), true),
        10 => (format!("[1]:\n  - {lit}: 1\n    {lit}[0]:"), V::Array(vec![V::Object(vec![(x.to_string(), n1()), (x.to_string(), V::Array(vec![]))])]), true),
        11 => (format!("o:\n  {lit}:\n    {lit}: 1"), ob("o", ob(x, ob(x, n1()))), true),
        _ => (
            format!("[1]:\n  - k[1\t]{{{lit}\tw}}:\n      1\t2"),
            V::Array(vec![ob("k", V::Array(vec![V::Object(vec![(x.to_string(), n1()), ("w".into(), gen_::n(2.0))])]))]),
            true,
        ),
    }
}

/// What a quoted body means: the string, or None when it is malformed.
fn body_meaning(body: &str) -> Option<String> {
    let mut o = String::new();
    let mut it = body.chars();
    while let Some(ch) = it.next() {
        match ch {
            '"' => return None,
            '\\' => o.push(match it.next()? {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '"' => '"',
                '\\' => '\\',
                _ => return None,
            }),
            _ => o.push(ch),
        }
    }
    Some(o)
}

/// Does the body hold a quote that would end the literal early?
fn early_quote(body: &str) -> bool {
    let mut esc = false;
    for ch in body.chars() {
        if esc {
            esc = false;
        } else if ch == '\\' {
            esc = true;
        } else if ch == '"' {
            return true;
        }
    }
    false
}

fn quoted(c: &mut Ctx, pos: usize, body: &str) {
    if early_quote(body) && pos != 0 {
        return;
    }
    let want = body_meaning(body);
    let lit = format!("\"{body}\"");
    let (t, v, is_key) = place_quoted(pos, &lit, want.as_deref().unwrap_or(""));
    c.note(match (&want, is_key) {
        (Some(_), true) => "well_formed_key",
        (Some(_), false) => "well_formed_value",
        (None, true) => "malformed_key",
        (None, false) => "malformed_value",
    });
    c.seen(&(pos, body), true);
    for st in [true, false] {
        let Some(r) = c.guard("decoding", &t, || h::decode(&t, 2, st, false)) else { continue };
        let ok = match &want {
            Some(_) => r.as_ref().is_ok_and(|x| same(x, &v)),
            None => r.is_err(),
        };
        if !ok {
            let w = if want.is_some() { show(&v) } else { "an error".into() };
            c.fail("literal", &t, format!("position {pos}, strict {st}: expected {w}\ngot {}", h::result(&r)));
        }
    }
}

/// A literal that is broken whatever its body: unclosed or with a tail.
fn broken(c: &mut Ctx, pos: usize, lit: &str, what: &str) {
    let (t, _, _) = place_quoted(pos, lit, "");
    c.note(what);
    c.seen(&(pos, lit), true);
    for st in [true, false] {
        if let Some(Ok(v)) = c.guard("decoding", &t, || h::decode(&t, 2, st, false)) {
            c.fail("broken-literal", &t, format!("{what} in position {pos}, strict {st}: accepted as {}", show(&v)));
        }
    }
}

fn c23(c: &mut Ctx, idx: u64) {
    const AL: &[char] = &['\\', '"', 'n', 'r', 't', 'u', '0', ' ', ':', ',', '[', '{', '}', ']', '-', 'a', 'é', '|', '\t'];
    let (cases, len) = if c.tier == Tier::Quick { (40_000u64, 4u32) } else { (600_000, 5) };
    let total: u64 = (0..=len).map(|l| (AL.len() as u64).pow(l)).sum();
    let (from, to) = (total * idx / cases, total * (idx + 1) / cases);
    for mut i in from..to {
        let k = AL.len() as u64;
        let mut n = 0;
        let mut count = 1;
        while i >= count {
            i -= count;
            n += 1;
            count *= k;
        }
        let body: String = (0..n)
            .map(|_| {
                let ch = AL[(i % k) as usize];
                i /= k;
                ch
            })
            .collect();
        for pos in 0..QUOTED {
            // raw tabs and pipes in another delimiter's cells are plain text
            quoted(c, pos, &body);
        }
    }
    // every character after a backslash
    let pick: Vec<char> = {
        let r = &mut c.rng;
        let lo = (idx % 16) as u32 * 64;
        (lo..lo + 64).filter_map(char::from_u32).chain((0..16).map(|_| gen_::any_char(r))).collect()
    };
    for ch in pick {
        if ch == '\n' {
            continue;
        }
        let pos = c.rng.below(QUOTED);
        let pre = *c.rng.pick(&["", "a", "\\\\", " "]);
        let post = *c.rng.pick(&["", "b", "\\n", "41"]);
        if early_quote(&format!("{pre}\\{ch}{post}")) {
            continue;
        }
        quoted(c, pos, &format!("{pre}\\{ch}{post}"));
        c.note("character_after_backslash");
        // and unescaped
        if ch != '"' && ch != '\\' {
            quoted(c, pos, &format!("{pre}{ch}{post}"));
        }
    }
    // random strings, escaped by the library and by the model
    for i in 0..30 {
        let x = if i == 0 && idx % 21 == 0 {
            let n = gen_::threshold(&mut c.rng, if idx % 2001 == 0 { 100_003 } else { 5000 });
            c.note("long_literals");
            gen_::long_string(&mut c.rng, n)
        } else {
            gen_::string(&mut c.rng)
        };
        let q = spec::quote(&x);
        let body = &q[1..q.len() - 1];
        let pos = c.rng.below(QUOTED);
        quoted(c, pos, body);
        let e = toon::shared::string_utils::escape_string(&x);
        c.note("escape_unescape");
        if e != body {
            c.fail("escape", &x, format!("escape_string gave {e:?}, expected {body:?}"));
        }
        match toon::shared::string_utils::unescape_string(&e) {
            Ok(y) if y == x => {}
            other => c.fail("unescape", &x, format!("unescape_string({e:?}) gave {other:?}")),
        }
        // broken literals around it
        let pos = c.rng.below(QUOTED);
        let tail = *c.rng.pick(&["z", "1", "é", "\\", "null", "zz z"]);
        broken(c, pos, &format!("\"{body}\"{tail}"), "text_after_the_quote");
        if !body.contains('"') {
            let pos = c.rng.below(QUOTED);
            if pos != 10 && pos != 11 && pos != 12 {
                broken(c, pos, &format!("\"{body}"), "missing_closing_quote");
                broken(c, pos, &format!("\"{body}\\\""), "escaped_closing_quote");
            }
        }
    }
}

// ---------------------------------------------------------------------- C24

const PLACES: usize = 9;

fn place_token(pos: usize, tok: &str, v: V) -> (String, V) {
    let n1 = || gen_::n(1.0);
    match pos {
        0 => (format!("k: {tok}"), ob("k", v)),
        1 => (format!("[2]:\n  - {tok}\n  - 1"), V::Array(vec![v, n1()])),
        2 => (format!("k[3]: 1,{tok},x"), ob("k", V::Array(vec![n1(), v, gen_::s("x")]))),
        3 => (
            format!("[1]{{a,b,c}}:\n  1,{tok},x"),
            V::Array(vec![V::Object(vec![("a".into(), n1()), ("b".into(), v), ("c".into(), gen_::s("x"))])]),
        ),
        4 => (tok.to_string(), v),
        5 => (format!("[2|]: {tok}|{tok}"), V::Array(vec![v.clone(), v])),
        6 => (format!("[1]:\n  - k: {tok}\n    m: {tok}"), V::Array(vec![V::Object(vec![("k".into(), v.clone()), ("m".into(), v)])])),
        7 => (
            format!("[2]{{a\u{7c}b}}:\n  {tok}|{tok}\n  {tok}|1").replace("[2]", "[2|]"),
            V::Array(vec![
                V::Object(vec![("a".into(), v.clone()), ("b".into(), v.clone())]),
                V::Object(vec![("a".into(), v), ("b".into(), n1())]),
            ]),
        ),
        _ => (format!("[1]:\n  - [2\t]: {tok}\t{tok}"), V::Array(vec![V::Array(vec![v.clone(), v])])),
    }
}

fn meaning(tok: &str) -> V {
    let t = tok.trim();
    match t {
        "true" => return gen_::b(true),
        "false" => return gen_::b(false),
        "null" => return gen_::null(),
        _ => {}
    }
    if spec::json_number(t)
        && let Ok(x) = t.parse::<f64>()
        && x.is_finite()
    {
        return gen_::n(if x == 0.0 { 0.0 } else { x });
    }
    gen_::s(t)
}

fn token(c: &mut Ctx, pos: usize, tok: &str) {
    // Characters that end or change the token in some position.
    if tok.trim().is_empty() || tok.contains([':', ',', '|', '\t', '"', '[', ']', '{', '}', '\n', '\\', '\r']) {
        return;
    }
    let v = meaning(tok);
    let (t, want) = place_token(pos, tok, v.clone());
    // Leading spaces at the start of a line are indentation.
    if pos == 4 && tok.starts_with(' ') || pos == 7 && tok.starts_with(' ') {
        return;
    }
    c.note(match &v {
        V::Primitive(P::Number(_)) => "numbers",
        V::Primitive(P::String(_)) => "strings",
        _ => "literals",
    });
    c.seen(&(pos, tok), true);
    c.sample(|| t.clone());
    for st in [true, false] {
        let Some(r) = c.guard("decoding", &t, || h::decode(&t, 2, st, false)) else { continue };
        if !r.as_ref().is_ok_and(|x| same(x, &want)) {
            c.fail("token", &t, format!("token {tok:?} in position {pos}, strict {st}: expected {}\ngot {}", show(&want), h::result(&r)));
        }
    }
    // the quoted form is a string
    let q = spec::quote(tok);
    let (t, want) = place_token(pos, &q, gen_::s(tok));
    if let Some(r) = c.guard("decoding", &t, || h::decode(&t, 2, true, false))
        && !r.as_ref().is_ok_and(|x| same(x, &want))
    {
        c.fail("quoted-token", &t, format!("position {pos}: expected {}\ngot {}", show(&want), h::result(&r)));
    }
}

fn c24(c: &mut Ctx, idx: u64) {
    const AL: &[char] = &['0', '1', '9', '-', '+', '.', 'e', 'E', ' ', 'a', '_', '\u{a0}'];
    let (cases, len) = if c.tier == Tier::Quick { (60_000u64, 5u32) } else { (600_000, 6) };
    let k = AL.len() as u64;
    let total: u64 = (1..=len).map(|l| k.pow(l)).sum();
    for i in total * idx / cases..total * (idx + 1) / cases {
        let mut i = i;
        let mut n = 1;
        while i >= k.pow(n) {
            i -= k.pow(n);
            n += 1;
        }
        let tok: String = (0..n)
            .map(|_| {
                let ch = AL[(i % k) as usize];
                i /= k;
                ch
            })
            .collect();
        // three positions per token, all positions over the run
        for j in 0..3 {
            let p = (i as usize + n as usize + j * 3 + (idx as usize % PLACES)) % PLACES;
            token(c, p, &tok);
        }
    }
    if idx % 21 == 0 {
        let n = gen_::threshold(&mut c.rng, if idx % 2001 == 0 { 70_000 } else { 5000 });
        let r = &mut c.rng;
        let tok = match r.below(6) {
            0 => format!("{}1{}", r.pick(&["", "-"]), "0".repeat(n)),
            1 => format!("0.{}1", "0".repeat(n)),
            2 => format!("1.{}", "5".repeat(n)),
            3 => format!("1e{}{}", "0".repeat(n), r.below(400)),
            4 => format!("{}.{}e-{n}", "7".repeat(n), "3".repeat(r.below(n + 1) + 1)),
            _ => gen_::long_string(r, n),
        };
        c.note("long_tokens");
        let pos = c.rng.below(PLACES);
        token(c, pos, &tok);
    }
    for _ in 0..60 {
        let r = &mut c.rng;
        let tok = match r.below(10) {
            0..=3 => gen_::numberish(r),
            4 => {
                let x = gen_::number(r);
                match r.below(4) {
                    0 => format!("{x:e}"),
                    1 => format!("{x}"),
                    2 => format!("{x:E}"),
                    _ => format!("{:.*}", r.clone().below(30), x),
                }
            }
            5 => {
                // long digit strings around rounding boundaries
                let n = r.range(15, 40);
                let d: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
                let d = d.trim_start_matches('0').to_string();
                format!("{}{}.{}", d, r.below(10), r.below(1000))
            }
            6 => {
                let w = *r.pick(&["true", "false", "null"]);
                match r.below(6) {
                    0 => w.to_uppercase(),
                    1 => format!("{}{}", w[..1].to_uppercase(), &w[1..]),
                    2 => format!("{w} "),
                    3 => format!("{w}{}", r.pick(&["x", "1", ".", "-", " x"])),
                    4 => w[..w.len() - 1].to_string(),
                    _ => w.to_string(),
                }
            }
            7 => {
                let e = r.range(290, 330);
                let sg = *r.pick(&["", "-", "+"]);
                format!("{}{}e{sg}{e}", r.pick(&["", "-"]), r.pick(&["1", "1.7976931348623157", "1.7976931348623159", "4.9", "2.2250738585072014", "2.4"]))
            }
            8 => gen_::string(r).replace('\n', " "),
            _ => (*r.pick(gen_::HOSTILE)).to_string(),
        };
        let pos = c.rng.below(PLACES);
        token(c, pos, &tok);
        let pad = *c.rng.pick(&[" ", "  ", "\u{a0}", "\u{3000}"]);
        token(c, pos, &format!("{tok}{pad}"));
    }
}
