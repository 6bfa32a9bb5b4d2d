//! C12 and C13: the asynchronous entry points under an executor whose every
//! decision (which task, which waker, when to drop, when to poll too early) is
//! drawn from the seed and recorded.

use crate::core::{Ctx, Prop, clip, guarded, hash_of};
use crate::gen_::{self, V, show};
use crate::h;
use crate::rng::Rng;
use crate::{docs, spec};
use asupersync::stream::Stream;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use toon::JsonStreamEvent as E;
use toon::decode::AsyncDecodeStream;
use toon::encode::async_encode::{self as ae, AsyncEncodeEventStream, AsyncEncodeStream};
use toon::options::{DecodeOptions, DecodeStreamOptions, EncodeOptions};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C12",
        quick: 36000,
        thorough: 900_000,
        rule: "One evaluation is one asynchronous task (stream or future of any entry point) driven to its end, or dropped half way, by an executor that interleaves its polls with those of up to seven others, with changing wakers and early polls; its items or result are compared with the synchronous run. Distinct by task, input, options and poll schedule; trivial when the task was dropped before its first poll.",
        assumptions: &["streams are polled from one thread at a time"],
        run: c12,
        cpu: 20.0,
        level: "exploration",
    },
    Prop {
        id: "C13",
        quick: 1000000,
        thorough: 3_000_000,
        rule: "One evaluation is the recorded history of line reads and returned items of one async decode stream, checked against the look-ahead rule (flat scalar documents), the end-after-one-error rule and the event grammar (any document). Distinct by document.",
        assumptions: &["flat documents hold one scalar field per line, with or without blank lines between"],
        run: c13,
        cpu: 20.0,
        level: "exploration",
    },
    Prop {
        id: "C30",
        quick: 2500,
        thorough: 60_000,
        rule: "One evaluation streams one document of many top-level fields (scalars, objects, lists, tables, blank lines between) from a lazy line source through the async decode stream, dropping every event, with the allocator watched: live memory above the start, and the number of fields begun when each event comes out. Distinct by document pattern, length and options; documents are at least eight times the bound.",
        assumptions: &["documents whose root is an object", "memory bound: 16 KiB plus 64 bytes per byte of the largest field plus 8 per byte of the text of its events"],
        run: c30,
        cpu: 20.0,
        level: "exploration",
    },
];

// ------------------------------------------------------------------ executor

#[derive(Default)]
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

#[derive(Debug, Clone)]
enum Item {
    Event(E),
    Line(String),
}

/// What a task came to.
#[derive(Debug, Clone)]
enum Outcome {
    Items(Vec<Item>),
    Value(V),
    Text(String),
    Refused,
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Outcome::Items(x), Outcome::Items(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|(p, q)| match (p, q) {
                    (Item::Event(p), Item::Event(q)) => h::same_events(std::slice::from_ref(p), std::slice::from_ref(q)),
                    (Item::Line(p), Item::Line(q)) => p == q,
                    _ => false,
                })
        }
        (Outcome::Value(x), Outcome::Value(y)) => gen_::same(x, y),
        (Outcome::Text(x), Outcome::Text(y)) => x == y,
        (Outcome::Refused, Outcome::Refused) => true,
        _ => false,
    }
}

fn events(v: Vec<E>) -> Outcome {
    Outcome::Items(v.into_iter().map(Item::Event).collect())
}
fn lines(v: Vec<String>) -> Outcome {
    Outcome::Items(v.into_iter().map(Item::Line).collect())
}

type ItemStream = Pin<Box<dyn Stream<Item = Result<Item, String>>>>;
type Fut = Pin<Box<dyn Future<Output = Outcome>>>;

enum Body {
    Stream(ItemStream),
    Future(Fut),
}

/// Gives streams of any item type one shape.
struct Mapped<S, F>(S, F);
impl<S: Stream + Unpin, F: Fn(S::Item) -> Result<Item, String> + Unpin> Stream for Mapped<S, F> {
    type Item = Result<Item, String>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let me = &mut *self;
        Pin::new(&mut me.0).poll_next(cx).map(|o| o.map(&me.1))
    }
}

struct Task {
    kind: &'static str,
    input: String,
    body: Option<Body>,
    want: Outcome,
    got: Vec<Item>,
    done: Option<Outcome>,
    waker: Arc<Count>,
    runnable: bool,
    polls: usize,
    pendings: usize,
    drop_at: Option<usize>,
    after_end: usize,
}

fn stream_opts(o: &Option<DecodeOptions>) -> Option<DecodeStreamOptions> {
    o.as_ref().map(|o| DecodeStreamOptions { indent: o.indent, strict: o.strict })
}

fn split(t: &str) -> Vec<String> {
    t.split('\n').map(str::to_string).collect()
}

/// A document, sometimes with more lines than one poll may handle.
fn document(r: &mut Rng) -> (String, usize) {
    match r.below(24) {
        0 => {
            let n = *r.pick(&[1022usize, 1023, 1024, 1025, 2047, 2048, 2049, 3000]);
            let mut t: String = (0..n).map(|i| format!("k{i}: {i}\n")).collect();
            if r.pct(30) {
                t.push_str("bad[2]: 1\n");
            }
            if r.pct(50) {
                t.pop();
            }
            (t, 2)
        }
        1 => {
            let sh = gen_::Shape::any(r);
            let v = gen_::large(r, sh);
            (toon::encode(v, h::eopts(h::delim(r), 2, None)), 2)
        }
        2 if r.pct(20) => {
            let cap = if r.pct(3) { 70_003 } else { 5000 };
            let v = gen_::big(r, cap);
            let d = docs::of_value(r, &v);
            (d.text(), d.indent)
        }
        _ => docs::any_text(r),
    }
}

fn decode_options(r: &mut Rng, indent: usize) -> Option<DecodeOptions> {
    if r.pct(10) {
        return None;
    }
    let mut o = h::dopts(indent, r.pct(60), r.pct(30));
    if let Some(o) = &mut o {
        if r.pct(10) {
            o.strict = None;
        }
        if r.pct(10) {
            o.indent = None;
        }
    }
    o
}

fn encode_options(r: &mut Rng) -> Option<EncodeOptions> {
    if r.pct(10) {
        return None;
    }
    let fold = *r.pick(&[None, None, Some(usize::MAX), Some(2), Some(3)]);
    let mut o = h::eopts(h::delim(r), *r.pick(&[0, 1, 2, 4]), fold);
    if r.pct(30)
        && let Some(o) = &mut o
    {
        let salt = r.next();
        o.replacer = Some(Arc::new(move |k: &str, v: &V, p| match (hash_of(k) ^ salt ^ p.len() as u64) % 6 {
            0 => None,
            1 => Some(gen_::n(f64::NAN)),
            2 => Some(gen_::s("replaced")),
            _ => Some(v.clone()),
        }));
    }
    o
}

fn value(r: &mut Rng) -> V {
    match r.below(20) {
        0 => {
            let n = *r.pick(&[1023usize, 1024, 1025, 2500]);
            V::Object((0..n).map(|i| (format!("k{i}"), gen_::n(i as f64))).collect())
        }
        1 => {
            let sh = gen_::Shape::any(r);
            gen_::large(r, sh)
        }
        3 if r.pct(20) => {
            let cap = if r.pct(3) { 70_003 } else { 5000 };
            gen_::big(r, cap)
        }
        2 => gen_::n(*r.pick(&[f64::NAN, f64::INFINITY, -0.0])),
        4 if r.pct(20) => gen_::deeper(r, 400),
        _ => gen_::root(r),
    }
}

/// The result of the synchronous call, where a panic counts as refusal.
fn sync_result(f: impl FnOnce() -> Outcome) -> Outcome {
    guarded(f).unwrap_or(Outcome::Refused)
}

fn task(r: &mut Rng) -> Task {
    let pick = r.below(14);
    let drop_at = r.pct(20).then(|| r.below(30));
    let (kind, input, body, want): (&'static str, String, Body, Outcome);
    if pick < 8 {
        let (text, indent) = document(r);
        let o = decode_options(r, indent);
        let so = stream_opts(&o);
        let ls = split(&text);
        input = format!("indent {:?} strict {:?} expand {:?}\n{text}", o.as_ref().and_then(|o| o.indent), o.as_ref().and_then(|o| o.strict), o.as_ref().and_then(|o| o.expand_paths));
        let sync = |ls: Vec<String>, so| match toon::try_decode_stream_sync(ls, so) {
            Ok(e) => events(e),
            Err(_) => Outcome::Refused,
        };
        match pick {
            0..=3 => {
                kind = "AsyncDecodeStream";
                want = sync_result(|| sync(ls.clone(), so.clone()));
                body = Body::Stream(Box::pin(Mapped(AsyncDecodeStream::new(ls.into_iter(), so), |i: toon::error::Result<E>| i.map(Item::Event).map_err(|e| e.to_string()))));
            }
            4 => {
                kind = "try_decode_stream_async";
                want = sync_result(|| sync(ls.clone(), so.clone()));
                body = Body::Future(Box::pin(async move { toon::decode::try_decode_stream_async(ls, so).await.map_or(Outcome::Refused, events) }));
            }
            5 => {
                let panicking = r.pct(50);
                kind = if panicking { "decode_stream_async" } else { "decode_stream" };
                want = sync_result(|| sync(ls.clone(), so.clone()));
                body = if panicking {
                    Body::Future(Box::pin(async move { events(toon::decode::decode_stream_async(ls, so).await) }))
                } else {
                    Body::Future(Box::pin(async move { events(toon::decode::decode_stream(ls, so).await) }))
                };
            }
            6 => {
                kind = "try_decode_stream";
                want = sync_result(|| sync(ls.clone(), so.clone()));
                body = Body::Future(Box::pin(async move { toon::decode::try_decode_stream(ls, so).await.map_or(Outcome::Refused, events) }));
            }
            _ => {
                kind = "try_decode_async";
                want = sync_result(|| toon::try_decode(&text, o.clone()).map_or(Outcome::Refused, Outcome::Value));
                body = Body::Future(Box::pin(async move { toon::decode::try_decode_async(&text, o).await.map_or(Outcome::Refused, Outcome::Value) }));
            }
        }
    } else {
        let v = value(r);
        let o = encode_options(r);
        input = format!(
            "{:?} replacer {}\n{}",
            o.as_ref().map(|o| (o.indent, o.delimiter, o.key_folding, o.flatten_depth)),
            o.as_ref().is_some_and(|o| o.replacer.is_some()),
            show(&v)
        );
        let want_lines = || lines(toon::encode_lines(v.clone(), o.clone()));
        let want_events = || events(toon::encode_stream_events(v.clone(), o.clone()));
        let fallible = r.pct(50);
        match pick {
            8 | 9 => {
                kind = "AsyncEncodeStream";
                want = sync_result(want_lines);
                let s = if fallible { AsyncEncodeStream::try_new(v, o).expect("encode stream") } else { AsyncEncodeStream::new(v, o) };
                let n = s.len();
                let empty = s.is_empty();
                let agreed = matches!(&want, Outcome::Items(l) if l.len() == n && l.is_empty() == empty);
                let s = Mapped(s, move |l| if agreed { Ok(Item::Line(l)) } else { Err(format!("len() is {n}, is_empty() is {empty}")) });
                body = Body::Stream(Box::pin(s));
            }
            10 => {
                kind = "AsyncEncodeEventStream";
                want = sync_result(want_events);
                let s = if fallible { AsyncEncodeEventStream::try_new(v, o).expect("event stream") } else { AsyncEncodeEventStream::new(v, o) };
                body = Body::Stream(Box::pin(Mapped(s, |e| Ok(Item::Event(e)))));
            }
            11 => {
                kind = if fallible { "try_encode_lines_async" } else { "encode_lines_async" };
                want = sync_result(want_lines);
                body = if fallible {
                    Body::Future(Box::pin(async move { ae::try_encode_lines_async(v, o).await.map_or(Outcome::Refused, lines) }))
                } else {
                    Body::Future(Box::pin(async move { lines(ae::encode_lines_async(v, o).await) }))
                };
            }
            12 => {
                kind = if fallible { "try_encode_async" } else { "encode_async" };
                want = sync_result(|| Outcome::Text(toon::encode(v.clone(), o.clone())));
                body = if fallible {
                    Body::Future(Box::pin(async move { ae::try_encode_async(v, o).await.map_or(Outcome::Refused, Outcome::Text) }))
                } else {
                    Body::Future(Box::pin(async move { Outcome::Text(ae::encode_async(v, o).await) }))
                };
            }
            _ => {
                kind = if fallible { "try_encode_events_async" } else { "encode_events_async" };
                want = sync_result(want_events);
                body = if fallible {
                    Body::Future(Box::pin(async move { ae::try_encode_events_async(v, o).await.map_or(Outcome::Refused, events) }))
                } else {
                    Body::Future(Box::pin(async move { events(ae::encode_events_async(v, o).await) }))
                };
            }
        }
    }
    Task {
        kind,
        input,
        body: Some(body),
        want,
        got: vec![],
        done: None,
        waker: Arc::new(Count::default()),
        runnable: true,
        polls: 0,
        pendings: 0,
        drop_at,
        after_end: 0,
    }
}

fn c12(c: &mut Ctx, idx: u64) {
    if idx % 12 == 5 {
        // several executors at once: nothing may be shared between tasks
        let seeds: Vec<u64> = (0..4).map(|_| c.rng.next()).collect();
        let (seed, tier, scratch) = (c.seed, c.tier, c.scratch.clone());
        let parts: Vec<Ctx> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|&x| {
                    let scratch = scratch.clone();
                    s.spawn(move || {
                        let mut k = Ctx::new("C12", seed, tier, scratch);
                        k.idx = idx;
                        k.rng = Rng::new(x);
                        schedule(&mut k);
                        k
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("executor thread")).collect()
        });
        for p in parts {
            c.evals += p.evals;
            for (k, n) in p.counters {
                if k.starts_with("max_") {
                    let m = c.counters.entry(k).or_insert(0);
                    *m = (*m).max(n);
                } else {
                    c.add(&k, n);
                }
            }
            c.distinct.extend(p.distinct);
            c.viols.extend(p.viols);
        }
        c.note("cases_with_four_executors_at_once");
    } else {
        schedule(c);
    }
}

/// One run of the executor.
fn schedule(c: &mut Ctx) {
    let count = c.rng.range(1, 8);
    let burst = *c.rng.pick(&[1usize, 1, 4, 50]);
    let early = *c.rng.pick(&[0usize, 10, 50]);
    let mut waiting: Vec<Task> = (0..count).map(|_| task(&mut c.rng)).collect();
    let mut tasks: Vec<Task> = Vec::new();
    let mut trace: u64 = 0;
    let mut steps = 0u64;
    while !(tasks.is_empty() && waiting.is_empty()) {
        if let Some(t) = waiting.pop_if(|_| tasks.is_empty() || c.rng.pct(10)) {
            tasks.push(t);
            continue;
        }
        let mut i = c.rng.below(tasks.len());
        // a pending task is polled again only when woken, or sometimes too early
        if !tasks[i].runnable && tasks[i].waker.0.load(Ordering::SeqCst) == 0 && !c.rng.pct(early) {
            let ready = tasks.iter().position(|t| t.runnable || t.waker.0.load(Ordering::SeqCst) > 0);
            match ready {
                Some(k) => i = k,
                None => {
                    // nothing is runnable: give another thread's wake a moment
                    let until = std::time::Instant::now() + std::time::Duration::from_secs(3);
                    while std::time::Instant::now() < until && tasks.iter().all(|t| t.waker.0.load(Ordering::SeqCst) == 0) {
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                    if tasks.iter().all(|t| t.waker.0.load(Ordering::SeqCst) == 0) {
                        for t in tasks.drain(..) {
                            c.fail("never woken", &t.input, format!("{} returned pending and was not woken", t.kind));
                        }
                    }
                    continue;
                }
            }
        }
        for _ in 0..burst {
            steps += 1;
            trace = trace.wrapping_mul(0x100000001b3) ^ i as u64;
            if !poll_once(c, &mut tasks[i], trace) {
                let t = tasks.swap_remove(i);
                drop(t);
                break;
            }
        }
    }
    c.max("interleaved_tasks", count as u64);
    c.max("polls_in_one_schedule", steps);
    c.add("polls", steps);
}

/// One poll, and what it means. False when the task is over.
fn poll_once(c: &mut Ctx, t: &mut Task, trace: u64) -> bool {
    if t.drop_at.is_some_and(|n| t.polls >= n) {
        // cancelled: everything delivered so far must be the start of the truth
        t.body = None;
        c.note("tasks_dropped_half_way");
        if t.done.is_none() {
            let good = match &t.want {
                Outcome::Items(w) => t.got.len() <= w.len() && same(&Outcome::Items(w[..t.got.len()].to_vec()), &Outcome::Items(t.got.clone())),
                _ => true,
            };
            if !good {
                c.fail("wrong items", &t.input, format!("{} delivered {:?}\nsynchronous: {:?}", t.kind, t.got, t.want));
            }
        }
        c.seen(&(t.kind, &t.input, trace), t.polls > 0);
        return false;
    }
    // a new waker now and then: only the last one has to be woken
    if t.polls == 0 || c.rng.pct(30) {
        t.waker = Arc::new(Count::default());
        c.note("wakers_made");
    } else {
        t.waker.0.store(0, Ordering::SeqCst);
    }
    let waker = Waker::from(t.waker.clone());
    let mut cx = Context::from_waker(&waker);
    t.polls += 1;
    let Some(body) = t.body.as_mut() else {
        return false;
    };
    match body {
        Body::Future(f) => match guarded(|| f.as_mut().poll(&mut cx)) {
            Err(p) => {
                assert!(!p.in_harness, "harness panic: {}", p.text);
                finish(c, t, Outcome::Refused, trace)
            }
            Ok(Poll::Pending) => {
                c.note("pending_polls");
                t.pendings += 1;
                t.runnable = false;
                if t.waker.0.load(Ordering::SeqCst) > 0 {
                    c.note("wakes_seen");
                }
                true
            }
            Ok(Poll::Ready(o)) => finish(c, t, o, trace),
        },
        Body::Stream(s) => match guarded(|| s.as_mut().poll_next(&mut cx)) {
            Err(p) => {
                assert!(!p.in_harness, "harness panic: {}", p.text);
                c.fail("panic", &t.input, format!("{} panicked: {}", t.kind, p.text));
                false
            }
            Ok(Poll::Pending) => {
                c.note("pending_polls");
                t.pendings += 1;
                t.runnable = false;
                if t.after_end > 0 {
                    c.fail("pending after the end", &t.input, format!("{} returned pending after its end", t.kind));
                    return false;
                }
                true
            }
            Ok(Poll::Ready(x)) => {
                t.runnable = true;
                if t.after_end > 0 && x.is_some() {
                    c.fail("item after the end", &t.input, format!("{} returned {x:?} after its end", t.kind));
                    return false;
                }
                match x {
                    Some(Ok(i)) => {
                        t.got.push(i);
                        let limit = match &t.want {
                            Outcome::Items(w) => w.len() + 10,
                            _ => 1_000_000,
                        };
                        if t.got.len() > limit {
                            c.fail("too many items", &t.input, format!("{} goes on after {} items: {}", t.kind, t.got.len(), clip(&format!("{:?}", t.got), 2000)));
                            return false;
                        }
                        true
                    }
                    Some(Err(e)) => {
                        if t.done.is_some() {
                            c.fail("second error", &t.input, format!("{} reported another error: {e}", t.kind));
                            return false;
                        }
                        t.done = Some(Outcome::Refused);
                        if t.kind == "AsyncEncodeStream" {
                            c.fail("len", &t.input, e);
                        }
                        true
                    }
                    None => {
                        t.after_end += 1;
                        if t.after_end < 4 {
                            return true;
                        }
                        c.note("ends_repeated");
                        let o = t.done.take().unwrap_or_else(|| Outcome::Items(std::mem::take(&mut t.got)));
                        finish(c, t, o, trace)
                    }
                }
            }
        },
    }
}

fn finish(c: &mut Ctx, t: &mut Task, got: Outcome, trace: u64) -> bool {
    c.note(&format!("finished_{}", t.kind));
    c.max("pendings_of_one_task", t.pendings as u64);
    c.note(if matches!(t.want, Outcome::Refused) { "refused_tasks" } else { "accepted_tasks" });
    c.seen(&(t.kind, &t.input, trace), true);
    c.sample(|| format!("{}\n{}\n=> {:?}", t.kind, t.input, got));
    if !same(&got, &t.want) {
        c.fail("different result", &format!("{}\n{}", t.kind, t.input), format!("{}\nasynchronous: {}\nsynchronous:  {}", t.kind, clip(&format!("{got:?}"), 1500), clip(&format!("{:?}", t.want), 1500)));
    }
    false
}

// --------------------------------------------------------------------- C13

struct Logged {
    lines: std::vec::IntoIter<String>,
    log: Rc<RefCell<Log>>,
}
#[derive(Default, Debug)]
struct Log {
    reads: usize,
    ends: usize,
}
impl Iterator for Logged {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        let x = self.lines.next();
        let mut l = self.log.borrow_mut();
        if x.is_some() {
            l.reads += 1;
        } else {
            l.ends += 1;
        }
        x
    }
}

/// Is this the start of some well-formed event stream?
fn prefix(ev: &[E], finished: bool) -> Result<(), String> {
    #[derive(PartialEq)]
    enum F {
        Arr,
        Key,
        Val,
    }
    let mut st: Vec<F> = vec![];
    let mut roots = 0;
    for (i, e) in ev.iter().enumerate() {
        let bad = |why: &str| Err(format!("event {i} {e:?}: {why}"));
        match e {
            E::Key { .. } => match st.last_mut() {
                Some(f @ F::Key) => *f = F::Val,
                _ => return bad("a key here"),
            },
            E::EndObject => match st.pop() {
                Some(F::Key) => {}
                _ => return bad("an object cannot end here"),
            },
            E::EndArray => match st.pop() {
                Some(F::Arr) => {}
                _ => return bad("an array cannot end here"),
            },
            _ => {
                match st.last_mut() {
                    None if roots == 0 => roots = 1,
                    None => return bad("a second root"),
                    Some(F::Key) => return bad("a value without a key"),
                    Some(f @ F::Val) => *f = F::Key,
                    Some(F::Arr) => {}
                }
                match e {
                    E::StartObject => st.push(F::Key),
                    E::StartArray { .. } => st.push(F::Arr),
                    _ => {}
                }
            }
        }
    }
    if finished && (!st.is_empty() || roots == 0) {
        return Err("the stream ends inside a value".into());
    }
    Ok(())
}

fn c13(c: &mut Ctx, idx: u64) {
    if idx % 3 == 0 {
        flat(c);
    } else {
        failing(c);
    }
}

/// A scalar as it may stand in a document.
fn scalar_text(r: &mut Rng) -> String {
    let sh = gen_::Shape::any(r);
    match gen_::prim(r, sh) {
        V::Primitive(p) => spec::prim_text(&p, ','),
        _ => "x".into(),
    }
}

fn flat(c: &mut Ctx) {
    let r = &mut c.rng;
    let n = if r.below(20_000) == 0 {
        r.range(65_000, 70_000)
    } else if r.pct(3) {
        r.range(200, 2500)
    } else {
        r.range(1, 12)
    };
    let strict = r.pct(60);
    let mut ls: Vec<String> = Vec::new();
    // the line each event comes from (1-based)
    let mut from: Vec<usize> = vec![];
    let blanks = r.pct(25);
    for i in 0..n {
        while blanks && r.pct(25) {
            ls.push(r.pick::<&str>(&["", "  ", "    "]).to_string());
        }
        let key = if r.pct(40) { format!("k{i}") } else { gen_::key(r, 40) + &i.to_string() };
        let sp = r.pick::<&str>(&[" ", " ", " ", "  "]);
        let text = loop {
            let t = scalar_text(r);
            if !t.is_empty() {
                break t;
            }
        };
        // other spellings of a scalar field: the stream may not wait on any of them
        let text = match r.below(24) {
            0 => format!("{text}{}", r.pick::<&str>(&[" ", "   ", "\t", "\r", " \r"])),
            1 => (*r.pick(&["[1]: x", "[x]", "{a}", "- a", "-", "[2]{a,b}:", "a: b", "x [1]: y", "a:", ":", "#", "a,b|c", "1e5", "05", "{}", "[]", "[0]:"])).to_string(),
            2 => "x".repeat(r.range(200, 9000)),
            3 => spec::quote(&format!("{}:[1]{{a}}: \\ \"", r.pick::<&str>(&["a", "[2]", "- "]))),
            _ => text,
        };
        let key_text = if r.below(20) == 0 && spec::plain_key(&key) { format!("\"{key}\"") } else { spec::key_text(&key) };
        ls.push(format!("{key_text}:{sp}{text}"));
        if from.is_empty() {
            from.push(ls.len());
        }
        from.push(ls.len());
        from.push(ls.len());
    }
    let text = ls.join("\n");
    // an empty string is no scalar text in a document: only quoted ones occur
    let opts = Some(DecodeStreamOptions { indent: Some(2), strict: Some(strict) });
    let want = match toon::try_decode_stream_sync(ls.clone(), opts.clone()) {
        Ok(e) => e,
        Err(_) => return,
    };
    if want.len() != from.len() + 1 {
        return;
    }
    let log = Rc::new(RefCell::new(Log::default()));
    let total = ls.len();
    let mut s = AsyncDecodeStream::new(Logged { lines: ls.into_iter(), log: log.clone() }, opts);
    let w = Waker::from(Arc::new(Count::default()));
    let mut cx = Context::from_waker(&w);
    let mut i = 0;
    let mut ahead = 0;
    let mut idle = 0;
    loop {
        let p = match guarded(|| Pin::new(&mut s).poll_next(&mut cx)) {
            Ok(p) => p,
            Err(p) => {
                assert!(!p.in_harness, "harness panic: {}", p.text);
                c.fail("panic", &text, format!("panicked: {}", p.text));
                return;
            }
        };
        let reads = log.borrow().reads;
        match p {
            Poll::Pending => {
                idle += 1;
                if idle > 10_000 {
                    c.fail("stuck", &text, "10000 pending polls in a row".into());
                    return;
                }
            }
            Poll::Ready(Some(Ok(_))) => {
                idle = 0;
                if let Some(&l) = from.get(i) {
                    ahead = ahead.max(reads.saturating_sub(l));
                    if reads > l + 1 {
                        c.fail("look-ahead", &text, format!("event {i} comes from line {l} and was returned after {reads} of {total} lines were read"));
                        return;
                    }
                }
                i += 1;
                c.note("events_timed_against_reads");
            }
            Poll::Ready(Some(Err(e))) => {
                c.fail("refused", &text, format!("the synchronous decoder accepts this, the stream reports {e}"));
                return;
            }
            Poll::Ready(None) => break,
        }
    }
    if i != want.len() {
        c.fail("events", &text, format!("{i} events, the synchronous decoder gives {}", want.len()));
    }
    c.note("flat_documents");
    c.max("lines_read_ahead", ahead as u64);
    c.max("flat_lines", total as u64);
    c.seen(&text, true);
}

fn failing(c: &mut Ctx) {
    let (mut text, indent) = if c.rng.pct(50) {
        docs::any_text(&mut c.rng)
    } else {
        // fields of which one is broken
        let r = &mut c.rng;
        let d = docs::valid(r);
        let mut ls: Vec<String> = split(&d.text());
        for _ in 0..r.below(3) {
            ls.insert(0, format!("f{}: {}", r.below(100), scalar_text(r)));
        }
        let at = r.below(ls.len() + 1);
        let bad = *r.pick(&[
            "\"open: 1", "k: \"\\x\"", "a[3]: 1", "- stray", "no colon", "   odd: 1", "\t tab: 1", "k[2]{a}:", "k[1]{a,b}: ", "k[99999999999999999999]:", "\"q\"x: 1", "k: \"a\" b", ":", "[1]: 1",
            "      far: 1",
        ]);
        ls.insert(at, bad.to_string());
        (ls.join("\n"), d.indent)
    };
    if c.rng.pct(10) {
        text.push('\n');
    }
    let strict = c.rng.pct(70);
    let tag = format!("indent {indent} strict {strict}\n{text}");
    let log = Rc::new(RefCell::new(Log::default()));
    let opts = Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
    let mut s = AsyncDecodeStream::new(Logged { lines: split(&text).into_iter(), log: log.clone() }, opts);
    let w = Waker::from(Arc::new(Count::default()));
    let mut cx = Context::from_waker(&w);
    let mut got: Vec<E> = Vec::new();
    let mut errors = 0;
    let mut ends = 0;
    let mut reads_at_error = None;
    let most = 4 * text.len() + 100;
    let mut polls = 0;
    while ends < 5 {
        polls += 1;
        if polls > 20 * most {
            c.fail("endless", &tag, format!("no end after {polls} polls, {} events", got.len()));
            return;
        }
        match guarded(|| Pin::new(&mut s).poll_next(&mut cx)) {
            Err(p) => {
                assert!(!p.in_harness, "harness panic: {}", p.text);
                c.fail("panic", &tag, format!("panicked: {}", p.text));
                return;
            }
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(Some(Ok(e)))) => {
                if errors > 0 || ends > 0 {
                    c.fail("event after the end", &tag, format!("{e:?} after {errors} errors and {ends} ends"));
                    return;
                }
                got.push(e);
                if got.len() > most {
                    c.fail("endless", &tag, format!("{} events", got.len()));
                    return;
                }
            }
            Ok(Poll::Ready(Some(Err(e)))) => {
                errors += 1;
                if errors > 1 || ends > 0 {
                    c.fail("second error", &tag, format!("error number {errors} after {ends} ends: {e}"));
                    return;
                }
                let l = log.borrow();
                reads_at_error = Some((l.reads, l.ends));
            }
            Ok(Poll::Ready(None)) => ends += 1,
        }
    }
    let l = log.borrow();
    if let Some(at) = reads_at_error
        && at != (l.reads, l.ends)
    {
        c.fail("reads after the error", &tag, format!("(lines, ends) {at:?} at the error, {l:?} at the end"));
    }
    if let Err(e) = prefix(&got, errors == 0) {
        c.fail("grammar", &tag, format!("{e}: {got:?}"));
    }
    c.note(if errors > 0 { "histories_with_an_error" } else { "histories_without_error" });
    c.add("events_before_errors", if errors > 0 { got.len() as u64 } else { 0 });
    c.seen(&tag, errors > 0);
    c.sample(|| format!("{tag}\n=> {got:?}, {errors} errors"));
}

// --------------------------------------------------------------------- C30

struct Blocks {
    /// The lines of each kind of field; the key of the first carries no number yet.
    kinds: Rc<Vec<Vec<String>>>,
    block: usize,
    line: usize,
    total: usize,
    begun: Rc<RefCell<usize>>,
}
impl Iterator for Blocks {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        loop {
            if self.block >= self.total {
                return None;
            }
            let b = &self.kinds[self.block % self.kinds.len()];
            if self.line >= b.len() {
                self.block += 1;
                self.line = 0;
                continue;
            }
            let l = if self.line == 0 {
                *self.begun.borrow_mut() += 1;
                format!("k{}{}", self.block, b[0])
            } else {
                b[self.line].clone()
            };
            self.line += 1;
            return Some(l);
        }
    }
}

/// A field without its key, as lines, how many events it makes, and the size of
/// their text: the events of a table repeat its field names for every row.
fn field_lines(r: &mut Rng, indent: usize) -> Option<(Vec<String>, usize, usize)> {
    let v = match r.below(5) {
        0 | 1 => {
            let sh = docs::small_shape(r);
            gen_::prim(r, sh)
        }
        2 => gen_::big(r, 300),
        _ => {
            let sh = docs::small_shape(r);
            gen_::value(r, sh, 1)
        }
    };
    let d = h::delim(r);
    let doc = docs::canonical(&V::Object(vec![("k".into(), v.clone())]), d, indent);
    let mut lines = split(&doc.text());
    lines[0] = lines[0].strip_prefix('k')?.to_string();
    let mut ev = Vec::new();
    h::events_of(&v, &mut ev);
    let text = ev
        .iter()
        .map(|e| match e {
            E::Key { key, .. } => key.len(),
            E::Primitive { value: toon::StringOrNumberOrBoolOrNull::String(t) } => t.len(),
            _ => 0,
        })
        .sum();
    Some((lines, ev.len() + 1, text))
}

fn c30(c: &mut Ctx, _idx: u64) {
    let r = &mut c.rng;
    let indent = h::indent(r);
    let strict = r.pct(70);
    let count = r.range(1, 5);
    let mut kinds = Vec::new();
    let mut sizes = Vec::new();
    let mut texts = 0;
    for _ in 0..count {
        let Some((mut lines, n, text)) = field_lines(r, indent) else { return };
        texts = texts.max(text);
        // blank lines where nothing is being counted: after the field
        for _ in 0..if r.pct(25) { r.range(1, 3) } else { 0 } {
            lines.push(" ".repeat(r.below(3)));
        }
        sizes.push(n);
        kinds.push(lines);
    }
    let largest = kinds.iter().map(|b| b.iter().map(|l| l.len() + 1).sum::<usize>()).max().unwrap_or(1) + 8;
    let average = kinds.iter().map(|b| b.iter().map(|l| l.len() + 1).sum::<usize>()).sum::<usize>() / kinds.len() + 4;
    let bound = 16 * 1024 + 64 * largest + 8 * texts;
    let total = (8 * bound / average).clamp(100, 40_000);
    if total * average < 2 * bound {
        return;
    }
    let tag = format!("{total} fields of {} kinds, indent {indent} strict {strict}: {kinds:?}", kinds.len());
    let begun = Rc::new(RefCell::new(0));
    let kinds = Rc::new(kinds);
    let lines = Blocks { kinds: kinds.clone(), block: 0, line: 0, total, begun: begun.clone() };
    let opts = Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) });
    let w = Waker::from(Arc::new(Count::default()));
    let ((problem, events), st) = crate::sys::watch_alloc(|| {
        let mut s = AsyncDecodeStream::new(lines, opts);
        let mut cx = Context::from_waker(&w);
        // the event the stream is at: field, event within it
        let (mut field, mut within) = (0usize, 0usize);
        let mut events = 0u64;
        let mut idle = 0;
        let problem = loop {
            match guarded(|| Pin::new(&mut s).poll_next(&mut cx)) {
                Err(p) => {
                    assert!(!p.in_harness, "harness panic: {}", p.text);
                    break Some(("panic", p.text));
                }
                Ok(Poll::Pending) => {
                    idle += 1;
                    if idle > 10_000 {
                        break Some(("stuck", "10000 pending polls in a row".to_string()));
                    }
                }
                Ok(Poll::Ready(Some(Err(e)))) => break Some(("rejected", e.to_string())),
                Ok(Poll::Ready(None)) => {
                    break (field != total).then(|| ("events", format!("the stream ended in field {field} of {total}")));
                }
                Ok(Poll::Ready(Some(Ok(_)))) => {
                    idle = 0;
                    events += 1;
                    if events == 1 {
                        continue;
                    }
                    if field == total {
                        continue;
                    }
                    let b = *begun.borrow();
                    if b > field + 2 {
                        break Some(("late", format!("an event of field {field} came out after {b} fields were begun")));
                    }
                    within += 1;
                    if within == sizes[field % sizes.len()] {
                        within = 0;
                        field += 1;
                    }
                }
            }
        };
        (problem, events)
    });
    if let Some((kind, det)) = problem {
        c.fail(kind, &tag, det);
        return;
    }
    if st.peak > bound {
        c.fail(
            "memory",
            &tag,
            format!("{} bytes live at once; the largest field has {largest} bytes, the document about {}", st.peak, total * average),
        );
    }
    c.max("peak_bytes_live", st.peak as u64);
    c.max("peak_percent_of_bound", (st.peak * 100 / bound) as u64);
    c.max("document_bytes", (total * average) as u64);
    c.add("events_streamed", events);
    c.add("fields_streamed", total as u64);
    c.seen(&tag, true);
    c.sample(|| clip(&tag, 400));
}
