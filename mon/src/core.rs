//! The monitoring framework: cases, observation counters, violations, the
//! worker process that executes cases and the driver that runs the workers,
//! confirms what they report and writes the evidence.

use crate::rng::Rng;
use crate::sys;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    /// Number of cases at the quick and thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx, u64),
    /// CPU seconds one case may use.
    pub cpu: f64,
    pub level: &'static str,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub idx: u64,
    pub kind: String,
    pub key: String,
    pub detail: String,
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub idx: u64,
    pub rng: Rng,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub scratch: PathBuf,
}

pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…({} bytes)", &s[..e], s.len())
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, tier: Tier, scratch: PathBuf) -> Self {
        Self {
            prop,
            seed,
            tier,
            idx: 0,
            rng: Rng::new(0),
            evals: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            scratch,
        }
    }
    /// Count something the monitors observed.
    pub fn note(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let what = format!("max_{what}");
        let c = self.counters.entry(what).or_insert(0);
        *c = (*c).max(n);
    }
    /// Record one execution, identified by `what` for the distinctness count
    /// when it is non-trivial.
    pub fn seen<T: Hash + ?Sized>(&mut self, what: &T, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash_of(what));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(clip(&s, 600));
        }
    }
    /// Report a violation. `input` identifies the failing input.
    pub fn fail(&mut self, kind: &str, input: &str, detail: String) {
        if self.viols.len() < 200 {
            self.viols.push(Viol {
                idx: self.idx,
                kind: kind.to_string(),
                key: format!("{kind}:{:016x}", hash_of(input)),
                detail: format!(
                    "{}\n--- input ---\n{}",
                    clip(&detail, 4000),
                    clip(input, 4000)
                ),
            });
        }
    }
    /// Run code under test; a panic becomes a violation of this property.
    pub fn guard<T>(&mut self, what: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => {
                if p.in_harness {
                    panic!("harness panic: {}", p.text);
                }
                self.fail("panic", input, format!("{what} panicked: {}", p.text));
                None
            }
        }
    }
}

// ------------------------------------------------------------------- panics

#[derive(Clone, Debug)]
pub struct Panic {
    pub text: String,
    pub in_harness: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panic>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let (file, line) = info
            .location()
            .map_or((String::new(), 0), |l| (l.file().to_string(), l.line()));
        let in_harness = file.starts_with("src/") || file.contains("/verif/mon/");
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = Some(Panic {
                text: format!("{msg} at {file}:{line}"),
                in_harness,
            });
        });
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| Panic {
                text: "panic without report".into(),
                in_harness: false,
            })),
    }
}

// ------------------------------------------------------------------- worker

fn run_case(ctx: &mut Ctx, p: &Prop, idx: u64) -> Result<(), String> {
    ctx.idx = idx;
    ctx.rng = Rng::for_case(ctx.seed, p.id, idx);
    sys::begin_case(idx);
    match guarded(|| (p.run)(ctx, idx)) {
        Ok(()) => Ok(()),
        Err(pn) if pn.in_harness => Err(format!("case {idx}: {}", pn.text)),
        Err(pn) => {
            let t = pn.text.clone();
            ctx.fail("panic", &format!("case {idx}"), format!("panic: {t}"));
            Ok(())
        }
    }
}

pub struct WorkerArgs {
    pub seed: u64,
    pub tier: Tier,
    pub from: u64,
    pub step: u64,
    pub to: u64,
    pub out: String,
    pub deadline: f64,
}

pub fn worker(p: &'static Prop, a: WorkerArgs) -> i32 {
    install_panic_hook();
    sys::set_limit(sys::RLIMIT_CORE, 0);
    sys::HARD_LIMIT.store(1 << 30, std::sync::atomic::Ordering::Relaxed);
    sys::LIVE_LIMIT.store(2 << 30, std::sync::atomic::Ordering::Relaxed);
    sys::open_state(&format!("{}.state", a.out));
    sys::start_watchdog(p.cpu);
    let scratch = PathBuf::from(format!("{}.scratch", a.out));
    std::fs::create_dir_all(&scratch).expect("scratch");
    // The size of a main thread's stack.
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let start = Instant::now();
            let mut ctx = Ctx::new(p.id, a.seed, a.tier, scratch);
            let mut idx = a.from;
            let mut harness_errors = Vec::new();
            let mut stopped = false;
            while idx < a.to {
                let cpu = sys::cpu_seconds();
                let done = run_case(&mut ctx, p, idx);
                ctx.max("case_cpu_ms", ((sys::cpu_seconds() - cpu) * 1e3) as u64);
                if let Err(e) = done {
                    harness_errors.push(e);
                    if harness_errors.len() > 20 {
                        break;
                    }
                }
                idx += a.step;
                if ctx.viols.len() >= 40 || start.elapsed().as_secs_f64() > a.deadline {
                    stopped = idx < a.to;
                    break;
                }
            }
            sys::begin_case(u64::MAX);
            let hashes: Vec<u8> = ctx.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
            std::fs::write(format!("{}.hashes", a.out), hashes).expect("hashes");
            let v = json!({
                "evals": ctx.evals, "counters": ctx.counters, "samples": ctx.samples,
                "next": idx, "stopped": stopped, "harness_errors": harness_errors,
                "viols": ctx.viols.iter().map(|v| json!({"idx": v.idx, "kind": v.kind, "key": v.key, "detail": v.detail})).collect::<Vec<_>>(),
            });
            std::fs::write(format!("{}.json", a.out), v.to_string()).expect("result");
        })
        .expect("thread")
        .join()
        .map_or(3, |()| 0)
}

// ------------------------------------------------------------------- driver

#[derive(Default)]
struct Merged {
    evals: u64,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    harness_errors: Vec<String>,
    truncated: bool,
}

fn absorb(m: &mut Merged, out: &Path) -> Option<()> {
    let base = out.to_string_lossy().to_string();
    let v: Value = serde_json::from_slice(&std::fs::read(format!("{base}.json")).ok()?).ok()?;
    m.evals += v["evals"].as_u64()?;
    for (k, n) in v["counters"].as_object()? {
        let n = n.as_u64()?;
        let c = m.counters.entry(k.clone()).or_insert(0);
        if k.starts_with("max_") {
            *c = (*c).max(n);
        } else {
            *c += n;
        }
    }
    for s in v["samples"].as_array()? {
        if m.samples.len() < 6 {
            m.samples.push(s.as_str()?.to_string());
        }
    }
    for x in v["viols"].as_array()? {
        m.viols.push(Viol {
            idx: x["idx"].as_u64()?,
            kind: x["kind"].as_str()?.into(),
            key: x["key"].as_str()?.into(),
            detail: x["detail"].as_str()?.into(),
        });
    }
    for e in v["harness_errors"].as_array()? {
        m.harness_errors.push(e.as_str()?.to_string());
    }
    m.truncated |= v["stopped"].as_bool()?;
    let h = std::fs::read(format!("{base}.hashes")).ok()?;
    for c in h.chunks_exact(8) {
        m.distinct
            .insert(u64::from_le_bytes(c.try_into().unwrap_or_default()));
    }
    Some(())
}

fn spawn_worker(p: &Prop, a: &WorkerArgs) -> std::io::Result<std::process::Child> {
    let exe = std::env::current_exe()?;
    Command::new(exe)
        .args([
            "worker",
            p.id,
            &a.seed.to_string(),
            if a.tier == Tier::Quick {
                "quick"
            } else {
                "thorough"
            },
            &a.from.to_string(),
            &a.step.to_string(),
            &a.to.to_string(),
            &a.out,
            &a.deadline.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
}

fn describe_exit(st: std::process::ExitStatus, out: &str) -> (String, Option<u64>) {
    use std::os::unix::process::ExitStatusExt;
    let state = std::fs::read(format!("{out}.state")).unwrap_or_default();
    let word = |i: usize| -> Option<u64> {
        state
            .get(i * 8..i * 8 + 8)
            .map(|b| u64::from_le_bytes(b.try_into().unwrap_or_default()))
    };
    let idx = word(0).filter(|&i| i != u64::MAX);
    let why = match st.code() {
        Some(sys::EXIT_HANG) => format!(
            "no result after {} CPU seconds (endless loop or blow-up)",
            word(1).unwrap_or(0)
        ),
        Some(sys::EXIT_ALLOC) => {
            format!("{} bytes allocated at once or held by one thread", word(1).unwrap_or(0))
        }
        Some(c) => format!("exit code {c}"),
        None => format!(
            "killed by signal {} (stack overflow, abort or fault)",
            st.signal().unwrap_or(0)
        ),
    };
    (why, idx)
}

/// Only these ways of ending say something about the code under test.
fn is_crash(st: std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    match st.code() {
        Some(c) => c == sys::EXIT_HANG || c == sys::EXIT_ALLOC,
        // SIGKILL and SIGTERM come from outside (memory guard, a time limit).
        None => !matches!(st.signal(), Some(9 | 15 | 2)),
    }
}

struct KnownFinding {
    prop: String,
    key: String,
    what: String,
}

fn known_findings(root: &Path) -> Vec<KnownFinding> {
    let mut out = Vec::new();
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("open: ") else {
            continue;
        };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(k), what) = (it.next(), it.next(), it.next().unwrap_or("")) else {
            continue;
        };
        if let (Some(p), Some(k)) = (p.strip_prefix("property="), k.strip_prefix("key=")) {
            out.push(KnownFinding {
                prop: p.into(),
                key: k.into(),
                what: what.into(),
            });
        }
    }
    out
}

/// Run one case in a fresh process, alone or after the cases that preceded it,
/// and return what it reports.
fn rerun(p: &'static Prop, seed: u64, tier: Tier, idx: u64, after: Option<(u64, u64)>, dir: &Path) -> (Vec<Viol>, bool) {
    let out = dir.join(format!("re{idx}-{}", after.is_some()));
    let (from, step) = after.unwrap_or((idx, 1));
    let a = WorkerArgs {
        seed,
        tier,
        from,
        step,
        to: idx + 1,
        out: out.to_string_lossy().into(),
        deadline: 1e9,
    };
    let Ok(child) = spawn_worker(p, &a) else {
        return (vec![], false);
    };
    let Ok(o) = child.wait_with_output() else {
        return (vec![], false);
    };
    if o.status.success() {
        let mut m = Merged::default();
        if absorb(&mut m, &out).is_none() {
            return (vec![], false);
        }
        return (m.viols, m.harness_errors.is_empty());
    }
    if !is_crash(o.status) {
        return (vec![], false);
    }
    let (why, i) = describe_exit(o.status, &a.out);
    if i != Some(idx) && after.is_none() {
        return (vec![], false);
    }
    (
        vec![Viol {
            idx,
            kind: "crash".into(),
            key: format!("crash:{idx}"),
            detail: why,
        }],
        true,
    )
}

/// `only` replays one case, alone or as the last of those from a first one on
/// in steps.
pub fn drive(p: &'static Prop, tier: Tier, seed: u64, root: &Path, only: Option<(u64, Option<(u64, u64)>)>) -> i32 {
    let start = Instant::now();
    let dir = root.join("work").join(format!(
        "{}-{}",
        p.id,
        std::process::id()
    ));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("work dir");
    let n = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).min(8);
    let scale: f64 = std::env::var("MON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == Tier::Quick { p.quick } else { p.thorough }) as f64 * scale) as u64;
    let deadline = std::env::var("MON_DEADLINE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 120.0 } else { 1500.0 });
    let mut m = Merged::default();
    let mut crash_idx: Vec<u64> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();

    let jobs: Vec<(u64, u64, u64)> = match only {
        Some((i, None)) => vec![(i, 1, i + 1)],
        Some((i, Some((from, step)))) => vec![(from, step.max(1), i + 1)],
        None => (0..n).map(|w| (w, n, total)).collect(),
    };
    let mut running = Vec::new();
    let mut serial = 0u64;
    let mut hangs = false;
    for (from, step, to) in jobs {
        let out = dir.join(format!("w{serial}"));
        serial += 1;
        let a = WorkerArgs { seed, tier, from, step, to, out: out.to_string_lossy().into(), deadline };
        match spawn_worker(p, &a) {
            Ok(c) => running.push((c, a, Instant::now(), 0u32)),
            Err(e) => inconclusive.push(format!("could not start a worker: {e}")),
        }
    }
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < running.len() {
            let (c, a, began, restarts) = &mut running[i];
            match c.try_wait() {
                Ok(None) => {
                    if began.elapsed().as_secs_f64() > a.deadline + 120.0 {
                        let _ = c.kill();
                        let _ = c.wait();
                        inconclusive.push("a worker made no progress and was stopped".into());
                        running.swap_remove(i);
                        continue;
                    }
                    i += 1;
                }
                Ok(Some(st)) => {
                    let mut again = None;
                    if st.success() {
                        if absorb(&mut m, Path::new(&a.out)).is_none() {
                            inconclusive.push("a worker left no result".into());
                        }
                    } else {
                        let (why, idx) = describe_exit(st, &a.out);
                        match idx {
                            Some(idx) if is_crash(st) => {
                                crash_idx.push(idx);
                                hangs |= st.code() == Some(sys::EXIT_HANG);
                                if !hangs && *restarts < 3 && crash_idx.len() < 12 {
                                    again = Some((idx + a.step, *restarts + 1));
                                }
                            }
                            _ => {
                                let mut err = String::new();
                                if let Some(mut e) = c.stderr.take() {
                                    use std::io::Read;
                                    let _ = e.read_to_string(&mut err);
                                }
                                inconclusive.push(format!("a worker ended abnormally: {why} {err}"));
                            }
                        }
                    }
                    let (_, a, _, _) = running.swap_remove(i);
                    if let Some((from, r)) = again {
                        let out = dir.join(format!("w{serial}"));
                        serial += 1;
                        let a = WorkerArgs { from, out: out.to_string_lossy().into(), ..a };
                        match spawn_worker(p, &a) {
                            Ok(c) => running.push((c, a, Instant::now(), r)),
                            Err(e) => inconclusive.push(format!("could not start a worker: {e}")),
                        }
                    }
                }
                Err(e) => {
                    inconclusive.push(format!("wait failed: {e}"));
                    running.swap_remove(i);
                }
            }
        }
    }

    // Confirm every reported case in isolation before believing it.
    let mut cand: Vec<u64> = m.viols.iter().map(|v| v.idx).collect();
    cand.sort_unstable();
    cand.dedup();
    // crashes last: an endless loop takes its time again
    crash_idx.sort_unstable();
    crash_idx.retain(|i| !cand.contains(i));
    cand.extend(crash_idx);
    let known = known_findings(root);
    let mut confirmed: Vec<Viol> = Vec::new();
    let mut hit: Vec<usize> = Vec::new();
    let mut histories: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    let mut tried = 0;
    for &idx in cand.iter().take(60) {
        if confirmed.len() >= 5 || (!confirmed.is_empty() && start.elapsed().as_secs() > 240) {
            break;
        }
        let (mut vs, _) = rerun(p, seed, tier, idx, None, &dir);
        if vs.is_empty() && confirmed.is_empty() && tried < 3 {
            // What went wrong may depend on the cases before it in the process.
            tried += 1;
            let after = match only {
                Some((_, a)) => a,
                None => Some((idx % n, n)),
            };
            if let Some(a) = after {
                vs = rerun(p, seed, tier, idx, Some(a), &dir).0;
                for v in &mut vs {
                    histories.insert(v.idx, a);
                    v.detail = format!("after the cases before it in the same process:\n{}", v.detail);
                }
            }
        }
        if vs.is_empty() {
            inconclusive.push(format!("case {idx} was reported once but did not repeat"));
        }
        for v in vs {
            if let Some(k) = known.iter().position(|k| k.prop == p.id && k.key == v.key) {
                if !hit.contains(&k) {
                    hit.push(k);
                }
            } else if confirmed.len() < 5 && !confirmed.iter().any(|c| c.idx == v.idx) {
                confirmed.push(v);
            }
        }
    }
    for h in &m.harness_errors {
        inconclusive.push(format!("harness error: {h}"));
    }

    let stdout = std::io::stdout();
    let mut so = stdout.lock();
    for k in &known {
        if k.prop == p.id && (only.is_none()) {
            let _ = writeln!(so, "KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    let replays = root.join("replays");
    for v in &confirmed {
        let _ = std::fs::create_dir_all(&replays);
        let path = replays.join(format!("{}-s{}-{}.json", p.id, seed, v.idx));
        let body = json!({"property": p.id, "seed": seed,
            "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
            "case": v.idx, "kind": v.kind, "key": v.key, "detail": v.detail,
            "after": histories.get(&v.idx).map(|(from, step)| json!({"from": from, "step": step})),
            "replay": format!("bin/replay {}", path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap_or_default());
        let _ = writeln!(so, "VIOLATION property={} replay={}", p.id, path.display());
        let _ = writeln!(so, "  {}: {}", v.kind, v.detail.replace('\n', "\n  "));
    }
    let wall = start.elapsed().as_secs_f64();
    if only.is_none() {
        let mut coverage = json!({
            "evaluations": m.evals,
            "distinct_nontrivial": m.distinct.len(),
            "rule": p.rule,
            "samples": m.samples,
            "observed": m.counters,
            "cases_planned": total,
            "workers": n,
            "stopped_early": m.truncated,
        });
        if !inconclusive.is_empty() {
            coverage["inconclusive"] = json!(inconclusive);
        }
        let ev = json!({
            "property": p.id,
            "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": seed,
            "level": p.level,
            "coverage": coverage,
            "assumptions": p.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": confirmed.len(),
        });
        let dir = root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", p.id)),
            serde_json::to_string_pretty(&ev).unwrap_or_default() + "\n",
        )
        .expect("evidence");
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = writeln!(
        so,
        "{}: {} evaluations, {} distinct non-trivial, {} confirmed violations, {} inconclusive, {:.1} s",
        p.id, m.evals, m.distinct.len(), confirmed.len(), inconclusive.len(), wall
    );
    for s in inconclusive.iter().take(5) {
        let _ = writeln!(so, "  inconclusive: {}", clip(s, 500));
    }
    if !confirmed.is_empty() {
        return 1;
    }
    if !inconclusive.is_empty() {
        return 2;
    }
    if only.is_none() && m.distinct.len() < 2 {
        let _ = writeln!(so, "  nothing was observed");
        return 2;
    }
    0
}
