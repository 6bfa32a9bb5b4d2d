//! C19-C21, C33-C35: the real `toon` binary, observed from outside: exit status, both
//! streams, and what is on disk afterwards.

use crate::core::{Ctx, Prop, Tier, clip};
use crate::gen_::{self, Shape, V};
use crate::rng::Rng;
use crate::{docs, h, json, sys};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs::{self, File};
use std::io::{Read, Seek, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use toon::cli::json_stringify::json_stringify_lines;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C19",
        quick: 30000,
        thorough: 120_000,
        rule: "One evaluation is one run of the real command (random options and spellings, argument order, file or stdin or dash, stdout or file, new or existing output, random extension, document from the shared generators; 40% with short reads and writes, a value for every unset environment variable, descriptors that claim to be terminals) whose exit status, streams and output file are compared with the library's result. Distinct by arguments and input.",
        assumptions: &["the oracle for encoding reads JSON with the same serde_json as the command"],
        run: c19,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C33",
        quick: 16000,
        thorough: 80_000,
        rule: "One evaluation is one successful run of the real command with --stats or an output file (or neither), whose standard error is parsed line by line and compared with the estimates computed from the actual input and output and with the names given. Distinct by arguments and input.",
        assumptions: &["file names in UTF-8"],
        run: c33,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C34",
        quick: 12000,
        thorough: 80_000,
        rule: "One evaluation is one run of the real command (converting, failing, or asked for help) in a tree with a home, a directory for temporary files and bystanders, whose every entry (kind, content, mode, inode, links, time of change) is compared before and after, with every file opened, every change to the tree, every process and every socket recorded by the preloaded observer. Distinct by arguments and input.",
        assumptions: &["system calls made past the C library would not be recorded, only their effect on the tree"],
        run: c34,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C35",
        quick: 16000,
        thorough: 80_000,
        rule: "One evaluation is one run of the real command with one cause of failure (unreadable or unconvertible input, an output that cannot be created or written, a standard stream that fails, invalid arguments), or asked for help, whose exit status and message are compared with that cause. Distinct by arguments, input and fault.",
        assumptions: &["the system's reasons are those of strerror for the injected or provoked error number"],
        run: c35,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C20",
        quick: 30000,
        thorough: 120_000,
        rule: "One evaluation is one run of the real command that has to fail (missing input, input whose k-th read fails, invalid UTF-8, unconvertible text, invalid arguments) with the scratch directory compared before and after. Distinct by arguments and input.",
        assumptions: &["run as root, so permission failures are represented by directories and missing paths"],
        run: c20,
        cpu: 30.0,
        level: "exploration",
    },
    Prop {
        id: "C21",
        quick: 360,
        thorough: 6_000,
        rule: "One evaluation is one run of the real command with one injected write fault (file size limit at a byte position, full device, closed or prematurely closed pipe, directory or missing parent or file as parent, the k-th write failing once or more) or none. Every byte limit from 0 to past the end for outputs under 200 bytes; sampled limits around buffer sizes for longer ones. Distinct by operation, target, limit and output.",
        assumptions: &["a reader that closes early still leaves up to the pipe's capacity (64 KiB) written"],
        run: c21,
        cpu: 30.0,
        level: "fault_enumeration",
    },
];

fn toon_bin() -> PathBuf {
    std::env::var_os("MON_TOON").map(PathBuf::from).expect("MON_TOON names the toon command")
}

#[derive(Clone)]
enum In {
    None,
    Bytes(Vec<u8>),
    Piped(Vec<u8>),
}

#[derive(Clone)]
enum Out {
    Pipe,
    File(PathBuf),
    Full,
    Closed,
    /// The reader takes this many bytes and leaves.
    Leaves(usize),
}

#[derive(Debug)]
struct Run {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
    /// One letter per event the preloaded injector brought about.
    injected: Vec<u8>,
    /// What the preloaded observer saw: kind and path.
    watched: Vec<(u8, PathBuf)>,
    /// Bytes taken from a standard input that is a file.
    taken: u64,
}

impl Run {
    fn events(&self, kind: u8) -> u64 {
        self.injected.iter().filter(|b| **b == kind).count() as u64
    }
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn tell(&self) -> String {
        format!(
            "exit {:?} signal {:?}\nstdout {} bytes: {}\nstderr: {}",
            self.code,
            self.signal,
            self.out.len(),
            clip(&String::from_utf8_lossy(&self.out), 600),
            clip(&String::from_utf8_lossy(&self.err), 600)
        )
    }
}

fn run(dir: &Path, args: &[OsString], stdin: &In, stdout: &Out, limit: Option<u64>) -> Run {
    run_with(dir, args, stdin, stdout, limit, None)
}

/// The same with `inject` (see `inject/inject.c`) deciding what the system
/// calls of the command come to.
fn run_with(dir: &Path, args: &[OsString], stdin: &In, stdout: &Out, limit: Option<u64>, inject: Option<&str>) -> Run {
    let mut cmd = Command::new(toon_bin());
    cmd.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").stderr(Stdio::piped());
    let log = dir.with_extension("injected");
    let watch_log = dir.with_extension("watched");
    let watch = inject.is_some_and(|i| i.starts_with("watch"));
    if let Some(i) = inject {
        let _ = fs::remove_file(&log);
        let _ = fs::remove_file(&watch_log);
        if watch {
            // the places where programs like to leave things
            cmd.env("HOME", dir.join("home")).env("USER", "user").env("LOGNAME", "user");
            for (name, at) in [
                ("TMPDIR", "tmp"),
                ("TMP", "tmp"),
                ("TEMP", "tmp"),
                ("XDG_CONFIG_HOME", "home/.config"),
                ("XDG_CACHE_HOME", "home/.cache"),
                ("XDG_STATE_HOME", "home/.local/state"),
                ("XDG_DATA_HOME", "home/.local/share"),
                ("XDG_RUNTIME_DIR", "tmp"),
            ] {
                cmd.env(name, dir.join(at));
            }
            // where a shell, or a program that started this one, has been
            for (name, at) in [("PWD", "far"), ("OLDPWD", "sub"), ("INIT_CWD", "far"), ("CDPATH", "sub"), ("OUTPUT", "far/output"), ("PROJECT_ROOT", "sub")] {
                cmd.env(name, dir.join(at));
            }
        }
        cmd.env("LD_PRELOAD", std::env::var_os("MON_PRELOAD").expect("MON_PRELOAD names the injector"));
        let mut w = OsString::new();
        if watch {
            w.push("watch=");
            w.push(&watch_log);
            w.push(i.strip_prefix("watch").unwrap_or(i));
        } else {
            w.push(i);
        }
        w.push(";log=");
        w.push(&log);
        cmd.env("MON_INJECT", w);
    }
    let mut feed = None;
    let mut kept = None;
    match stdin {
        In::None => {
            cmd.stdin(Stdio::null());
        }
        In::Bytes(b) => {
            // beside the directory that is compared before and after
            let p = dir.with_extension("stdin");
            fs::write(&p, b).expect("stdin file");
            let f = File::open(&p).expect("stdin file");
            kept = f.try_clone().ok();
            cmd.stdin(f);
        }
        In::Piped(b) => {
            cmd.stdin(Stdio::piped());
            feed = Some(b.clone());
        }
    }
    match stdout {
        Out::Pipe | Out::Leaves(_) | Out::Closed => cmd.stdout(Stdio::piped()),
        Out::File(p) => cmd.stdout(File::create(p).expect("stdout file")),
        Out::Full => cmd.stdout(File::options().write(true).open("/dev/full").expect("/dev/full")),
    };
    unsafe {
        cmd.pre_exec(move || {
            sys::set_limit(sys::RLIMIT_CORE, 0);
            sys::set_limit(sys::RLIMIT_CPU, 20);
            if let Some(n) = limit {
                sys::ignore_signal(sys::SIGXFSZ);
                sys::set_limit(sys::RLIMIT_FSIZE, n);
            }
            Ok(())
        });
    }
    // a closed pipe must be closed before the command starts to write: make it
    // one whose reading end is gone already
    if matches!(stdout, Out::Closed) {
        let (r, w) = std::io::pipe().expect("pipe");
        drop(r);
        cmd.stdout(w);
    }
    let mut child = cmd.spawn().expect("spawn toon");
    drop(cmd);
    let feeder = feed.map(|b| {
        let mut to = child.stdin.take().expect("stdin");
        std::thread::spawn(move || {
            // in two pieces, so that a reader that stops at the first read shows
            let half = b.len() / 2;
            let _ = to.write_all(&b[..half]);
            let _ = to.flush();
            std::thread::yield_now();
            let _ = to.write_all(&b[half..]);
        })
    });
    let mut out = Vec::new();
    let mut err_pipe = child.stderr.take().expect("stderr");
    let errs = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = err_pipe.read_to_end(&mut v);
        v
    });
    if let Some(mut o) = child.stdout.take() {
        match stdout {
            Out::Leaves(n) => {
                let mut buf = vec![0; *n];
                let mut got = 0;
                while got < *n {
                    match o.read(&mut buf[got..]) {
                        Ok(0) | Err(_) => break,
                        Ok(k) => got += k,
                    }
                }
                out.extend_from_slice(&buf[..got]);
                drop(o);
            }
            _ => {
                let _ = o.read_to_end(&mut out);
            }
        }
    }
    let st = child.wait().expect("wait");
    if let Some(f) = feeder {
        let _ = f.join();
    }
    let err = errs.join().unwrap_or_default();
    if let Out::File(p) = stdout {
        out = fs::read(p).unwrap_or_default();
    }
    let injected = if inject.is_some() { fs::read(&log).unwrap_or_default() } else { Vec::new() };
    let watched = if watch { fs::read(&watch_log).unwrap_or_default() } else { Vec::new() };
    let watched = watched.split(|b| *b == 0).filter(|w| !w.is_empty()).map(|w| (w[0], PathBuf::from(OsStr::from_bytes(&w[1..])))).collect();
    let taken = kept.and_then(|mut f| f.stream_position().ok()).unwrap_or(0);
    Run { code: st.code(), signal: st.signal(), out, err, injected, watched, taken }
}

/// Everything in a directory: names with content, or a mark for a directory.
fn snapshot(dir: &Path) -> BTreeMap<OsString, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    for e in fs::read_dir(dir).expect("read dir").flatten() {
        let p = e.path();
        m.insert(e.file_name(), if p.is_dir() { None } else { Some(fs::read(&p).unwrap_or_default()) });
    }
    m
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(c: &Ctx) -> Self {
        let d = c.scratch.join(format!("d{}", c.idx));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("scratch directory");
        Self(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
        let _ = fs::remove_file(self.0.with_extension("stdin"));
        let _ = fs::remove_file(self.0.with_extension("injected"));
        let _ = fs::remove_file(self.0.with_extension("watched"));
    }
}

// ------------------------------------------------------------ option lists

#[derive(Clone, Debug)]
struct Opts {
    flag: Option<bool>, // explicit direction: encode?
    delim: char,
    indent: usize,
    strict: bool,
    fold: bool,
    flatten: Option<usize>,
    expand: bool,
    stats: bool,
}

/// Random options with the words that spell them, in random order.
fn options(r: &mut Rng) -> (Opts, Vec<Vec<OsString>>) {
    let mut w: Vec<Vec<OsString>> = Vec::new();
    let mut o = Opts { flag: None, delim: ',', indent: 2, strict: true, fold: false, flatten: None, expand: false, stats: false };
    let pair = |r: &mut Rng, name: &str, val: &str| -> Vec<OsString> {
        if r.pct(50) {
            vec![name.into(), val.into()]
        } else {
            vec![format!("{name}={val}").into()]
        }
    };
    if r.pct(60) {
        let e = r.pct(50);
        o.flag = Some(e);
        w.push(vec![r.pick::<&str>(if e { &["--encode", "-e"] } else { &["--decode", "-d"] }).into()]);
    }
    if r.pct(50) {
        let (d, n) = *r.pick(&[(',', ","), (',', "comma"), ('|', "|"), ('|', "pipe"), ('\t', "\\t"), ('\t', "\t"), ('\t', "tab")]);
        o.delim = d;
        w.push(pair(r, "--delimiter", n));
    }
    if r.pct(50) {
        o.indent = r.below(17);
        let v = o.indent.to_string();
        w.push(pair(r, "--indent", &v));
    }
    if r.pct(30) {
        o.strict = false;
        w.push(vec!["--no-strict".into()]);
    }
    if r.pct(50) {
        o.fold = r.pct(80);
        w.push(pair(r, "--key-folding", if o.fold { "safe" } else { "off" }));
    }
    if r.pct(40) {
        let n = *r.pick(&[0, 1, 2, 3, 4, 1000, usize::MAX, 256, 1 << 16, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 63, usize::MAX - 1, i64::MAX as usize]);
        o.flatten = Some(n);
        w.push(pair(r, "--flatten-depth", &n.to_string()));
    }
    if r.pct(45) {
        o.expand = r.pct(80);
        w.push(pair(r, "--expand-paths", if o.expand { "safe" } else { "off" }));
    }
    if r.pct(30) {
        o.stats = true;
        w.push(vec!["--stats".into()]);
    }
    (o, w)
}

fn shuffled(r: &mut Rng, mut w: Vec<Vec<OsString>>) -> Vec<OsString> {
    for i in (1..w.len()).rev() {
        w.swap(i, r.below(i + 1));
    }
    w.into_iter().flatten().collect()
}

/// What the library makes of this text with these options.
fn expected(text: &str, encode: bool, o: &Opts) -> Result<String, String> {
    if encode {
        let v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
        let opts = toon::options::EncodeOptions {
            indent: Some(o.indent),
            delimiter: Some(o.delim),
            key_folding: Some(if o.fold { toon::options::KeyFoldingMode::Safe } else { toon::options::KeyFoldingMode::Off }),
            flatten_depth: o.flatten,
            replacer: None,
        };
        Ok(toon::encode(V::from(v), Some(opts)) + "\n")
    } else {
        let v = toon::try_decode(text, h::dopts(o.indent, o.strict, o.expand)).map_err(|e| e.to_string())?;
        Ok(json_stringify_lines(&v, o.indent).concat() + "\n")
    }
}

/// A text of either kind, mostly fitting the direction.
fn text_for(r: &mut Rng, encode: bool, o: &Opts) -> String {
    let sh = Shape::any(r);
    if encode {
        let v = match r.below(10) {
            0..=2 => chain_value(r, 0),
            3 if r.pct(20) => {
                let cap = if r.pct(5) { 70_003 } else { 9000 };
                gen_::big(r, cap)
            }
            3 => gen_::large(r, sh),
            4 => gen_::prim(r, sh),
            _ => gen_::root(r),
        };
        let mut t = String::new();
        json::write(r, &v, &mut t);
        match r.below(10) {
            0 if r.pct(50) => json::nearly(r, &t),
            0 => docs::mutate(r, &t, 2),
            1 => docs::any_text(r).0,
            2 => format!("{t}\n"),
            _ => t,
        }
    } else {
        match r.below(10) {
            0 => docs::any_text(r).0,
            1 => {
                let v = chain_value(r, 0);
                toon::encode(v, h::eopts(h::delim(r), o.indent, None))
            }
            2 => {
                let mut t = String::new();
                let v = gen_::root(r);
                json::write(r, &v, &mut t);
                t
            }
            3 => expand_doc(r),
            _ => {
                let v = match r.below(5) {
                    0 if r.pct(10) => {
                        let cap = if r.pct(5) { 70_003 } else { 9000 };
                        gen_::big(r, cap)
                    }
                    0 => gen_::large(r, sh),
                    1 => chain_value(r, 0),
                    _ => gen_::root(r),
                };
                let fold = if r.pct(50) { Some(usize::MAX) } else { None };
                let t = toon::encode(v, h::eopts(h::delim(r), o.indent, fold));
                match r.below(6) {
                    0 => docs::mutate(r, &t, o.indent),
                    1 => t + "\n",
                    2 => t.replace('\n', "\r\n"),
                    _ => t,
                }
            }
        }
    }
}

/// Chains of single identifier keys, where folding options show.
fn chain_value(r: &mut Rng, depth: usize) -> V {
    let leaf = |r: &mut Rng| match r.below(5) {
        0 => V::Array(vec![gen_::n(1.0), gen_::s("a,b")]),
        1 => V::Object(vec![]),
        2 => V::Array((0..2).map(|i| V::Object(vec![("x".into(), gen_::n(i as f64)), ("y".into(), gen_::s("p|q"))])).collect()),
        _ => {
            let sh = Shape::any(r);
            gen_::prim(r, sh)
        }
    };
    let k = r.range(1, 3);
    let mut names = vec!["a", "b", "c", "data", "a.b"];
    let mut out = Vec::new();
    for _ in 0..k {
        let i = r.below(names.len());
        let name = names.remove(i).to_string();
        let mut v = if depth < 2 && r.pct(40) { chain_value(r, depth + 1) } else { leaf(r) };
        for _ in 0..r.below(5) {
            v = V::Object(vec![((*r.pick(&["x", "y", "z1", "_w"])).to_string(), v)]);
        }
        out.push((name, v));
    }
    V::Object(out)
}

/// Dotted keys, some of which collide.
fn expand_doc(r: &mut Rng) -> String {
    let k = r.range(1, 4);
    (0..k)
        .map(|_| {
            let p = *r.pick(&["a", "a.b", "a.b.c", "a.c", "\"a.b\"", "b", "b.a", "a-b.c", "a..b"]);
            format!("{p}: {}", r.pick::<&str>(&["1", "x", "\"\"", "true"]))
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Input file names with the direction the extension gives.
const NAMES: &[(&[u8], bool)] = &[
    (b"in.json", true),
    (b"in.JSON", true),
    (b"in.Json", true),
    (b"in.toon", false),
    (b"in.TOON", false),
    (b"in.ToOn", false),
    (b"in.toon.json", true),
    (b"in.json.toon", false),
    (b"in.json.txt", true),
    (b"in.toon.bak", true),
    (b"in.txt", true),
    (b"in", true),
    (b"toon", true),
    (b"json", true),
    (b"in.toons", true),
    (b"in.to", true),
    (b"in.", true),
    ("stra\u{df}e \u{1f980}.toon".as_bytes(), false),
    (b"bad\xff.toon", false),
    (b"sub/in.toon", false),
    (b"dir.toon/in.json", true),
    (b"dir.json/in.toon", false),
    (b"dir.toon/in", true),
    (b"./in.toon", false),
    // a name that begins with its only dot has no extension
    (b".toon", true),
    (b".json", true),
    (b".TOON", true),
    (b"sub/.toon", true),
    (b".in.toon", false),
    (b"..toon", false),
    (b"in.toon~", true),
    (b"in.toon.", true),
    (b"in.toon ", true),
    (b"in. toon", true),
    (b"in.json.toon.JSON", true),
    (b"in..toon", false),
    ("in.t\u{f6}on".as_bytes(), true),
    ("in.\u{ff54}oon".as_bytes(), true),
    (b"in.t\xffoon", true),
];

fn os(b: &[u8]) -> OsString {
    OsStr::from_bytes(b).to_os_string()
}

// --------------------------------------------------------------------- C19

fn c19(c: &mut Ctx, _idx: u64) {
    let sc = Scratch::new(c);
    let dir = sc.0.clone();
    let r = &mut c.rng;
    let (o, mut words) = options(r);
    // input source
    let source = r.below(4);
    let (name, by_ext) = *r.pick(NAMES);
    let encode = o.flag.unwrap_or(if source < 2 { by_ext } else { true });
    let text = text_for(r, encode, &o);
    let want = expected(&text, encode, &o);
    let mut stdin = In::None;
    let mut piped_name = false;
    match source {
        0 | 1 => {
            let p = dir.join(os(name));
            fs::create_dir_all(p.parent().expect("parent")).expect("input directory");
            // a name for a pipe is as good as one for a file
            let pipe = r.pct(6);
            if pipe {
                std::os::unix::fs::symlink("/proc/self/fd/0", &p).expect("link");
                stdin = In::Piped(text.clone().into_bytes());
            } else {
                fs::write(&p, &text).expect("input file");
            }
            let word = if r.pct(20) { p.clone().into_os_string() } else { os(name) };
            words.push(vec![word]);
            piped_name = pipe;
            if !pipe && r.pct(30) {
                stdin = In::Bytes(b"not: this\n".to_vec());
            }
        }
        2 => stdin = if r.pct(50) { In::Piped(text.clone().into_bytes()) } else { In::Bytes(text.clone().into_bytes()) },
        _ => {
            words.push(vec!["-".into()]);
            stdin = if r.pct(50) { In::Piped(text.clone().into_bytes()) } else { In::Bytes(text.clone().into_bytes()) };
        }
    }
    // output target
    let target = r.below(6);
    let mut out_file: Option<PathBuf> = None;
    let mut out_is_stdout = false;
    let mut stdout = Out::Pipe;
    match target {
        0 | 1 => {}
        2 => stdout = Out::File(dir.join("redirected")),
        _ => {
            let p = if target == 5 && source < 2 && !piped_name && r.pct(50) {
                dir.join(os(name)) // the input itself
            } else {
                dir.join(os(*r.pick(&[&b"out.toon"[..], b"out.json", b"out", b"out.txt", b"\xfe.toon", b"-", b"out -", b"stdout"])))
            };
            if target == 3 && r.pct(8) && fs::symlink_metadata(&p).is_err() {
                std::os::unix::fs::symlink("/proc/self/fd/1", &p).expect("link");
                out_is_stdout = true;
            }
            if target == 4 && !p.exists() {
                fs::write(&p, "old content\n".repeat(r.range(1, 3000))).expect("old output");
            }
            let word = p.file_name().map(OsStr::to_os_string).expect("name");
            let inside = p.parent() == Some(dir.as_path());
            let word = if inside && r.pct(70) { word } else { p.clone().into_os_string() };
            let spelled = match r.below(4) {
                0 => vec!["-o".into(), word],
                1 => vec!["--output".into(), word],
                2 => {
                    let mut s = OsString::from("--output=");
                    s.push(&word);
                    vec![s]
                }
                _ => {
                    let mut s = OsString::from("-o");
                    s.push(&word);
                    vec![s]
                }
            };
            words.push(spelled);
            out_file = Some(p);
        }
    }
    // surroundings that the result must not depend on
    let inject = r.pct(40).then(|| {
        let mut w = vec![format!("env={}", r.next())];
        if r.pct(70) {
            w.push(format!("short={}", r.next()));
        }
        if r.pct(50) {
            w.push("tty=1".into());
        }
        w.join(";")
    });
    let args = shuffled(r, words);
    let tag = format!("{args:?} (encode {encode})\n{text}");
    let run = run_with(&dir, &args, &stdin, &stdout, None, inject.as_deref());
    c.seen(&tag, want.is_ok());
    let tag = inject.as_ref().map_or(tag.clone(), |i| format!("{i}\n{tag}"));
    if inject.is_some() {
        c.note("runs_in_other_surroundings");
        for (k, n) in [(b's', "short_reads_and_writes"), (b'e', "environment_reads_answered"), (b't', "terminal_questions_answered")] {
            c.add(n, run.events(k));
        }
    }
    c.note(match (encode, want.is_ok()) {
        (true, true) => "encoded",
        (true, false) => "encode_refused",
        (false, true) => "decoded",
        (false, false) => "decode_refused",
    });
    c.note(match source {
        0 | 1 if piped_name => "from_named_pipe",
        0 | 1 => "from_file",
        2 => "from_stdin",
        _ => "from_dash",
    });
    c.note(match target {
        0 | 1 => "to_pipe",
        2 => "to_redirected_file",
        _ if out_is_stdout => "to_named_pipe",
        _ => "to_output_file",
    });
    c.max("output_bytes", want.as_ref().map_or(0, String::len) as u64);
    c.sample(|| format!("{tag}\n=> {}", run.tell()));
    match &want {
        Err(e) => {
            if run.ok() {
                c.fail("accepted", &tag, format!("the library fails ({e}), the command does not: {}", run.tell()));
            }
        }
        Ok(w) => {
            if !run.ok() {
                c.fail("refused", &tag, format!("the library succeeds, the command does not: {}", run.tell()));
                return;
            }
            if let Some(p) = &out_file
                && !out_is_stdout
            {
                let got = fs::read(p).unwrap_or_default();
                if got != w.as_bytes() {
                    c.fail("output file", &tag, format!("want {w:?}\ngot  {:?}", String::from_utf8_lossy(&got)));
                }
                if !run.out.is_empty() {
                    c.fail("stdout with an output file", &tag, run.tell());
                }
            } else if run.out != w.as_bytes() {
                c.fail("stdout", &tag, format!("want {w:?}\ngot  {:?}", String::from_utf8_lossy(&run.out)));
            }
            if o.stats && encode {
                c.note("statistics_asked_for");
                if run.err.is_empty() {
                    c.fail("statistics", &tag, format!("--stats printed nothing on standard error: {}", run.tell()));
                }
            }
            if !encode && let Ok(v) = toon::try_decode(&text, h::dopts(o.indent, o.strict, o.expand)) {
                let body = w.strip_suffix('\n').unwrap_or(w);
                if let Err(e) = json::matches(body, &v, o.indent) {
                    c.fail("layout", &tag, format!("{e}: {body}"));
                }
            }
        }
    }
}

// --------------------------------------------------------------------- C20

fn c20(c: &mut Ctx, _idx: u64) {
    let sc = Scratch::new(c);
    let dir = sc.0.join("work");
    fs::create_dir_all(&dir).expect("work");
    let r = &mut c.rng;
    let (mut o, mut words) = options(r);
    if o.flag.is_none() {
        let e = r.pct(50);
        o.flag = Some(e);
        words.push(vec![if e { "--encode" } else { "-d" }.into()]);
    }
    let encode = o.flag == Some(true);
    let mut stdin = In::None;
    let mut text: Vec<u8> = text_for(r, encode, &o).into_bytes();
    let kind = r.below(11);
    let mut via_stdin = r.pct(40);
    let mut inject: Option<String> = None;
    let mut name: OsString = os(*r.pick(&[&b"in.json"[..], b"in.toon", b"in"]));
    let mut write_input = true;
    let what = match kind {
        0 => {
            write_input = false;
            via_stdin = false;
            name = os(*r.pick(&[&b"missing.json"[..], b"no/such/dir.toon", b"in.json/below"]));
            if name == "in.json/below" {
                fs::write(dir.join("in.json"), b"{}").expect("file as parent");
            }
            "missing input"
        }
        1 => {
            write_input = false;
            via_stdin = false;
            fs::create_dir_all(dir.join(&name)).expect("directory as input");
            "directory as input"
        }
        10 => {
            // a read that fails, at once or after part of the input
            let at = *r.pick(&[1, 1, 2, 2, 3, 5, 9]);
            let short = if at > 2 || r.pct(50) { format!(";short={}", r.next()) } else { String::new() };
            inject = Some(format!("rfail={at}:{}{short}", r.pick(&[5, 5, 110, 116, 12])));
            "failing read"
        }
        2..=4 => {
            // bytes that are not UTF-8, anywhere in a text that is otherwise fine
            let bad: &[&[u8]] = &[b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\x80", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xfe\xff"];
            let b = *r.pick(bad);
            let at = match r.below(4) {
                0 => 0,
                1 => text.len(),
                _ => r.below(text.len() + 1),
            };
            text.splice(at..at, b.iter().copied());
            if std::str::from_utf8(&text).is_ok() {
                text.push(0xff);
            }
            "invalid UTF-8"
        }
        5 | 6 => {
            // invalid arguments; the input is whatever it is
            let bad: &[&[&str]] = &[
                &["--indent", "17"],
                &["--indent=-1"],
                &["--indent", "x"],
                &["--indent="],
                &["--indent", "2.0"],
                &["--indent", "256"],
                &["--delimiter", ";"],
                &["--delimiter", ""],
                &["--delimiter=,,"],
                &["--delimiter", "TAB"],
                &["--key-folding", "on"],
                &["--key-folding="],
                &["--flatten-depth", "-1"],
                &["--flatten-depth", "x"],
                &["--flatten-depth", "99999999999999999999999"],
                &["--expand-paths", "unsafe"],
                &["--no-strict=false"],
                &["--frobnicate"],
                &["-x"],
                &["-e", "-d"],
                &["--decode", "--encode"],
                &["extra1", "extra2"],
                &["--stats=1"],
            ];
            let b = *r.pick(bad);
            let name = b[0].split('=').next().unwrap_or("");
            words.retain(|w| !w[0].to_string_lossy().starts_with(name));
            words.push(b.iter().map(|s| OsString::from(*s)).collect());
            if b[0] == "-e" || b[0] == "--decode" {
                words.retain(|w| w.len() != 1 || !["-e", "-d", "--encode", "--decode"].contains(&w[0].to_string_lossy().as_ref()));
            }
            "invalid arguments"
        }
        _ => {
            // text that cannot be converted
            let mut t = String::from_utf8(text.clone()).expect("text");
            let mut tries = 0;
            while expected(&t, encode, &o).is_ok() && tries < 40 {
                t = match r.below(4) {
                    0 if encode => format!("{t}{}", r.pick::<&str>(&["}", "]", ",", "x", "\"", "\u{0}"])),
                    1 if encode => {
                        let mut k = r.below(t.len() + 1);
                        while !t.is_char_boundary(k) {
                            k -= 1;
                        }
                        t[..k].to_string()
                    }
                    0 if o.strict => format!("{t}\nbad[9]: 1"),
                    1 => format!("{t}\n\"open: 1"),
                    2 if !encode => format!("k: \"\\x\"\n{t}"),
                    _ => docs::mutate(r, &t, o.indent),
                };
                tries += 1;
            }
            if expected(&t, encode, &o).is_ok() {
                return;
            }
            text = t.into_bytes();
            "unconvertible text"
        }
    };
    // the same in an input of another size
    if matches!(what, "invalid UTF-8" | "unconvertible text") && r.pct(5) {
        let n = *r.pick(&[9_000usize, 70_000, 140_000, 1_100_000]);
        let mut big = Vec::with_capacity(n + text.len());
        if encode {
            big.resize(n, b' ');
        }
        let mut k = 0;
        while big.len() < n {
            k += 1;
            big.extend_from_slice(format!("pad{k}: {}\n", "x".repeat(990)).as_bytes());
        }
        big.extend_from_slice(&text);
        if std::str::from_utf8(&big).map_or(true, |t| expected(t, encode, &o).is_err()) {
            text = big;
        }
    }
    if via_stdin {
        stdin = if r.pct(50) { In::Piped(text.clone()) } else { In::Bytes(text.clone()) };
        if r.pct(50) {
            words.push(vec!["-".into()]);
        }
    } else {
        if write_input {
            fs::write(dir.join(&name), &text).expect("input");
        }
        words.push(vec![name.clone()]);
    }
    // output target
    let target = r.below(5);
    let mut stdout = Out::Pipe;
    match target {
        0 => {}
        1 => stdout = Out::File(sc.0.join("redirected")),
        _ => {
            let p: OsString = match target {
                4 if !via_stdin && write_input => name.clone(),
                _ => "kept.out".into(),
            };
            if target != 3 && !dir.join(&p).exists() {
                // an empty file is one too
                let n = if r.pct(20) { 0 } else { r.range(1, 400) };
                fs::write(dir.join(&p), "precious\n".repeat(n)).expect("old output");
            }
            words.push(vec![r.pick::<&str>(&["-o", "--output"]).into(), p]);
        }
    }
    let before = snapshot(&dir);
    let args = shuffled(r, words);
    let tag = format!("{what}: {args:?}\n{}", String::from_utf8_lossy(&text));
    let run = run_with(&dir, &args, &stdin, &stdout, None, inject.as_deref());
    if inject.is_some() && run.events(b'r') == 0 {
        c.note("failing_read_never_reached");
        return;
    }
    let after = snapshot(&dir);
    c.seen(&tag, true);
    let tag = inject.as_ref().map_or(tag.clone(), |i| format!("{i}\n{tag}"));
    c.max("failing_input_bytes", text.len() as u64);
    c.note(&format!("failing_case_{}", what.replace([' ', '-'], "_")));
    c.note(match target {
        0 | 1 => "to_stdout",
        3 => "missing_output_file",
        _ => "existing_output_file",
    });
    c.sample(|| format!("{tag}\n=> {}", run.tell()));
    if run.code.is_none() || run.code == Some(0) {
        c.fail("status", &tag, format!("{what} did not end in a non-zero exit: {}", run.tell()));
    }
    if run.err.is_empty() {
        c.fail("silent", &tag, format!("{what} printed nothing on standard error: {}", run.tell()));
    }
    if !run.out.is_empty() {
        c.fail("stdout", &tag, format!("{what} wrote to standard output: {}", run.tell()));
    }
    if before != after {
        let diff: Vec<String> = after
            .keys()
            .chain(before.keys())
            .filter(|k| before.get(*k) != after.get(*k))
            .map(|k| format!("{}: {:?} bytes before, {:?} after", k.to_string_lossy(), before.get(k).map(|x| x.as_ref().map(Vec::len)), after.get(k).map(|x| x.as_ref().map(Vec::len))))
            .collect();
        c.fail("files", &tag, format!("{what} changed files: {diff:?}\n{}", run.tell()));
    }
}

// --------------------------------------------------------------------- C21

fn c21(c: &mut Ctx, idx: u64) {
    let sc = Scratch::new(c);
    let dir = sc.0.clone();
    let thorough = c.tier == Tier::Thorough;
    let encode = c.rng.pct(50);
    let stats = encode && c.rng.pct(40);
    let expand = !encode && c.rng.pct(30);
    let indent = *c.rng.pick(&[0usize, 2, 2, 4, 16]);
    let o = Opts { flag: Some(encode), delim: ',', indent, strict: true, fold: false, flatten: None, expand, stats };
    // a document of the wanted size
    let big = idx % 3 == 2;
    let (text, want) = loop {
        let r = &mut c.rng;
        let sh = Shape::any(r);
        let v = if big {
            let n = *r.pick(&[60usize, 200, 900, 6000]);
            match r.below(3) {
                0 => V::Array((0..n).map(|i| V::Object(vec![("id".into(), gen_::n(i as f64)), ("name".into(), gen_::s(&format!("item number {i}")))])).collect()),
                1 => V::Object(vec![("text".into(), gen_::s(&"long string ".repeat(n)))]),
                _ => V::Object((0..n).map(|i| (format!("k{i}"), V::Array(vec![gen_::prim(r, sh), gen_::n(i as f64)]))).collect()),
            }
        } else {
            gen_::root(r)
        };
        let text = if encode {
            let mut t = String::new();
            json::write(r, &v, &mut t);
            t
        } else {
            toon::encode(v, h::eopts(',', if indent == 0 { 2 } else { indent }, None))
        };
        if let Ok(w) = expected(&text, encode, &o)
            && (big || w.len() < 200)
        {
            break (text, w);
        }
    };
    fs::write(dir.join("in"), &text).expect("input");
    let mut base: Vec<OsString> = vec![if encode { "-e" } else { "-d" }.into(), "in".into(), format!("--indent={indent}").into()];
    if stats {
        base.push("--stats".into());
    }
    if expand {
        base.push("--expand-paths=safe".into());
    }
    let len = want.len();
    c.max("output_bytes", len as u64);
    let limits: Vec<usize> = if len < 200 {
        (0..=len + 1).collect()
    } else {
        let mut l: Vec<usize> = vec![0, 1, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, len / 2, len.saturating_sub(8193), len - 2, len - 1, len, len + 1];
        for _ in 0..if thorough { 60 } else { 12 } {
            l.push(c.rng.below(len + 2));
        }
        // the end of the last whole buffer
        l.push(len / 8192 * 8192);
        l.push(len / 1024 * 1024);
        l.sort_unstable();
        l.dedup();
        l
    };
    let with_o = |p: &str| {
        let mut a = base.clone();
        a.push("-o".into());
        a.push(p.into());
        a
    };
    let op = format!("{base:?} ({} bytes of output)", len);
    let key = |what: &str| format!("{what}\n{op}\n{text}");
    let judge = |c: &mut Ctx, what: String, complete: bool, must_fail: bool, run: &Run| {
        c.seen(&key(&what), true);
        c.sample(|| format!("{what}\n{op}\n=> {}", run.tell()));
        if run.signal.is_some() {
            c.note("ended_by_signal");
        }
        if run.ok() {
            c.note("reported_success");
            if !complete {
                c.fail("success without the output", &key(&what), format!("{what}: exit 0, but the output is not complete: {}", run.tell()));
            }
        } else {
            c.note("reported_failure");
            if run.err.is_empty() {
                c.fail("silent", &key(&what), format!("{what}: nothing on standard error: {}", run.tell()));
            }
            if !must_fail {
                c.fail("failure without a fault", &key(&what), format!("{what}: nothing was wrong with the target: {}", run.tell()));
            }
        }
    };
    for &k in &limits {
        // size limit on the output file
        let p = dir.join("out");
        match k % 3 {
            0 => {
                let _ = fs::remove_file(&p);
            }
            1 => fs::write(&p, "old").expect("old output"),
            _ => fs::write(&p, want.repeat(2)).expect("old output"),
        }
        let r = run(&dir, &with_o("out"), &In::None, &Out::Pipe, Some(k as u64));
        let complete = fs::read(&p).is_ok_and(|b| b == want.as_bytes());
        c.note("byte_limits_on_output_files");
        judge(c, format!("-o out, file size limit {k}"), complete, k < len, &r);
        // and on redirected standard output
        let q = dir.join("redirected");
        let r = run(&dir, &base, &In::None, &Out::File(q), Some(k as u64));
        let complete = r.out == want.as_bytes();
        c.note("byte_limits_on_standard_output");
        judge(c, format!("stdout to a file, file size limit {k}"), complete, k < len, &r);
    }
    // writes that fail, once or from then on, and writes that take only a part
    let errnos: &[i32] = &[28, 28, 5, 122, 27, 32, 11];
    let count = |c: &mut Ctx, p: Option<&Path>| {
        let a = if p.is_some() { with_o("out") } else { base.clone() };
        let seed = c.rng.next();
        let inject = format!("short={seed}");
        let r = run_with(&dir, &a, &In::None, &Out::Pipe, None, Some(&inject));
        let complete = p.map_or_else(|| r.out == want.as_bytes(), |p| fs::read(p).is_ok_and(|b| b == want.as_bytes()));
        c.add("short_reads_and_writes", r.events(b's'));
        judge(c, format!("{inject} {}", if p.is_some() { "-o out" } else { "stdout" }), complete, false, &r);
    };
    let out = dir.join("out");
    count(c, None);
    count(c, Some(&out));
    for to_file in [false, true] {
        let mut k = 1;
        let mut tried = 0;
        loop {
            let a = if to_file { with_o("out") } else { base.clone() };
            let _ = fs::remove_file(&out);
            let seed = c.rng.next();
            let times = *c.rng.pick(&[1u32, 1, 2, 1_000_000]);
            let short = if c.rng.pct(40) { format!(";short={seed}") } else { String::new() };
            let inject = format!("wfail={k}:{}:{times}{short}", c.rng.pick(errnos));
            let r = run_with(&dir, &a, &In::None, &Out::Pipe, None, Some(&inject));
            let got = if to_file { fs::read(&out).unwrap_or_default() } else { r.out.clone() };
            let hit = r.events(b'w');
            c.add("failed_writes", hit);
            judge(c, format!("{inject} {}", if to_file { "-o out" } else { "stdout" }), got == want.as_bytes(), hit > 0, &r);
            tried += 1;
            if hit == 0 || tried >= if thorough { 60 } else { 12 } {
                break;
            }
            k += if k < 6 { 1 } else { c.rng.range(1, 2 * k) };
        }
    }
    // targets that take nothing
    let r = run(&dir, &base, &In::None, &Out::Full, None);
    c.note("full_device");
    judge(c, "stdout to /dev/full".into(), false, true, &r);
    // by a link, so that code that removes its output file removes the link
    std::os::unix::fs::symlink("/dev/full", dir.join("full")).expect("link");
    let r = run(&dir, &with_o("full"), &In::None, &Out::Pipe, None);
    c.note("full_device");
    judge(c, "-o a link to /dev/full".into(), false, true, &r);
    let r = run(&dir, &base, &In::None, &Out::Closed, None);
    c.note("closed_pipe");
    judge(c, "stdout to a closed pipe".into(), false, true, &r);
    fs::create_dir_all(dir.join("a_directory")).expect("directory");
    for p in ["a_directory", "no/such/parent", "in/below", "a_directory/", ""] {
        let r = run(&dir, &with_o(p), &In::None, &Out::Pipe, None);
        c.note("bad_targets");
        judge(c, format!("-o {p:?}"), false, true, &r);
    }
    if fs::read(dir.join("in")).is_ok_and(|b| b != text.as_bytes()) {
        c.fail("input changed", &key("bad targets"), "the input file changed".into());
    }
    // a reader that leaves
    for n in [1, 100, len / 2, 65536, len] {
        let n = n.min(len);
        let r = run(&dir, &base, &In::None, &Out::Leaves(n), None);
        c.note("readers_that_leave");
        let could = n + 65536 >= len && want.as_bytes().starts_with(&r.out);
        judge(c, format!("reader leaves after {n} bytes"), could, n < len, &r);
    }
    // no fault at all
    let r = run(&dir, &base, &In::None, &Out::Pipe, None);
    let complete = r.out == want.as_bytes();
    judge(c, "no fault".into(), complete, false, &r);
}

// --------------------------------------------------------------------- C33

/// The larger of a quarter of the visible characters and the number of words,
/// at least one.
fn tokens(t: &str) -> u64 {
    let mut visible = 0u64;
    let mut words = 0u64;
    let mut inside = false;
    for ch in t.chars() {
        if ch.is_whitespace() {
            inside = false;
        } else {
            visible += 1;
            if !inside {
                words += 1;
            }
            inside = true;
        }
    }
    (visible / 4).max(words).max(1)
}

fn c33(c: &mut Ctx, _idx: u64) {
    let sc = Scratch::new(c);
    let dir = sc.0.clone();
    let r = &mut c.rng;
    let (mut o, words) = options(r);
    let mut words: Vec<Vec<OsString>> = words.into_iter().filter(|w| w[0] != *"--stats" && !["--encode", "-e", "--decode", "-d"].iter().any(|f| w[0] == **f)).collect();
    let encode = r.pct(75);
    o.stats = r.pct(80);
    if o.stats {
        words.push(vec!["--stats".into()]);
    }
    words.push(vec![if encode { "--encode" } else { "--decode" }.into()]);
    let mut text = if encode && r.pct(25) {
        // estimates at their boundaries: few characters, many words
        let k = r.below(14);
        let w = gen_::s(&(0..k).map(|_| *r.pick(&["a", " ", "b c", "\u{3000}", "é", "long", "\u{a0}", "1", "\u{7f}", "\u{1}", "\u{200b}", "\u{301}", "\u{1f980}"])).collect::<String>());
        let mut t = String::new();
        let v = if r.pct(50) { w } else { V::Array(vec![w; r.range(1, 6)]) };
        json::write(r, &v, &mut t);
        t
    } else {
        text_for(r, encode, &o)
    };
    if r.pct(10) {
        text = format!("{}{text}{}", " \n".repeat(r.below(9)), "\n\t ".repeat(r.below(9)));
    }
    let Ok(want) = expected(&text, encode, &o) else {
        c.seen(&text, false);
        return;
    };
    let whole = dir.join("in.toon").to_string_lossy().into_owned();
    let name: &str = match r.below(12) {
        0 => &whole,
        1 => "./in.json",
        2 => "sub/../in.json",
        3 => "sub/./in",
        4 => ".//in.toon",
        5 => "~in.json",
        _ => *r.pick(&["in.json", "in.toon", "a b.json", "\u{e9}.txt", "x.JSON"]),
    };
    fs::create_dir_all(dir.join("sub")).expect("directory");
    let from_file = r.pct(60);
    let mut stdin = In::None;
    if from_file {
        fs::write(dir.join(name), &text).expect("input file");
        words.push(vec![name.into()]);
    } else {
        if r.pct(50) {
            words.push(vec!["-".into()]);
        }
        stdin = In::Bytes(text.clone().into_bytes());
    }
    let out_name = r.pct(60).then(|| *r.pick(&["out.toon", "out.json", "o p", "\u{fc}.x", "./out.json", "sub/out", "sub/../o.json", "-", "stdin"]));
    if let Some(n) = out_name {
        words.push(vec!["-o".into(), n.into()]);
    }
    let args = shuffled(r, words);
    let tag = format!("{args:?}\n{text}");
    let run = run(&dir, &args, &stdin, &Out::Pipe, None);
    if !run.ok() {
        c.fail("refused", &tag, run.tell());
        return;
    }
    c.seen(&tag, true);
    let err = String::from_utf8_lossy(&run.err).into_owned();
    c.sample(|| format!("{tag}\n=> {err}"));
    let mut expect: Vec<String> = Vec::new();
    if encode && o.stats {
        let (a, b) = (tokens(&text), tokens(want.strip_suffix('\n').unwrap_or(&want)));
        expect.push(String::new());
        expect.push(format!("Token estimates: ~{a} (JSON) → ~{b} (TOON)"));
        if a > b {
            let saved = a - b;
            expect.push(format!("Saved ~{saved} tokens (-{:.1}%)", saved as f64 / a as f64 * 100.0));
            c.note("savings_reported");
        } else {
            c.note("no_savings");
        }
    }
    if let Some(n) = out_name {
        let from = if from_file { name } else { "stdin" };
        expect.push(format!("{} `{from}` → `{n}`", if encode { "Encoded" } else { "Decoded" }));
        c.note("status_lines");
    }
    let numbers = |l: &str| -> Vec<String> {
        l.split(|ch: char| !(ch.is_ascii_digit() || ch == '.')).filter(|x| x.bytes().any(|b| b.is_ascii_digit())).map(String::from).collect()
    };
    let got: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
    let want_lines: Vec<&String> = expect.iter().filter(|l| !l.is_empty()).collect();
    if got.len() != want_lines.len() {
        c.fail("lines", &tag, format!("standard error {err:?}\nwant {want_lines:?}"));
        return;
    }
    for (g, w) in got.iter().zip(&want_lines) {
        // wording may change; numbers, names and the direction may not
        if w.starts_with("Token") || w.starts_with("Saved") {
            if numbers(g) != numbers(w) {
                c.fail("statistics", &tag, format!("{g:?}, the texts give {w:?}"));
            }
        } else {
            let from = if from_file { name } else { "stdin" };
            let to = out_name.unwrap_or("");
            let names = g.find(from).is_some_and(|i| g[i + from.len()..].contains(to));
            let verb = if encode { "Encoded" } else { "Decoded" };
            if !names || !g.contains(verb) {
                c.fail("status", &tag, format!("{g:?} should name {verb}, {from:?} and then {to:?}"));
            }
        }
    }
}

// --------------------------------------------------------------------- C34

#[derive(PartialEq, Debug, Clone)]
struct Entry {
    kind: &'static str,
    mode: u32,
    ino: u64,
    nlink: u64,
    changed: (i64, i64),
    data: Vec<u8>,
}

/// Everything below a directory, by path.
fn tree(dir: &Path, m: &mut BTreeMap<PathBuf, Entry>) {
    for e in fs::read_dir(dir).expect("read dir").flatten() {
        let p = e.path();
        let Ok(md) = fs::symlink_metadata(&p) else { continue };
        let t = md.file_type();
        let (kind, data) = if t.is_symlink() {
            ("link", fs::read_link(&p).map(|l| l.into_os_string().as_bytes().to_vec()).unwrap_or_default())
        } else if t.is_dir() {
            ("directory", Vec::new())
        } else if t.is_file() {
            ("file", fs::read(&p).unwrap_or_default())
        } else {
            ("other", Vec::new())
        };
        m.insert(p.clone(), Entry { kind, mode: md.mode(), ino: md.ino(), nlink: md.nlink(), changed: (md.mtime(), md.mtime_nsec()), data });
        if t.is_dir() {
            tree(&p, m);
        }
    }
}

/// The same file, if both are there; else the same words.
fn same_path(dir: &Path, a: &Path, b: &Path) -> bool {
    let (a, b) = (dir.join(a), dir.join(b));
    match (fs::canonicalize(&a), fs::canonicalize(&b)) {
        (Ok(x), Ok(y)) => x == y,
        _ => a.components().eq(b.components()),
    }
}

fn c34(c: &mut Ctx, _idx: u64) {
    let sc = Scratch::new(c);
    let dir = sc.0.join("work");
    let r = &mut c.rng;
    for d in ["home/.config/toon", "home/.cache", "home/.local/state", "home/.local/share", "tmp", "sub", "far"] {
        fs::create_dir_all(dir.join(d)).expect("tree");
    }
    let (mut o, mut words) = options(r);
    if o.flag.is_none() {
        let e = r.pct(50);
        o.flag = Some(e);
        words.push(vec![if e { "--encode" } else { "-d" }.into()]);
    }
    let encode = o.flag == Some(true);
    let text = text_for(r, encode, &o);
    let want = expected(&text, encode, &o);
    // where the input comes from
    let name = *r.pick(&["in.json", "in.toon", "in", "sub/in.json", "sub/in.toon"]);
    let source = r.below(10);
    let mut input: Option<PathBuf> = None;
    let mut stdin = In::Bytes(b"[\"left alone\"]\n".repeat(r.below(3)));
    let mut readable = true;
    match source {
        0..=4 => {
            fs::write(dir.join(name), &text).expect("input");
            if r.pct(20) {
                fs::set_permissions(dir.join(name), fs::Permissions::from_mode(0o400)).expect("mode");
            }
            input = Some(name.into());
        }
        5 => {
            // through a link
            fs::write(dir.join("far/real.txt"), &text).expect("input");
            std::os::unix::fs::symlink("far/real.txt", dir.join("in.lnk")).expect("link");
            input = Some("in.lnk".into());
        }
        6 => {
            readable = false;
            input = Some("missing.json".into());
        }
        _ => stdin = In::Bytes(text.clone().into_bytes()),
    }
    if let Some(p) = &input {
        words.push(vec![if r.pct(30) { dir.join(p).into_os_string() } else { p.clone().into_os_string() }]);
    } else if r.pct(50) {
        words.push(vec!["-".into()]);
    }
    // where the output goes: a path, and the file that is to have the content
    let mut output: Option<PathBuf> = None;
    let mut content: Option<PathBuf> = None;
    let place = r.below(10);
    let mut placed = true;
    let old = b"old content\n".repeat(r.range(1, 400));
    let modes = [0o644, 0o600, 0o640, 0o666, 0o755, 0o777];
    if place > 1 {
        let n = *r.pick(&["out.toon", "out.json", "out", "sub/out.txt", "in.toon.json"]);
        let (n, real) = match place {
            2 | 3 => (n, n),
            4 | 5 => {
                fs::write(dir.join(n), &old).expect("old output");
                fs::set_permissions(dir.join(n), fs::Permissions::from_mode(*r.pick(&modes))).expect("mode");
                (n, n)
            }
            6 => {
                fs::write(dir.join("far/target"), &old).expect("old output");
                fs::set_permissions(dir.join("far/target"), fs::Permissions::from_mode(*r.pick(&modes))).expect("mode");
                std::os::unix::fs::symlink(dir.join("far/target"), dir.join(n)).expect("link");
                (n, "far/target")
            }
            7 => {
                // the link is there, its target is not yet
                std::os::unix::fs::symlink(dir.join("far/target"), dir.join(n)).expect("link");
                (n, "far/target")
            }
            8 if r.pct(50) => {
                // there is no such directory, or it is one
                placed = false;
                let n = *r.pick(&["none/out.toon", "none/deeper/out.json", "home/.config/toon", "sub", "in/out.toon"]);
                (n, n)
            }
            _ => {
                fs::write(dir.join(n), &old).expect("old output");
                fs::hard_link(dir.join(n), dir.join("far/other name")).expect("hard link");
                (n, n)
            }
        };
        let word = if r.pct(30) { dir.join(n).into_os_string() } else { n.into() };
        words.push(vec![r.pick::<&str>(&["-o", "--output"]).into(), word]);
        output = Some(n.into());
        content = Some(dir.join(real));
    }
    // bystanders, named like what a careless command would read or replace
    let near = ["in.json", "in.toon", "in", "out.toon", "out.json", "out", "sub/out.txt", "sub/in.toon"];
    for _ in 0..r.range(1, 6) {
        let n = match r.below(3) {
            0 => {
                let base = *r.pick(&near);
                match r.below(8) {
                    0 => format!("{base}.bak"),
                    1 => format!("{base}~"),
                    2 => format!("{base}.tmp"),
                    3 => format!("{base}.old"),
                    4 => format!("{base}.lock"),
                    5 => format!("{base}.toon"),
                    6 => format!("{base}.json"),
                    _ => format!("{base}.orig"),
                }
            }
            1 => (*r.pick(&[".toonrc", "toon.toml", ".toon.json", "toon.json", ".env", "toon.log", "error.log", "core", ".editorconfig", "package.json"])).to_string(),
            _ => (*r.pick(&[
                "home/.toonrc",
                "home/.config/toon.toml",
                "home/.config/toon/config.toml",
                "home/.config/toon/config.json",
                "home/.toon_history",
                "tmp/toon.tmp",
                "tmp/toon",
            ]))
            .to_string(),
        };
        let p = dir.join(&n);
        if fs::symlink_metadata(&p).is_err() && n != *"missing.json" {
            let body: &[u8] = r.pick::<&[u8]>(&[b"indent = 7\ndelimiter = \"|\"\n", b"{\"indent\":7,\"strict\":false}\n", b"", b"bystander\n"]);
            fs::write(&p, body).expect("bystander");
        }
    }
    let mut help = false;
    let mut args = shuffled(r, words);
    if r.pct(4) {
        help = true;
        args.insert(r.below(2).min(args.len()), r.pick::<&str>(&["--help", "-h", "--version", "-V", "--no-such-option", "--indent=999"]).into());
    }
    let mut fresh_mode = None;
    {
        let p = sc.0.join("probe");
        if let Ok(f) = File::create(&p) {
            fresh_mode = f.metadata().ok().map(|m| m.mode());
        }
    }
    let mut inject = String::from("watch");
    if r.pct(30) {
        inject.push_str(&format!(";short={}", r.next()));
    }
    let tag = format!("{args:?} (encode {encode}, place {place})\n{text}");
    let mut before = BTreeMap::new();
    tree(&dir, &mut before);
    let run = run_with(&dir, &args, &stdin, &Out::Pipe, None, Some(&inject));
    let mut after = BTreeMap::new();
    tree(&dir, &mut after);
    let converts = want.is_ok() && readable && placed && !help;
    c.seen(&tag, converts);
    c.note(if help {
        "asked_for_help_or_the_impossible"
    } else if converts {
        "converted"
    } else {
        "refused"
    });
    c.add("entries_compared", after.len() as u64);
    c.add("opens_recorded", run.watched.len() as u64);
    c.sample(|| format!("{tag}\nwatched {:?}\n=> {}", run.watched.iter().map(|(k, p)| format!("{} {}", *k as char, p.display())).collect::<Vec<_>>(), run.tell()));
    let rel = |p: &Path| p.strip_prefix(&dir).unwrap_or(p).display().to_string();
    // ---- what it touched
    let mut opened_input = false;
    for (k, p) in &run.watched {
        // libraries, the kernel's information and devices
        let system = ["/proc", "/sys", "/dev", "/usr", "/lib", "/lib64"].iter().any(|s| p.starts_with(s));
        let is_in = input.as_ref().is_some_and(|i| same_path(&dir, i, p));
        let is_out = output.as_ref().is_some_and(|i| same_path(&dir, i, p));
        match k {
            b'R' => {
                opened_input |= is_in;
                if !is_in && !is_out && !system {
                    c.fail("reads", &tag, format!("opened {} for reading: neither its input nor its output", rel(p)));
                }
            }
            b'W' if !is_out && !p.starts_with("/dev") => c.fail("writes", &tag, format!("opened {} for writing: not its output", rel(p))),
            b'D' if !is_out => c.fail("changes", &tag, format!("created, removed, renamed or changed {}: not its output", rel(p))),
            b'N' => c.fail("network", &tag, format!("{}", p.display())),
            b'X' => c.fail("process", &tag, format!("started {}", p.display())),
            _ => {}
        }
    }
    if input.is_some() && readable && !help && !opened_input {
        c.note("input_opened_unseen");
    }
    if input.is_some() && run.taken != 0 {
        c.fail("standard input", &tag, format!("the input is a file, yet {} bytes were taken from standard input", run.taken));
    }
    // ---- what is different
    let done = run.ok() && !help;
    if done != converts {
        if !help {
            c.fail(if done { "accepted" } else { "refused" }, &tag, run.tell());
        }
        return;
    }
    let out_ino = content.as_ref().and_then(|p| before.get(p)).filter(|e| e.kind == "file").map(|e| e.ino);
    for (p, b) in &before {
        let Some(a) = after.get(p) else {
            c.fail("tree", &tag, format!("{} is gone", rel(p)));
            continue;
        };
        if a == b {
            continue;
        }
        // another name of the output
        let output_itself = done && b.kind == "file" && out_ino == Some(b.ino);
        // the directory in which the output appeared
        let home_of_new = done && b.kind == "directory" && out_ino.is_none() && content.as_ref().and_then(|q| q.parent()) == Some(p.as_path());
        let mut b = b.clone();
        if output_itself {
            b.data = want.clone().unwrap_or_default().into_bytes();
        }
        if output_itself || home_of_new {
            b.changed = a.changed;
        }
        if *a != b {
            c.fail("tree", &tag, format!("{} was {} and is {}", rel(p), tell_entry(&b), tell_entry(a)));
        }
    }
    for (p, a) in &after {
        if before.contains_key(p) {
            continue;
        }
        let is_new_output = done && content.as_ref() == Some(p);
        if !is_new_output {
            c.fail("tree", &tag, format!("{} has appeared: {}", rel(p), tell_entry(a)));
        } else if a.kind != "file" || a.nlink != 1 || Some(a.mode) != fresh_mode || Ok(&a.data[..]) != want.as_deref().map(str::as_bytes) {
            c.fail("output", &tag, format!("{}: {}", rel(p), tell_entry(a)));
        }
    }
    if done {
        match &content {
            Some(p) if !after.contains_key(p) => c.fail("output", &tag, "there is no output file".into()),
            Some(_) => {
                c.note("output_files_written");
                c.add(
                    match place {
                        2 | 3 => "new_outputs",
                        4 | 5 => "overwritten_outputs",
                        6 | 7 => "outputs_through_a_link",
                        _ => "outputs_with_two_names",
                    },
                    1,
                );
            }
            None => {}
        }
        let on_stdout = if content.is_some() { "" } else { want.as_deref().unwrap_or("") };
        if run.out != on_stdout.as_bytes() {
            c.fail("stdout", &tag, run.tell());
        }
    }
}

fn tell_entry(e: &Entry) -> String {
    format!("{} mode {:o} inode {} links {} changed {:?} {}", e.kind, e.mode, e.ino, e.nlink, e.changed, clip(&String::from_utf8_lossy(&e.data), 200))
}

// --------------------------------------------------------------------- C35

/// The system's words for an error number.
fn reason(errno: i32) -> String {
    let t = std::io::Error::from_raw_os_error(errno).to_string();
    t.split(" (os error").next().unwrap_or(&t).to_string()
}

fn c35(c: &mut Ctx, _idx: u64) {
    const EIO: i32 = 5;
    const ENOENT: i32 = 2;
    const ENOTDIR: i32 = 20;
    const EISDIR: i32 = 21;
    const ENOSPC: i32 = 28;
    const EPIPE: i32 = 32;
    const ENAMETOOLONG: i32 = 36;
    const ELOOP: i32 = 40;
    let sc = Scratch::new(c);
    let dir = sc.0.join("work");
    fs::create_dir_all(&dir).expect("work");
    let r = &mut c.rng;
    let (mut o, mut words) = options(r);
    if o.flag.is_none() {
        let e = r.pct(50);
        o.flag = Some(e);
        words.push(vec![if e { "--encode" } else { "-d" }.into()]);
    }
    let encode = o.flag == Some(true);
    // a text that converts, and one that does not if that is to be the cause
    let cause = r.below(20);
    let mut text = text_for(r, encode, &o);
    let mut tries = 0;
    while expected(&text, encode, &o).is_ok() == (cause >= 17) && tries < 60 {
        text = if cause >= 17 {
            match r.below(5) {
                0 if encode => format!("{text}{}", r.pick::<&str>(&["}", "]", ",", "x", "\"", "\n\n\u{0}"])),
                0 if o.strict => format!("{text}\nbad[9]: 1"),
                1 if !encode => format!("{text}\n\"open: 1"),
                2 if !encode => format!("k: \"\\x\"\n{text}"),
                3 if o.expand => "a: 1\na.b: 2".into(),
                // what is wrong takes many words
                4 if o.expand => {
                    let k = r.pick::<&str>(&["k", "long_", "Name9"]).repeat(*r.pick(&[20, 200, 900, 3000, 20_000]));
                    if r.pct(50) { format!("{k}: 1\n{k}.b: 2") } else { format!("a.{k}.b: 1\na.{k}: 2") }
                }
                _ => docs::mutate(r, &text, o.indent),
            }
        } else {
            text_for(r, encode, &o)
        };
        tries += 1;
    }
    let want = expected(&text, encode, &o);
    if want.is_ok() == (cause >= 17) {
        return;
    }
    let names: &[&[u8]] = &[b"in.json", b"in.toon", b"two words.json", b"quote'd \"x\".toon", "d\u{e9}j\u{e0} \u{1f980}.txt".as_bytes(), b"./in.json", b"bad\xff.json", b"{braces}.json", b"back\\slash.toon", b"line\tbreak.json"];
    let pick_name = |r: &mut Rng| os(r.pick::<&[u8]>(names));
    let under = |d: &str, n: &OsString| {
        let mut p = OsString::from(d);
        p.push("/");
        p.push(n);
        p
    };
    let long = OsString::from("n".repeat(300));
    let mut inject: Option<String> = None;
    let mut event = b'-';
    let mut stdin = In::None;
    let mut stdout = Out::Pipe;
    let mut data = text.clone().into_bytes();
    // what the message has to contain
    let mut must: Vec<String> = Vec::new();
    let mut status = 1;
    let mut from_file = r.pct(60);
    let mut output: Option<OsString> = None;
    if r.pct(40) {
        output = Some(os(r.pick::<&[u8]>(&[b"out.toon", b"o p.json", b"\xe9.x", b"./out"])));
    }
    let mut input = pick_name(r);
    let mut write_input = true;
    let shown = |p: &OsString| Path::new(p).display().to_string();
    let mut stream = "";
    let what = match cause {
        0..=3 => {
            // the input file cannot be opened
            from_file = true;
            write_input = false;
            let (n, e) = match r.below(7) {
                6 => (under(&format!("away{}", "/deeper".repeat(r.range(1, 500))), &input), ENOENT),
                0 => (input.clone(), ENOENT),
                1 => (under(if r.pct(50) { "no/such" } else { "../away" }, &input), ENOENT),
                2 => {
                    fs::write(dir.join("plain"), b"1").expect("plain");
                    (under("plain", &input), ENOTDIR)
                }
                3 => {
                    fs::create_dir_all(dir.join(&input)).expect("directory");
                    (input.clone(), EISDIR)
                }
                4 => (long.clone(), ENAMETOOLONG),
                _ => {
                    std::os::unix::fs::symlink("round", dir.join("round")).expect("link");
                    (os(b"round"), ELOOP)
                }
            };
            must.push(shown(&n));
            must.push(reason(e));
            input = n;
            "input cannot be opened"
        }
        4 | 5 => {
            let e = *r.pick(&[EIO, 110, 116, 12, 103]);
            inject = Some(if r.pct(70) { format!("rfail=1:{e}") } else { format!("rfail=2:{e};short={}", r.next()) });
            event = b'r';
            must.push(reason(e));
            stream = if from_file { "" } else { "stdin" };
            if from_file {
                must.push(shown(&input));
            }
            "input cannot be read"
        }
        6 | 7 => {
            let at = r.below(data.len() + 1);
            data.insert(at, 0xff);
            must.push("UTF-8".into());
            stream = if from_file { "" } else { "stdin" };
            if from_file {
                must.push(shown(&input));
            }
            "input is not UTF-8"
        }
        8 | 9 => {
            let (n, e) = match r.below(5) {
                0 => (under("none", &pick_name(r)), ENOENT),
                1 => {
                    let n = os(r.pick::<&[u8]>(&[b"a dir", b"d\xff", b"\xc3\xa9\\t", b"a'b", b"./dir"]));
                    fs::create_dir_all(dir.join(&n)).expect("directory");
                    (n, EISDIR)
                }
                2 => {
                    fs::write(dir.join("plain"), b"1").expect("plain");
                    (under("plain", &pick_name(r)), ENOTDIR)
                }
                3 => (long.clone(), ENAMETOOLONG),
                _ => {
                    std::os::unix::fs::symlink("round", dir.join("round")).expect("link");
                    (os(b"round"), ELOOP)
                }
            };
            must.push(shown(&n));
            must.push(reason(e));
            output = Some(n);
            "output cannot be created"
        }
        10 | 11 => {
            let e = *r.pick(&[EIO, ENOSPC, 122, 27, 1]);
            inject = Some(format!("wfail=1:{e}:1000"));
            event = b'w';
            must.push(reason(e));
            match &output {
                Some(n) => must.push(shown(n)),
                None => stream = "stdout",
            }
            "output cannot be written"
        }
        12 => {
            output = None;
            let closed = r.pct(50);
            stdout = if closed { Out::Closed } else { Out::Full };
            must.push(reason(if closed { EPIPE } else { ENOSPC }));
            stream = "stdout";
            "standard output cannot be written"
        }
        13..=15 => {
            status = 2;
            let bad: &[(&[&str], &[&str])] = &[
                (&["--indent", "17"], &["--indent", "17"]),
                (&["--indent", "x"], &["--indent", "'x'"]),
                (&["--indent=-1"], &["--indent", "-1"]),
                (&["--indent", "256"], &["--indent", "256"]),
                (&["--delimiter", ";"], &["--delimiter", ";"]),
                (&["--delimiter=,,"], &["--delimiter", ",,"]),
                (&["--delimiter", "TAB"], &["--delimiter", "TAB"]),
                (&["--key-folding", "on"], &["--key-folding", "on"]),
                (&["--flatten-depth", "x"], &["--flatten-depth", "'x'"]),
                (&["--flatten-depth=-1"], &["--flatten-depth", "-1"]),
                (&["--expand-paths", "unsafe"], &["--expand-paths", "unsafe"]),
                (&["--frobnicate"], &["--frobnicate"]),
                (&["-x"], &["-x"]),
                (&["-e", "-d"], &["--encode", "--decode"]),
                (&["--decode", "--encode"], &["--encode", "--decode"]),
                (&["one.json", "two.json", "three.json"], &[".json"]),
            ];
            let (b, m) = r.pick(bad);
            let name = b[0].split('=').next().unwrap_or("");
            words.retain(|w| !w[0].to_string_lossy().starts_with(name));
            words.push(b.iter().map(|s| OsString::from(*s)).collect());
            if b[0] == "-e" || b[0] == "--decode" {
                words.retain(|w| w.len() != 1 || !["-e", "-d", "--encode", "--decode"].contains(&w[0].to_string_lossy().as_ref()));
            }
            must.extend(m.iter().map(|x| (*x).to_string()));
            "invalid arguments"
        }
        16 => {
            status = 0;
            words = vec![vec![r.pick::<&str>(&["--help", "-h", "--version", "-V"]).into()]];
            "asked for help"
        }
        _ => {
            let e = want.clone().err().unwrap_or_default();
            must.push(e);
            "input cannot be converted"
        }
    };
    if status != 0 {
        if from_file {
            if write_input {
                fs::write(dir.join(&input), &data).expect("input");
            }
            words.push(vec![input]);
        } else {
            if r.pct(50) {
                words.push(vec!["-".into()]);
            }
            stdin = if r.pct(50) { In::Piped(data.clone()) } else { In::Bytes(data.clone()) };
        }
        if let Some(n) = output {
            words.push(vec![r.pick::<&str>(&["-o", "--output"]).into(), n]);
        }
    }
    let args = shuffled(r, words);
    let tag = format!("{what}: {args:?} {}\n{}", inject.as_deref().unwrap_or(""), String::from_utf8_lossy(&data));
    let run = run_with(&dir, &args, &stdin, &stdout, None, inject.as_deref());
    if event != b'-' && run.events(event) == 0 {
        c.note("fault_never_reached");
        return;
    }
    c.seen(&tag, true);
    c.note(&what.replace([' ', '-'], "_"));
    c.sample(|| format!("{tag}\n=> {}", run.tell()));
    if run.code != Some(status) {
        c.fail("status", &tag, format!("{what} should exit with {status}: {}", run.tell()));
        return;
    }
    let err = String::from_utf8_lossy(&run.err).into_owned();
    if status == 0 {
        let out = String::from_utf8_lossy(&run.out).into_owned();
        let version = args[0].to_string_lossy().to_lowercase().contains('v');
        let words: &[&str] = if version {
            &["toon"]
        } else {
            &["--output", "--encode", "--decode", "--delimiter", "--indent", "--no-strict", "--key-folding", "--flatten-depth", "--expand-paths", "--stats", "[INPUT]"]
        };
        for w in words {
            if !out.contains(w) {
                c.fail("help", &tag, format!("{w} is not mentioned: {}", run.tell()));
            }
        }
        if version && !out.bytes().any(|b| b.is_ascii_digit()) || !err.is_empty() {
            c.fail("help", &tag, run.tell());
        }
        return;
    }
    for m in &must {
        // "UTF-8" also as the decoder of the standard library spells it
        let said = err.contains(m.as_str()) || m == "UTF-8" && ["utf-8", "utf8"].iter().any(|x| err.to_lowercase().contains(x));
        if !said {
            c.fail("message", &tag, format!("{what}: the message does not say {m:?}: {}", run.tell()));
        }
    }
    let low = err.to_lowercase();
    if !stream.is_empty() && !low.contains(stream) && !low.contains(&stream.replace("std", "standard ").replace("in", "input").replace("out", "output")) {
        c.fail("message", &tag, format!("{what}: the message does not say {stream}: {}", run.tell()));
    }
    if status == 1 {
        // one message: no trace, no warning, no status line
        let lines = |t: &str| t.trim_end_matches('\n').matches('\n').count();
        let known: usize = must.iter().map(|m| lines(m)).sum();
        if lines(&err) > known || !err.ends_with('\n') {
            c.fail("message", &tag, format!("{what}: more than one message: {}", run.tell()));
        }
    }
}
