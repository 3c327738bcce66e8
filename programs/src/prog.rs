//! Generated Rust programs: compiled in shards against the crates under test,
//! run, and judged case by case.

use std::{
    collections::{BTreeMap, HashSet},
    fs,
    io::Read,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

use serde_json::Value;

use crate::engine::{clip, hash_str, mix, threads, Case, Src, Stats};

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Something is wrong with the check itself.
pub fn broken(msg: &str) -> ! {
    eprintln!("CHECK ERROR: {msg}");
    std::process::exit(2);
}

/// Where generated sources and programs go; removed at exit.
/// The tree under test.
pub const REPO: &str = "/repo";

pub fn scratch() -> &'static Path {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = verif().join(format!("build/programs-{}", std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        d
    })
}

pub fn cleanup() {
    if std::env::var_os("VERIF_KEEP").is_none() {
        let _ = fs::remove_dir_all(scratch());
    }
}

pub struct Libs {
    pub deps: PathBuf,
    pub stylish: PathBuf,
    pub rt: PathBuf,
}

pub fn run_timeout(cmd: &mut Command, limit: Duration) -> (Option<i32>, Vec<u8>, Vec<u8>) {
    let mut child = match cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => broken(&format!("cannot run {cmd:?}: {e}")),
    };
    let mut out = child.stdout.take().unwrap();
    let mut err = child.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = out.read_to_end(&mut v);
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = err.read_to_end(&mut v);
        v
    });
    let start = Instant::now();
    let code = loop {
        match child.try_wait().unwrap() {
            Some(s) => break Some(s.code().unwrap_or(-1)),
            None if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    (code, a.join().unwrap(), b.join().unwrap())
}

/// Builds the crates under test and the run-time support.
pub fn libs() -> &'static Libs {
    static LIBS: OnceLock<Libs> = OnceLock::new();
    LIBS.get_or_init(|| {
        let target = verif().join("build/stylib");
        let (code, out, err) = run_timeout(
            Command::new("cargo")
                .args(["build", "--offline", "--message-format=json", "--manifest-path"])
                .arg(verif().join("programs/stylib/Cargo.toml"))
                .env("CARGO_TARGET_DIR", &target),
            Duration::from_secs(600),
        );
        if code != Some(0) {
            broken(&format!("the crates under test do not build: {}", clip(&String::from_utf8_lossy(&err), 3000)));
        }
        let mut stylish = None;
        for line in String::from_utf8_lossy(&out).lines() {
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            if v["reason"] == "compiler-artifact" && v["target"]["name"] == "stylish" {
                for f in v["filenames"].as_array().into_iter().flatten() {
                    if f.as_str().is_some_and(|f| f.ends_with(".rlib")) {
                        stylish = f.as_str().map(PathBuf::from);
                    }
                }
            }
        }
        let stylish = stylish.unwrap_or_else(|| broken("no rlib for stylish"));
        let deps = target.join("debug/deps");
        let rt = scratch().join("librt.rlib");
        let (code, _, err) = run_timeout(
            Command::new("rustc")
                .args(["--edition", "2021", "--crate-type", "rlib", "--crate-name", "rt", "-Cdebuginfo=0", "-o"])
                .arg(&rt)
                .arg("-L")
                .arg(format!("dependency={}", deps.display()))
                .arg("--extern")
                .arg(format!("stylish={}", stylish.display()))
                .arg(verif().join("programs/rt/rt.rs")),
            Duration::from_secs(300),
        );
        if code != Some(0) {
            broken(&format!("rt.rs does not build: {}", clip(&String::from_utf8_lossy(&err), 3000)));
        }
        Libs { deps, stylish, rt }
    })
}

/// What a line of a generated case is there for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Surroundings.
    Fixed,
    /// Uses the code under test: an error here is the code's.
    Subject,
    /// Uses only std: an error here is the generator's.
    Oracle,
    /// Uses the code under test in ways another property is about.
    Other,
}

#[derive(Clone, Default)]
pub struct Code {
    pub lines: Vec<(Kind, String)>,
}

impl Code {
    fn push(&mut self, kind: Kind, s: impl Into<String>) {
        for l in s.into().split('\n') {
            self.lines.push((kind, l.to_owned()));
        }
    }
    pub fn fixed(&mut self, s: impl Into<String>) {
        self.push(Kind::Fixed, s);
    }
    pub fn subject(&mut self, s: impl Into<String>) {
        self.push(Kind::Subject, s);
    }
    pub fn other(&mut self, s: impl Into<String>) {
        self.push(Kind::Other, s);
    }
    pub fn oracle(&mut self, s: impl Into<String>) {
        self.push(Kind::Oracle, s);
    }
    pub fn text(&self) -> String {
        self.lines.iter().map(|(_, l)| l.as_str()).collect::<Vec<_>>().join("\n")
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Pass,
    /// Ran, and the oracle disagrees.
    Wrong(String),
    /// Does not compile, through the code under test.
    Rejected(String),
    /// The generator's own fault.
    Invalid(String),
    /// Cannot be judged: the failure belongs to another property.
    Skipped,
}

impl Outcome {
    pub fn failure(&self) -> Option<String> {
        match self {
            Outcome::Wrong(m) => Some(m.clone()),
            Outcome::Rejected(m) => Some(format!("does not compile: {m}")),
            _ => None,
        }
    }
}

pub struct Diag {
    pub line: usize,
    /// The error itself is there, not something it mentions.
    pub primary: bool,
    pub message: String,
}

/// Lines of the shard's own file that a diagnostic's primary spans point at,
/// following macro expansions outwards.
fn lines_of(v: &Value, file: &str, out: &mut Vec<usize>) {
    let mut span = v;
    loop {
        if span["file_name"].as_str() == Some(file) {
            let outer = &span["expansion"];
            if outer.is_null() {
                out.extend(span["line_start"].as_u64().map(|l| l as usize));
                return;
            }
        }
        if span["expansion"].is_null() {
            return;
        }
        span = &span["expansion"]["span"];
    }
}

pub struct Rustc<'a> {
    pub edition: &'a str,
    /// Name the crate under test has for the program.
    pub name: &'a str,
    pub extra: &'a [&'a str],
}

pub const PLAIN: Rustc<'static> = Rustc { edition: "2021", name: "stylish", extra: &[] };

/// Compiles `src`; `Ok` on success, otherwise the errors with their lines.
pub fn rustc(opts: &Rustc<'_>, src: &Path, exe: Option<&Path>) -> Result<(), Vec<Diag>> {
    let libs = libs();
    let mut cmd = Command::new("rustc");
    cmd.args(["--edition", opts.edition, "--error-format=json", "--crate-name", "generated"])
        .args(["-Cdebuginfo=0", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Awarnings"])
        .args(["--diagnostic-width=200"])
        .args(opts.extra)
        .arg("-L")
        .arg(format!("dependency={}", libs.deps.display()))
        .arg("--extern")
        .arg(format!("{}={}", opts.name, libs.stylish.display()))
        .arg("--extern")
        .arg(format!("rt={}", libs.rt.display()))
        .arg(src);
    match exe {
        Some(exe) => cmd.arg("-o").arg(exe),
        None => cmd.args(["--emit=metadata", "--out-dir"]).arg(src.with_extension("out")),
    };
    let (code, _, err) = run_timeout(&mut cmd, Duration::from_secs(400));
    if code == Some(0) {
        return Ok(());
    }
    let file = src.display().to_string();
    let mut diags = Vec::new();
    let err = String::from_utf8_lossy(&err).into_owned();
    for line in err.lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        if v["level"] != "error" {
            continue;
        }
        let mut lines = Vec::new();
        for span in v["spans"].as_array().into_iter().flatten() {
            if span["is_primary"] == true {
                lines_of(span, &file, &mut lines);
            }
        }
        let primary = !lines.is_empty();
        if !primary {
            for span in v["spans"].as_array().into_iter().flatten() {
                lines_of(span, &file, &mut lines);
            }
        }
        let mut message = v["message"].as_str().unwrap_or("").to_owned();
        for c in v["children"].as_array().into_iter().flatten() {
            if c["spans"].as_array().is_some_and(|s| s.is_empty()) && c["level"] == "help" {
                message += "; ";
                message += c["message"].as_str().unwrap_or("");
            }
        }
        if message.starts_with("aborting due to") {
            continue;
        }
        if lines.is_empty() {
            lines.push(0);
        }
        for line in lines {
            diags.push(Diag { line, primary, message: message.clone() });
        }
    }
    if diags.is_empty() {
        diags.push(Diag { line: 0, primary: false, message: format!("rustc failed ({code:?}): {}", clip(&err, 2000)) });
    }
    Err(diags)
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// Compiles and runs the given cases as one program.
pub fn run_shard(opts: &Rustc<'_>, header: &str, cases: &[Code]) -> Vec<Outcome> {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let src = scratch().join(format!("s{n}.rs"));
    let exe = scratch().join(format!("s{n}"));
    let mut out: Vec<Option<Outcome>> = vec![None; cases.len()];
    loop {
        let live: Vec<usize> = (0..cases.len()).filter(|&i| out[i].is_none()).collect();
        if live.is_empty() {
            break;
        }
        let mut text = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n");
        text += header;
        text.push('\n');
        let mut owner: BTreeMap<usize, (usize, Kind)> = BTreeMap::new();
        let mut line = text.matches('\n').count() + 1;
        for &i in &live {
            text += &format!("mod c{i} {{\n");
            owner.insert(line, (i, Kind::Fixed));
            line += 1;
            for (kind, l) in &cases[i].lines {
                owner.insert(line, (i, *kind));
                text += l;
                text.push('\n');
                line += 1;
            }
            text += "}\n";
            owner.insert(line, (i, Kind::Fixed));
            line += 1;
        }
        text += "fn main() {\n    ::rt::main(&[\n";
        for &i in &live {
            text += &format!("        (\"{i}\", c{i}::run),\n");
        }
        text += "    ]);\n}\n";
        fs::write(&src, &text).unwrap();
        match rustc(opts, &src, Some(&exe)) {
            Ok(()) => {
                for (i, o) in run_exe(&exe, &live) {
                    out[i] = Some(o);
                }
                for i in live {
                    out[i].get_or_insert_with(|| Outcome::Invalid("no outcome".into()));
                }
            }
            Err(diags) => {
                let mut any = false;
                for d in diags.iter().filter(|d| d.primary) {
                    let Some(&(i, kind)) = owner.get(&d.line) else { continue };
                    any = true;
                    let o = match kind {
                        Kind::Subject => Outcome::Rejected(d.message.clone()),
                        Kind::Other => Outcome::Skipped,
                        _ => Outcome::Invalid(d.message.clone()),
                    };
                    match &out[i] {
                        Some(Outcome::Invalid(_)) => {}
                        Some(Outcome::Rejected(_)) if kind == Kind::Subject => {}
                        _ => out[i] = Some(o),
                    }
                }
                if !any {
                    // Some errors point only into the macros' own source.
                    if let [i] = live[..] {
                        out[i] = Some(Outcome::Rejected(diags[0].message.clone()));
                    } else {
                        for half in live.chunks(live.len().div_ceil(2)) {
                            let codes: Vec<Code> = half.iter().map(|&i| cases[i].clone()).collect();
                            for (&i, o) in half.iter().zip(run_shard(opts, header, &codes)) {
                                out[i] = Some(o);
                            }
                        }
                    }
                }
            }
        }
    }
    if std::env::var_os("VERIF_KEEP").is_none() {
        let _ = fs::remove_file(&src);
        let _ = fs::remove_file(&exe);
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}

fn run_exe(exe: &Path, live: &[usize]) -> Vec<(usize, Outcome)> {
    let (code, stdout, stderr) = run_timeout(&mut Command::new(exe), Duration::from_secs(120));
    let text = String::from_utf8_lossy(&stdout).into_owned();
    let mut out = Vec::new();
    let mut started = None;
    let mut ended = false;
    for line in text.lines() {
        let mut parts = line.splitn(3, ' ');
        let (tag, id) = (parts.next().unwrap(), parts.next().and_then(|i| i.parse::<usize>().ok()));
        match (tag, id) {
            ("S", Some(i)) => started = Some(i),
            ("P", Some(i)) => {
                out.push((i, Outcome::Pass));
                started = None;
            }
            ("F", Some(i)) => {
                out.push((i, Outcome::Wrong(parts.next().unwrap_or("").to_owned())));
                started = None;
            }
            ("E", _) => ended = true,
            _ => {}
        }
    }
    if !ended {
        let why = match code {
            None => "does not finish".to_owned(),
            Some(c) => format!("the program ended early with {c}: {}", clip(&String::from_utf8_lossy(&stderr), 500)),
        };
        match started {
            Some(i) => out.push((i, Outcome::Wrong(why))),
            None => broken(&why),
        }
        // The rest are judged on their own.
        for &i in live {
            if !out.iter().any(|(j, _)| *j == i) {
                out.push((i, Outcome::Pass));
            }
        }
    }
    out
}

/// Runs cases in shards of `size`, in parallel; outcomes in order.
pub fn run_all(opts: &Rustc<'_>, header: &str, cases: &[Code], size: usize) -> Vec<Outcome> {
    libs();
    let shards: Vec<&[Code]> = cases.chunks(size.max(1)).collect();
    let results: Vec<Mutex<Vec<Outcome>>> = shards.iter().map(|_| Mutex::new(Vec::new())).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= shards.len() {
                    break;
                }
                *results[k].lock().unwrap() = run_shard(opts, header, shards[k]);
            });
        }
    });
    results.into_iter().flat_map(|r| r.into_inner().unwrap()).collect()
}

pub type Gen = fn(&mut Src, &mut Case) -> Code;

pub struct Failure {
    pub choices: Vec<u64>,
    pub message: String,
    pub repr: String,
}

pub struct Search<'a> {
    pub name: &'a str,
    pub gen: Gen,
    pub opts: Rustc<'a>,
    pub header: &'a str,
    pub shard: usize,
}

fn make(gen: Gen, src: &mut Src, case: &mut Case) -> Code {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| gen(src, case))) {
        Ok(c) => c,
        Err(_) => broken(&format!("the generator panicked: {}", crate::engine::last_panic())),
    }
}

impl Search<'_> {
    pub fn run(&self, seed: u64, cases: u64, stats: &mut Stats) -> Option<Failure> {
        let base = mix(seed ^ hash_str(self.name));
        let wave = (self.shard as u64 * threads() * 4).max(64);
        let mut at = 0;
        let mut invalid = 0;
        while at < cases {
            let n = wave.min(cases - at);
            let mut srcs = Vec::new();
            let mut codes = Vec::new();
            for i in at..at + n {
                let mut src = Src::random(base ^ mix(i));
                let mut case = Case { want_repr: false, ..Case::default() };
                let code = make(self.gen, &mut src, &mut case);
                stats.evaluations += 1;
                if case.nontrivial {
                    stats.nontrivial += 1;
                    stats.distinct.insert(hash_str(&code.text()));
                }
                for c in &case.classes {
                    *stats.classes.entry((*c).to_owned()).or_default() += 1;
                }
                if stats.samples.len() < 3 && i % (cases / 3 + 1) == 1 {
                    stats.samples.push(clip(&code.text(), 1500));
                }
                srcs.push(src);
                codes.push(code);
            }
            let per = self.shard.min((n as usize).div_ceil(threads() as usize));
            let outs = run_all(&self.opts, self.header, &codes, per);
            for (i, o) in outs.iter().enumerate() {
                if *o == Outcome::Skipped {
                    *stats.classes.entry("fails for another property, skipped".into()).or_default() += 1;
                }
                if let Outcome::Invalid(m) = o {
                    *stats.classes.entry("not valid, skipped".into()).or_default() += 1;
                    invalid += 1;
                    if invalid * 50 < stats.evaluations {
                        continue;
                    }
                    broken(&format!(
                        "{}: generated case {} is not valid: {m}\n{}",
                        self.name,
                        at + i as u64,
                        clip(&codes[i].text(), 3000)
                    ));
                }
            }
            if let Some(i) = outs.iter().position(|o| o.failure().is_some()) {
                let src = srcs.swap_remove(i);
                return Some(self.shrink(src, outs[i].failure().unwrap(), codes[i].text()));
            }
            at += n;
        }
        None
    }

    fn shrink(&self, src: Src, message: String, repr: String) -> Failure {
        shrink(
            src,
            message,
            repr,
            |s| make(self.gen, s, &mut Case::default()),
            Code::text,
            |codes| {
                let size = codes.len().div_ceil(threads() as usize);
                run_all(&self.opts, self.header, codes, size).iter().map(Outcome::failure).collect()
            },
        )
    }

    pub fn replay(&self, choices: Vec<u64>) -> (String, Option<String>) {
        let code = make(self.gen, &mut Src::replay(choices), &mut Case::default());
        let out = run_all(&self.opts, self.header, std::slice::from_ref(&code), 1);
        (code.text(), out[0].failure())
    }
}

/// Shrinks a failing case by rounds of candidates judged together.
pub fn shrink<T: Clone>(
    src: Src,
    message: String,
    repr: String,
    gen: impl Fn(&mut Src) -> T,
    text: impl Fn(&T) -> String,
    judge: impl Fn(&[T]) -> Vec<Option<String>>,
) -> Failure {
    let start = Instant::now();
    let mut best = Failure { choices: src.choices, message, repr };
    let mut spans = src.spans;
    let mut seen: HashSet<u64> = HashSet::new();
    while start.elapsed() < Duration::from_secs(60) {
        let cur = best.choices.clone();
        let mut cands: Vec<Vec<u64>> = Vec::new();
        let mut order = spans.clone();
        order.sort_by_key(|&(a, b)| std::cmp::Reverse(b - a));
        for (a, b) in order {
            if a < b && b <= cur.len() {
                let mut c = cur.clone();
                c.drain(a..b);
                cands.push(c);
            }
        }
        for size in [8, 4, 2, 1] {
            for i in 0..(cur.len() + 1).saturating_sub(size) {
                let mut c = cur.clone();
                c.drain(i..i + size);
                cands.push(c);
            }
        }
        for i in 0..cur.len() {
            for v in [0, cur[i] / 2, cur[i].saturating_sub(1)] {
                if v < cur[i] {
                    let mut c = cur.clone();
                    c[i] = v;
                    cands.push(c);
                }
            }
        }
        let mut batch = Vec::new();
        for c in cands {
            let mut s = Src::replay(c);
            let code = gen(&mut s);
            let used = s.used().min(s.choices.len());
            s.choices.truncate(used);
            while s.choices.last() == Some(&0) {
                s.choices.pop();
            }
            let better =
                s.choices.len() < cur.len() || (s.choices.len() == cur.len() && s.choices < cur);
            if better && seen.insert(hash_str(&text(&code))) {
                batch.push((s, code));
            }
            if batch.len() >= 96 {
                break;
            }
        }
        if batch.is_empty() {
            break;
        }
        let codes: Vec<T> = batch.iter().map(|(_, c)| c.clone()).collect();
        let outs = judge(&codes);
        let pick = (0..batch.len())
            .filter(|&i| outs[i].clone().is_some())
            .min_by_key(|&i| (batch[i].0.choices.len(), batch[i].0.choices.clone()));
        let Some(i) = pick else { continue };
        best = Failure {
            choices: batch[i].0.choices.clone(),
            message: outs[i].clone().unwrap(),
            repr: text(&batch[i].1),
        };
        spans = batch[i].0.spans.clone();
    }
    best
    }

/// Compiles each line on its own terms, without running anything: the error
/// for those that have one. `names` are undefined names the lines use.
///
/// An error about such a name points into the macros' own source, so lines
/// that share one are kept apart and told by the name.
pub fn verdicts(header: &str, lines: &[String], names: &[Vec<String>], size: usize) -> Vec<Option<String>> {
    libs();
    let mut shards: Vec<Vec<usize>> = vec![];
    let mut plain: Vec<usize> = Vec::new();
    let mut used: Vec<HashSet<&str>> = vec![];
    for i in 0..lines.len() {
        if names[i].is_empty() {
            plain.push(i);
            continue;
        }
        let free = |u: &HashSet<&str>| !names[i].iter().any(|n| u.contains(n.as_str()));
        let k = match used.iter().position(free) {
            Some(k) => k,
            None => {
                used.push(HashSet::new());
                shards.push(Vec::new());
                used.len() - 1
            }
        };
        used[k].extend(names[i].iter().map(String::as_str));
        shards[k].push(i);
    }
    shards.extend(plain.chunks(size.max(1)).map(<[usize]>::to_vec));
    let results = Mutex::new(vec![None; lines.len()]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                let Some(shard) = shards.get(k) else { break };
                let l: Vec<(&str, &[String])> = shard.iter().map(|&i| (lines[i].as_str(), &names[i][..])).collect();
                let v = verdict_shard(header, &l);
                let mut r = results.lock().unwrap();
                for (&i, v) in shard.iter().zip(v) {
                    r[i] = v;
                }
            });
        }
    });
    results.into_inner().unwrap()
}

fn verdict_shard(header: &str, lines: &[(&str, &[String])]) -> Vec<Option<String>> {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let src = scratch().join(format!("v{n}.rs"));
    let mut out: Vec<Option<String>> = vec![None; lines.len()];
    loop {
        let mut text = format!("#![allow(warnings)]\n{header}\n");
        let first = text.matches('\n').count() + 1;
        let mut at = Vec::new();
        for (i, (l, _)) in lines.iter().enumerate() {
            if out[i].is_none() {
                text += &l.replace("@N@", &i.to_string());
                text.push('\n');
                at.push(i);
            }
        }
        text += "fn main() {}\n";
        fs::write(&src, &text).unwrap();
        let Err(diags) = rustc(&PLAIN, &src, None) else { break };
        let mut any = false;
        for d in &diags {
            let by_line = d.line.checked_sub(first).and_then(|k| at.get(k)).copied();
            let by_name = || {
                let name = d.message.strip_prefix("cannot find value `")?.split('`').next()?;
                let name = name.strip_prefix("r#").unwrap_or(name);
                at.iter().copied().find(|&i| lines[i].1.iter().any(|n| n == name))
            };
            if let Some(i) = by_line.or_else(by_name) {
                out[i].get_or_insert_with(|| d.message.clone());
                any = true;
            }
        }
        if !any {
            // Not attributed: look at smaller sets.
            if let [i] = at[..] {
                out[i] = Some(diags[0].message.clone());
            } else {
                for half in at.chunks(at.len().div_ceil(2)) {
                    let l: Vec<_> = half.iter().map(|&i| lines[i]).collect();
                    for (&i, v) in half.iter().zip(verdict_shard(header, &l)) {
                        out[i] = v;
                    }
                }
                break;
            }
        }
    }
    if std::env::var_os("VERIF_KEEP").is_none() {
        let _ = fs::remove_file(&src);
        let _ = fs::remove_dir_all(src.with_extension("out"));
    }
    out
}
