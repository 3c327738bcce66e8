//! C17: every combination of features compiles, offers what the table
//! promises, and renders alike.

use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    process::Command,
    sync::Mutex,
    time::{Duration, Instant},
};

use crate::{
    call::{self, Call, Opts},
    engine::{clip, hash_str, mix, threads, Src, Stats},
    prog::{broken, run_timeout, scratch, verif, Failure, REPO},
    Run,
};

const FEATURES: [&str; 6] = ["std", "alloc", "macros", "ansi", "html", "plain"];
const FULL: u64 = 0b11_1111;
const STD: u64 = 1;
const ALLOC: u64 = 2;
const MACROS: u64 = 4;

fn names(combo: u64) -> String {
    let l: Vec<&str> = FEATURES.iter().enumerate().filter(|(i, _)| combo >> i & 1 == 1).map(|(_, f)| *f).collect();
    l.join(",")
}

fn show(combo: u64) -> String {
    format!("[{}]", names(combo))
}

fn worker_dir(k: usize) -> PathBuf {
    verif().join(format!("build/feat/w{k}"))
}

fn cargo(manifest: &str, what: &str, features: &str, target: &Path, src: &Path) -> Result<(), String> {
    let (code, _, err) = run_timeout(
        Command::new("cargo")
            .args([what, "--offline", "--no-default-features", "--features", features, "--manifest-path"])
            .arg(verif().join(format!("programs/{manifest}/Cargo.toml")))
            .env("CARGO_TARGET_DIR", target)
            .env("FEAT_SRC", src),
        Duration::from_secs(300),
    );
    if code == Some(0) {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&err).into_owned();
    let from = err.find("\nerror").unwrap_or(0);
    Err(err[from..].trim().to_owned())
}

/// Builds what all combinations share, once per worker.
pub fn prepare() {
    let first = worker_dir(0);
    let src = scratch().join("feat-none.rs");
    std::fs::write(&src, "pub fn run() {}").unwrap();
    // A failure here shows in the check itself.
    let _ = cargo("feat", "build", &names(FULL), &first, &src);
    let _ = cargo("bare", "check", "macros,ansi,html,plain", &first, &src);
    for k in 1..threads() as usize {
        let dir = worker_dir(k);
        if !dir.exists() {
            let _ = Command::new("cp").arg("-a").arg(&first).arg(&dir).status();
        }
    }
}

type Lines = BTreeMap<(String, u32), Vec<String>>;

struct Program {
    path: PathBuf,
    texts: Vec<String>,
}

/// The generated half of the program.
fn generate(seed: u64, round: u64, calls: u64, stats: Option<&mut Stats>) -> Program {
    let mut text = String::new();
    let mut texts = Vec::new();
    let mut sample = Stats::default();
    let stats = stats.unwrap_or(&mut sample);
    for i in 0..calls {
        let mut src = Src::random(mix(seed ^ mix(round)) ^ mix(i));
        let o = Opts { attrs: true, sty: true, caps: true, max_pieces: 6, idents: false, value: call::value };
        let call = Call::generate(&mut src, o);
        let form = call.form(&mut src);
        let s = call.format_string(true);
        let lit = call::write_form(form, &s, src.idx(40));
        let body = format!("{} call!({i}, {lit}{});", call.locals(), call.args(src.chance(1, 6)));
        let body = body.replace("::rt::", "crate::rt::");
        text += &format!("fn call_{i}() {{ {body} }}\n");
        if call.placeholders() > 0 {
            stats.distinct.insert(hash_str(&body));
        }
        if stats.samples.len() < 4 && i % 16 == 3 {
            stats.samples.push(clip(&body, 800));
        }
        texts.push(body);
    }
    text += "pub fn run() {\n";
    for i in 0..calls {
        text += &format!("call_{i}();\n");
    }
    text += "}\n";
    let path = scratch().join(format!("feat-{seed}-{round}-{calls}.rs"));
    std::fs::write(&path, text).unwrap();
    Program { path, texts }
}

/// The output of the program with the given features, by section and case.
fn output(k: usize, combo: u64, p: &Program, cases: u64) -> Result<Lines, String> {
    let dir = worker_dir(k);
    cargo("feat", "build", &names(combo), &dir, &p.path)?;
    let (code, out, err) = run_timeout(Command::new(dir.join("debug/feat")).arg(cases.to_string()), Duration::from_secs(120));
    let out = String::from_utf8_lossy(&out).into_owned();
    if code != Some(0) || !out.ends_with("E\n") {
        return Err(format!("the program ends with {code:?}: {}", clip(&String::from_utf8_lossy(&err), 1500)));
    }
    let mut lines = Lines::new();
    for l in out.lines() {
        let mut parts = l.splitn(3, ' ');
        let (Some(s), Some(i), Some(v)) = (parts.next(), parts.next(), parts.next()) else { continue };
        lines.entry((s.to_owned(), i.parse().unwrap())).or_default().push(v.to_owned());
    }
    Ok(lines)
}

fn bare(k: usize, combo: u64) -> Result<(), String> {
    cargo("bare", "check", &names(combo), &worker_dir(k), Path::new(""))
}

/// What must also be there in a combination, whatever else is.
fn sections(combo: u64) -> Vec<&'static str> {
    let has = |f: &str| combo >> FEATURES.iter().position(|g| *g == f).unwrap() & 1 == 1;
    let alloc = has("alloc") || has("std");
    let mut s = vec!["diff", "rec"];
    let mut add = |on: bool, names: &[&'static str]| {
        if on {
            s.extend(names);
        }
    };
    for (f, a, b, c, d, e) in [
        ("ansi", "ansi", "call-ansi", "call-ansi-string", "io-ansi", "call-io-ansi"),
        ("html", "html", "call-html", "call-html-string", "", ""),
        ("plain", "plain", "call-plain", "call-plain-string", "io-plain", "call-io-plain"),
    ] {
        let on = has(f);
        add(on, &[a]);
        add(on && has("macros"), &[b]);
        add(on && has("macros") && alloc, &[c]);
        add(on && has("std") && !d.is_empty(), &[d]);
        add(on && has("std") && has("macros") && !d.is_empty(), &[e]);
    }
    add(alloc, &["string"]);
    add(has("std"), &["io-own"]);
    add(has("macros"), &["call-rec", "call-nested", "bad-rec"]);
    add(has("macros") && alloc, &["call-string"]);
    s
}

fn differ(a: &Lines, b: &Lines) -> Option<((String, u32), String, String)> {
    for (key, va) in a {
        if let Some(vb) = b.get(key) {
            if va != vb {
                let (x, y) = va.iter().zip(vb).find(|(x, y)| x != y)?;
                return Some((key.clone(), x.clone(), y.clone()));
            }
        }
    }
    None
}

fn each<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = Mutex::new(0);
    let out: Mutex<Vec<Option<R>>> = Mutex::new(items.iter().map(|_| None).collect());
    std::thread::scope(|s| {
        for k in 0..threads() as usize {
            let (next, out, f) = (&next, &out, &f);
            s.spawn(move || loop {
                let i = {
                    let mut n = next.lock().unwrap();
                    *n += 1;
                    *n - 1
                };
                let Some(item) = items.get(i) else { break };
                let r = f(k, item);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|r| r.unwrap()).collect()
}

const BARE: u64 = 1 << 32;

const PART: u64 = 1 << 33;

/// The other crates of the workspace, with each combination of their public
/// features.
fn parts() -> Vec<(String, String)> {
    let (code, out, err) = run_timeout(
        Command::new("cargo")
            .args(["metadata", "--no-deps", "--offline", "--locked", "--format-version", "1", "--manifest-path"])
            .arg(Path::new(REPO).join("Cargo.toml")),
        Duration::from_secs(120),
    );
    if code != Some(0) {
        broken(&format!("cargo metadata: {}", String::from_utf8_lossy(&err)));
    }
    let v: serde_json::Value = serde_json::from_slice(&out).unwrap();
    let mut list = Vec::new();
    for p in v["packages"].as_array().into_iter().flatten() {
        let name = p["name"].as_str().unwrap_or("");
        if name == "stylish" {
            continue;
        }
        let features: Vec<&str> = p["features"]
            .as_object()
            .into_iter()
            .flat_map(|f| f.keys())
            .map(String::as_str)
            .filter(|f| *f != "default" && !f.starts_with('_'))
            .take(6)
            .collect();
        for combo in 0..1u32 << features.len() {
            let on: Vec<&str> = features.iter().enumerate().filter(|(i, _)| combo >> i & 1 == 1).map(|(_, f)| *f).collect();
            list.push((name.to_owned(), on.join(",")));
        }
    }
    list
}

fn part(k: usize, (name, features): &(String, String)) -> Result<(), String> {
    let (code, _, err) = run_timeout(
        Command::new("cargo")
            .args(["check", "--offline", "--locked", "--lib", "--no-default-features", "--features", features, "--package", name])
            .arg("--manifest-path")
            .arg(Path::new(REPO).join("Cargo.toml"))
            .env("CARGO_TARGET_DIR", worker_dir(k)),
        Duration::from_secs(300),
    );
    if code == Some(0) {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&err).into_owned();
    let from = err.find("\nerror").unwrap_or(0);
    Err(err[from..].trim().to_owned())
}

fn violation(seed: u64, round: u64, calls: u64, a: u64, b: u64, message: String, p: &Program) -> Failure {
    Failure { choices: vec![seed, round, calls, a, b], message, repr: p.texts.join("\n") }
}

pub fn check(run: &mut Run) {
    prepare();
    let calls = run.cases(48, 200);
    let rounds = if run.thorough { 6 } else { 1 };
    let cases = if run.thorough { 400 } else { 40 };
    let mut combos: Vec<u64> = (0..64).collect();
    // The slow ones first.
    combos.sort_by_key(|c| std::cmp::Reverse((c & MACROS, c.count_ones(), *c)));
    for round in 0..rounds {
        let t = Instant::now();
        let mut stats = Stats::default();
        let mut p = generate(run.seed, round, calls, Some(&mut stats));
        let mut used = calls;
        if output(0, FULL, &p, cases).is_err() {
            // Calls no combination takes are another property's business.
            p = generate(run.seed, round, 0, None);
            used = 0;
            stats.classes.insert("generated calls skipped".into(), calls);
            stats.distinct.clear();
        }
        let outs = each(&combos, |k, &c| output(k, c, &p, cases));
        for (c, o) in combos.iter().zip(&outs) {
            match o {
                Err(m) => {
                    let m = format!("with the features {} {m}", show(*c));
                    return run.fail("combinations", violation(run.seed, round, used, *c, *c, m, &p));
                }
                Ok(lines) => {
                    stats.evaluations += lines.len() as u64;
                    for s in sections(*c) {
                        if (used > 0 || !s.starts_with("call-")) && !lines.keys().any(|(n, _)| n == s) {
                            broken(&format!("section {s} is missing with {}", show(*c)));
                        }
                    }
                }
            }
        }
        // The pair with the fewest features that differs.
        let mut order: Vec<usize> = (0..combos.len()).collect();
        order.sort_by_key(|&i| combos[i].count_ones());
        for (n, &i) in order.iter().enumerate() {
            for &j in &order[..n] {
                let (Ok(a), Ok(b)) = (&outs[j], &outs[i]) else { unreachable!() };
                if let Some((key, x, y)) = differ(a, b) {
                    let m = format!(
                        "{} {}: with the features {} the output is\n{x}\nand with {} it is\n{y}",
                        key.0,
                        key.1,
                        show(combos[j]),
                        show(combos[i])
                    );
                    let mut v = violation(run.seed, round, used, combos[j], combos[i], m, &p);
                    if key.0.starts_with("call") {
                        v.repr = p.texts[key.1 as usize].clone();
                    }
                    return run.fail("combinations", v);
                }
            }
        }
        stats.nontrivial = stats.evaluations;
        run.note(&format!("combinations {round}"), stats, true, t);
    }
    // Without std there is no std to link, without alloc no allocator.
    let t = Instant::now();
    let lone: Vec<u64> = (0..64).filter(|c| c & STD == 0).collect();
    let outs = each(&lone, |k, &c| bare(k, c));
    for (c, o) in lone.iter().zip(outs) {
        if let Err(m) = o {
            let p = Program { path: PathBuf::new(), texts: vec![] };
            let m = format!("a program without std does not build with the features {}: {m}", show(*c));
            return run.fail("combinations", violation(run.seed, 0, 0, *c, BARE, m, &p));
        }
    }
    let mut stats = Stats { evaluations: lone.len() as u64, ..Stats::default() };
    stats.distinct.extend(lone.iter().map(|c| mix(*c)));
    run.note("without std", stats, true, t);
    // The crates it is made of, each on its own.
    let t = Instant::now();
    let list = parts();
    let outs = each(&list, |k, p| part(k, p));
    for (i, (what, o)) in list.iter().zip(outs).enumerate() {
        if let Err(m) = o {
            let m = format!("{} does not build with the features [{}]: {m}", what.0, what.1);
            let p = Program { path: PathBuf::new(), texts: vec![] };
            return run.fail("combinations", violation(run.seed, 0, 0, i as u64, PART, m, &p));
        }
    }
    let mut stats = Stats { evaluations: list.len() as u64, ..Stats::default() };
    stats.distinct.extend(list.iter().map(|p| hash_str(&format!("{p:?}"))));
    run.note("parts", stats, true, t);
    // Documented for the alloc feature of the style crate, which nothing
    // turns on.
    let p = generate(run.seed, 0, 0, None);
    let known = run.known_findings();
    for f in ["std", "alloc"] {
        if let Err(m) = cargo("feat", "build", &format!("{f},boxes"), &worker_dir(0), &p.path) {
            if known.iter().any(|k| k == "boxes") {
                run.known("[boxes] `Box<T>: Restyle` is not available with any of stylish's own features");
                break;
            }
            let m = format!("with the feature {f} `Box<T>: Restyle` is missing: {m}");
            return run.fail("combinations", violation(run.seed, 0, 0, 0, BARE + 1, m, &p));
        }
    }
}

pub fn replay(choices: &[u64]) -> (String, Option<String>) {
    prepare();
    let [seed, round, calls, a, b] = choices else { broken("not a C17 replay") };
    let p = generate(*seed, *round, *calls, None);
    let text = format!("features {} and {}\n{}", show(*a), show(*b & FULL), p.texts.join("\n"));
    let failure = match *b {
        BARE => bare(0, *a).err(),
        PART => {
            let list = parts();
            let which = list.get(*a as usize).unwrap_or_else(|| broken("not a C17 replay"));
            return (format!("{} with [{}]", which.0, which.1), part(0, which).err());
        }
        b if b > BARE => cargo("feat", "build", "alloc,boxes", &worker_dir(0), &p.path).err(),
        b => match (output(0, *a, &p, 400), output(0, b, &p, 400)) {
            (Err(m), _) | (_, Err(m)) => Some(m),
            (Ok(x), Ok(y)) => differ(&x, &y).map(|(k, x, y)| format!("{} {}:\n{x}\n{y}", k.0, k.1)),
        },
    };
    (text, failure)
}
