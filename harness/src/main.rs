mod attrs;
mod doc;
mod engine;
mod fmt_checks;
mod io_checks;
mod model;
mod more_checks;
mod shapes;
mod sinks;
mod text;

use std::{
    path::PathBuf,
    time::{Duration, Instant},
};

use engine::{clip, install_panic_hook, search, Case, Failure, Prop, Src, Stats};
use serde_json::{json, Value};

#[global_allocator]
static ALLOC: more_checks::Counting = more_checks::Counting;

/// One generated-case search within a check.
struct Search {
    name: &'static str,
    prop: Prop,
    quick: u64,
    /// Factor for the thorough tier.
    thorough: u64,
}

/// One exhaustive enumeration within a check.
struct Sweep {
    name: &'static str,
    n: u64,
    f: fn(u64) -> Result<(), String>,
}

struct Check {
    id: &'static str,
    rule: &'static str,
    searches: &'static [Search],
    sweeps: &'static [Sweep],
}

const fn s(name: &'static str, prop: Prop, quick: u64) -> Search {
    Search { name, prop, quick, thorough: 20 }
}

const fn w(name: &'static str, n: u64, f: fn(u64) -> Result<(), String>) -> Sweep {
    Sweep { name, n, f }
}

use fmt_checks::*;
use io_checks::*;
use more_checks::*;

const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        rule: "the restyle expression changes the style it is applied to",
        searches: &[s("restyle", c01_restyle, 3_000_000), s("shapes", shapes::c01_shapes, 600_000)],
        sweeps: &[w("pairs", PAIRS, c01_pair)],
    },
    Check {
        id: "C02",
        rule: "the value writes text in at least two styles",
        searches: &[s("scopes", c02_scopes, 1_000_000), s("large", c02_large, 1200)],
        sweeps: &[],
    },
    Check {
        id: "C03",
        rule: "text in at least two styles, or text with ESC",
        searches: &[s("ansi", c03_ansi, 300_000), s("walk", c03_walk, 200_000), s("escapes", c03_escapes, 300_000), s("large", c03_large, 1200)],
        sweeps: &[w("pairs", PAIRS, c03_pair)],
    },
    Check {
        id: "C04",
        rule: "text in at least two styles",
        searches: &[s("chunking", c04_chunking, 250_000), s("large", c04_large, 1200)],
        sweeps: &[],
    },
    Check {
        id: "C05",
        rule: "text in at least two styles, or text with a metacharacter",
        searches: &[s("html", c05_html, 300_000), s("text", c05_text, 500_000), s("large", c05_large, 1200)],
        sweeps: &[w("pairs", PAIRS, c05_pair), w("characters", 0x11_0000, c05_char)],
    },
    Check {
        id: "C06",
        rule: "text in at least two styles; non-empty plain text; bytes that are not UTF-8",
        searches: &[s("text", c06_text, 200_000), s("plain", c06_plain, 300_000), s("bytes", c06_bytes, 500_000), s("large", c06_large, 1200)],
        sweeps: &[w("characters", 0x11_0000, c06_char), w("bytes", 256 + 65536, c06_byte)],
    },
    Check {
        id: "C07",
        rule: "some string of the history holds text in at least two styles",
        searches: &[s("history", c07_history, 120_000), s("record", c07_record, 200_000), s("large", c07_large, 1200)],
        sweeps: &[],
    },
    Check {
        id: "C12",
        rule: "the stream made at least one short write or interruption",
        searches: &[s("delivery", c12_delivery, 1_000_000), s("large", c12_large, 4_000)],
        sweeps: &[],
    },
    Check {
        id: "C13",
        rule: "an operation met a hard error or a zero write",
        searches: &[s("faults", c13_faults, 1_000_000), s("large", c13_large, 4_000)],
        sweeps: &[],
    },
    Check {
        id: "C14",
        rule: "the fault comes after something was written",
        searches: &[s("sink", c14_sink, 400_000),
            s("direct", c14_direct, 400_000),
            s("display", c14_display, 150_000),
            s("user sink", c14_user_sink, 300_000), s("large", c14_large, 1_200)],
        sweeps: &[],
    },
    Check {
        id: "C15",
        rule: "text in at least two styles; lines within a styled scope",
        searches: &[s("entry points", c15_entry_points, 100_000), s("lines", c15_lines, 100_000)],
        sweeps: &[w("characters", 0x11_0000, c15_char), w("lengths", 1025 + 18, c15_length)],
    },
    Check {
        id: "C16",
        rule: "text in at least two styles, or several writes",
        searches: &[s("render", c16_alloc, 400_000), s("writes", c16_writes, 200_000), s("large", c16_large, 1_200)],
        sweeps: &[],
    },
];

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Report {
    search: String,
    failure: Failure,
}

fn write_replay(id: &str, report: &Report) -> PathBuf {
    let dir = verif().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{id}.json"));
    let v = json!({
        "property": id,
        "search": report.search,
        "choices": report.failure.choices,
        "message": report.failure.message,
        "case": report.failure.repr,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

fn run_check(check: &Check, thorough: bool, seed: u64) -> i32 {
    let start = Instant::now();
    let mut stats = Stats::default();
    let mut parts = serde_json::Map::new();
    let mut report = None;
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    for sw in check.sweeps {
        let t = Instant::now();
        let res = sweep(sw.name, sw.n, sw.f);
        parts.insert(
            sw.name.into(),
            json!({"cases": sw.n, "exhaustive": true, "wall_s": t.elapsed().as_secs_f64()}),
        );
        stats.evaluations += sw.n;
        if let Some((i, message)) = res {
            report = Some(Report {
                search: sw.name.into(),
                failure: Failure { choices: vec![i], message, repr: format!("{} #{i}", sw.name) },
            });
            break;
        }
    }
    if report.is_none() {
        for se in check.searches {
            let t = Instant::now();
            let mut st = Stats::default();
            let n = if thorough { se.quick * se.thorough } else { se.quick };
            let n = (n as f64 * scale) as u64;
            let failure = search(se.name, se.prop, seed, n, &mut st);
            parts.insert(
                se.name.into(),
                json!({
                    "cases": st.evaluations,
                    "nontrivial": st.nontrivial,
                    "distinct_nontrivial": st.distinct.len(),
                    "classes": st.classes,
                    "wall_s": t.elapsed().as_secs_f64(),
                }),
            );
            stats.merge(st);
            if let Some(failure) = failure {
                report = Some(Report { search: se.name.into(), failure });
                break;
            }
        }
    }
    let samples: Vec<Value> = stats.samples.iter().take(8).map(|s| json!(s)).collect();
    let coverage = json!({
        "evaluations": stats.evaluations,
        "distinct_nontrivial": stats.distinct.len(),
        "rule": check.rule,
        "samples": samples,
        "parts": parts,
    });
    write_evidence(check.id, thorough, seed, coverage, start, report.as_ref());
    finish(check.id, report)
}

fn write_evidence(id: &str, thorough: bool, seed: u64, coverage: Value, start: Instant, report: Option<&Report>) {
    let dir = verif().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let mut v = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    if let Some(r) = report {
        v["violation"] = json!({"search": r.search, "message": r.failure.message, "case": clip(&r.failure.repr, 4000)});
    }
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn finish(id: &str, report: Option<Report>) -> i32 {
    match report {
        None => 0,
        Some(r) => {
            let path = write_replay(id, &r);
            println!("{}: {}", r.search, clip(&r.failure.message, 2000));
            println!("case: {}", clip(&r.failure.repr, 2000));
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
    }
}

/// How long one case may take; they take microseconds.
const CASE_LIMIT: Duration = Duration::from_secs(60);
/// How much memory a run may take, in pages of 4 kB.
const MEMORY_LIMIT: u64 = 8 << 18;

enum Ended {
    Code(i32),
    Signal,
    Stuck,
    Memory,
}

/// Runs this program again with `args`; stops it when it makes no progress.
fn subprocess(args: &[&str], file: &std::path::Path) -> Ended {
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("VERIF_PROGRESS", file)
        .spawn()
        .unwrap();
    let mut last: Vec<(Vec<u8>, Instant)> = Vec::new();
    let mut pause = 2;
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            return st.code().map_or(Ended::Signal, Ended::Code);
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(100);
        let now = std::fs::read(file).unwrap_or_default();
        let slots = now.chunks(engine::progress::SLOT);
        // The run as a whole is stuck once no thread moves on.
        for (i, s) in slots.enumerate() {
            match last.get_mut(i) {
                Some(l) if l.0 == s => {}
                Some(l) => *l = (s.to_vec(), Instant::now()),
                None => last.push((s.to_vec(), Instant::now())),
            }
        }
        let pages = std::fs::read_to_string(format!("/proc/{}/statm", child.id()))
            .ok()
            .and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok())
            .unwrap_or(0);
        let stuck = !last.is_empty() && last.iter().all(|l| l.1.elapsed() > CASE_LIMIT);
        if stuck || pages > MEMORY_LIMIT {
            let _ = child.kill();
            let _ = child.wait();
            return if stuck { Ended::Stuck } else { Ended::Memory };
        }
    }
}

/// Runs a check in a process of its own, so that a case which hangs, uses up
/// memory, overflows the stack or aborts is a violation like any other.
fn supervise(check: &Check, thorough: bool, seed: u64) -> i32 {
    let start = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let dir = verif().join("build");
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join(format!("progress.{}", check.id));
    std::fs::write(&file, [0; engine::progress::LEN]).unwrap();
    let how = match subprocess(&["run", check.id, tier], &file) {
        Ended::Code(c @ 0..=2) => return c,
        Ended::Code(_) | Ended::Signal => "dies",
        Ended::Stuck => "does not finish",
        Ended::Memory => "uses up memory",
    };
    eprintln!("{}: the run {how}; looking for the case", check.id);
    let slots = std::fs::read(&file).unwrap();
    let names = check.sweeps.iter().map(|s| s.name).chain(check.searches.iter().map(|s| s.name));
    let parts: Vec<&str> = names.collect();
    let scratch = dir.join(format!("progress.{}.single", check.id));
    let mut suspects: Vec<(&str, u64)> = Vec::new();
    for slot in slots.chunks_exact(engine::progress::SLOT) {
        let hash = u64::from_le_bytes(slot[..8].try_into().unwrap());
        let index = u64::from_le_bytes(slot[8..].try_into().unwrap());
        if let (Some(name), true) = (parts.iter().find(|n| engine::hash_str(n) == hash), index > 0) {
            suspects.push((name, index - 1));
        }
    }
    for (name, index) in suspects {
        std::fs::write(&scratch, [0; engine::progress::LEN]).unwrap();
        let how = match subprocess(&["single", check.id, name, &index.to_string()], &scratch) {
            Ended::Code(0) => continue,
            Ended::Code(1) => "fails",
            Ended::Code(_) | Ended::Signal => "dies",
            Ended::Stuck => "does not finish",
            Ended::Memory => "uses up memory",
        };
        let path = verif().join("replays").join(format!("{}.json", check.id));
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        let message = format!("{name}: case {index} {how}");
        let v = json!({
            "property": check.id,
            "search": name,
            "seed": seed,
            "index": index,
            "message": message,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        let failure = Failure { choices: vec![index], message: message.clone(), repr: String::new() };
        let coverage = json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": check.rule, "samples": [message.clone()]});
        write_evidence(check.id, thorough, seed, coverage, start, Some(&Report { search: name.into(), failure }));
        println!("{message}");
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    eprintln!("no case does so on its own");
    2
}

/// One case on its own: 0 if it passes.
fn single(check: &Check, name: &str, seed: u64, index: u64) -> i32 {
    let res = if let Some(sw) = check.sweeps.iter().find(|s| s.name == name) {
        (sw.f)(index)
    } else {
        let se = check.searches.iter().find(|s| s.name == name).unwrap();
        let (name, prop) = (se.name, se.prop);
        let run = move || engine::single(name, prop, seed, index).0;
        std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap().join().unwrap()
    };
    match res {
        Ok(()) => 0,
        Err(e) => {
            println!("{e}");
            1
        }
    }
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let name = v["search"].as_str().unwrap();
    if let (Some(index), Some(seed)) = (v["index"].as_u64(), v["seed"].as_u64()) {
        if !CHECKS.iter().any(|c| c.id == id) {
            return 2;
        }
        std::env::set_var("VERIF_SEED", seed.to_string());
        let file = verif().join("build/progress.replay");
        std::fs::write(&file, [0; engine::progress::LEN]).unwrap();
        return match subprocess(&["single", id, name, &index.to_string()], &file) {
            Ended::Code(0) => {
                println!("holds");
                0
            }
            _ => {
                println!("{}", v["message"].as_str().unwrap_or(""));
                println!("VIOLATION property={id} replay={path}");
                1
            }
        };
    }
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect();
    let Some(check) = CHECKS.iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let res = if let Some(sw) = check.sweeps.iter().find(|s| s.name == name) {
        (sw.f)(choices[0])
    } else if let Some(se) = check.searches.iter().find(|s| s.name == name) {
        let mut src = Src::replay(choices);
        let mut case = Case { want_repr: true, ..Case::default() };
        let res = engine::run_one(se.prop, &mut src, &mut case);
        println!("case: {}", case.repr);
        res
    } else {
        eprintln!("unknown search {name}");
        return 2;
    };
    match res {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(e) => {
            println!("{e}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match args.first().map(String::as_str) {
        Some("replay") => replay(&args[1]),
        Some("single") => {
            let check = CHECKS.iter().find(|c| c.id == args[1]).unwrap();
            single(check, &args[2], seed, args[3].parse().unwrap())
        }
        Some(how @ ("check" | "run")) => {
            if let Ok(path) = std::env::var("VERIF_PROGRESS") {
                engine::progress::open(&path);
            }
            let thorough = match args.get(2) {
                Some(t) => t == "thorough",
                None => std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
            };
            match CHECKS.iter().find(|c| c.id == args[1]) {
                Some(check) if how == "run" => run_check(check, thorough, seed),
                Some(check) => supervise(check, thorough, seed),
                None => {
                    eprintln!("unknown property {}", args[1]);
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: harness check <property> [quick|thorough] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
