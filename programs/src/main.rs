#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../harness/src/text.rs"]
#[allow(dead_code)]
mod text;

mod c08;
mod c09;
mod c10;
mod c11;
mod c15;
mod c17;
mod c18;
mod call;
mod prog;

use std::time::Instant;

use engine::{clip, install_panic_hook, Stats};
use prog::{broken, verif, Code, Failure, Gen, Outcome, Search, PLAIN};
use serde_json::{json, Value};

/// What a check found and covered.
pub struct Run {
    pub id: &'static str,
    pub rule: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub scale: f64,
    stats: Stats,
    parts: serde_json::Map<String, Value>,
    failure: Option<(String, Failure)>,
}

impl Run {
    pub fn cases(&self, quick: u64, thorough: u64) -> u64 {
        ((if self.thorough { thorough } else { quick }) as f64 * self.scale) as u64
    }

    /// All of a fixed set of programs.
    pub fn sweep(&mut self, name: &str, n: usize, f: fn(usize) -> Code, shard: usize, items: usize) {
        if self.failure.is_some() {
            return;
        }
        let t = Instant::now();
        let codes: Vec<Code> = (0..n).map(f).collect();
        let outs = prog::run_all(&PLAIN, "", &codes, shard);
        for (i, o) in outs.iter().enumerate() {
            if let Outcome::Invalid(m) = o {
                broken(&format!("{name} {i} is not valid: {m}\n{}", clip(&codes[i].text(), 1500)));
            }
            if let Some(message) = o.failure() {
                if self.failure.is_none() {
                    let f = Failure { choices: vec![i as u64], message, repr: clip(&codes[i].text(), 4000) };
                    self.failure = Some((name.to_owned(), f));
                }
            }
        }
        self.stats.evaluations += (n * items) as u64;
        self.stats.nontrivial += (n * items) as u64;
        for c in &codes {
            for (k, l) in c.lines.iter().filter(|l| l.0 == prog::Kind::Subject) {
                let _ = k;
                self.stats.distinct.insert(engine::hash_str(l));
            }
        }
        self.parts.insert(
            name.into(),
            json!({"programs": n, "cases": n * items, "exhaustive": true, "wall_s": t.elapsed().as_secs_f64()}),
        );
    }

    pub fn search(&mut self, s: &Search<'_>, cases: u64) {
        if self.failure.is_some() {
            return;
        }
        let t = Instant::now();
        let mut st = Stats::default();
        let failure = s.run(self.seed, cases, &mut st);
        self.parts.insert(
            s.name.into(),
            json!({
                "cases": st.evaluations,
                "nontrivial": st.nontrivial,
                "distinct_nontrivial": st.distinct.len(),
                "classes": st.classes,
                "wall_s": t.elapsed().as_secs_f64(),
            }),
        );
        self.stats.merge(st);
        if let Some(f) = failure {
            self.failure = Some((s.name.to_owned(), f));
        }
    }

    pub fn note(&mut self, name: &str, st: Stats, exhaustive: bool, t: Instant) {
        self.parts.insert(
            name.into(),
            json!({
                "cases": st.evaluations,
                "distinct_nontrivial": st.distinct.len(),
                "classes": st.classes,
                "exhaustive": exhaustive,
                "wall_s": t.elapsed().as_secs_f64(),
            }),
        );
        self.stats.merge(st);
    }

    pub fn fail(&mut self, name: &str, f: Failure) {
        if self.failure.is_none() {
            self.failure = Some((name.to_owned(), f));
        }
    }

    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }

    pub fn take_failure(&mut self) -> Failure {
        self.failure.take().unwrap().1
    }

    /// The keys of the recorded defects of this property.
    pub fn known_findings(&self) -> Vec<String> {
        let text = std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
        let prefix = format!("KNOWN-FINDING: property={} [", self.id);
        text.lines()
            .filter_map(|l| l.strip_prefix(&prefix))
            .filter_map(|l| l.split_once(']'))
            .map(|(k, _)| k.to_owned())
            .collect()
    }

    pub fn known(&self, what: &str) {
        println!("KNOWN-FINDING: property={} {what}", self.id);
    }

    /// Calls that should compile: those that do not are recorded defects, or
    /// violations.
    pub fn known_rejections(&mut self, header: &str, calls: &[(&str, &str, &str)], line: fn(&str) -> String) {
        let list = self.known_findings();
        let lines: Vec<String> = calls.iter().map(|k| line(k.2)).collect();
        let got = prog::verdicts(header, &lines, &vec![vec![]; calls.len()], 1);
        for ((key, what, call), v) in calls.iter().zip(got) {
            if v.is_none() {
                continue;
            }
            if list.iter().any(|l| l == key) {
                self.known(&format!("[{key}] {what}"));
            } else {
                self.fail("known", Failure { choices: vec![], message: (*what).to_owned(), repr: (*call).to_owned() });
            }
        }
    }

    fn finish(self, start: Instant) -> i32 {
        let coverage = json!({
            "evaluations": self.stats.evaluations,
            "distinct_nontrivial": self.stats.distinct.len(),
            "rule": self.rule,
            "samples": self.stats.samples.iter().take(8).map(|s| json!(s)).collect::<Vec<_>>(),
            "parts": self.parts,
        });
        let dir = verif().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}.json", self.id));
        let mut v = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "wall_s": start.elapsed().as_secs_f64(),
        });
        if self.id == "C15" {
            // The second half of a check: add to what the first half wrote.
            let old = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
            if let Some(mut old) = old {
                for key in ["evaluations", "distinct_nontrivial"] {
                    let n = |v: &Value| v["coverage"][key].as_u64().unwrap_or(0);
                    old["coverage"][key] = json!(n(&old) + n(&v));
                }
                let rule = format!("{}; {}", old["coverage"]["rule"].as_str().unwrap_or(""), self.rule);
                old["coverage"]["rule"] = json!(rule);
                if let Some(s) = old["coverage"]["samples"].as_array_mut() {
                    s.extend(v["coverage"]["samples"].as_array().cloned().unwrap_or_default());
                }
                if let (Some(a), Some(b)) = (old["coverage"]["parts"].as_object_mut(), v["coverage"]["parts"].as_object()) {
                    a.extend(b.clone());
                }
                old["wall_s"] = json!(old["wall_s"].as_f64().unwrap_or(0.0) + v["wall_s"].as_f64().unwrap_or(0.0));
                v = old;
            }
        }
        if let Some((name, f)) = &self.failure {
            v["violation"] = json!({"search": name, "message": f.message, "case": clip(&f.repr, 4000)});
        }
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        let Some((name, f)) = self.failure else { return 0 };
        let dir = verif().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}.json", self.id));
        let v = json!({
            "property": self.id,
            "search": name,
            "choices": f.choices,
            "message": f.message,
            "case": f.repr,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{name}: {}", clip(&f.message, 2000));
        println!("case:\n{}", clip(&f.repr, 3000));
        println!("VIOLATION property={} replay={}", self.id, path.display());
        1
    }
}

type Sweep = (&'static str, usize, fn(usize) -> Code, usize, usize);

struct Check {
    id: &'static str,
    rule: &'static str,
    sweeps: &'static [Sweep],
    /// Name, generator, programs in the quick and the thorough tier, cases
    /// per program.
    searches: &'static [(&'static str, Gen, u64, u64, usize)],
    own: Option<fn(&mut Run)>,
}

const CHECKS: &[Check] = &[
    Check {
        id: "C08",
        rule: "the call has a placeholder",
        sweeps: &[
            ("options", c08::SWEEP, c08::sweep, 6, 44),
            ("values", c08::VALUES, c08::values, 1, 65_536),
            ("literals", c08::LITERALS, c08::literals, 34, 1),
            ("separated", c08::SEPARATED, c08::separated, 6, 1),
        ],
        searches: &[("strings", c08::random, 3200, 80_000, 50)],
        own: None,
    },
    Check {
        id: "C09",
        rule: "some placeholder has a non-empty attribute list",
        sweeps: &[
            ("attributes", c09::SWEEP, c09::sweep, 9, c09::ITEMS),
            ("repeats", c09::REPEATS, c09::repeats, 3, c09::REPEAT_ITEMS),
            ("values", c09::VALUES, c09::values, 1, 3 * 65_536),
        ],
        searches: &[("calls", c09::random, 2400, 60_000, 50)],
        own: None,
    },
    Check {
        id: "C10",
        rule: "the call has explicit arguments",
        sweeps: &[("self", c10::FIXED.len(), c10::fixed, 5, 1)],
        searches: &[("arguments", c10::random, 2400, 60_000, 40)],
        own: Some(c10::known),
    },
    Check {
        id: "C11",
        rule: "the grammar (confirmed by std where it can read the call) settles whether the call must compile",
        sweeps: &[],
        searches: &[],
        own: Some(c11::check),
    },
    Check {
        id: "C15",
        rule: "the call has a placeholder or its format string is not a plain literal",
        sweeps: &[("bare", c15::FIXED, c15::fixed, 16, 1)],
        searches: &[("writeln", c15::writeln, 1600, 40_000, 50), ("strings", c15::strings, 800, 20_000, 50)],
        own: None,
    },
    Check {
        id: "C17",
        rule: "one output, or one compilation, under one combination of features; distinct generated calls with a placeholder",
        sweeps: &[],
        searches: &[],
        own: Some(c17::check),
    },
    Check {
        id: "C18",
        rule: "the scope declares some name of its own, or a macro of the caller's captures a variable",
        sweeps: &[],
        searches: &[],
        own: Some(c18::check),
    },
];

fn search_of(name: &'static str, gen: Gen, shard: usize) -> Search<'static> {
    Search { name, gen, opts: PLAIN, header: "", shard }
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let (id, name) = (v["property"].as_str().unwrap(), v["search"].as_str().unwrap());
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect();
    let Some(check) = CHECKS.iter().find(|c| c.id == id) else { broken("unknown property") };
    let (text, failure) = if let Some(s) = check.sweeps.iter().find(|s| s.0 == name) {
        let code = (s.2)(choices[0] as usize);
        (code.text(), prog::run_all(&PLAIN, "", std::slice::from_ref(&code), 1)[0].failure())
    } else if let Some(s) = check.searches.iter().find(|s| s.0 == name) {
        search_of(s.0, s.1, s.4).replay(choices)
    } else if id == "C11" {
        c11::replay(name, choices)
    } else if let Some(s) = c18::search_of(name) {
        s.replay(choices)
    } else if id == "C17" {
        c17::replay(&choices)
    } else {
        broken("this kind of violation is replayed by running the check again");
    };
    println!("{text}");
    match failure {
        None => {
            println!("holds");
            0
        }
        Some(m) => {
            println!("{m}\nVIOLATION property={id} replay={path}");
            1
        }
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(String::as_str) {
        Some("has") => i32::from(!CHECKS.iter().any(|c| c.id == args[1])),
        Some("libs") => {
            prog::libs();
            c17::prepare();
            0
        }
        Some("replay") => replay(&args[1]),
        Some("check") => {
            let start = Instant::now();
            let thorough = match args.get(2) {
                Some(t) => t == "thorough",
                None => std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
            };
            let Some(check) = CHECKS.iter().find(|c| c.id == args[1]) else { broken("unknown property") };
            let mut run = Run {
                id: check.id,
                rule: check.rule,
                thorough,
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
                stats: Stats::default(),
                parts: serde_json::Map::new(),
                failure: None,
            };
            for s in check.sweeps {
                run.sweep(s.0, s.1, s.2, s.3, s.4);
            }
            for s in check.searches {
                let n = run.cases(s.2, s.3);
                run.search(&search_of(s.0, s.1, s.4), n);
            }
            if let Some(f) = check.own {
                if run.failure.is_none() {
                    f(&mut run);
                }
            }
            run.finish(start)
        }
        _ => {
            eprintln!("usage: programs check <property> [quick|thorough] | replay <file> | libs | has <property>");
            2
        }
    };
    prog::cleanup();
    std::process::exit(code);
}
