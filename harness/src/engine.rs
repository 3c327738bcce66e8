//! A small choice-sequence property-testing engine.
//!
//! A generator draws bounded integers from a [`Src`]; the sequence of drawn
//! values *is* the case. Random cases come from a seeded generator, replayed
//! and shrunk cases from a stored sequence, so generation, replay and
//! shrinking share one code path.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub struct Src {
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub spans: Vec<(usize, usize)>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { choices: Vec::new(), pos: 0, rng: Some(mix(seed)), spans: Vec::new() }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Src { choices, pos: 0, rng: None, spans: Vec::new() }
    }

    pub fn used(&self) -> usize {
        self.pos
    }

    /// A value in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(state) => {
                *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let v = mix(*state) % n;
                self.choices.push(v);
                v
            }
            None => match self.choices.get(self.pos) {
                Some(&v) => {
                    let v = v.min(n - 1);
                    self.choices[self.pos] = v;
                    v
                }
                None => 0,
            },
        };
        self.pos += 1;
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }


    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }

    /// An index drawn by weight; shrinks to 0.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let mut v = self.below(weights.iter().sum());
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }

    /// Marks everything drawn inside as a unit the shrinker can delete.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let start = self.pos;
        let res = f(self);
        self.spans.push((start, self.pos));
        res
    }

    /// A list whose elements can be deleted one by one when shrinking.
    /// `avg` is the mean length above `min`.
    pub fn list<T>(
        &mut self,
        min: usize,
        max: usize,
        avg: u64,
        mut f: impl FnMut(&mut Self) -> T,
    ) -> Vec<T> {
        let mut out = Vec::new();
        loop {
            if out.len() >= max {
                break;
            }
            let start = self.pos;
            if out.len() >= min && !self.chance(avg, avg + 1) {
                break;
            }
            out.push(f(self));
            self.spans.push((start, self.pos));
        }
        out
    }
}

/// What one generated case reports about itself.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub want_repr: bool,
    pub repr: String,
}

impl Case {
    pub fn class(&mut self, on: bool, name: &'static str) {
        if on && !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }

    pub fn repr(&mut self, f: impl FnOnce() -> String) {
        if self.want_repr {
            self.repr = f();
        }
    }
}

pub type Prop = fn(&mut Src, &mut Case) -> Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn run_one(prop: Prop, src: &mut Src, case: &mut Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| prop(src, case))) {
        Ok(res) => res,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    }
}

/// Notes which case each thread is in, in a file the parent process reads
/// when this one hangs or dies.
pub mod progress {
    use std::{
        fs::File,
        os::fd::AsRawFd,
        sync::{
            atomic::{AtomicU64, Ordering},
            OnceLock,
        },
    };

    static SLOTS: OnceLock<&'static [AtomicU64]> = OnceLock::new();
    pub const SLOT: usize = 16;
    pub const LEN: usize = 16 * SLOT;

    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u8;
    }

    pub fn open(path: &str) {
        let f = File::options().read(true).write(true).open(path).unwrap();
        // PROT_READ | PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), LEN, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap of {path}");
        let _ = SLOTS.set(unsafe { std::slice::from_raw_parts(p as *const AtomicU64, LEN / 8) });
    }

    /// Thread `slot` starts case `index` of the part called `name`.
    pub fn note(slot: u64, name_hash: u64, index: u64) {
        if let Some(s) = SLOTS.get() {
            s[slot as usize * 2].store(name_hash, Ordering::Relaxed);
            s[slot as usize * 2 + 1].store(index + 1, Ordering::Relaxed);
        }
    }
}

pub struct Failure {
    pub choices: Vec<u64>,
    pub message: String,
    pub repr: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        self.nontrivial += other.nontrivial;
        self.distinct.extend(other.distinct);
        for (k, v) in other.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(other.samples);
    }
}

pub fn threads() -> u64 {
    std::thread::available_parallelism().map_or(8, |n| n.get() as u64).min(16)
}

/// Runs cases `0..cases` of `prop`, each a pure function of `(seed, name,
/// index)`. Returns the failure with the lowest index, if any.
pub fn search(name: &str, prop: Prop, seed: u64, cases: u64, stats: &mut Stats) -> Option<Failure> {
    let base = mix(seed ^ hash_str(name));
    let next = AtomicU64::new(0);
    let lowest = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Stats::default());
    let chunk = (cases / (threads() * 16)).clamp(1, 64);
    std::thread::scope(|scope| {
        for slot in 0..threads() {
            let (next, lowest, total) = (&next, &lowest, &total);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    let mut local = Stats::default();
                    loop {
                        let start = next.fetch_add(chunk, Ordering::SeqCst);
                        if start >= cases || start > lowest.load(Ordering::SeqCst) {
                            break;
                        }
                        for i in start..(start + chunk).min(cases) {
                            progress::note(slot, hash_str(name), i);
                            let mut src = Src::random(base ^ mix(i));
                            let mut case = Case { want_repr: i % (cases / 4 + 1) == 17, ..Case::default() };
                            let res = run_one(prop, &mut src, &mut case);
                            local.evaluations += 1;
                            if case.nontrivial {
                                local.nontrivial += 1;
                                let mut h = 0u64;
                                for &c in &src.choices {
                                    h = mix(h ^ c);
                                }
                                local.distinct.insert(h);
                            }
                            for c in &case.classes {
                                *local.classes.entry((*c).to_owned()).or_default() += 1;
                            }
                            if case.want_repr && !case.repr.is_empty() {
                                local.samples.push(clip(&case.repr, 1500));
                            }
                            if res.is_err() {
                                lowest.fetch_min(i, Ordering::SeqCst);
                                break;
                            }
                        }
                    }
                    total.lock().unwrap().merge(local);
                })
                .unwrap();
        }
    });
    stats.merge(total.into_inner().unwrap());
    let i = lowest.into_inner();
    if i == u64::MAX {
        return None;
    }
    // Deterministic: the lowest failing index, regenerated and shrunk.
    let part = hash_str(name);
    let run = move || {
        progress::note(0, part, i);
        let mut src = Src::random(base ^ mix(i));
        let mut case = Case::default();
        let message = run_one(prop, &mut src, &mut case).err()?;
        Some(shrink(prop, src, message))
    };
    let failure = std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap().join().unwrap();
    Some(failure.unwrap_or(Failure {
        choices: Vec::new(),
        message: format!("case {i} failed once but not when regenerated"),
        repr: String::new(),
    }))
}

/// Case `index` of a search, on its own.
pub fn single(name: &str, prop: Prop, seed: u64, index: u64) -> (Result<(), String>, Vec<u64>) {
    let mut src = Src::random(mix(seed ^ hash_str(name)) ^ mix(index));
    let res = run_one(prop, &mut src, &mut Case::default());
    (res, src.choices)
}

pub fn clip(s: &str, max: usize) -> String {
    if s.len() <= max {
        return s.to_owned();
    }
    let mut end = max;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… ({} bytes)", &s[..end], s.len())
}

fn shrink(prop: Prop, src: Src, message: String) -> Failure {
    let deadline = Instant::now() + Duration::from_secs(40);
    let mut best = src.choices;
    let mut spans = src.spans;
    let mut message = message;
    let try_it = |cand: Vec<u64>| -> Option<(Vec<u64>, Vec<(usize, usize)>, String)> {
        if Instant::now() > deadline {
            return None;
        }
        let mut s = Src::replay(cand);
        let mut case = Case::default();
        match run_one(prop, &mut s, &mut case) {
            Err(m) => {
                let used = s.used().min(s.choices.len());
                s.choices.truncate(used);
                while s.choices.last() == Some(&0) {
                    s.choices.pop();
                }
                Some((s.choices, s.spans, m))
            }
            Ok(()) => None,
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    if let Some((c, s, m)) = try_it(best.clone()) {
        (best, spans, message) = (c, s, m);
    }
    loop {
        let before = best.clone();
        // Delete spans, largest first.
        loop {
            let mut progressed = false;
            let mut order = spans.clone();
            order.sort_by_key(|&(a, b)| std::cmp::Reverse(b - a));
            for (a, b) in order {
                if a >= b || b > best.len() {
                    continue;
                }
                let mut cand = best.clone();
                cand.drain(a..b);
                if let Some((c, s, m)) = try_it(cand) {
                    if better(&c, &best) {
                        (best, spans, message) = (c, s, m);
                        progressed = true;
                        break;
                    }
                }
            }
            if !progressed {
                break;
            }
        }
        // Delete arbitrary chunks.
        for size in [32usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                match try_it(cand) {
                    Some((c, s, m)) if better(&c, &best) => (best, spans, message) = (c, s, m),
                    _ => i += 1,
                }
            }
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let (mut lo, mut hi) = (0, best[i]);
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.clone();
                    cand[i] = mid;
                    match try_it(cand) {
                        Some((c, s, m)) if better(&c, &best) => {
                            (best, spans, message) = (c, s, m);
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                        }
                        _ => lo = mid + 1,
                    }
                }
            }
            i += 1;
        }
        if best == before || Instant::now() > deadline {
            break;
        }
    }
    let mut s = Src::replay(best.clone());
    let mut case = Case { want_repr: true, ..Case::default() };
    let message = run_one(prop, &mut s, &mut case).err().unwrap_or(message);
    Failure { choices: best, message, repr: case.repr }
}
