//! C11: what the grammar derives is accepted, everything else is a compile
//! error.

use crate::{
    call::{self, Call, Opts, Val, COLORS},
    engine::{clip, hash_str, mix, Case, Src, Stats},
    prog::{self, broken, Code, Failure, Outcome, PLAIN},
    Run,
};

/// What the documented grammar says of a macro call.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(&'static str),
    /// Not specified, or a recorded defect.
    Skip(&'static str),
    /// Need not compile, but if it does it has to show what std shows.
    Maybe(&'static str),
}

use Verdict::{Accept, Maybe, Reject, Skip};

pub struct Arg {
    /// `None` for the next argument.
    pub arg: Option<Result<usize, String>>,
    pub sty: bool,
    pub options: bool,
}

pub struct Parsed {
    pub args: Vec<Arg>,
    /// The string with the attribute lists and the `s` trait taken out, for
    /// std to read.
    pub stripped: String,
    pub unspecified: Option<&'static str>,
}

fn ident_start(c: char) -> bool {
    c == '_' || unicode_ident::is_xid_start(c)
}

fn ident_continue(c: char) -> bool {
    unicode_ident::is_xid_continue(c)
}

/// Reads a format string by the grammar of std's documentation with the
/// README's extension.
pub fn parse(s: &str) -> Result<Parsed, Verdict> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = Parsed { args: Vec::new(), stripped: String::new(), unspecified: None };
    let mut unspecified = None;
    while i < c.len() {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => {
                out.stripped += "{{";
                i += 2;
            }
            '}' if c.get(i + 1) == Some(&'}') => {
                out.stripped += "}}";
                i += 2;
            }
            '}' => return Err(Reject("unmatched closing brace")),
            '{' => {
                i = placeholder(&c, i, &mut out, &mut unspecified)?;
            }
            ch => {
                out.stripped.push(ch);
                i += 1;
            }
        }
    }
    out.unspecified = unspecified;
    Ok(out)
}

fn placeholder(
    c: &[char],
    start: usize,
    out: &mut Parsed,
    unspecified: &mut Option<&'static str>,
) -> Result<usize, Verdict> {
    let mut i = start + 1;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let end = |i: usize| i >= c.len();
    let push = |out: &mut Parsed, from: usize, to: usize| out.stripped.extend(&c[from..to]);
    let digits = |mut i: usize| {
        while at(i).is_ascii_digit() {
            i += 1;
        }
        i
    };
    // argument := integer | identifier
    let arg = if at(i).is_ascii_digit() {
        let e = digits(i);
        let n: String = c[i..e].iter().collect();
        i = e;
        Some(Ok(n.parse().unwrap_or(usize::MAX)))
    } else if !end(i) && ident_start(at(i)) {
        let b = i;
        while !end(i) && ident_continue(at(i)) {
            i += 1;
        }
        Some(Err(c[b..i].iter().collect::<String>()))
    } else {
        None
    };
    push(out, start, i);
    let mut sty = false;
    let mut options = false;
    // A count that no type of integer holds.
    let mut huge = false;
    if at(i) != ':' && at(i).is_whitespace() {
        // Whitespace before the colon is not in the grammar, but std allows it.
        let mut j = i;
        while !end(j) && at(j).is_whitespace() {
            j += 1;
        }
        if at(j) == ':' {
            return Err(Skip("whitespace before the colon"));
        }
    }
    if !end(i) && at(i) == ':' {
        out.stripped.push(':');
        i += 1;
        let b = i;
        // [[fill]align]
        if !end(i) && matches!(at(i + 1), '<' | '^' | '>') && i + 1 < c.len() {
            if at(i) != ' ' {
                unspecified.get_or_insert("fill character other than space");
            }
            i += 2;
        } else if matches!(at(i), '<' | '^' | '>') {
            i += 1;
        }
        if matches!(at(i), '+' | '-') {
            i += 1;
        }
        if at(i) == '#' {
            i += 1;
        }
        // A parameter `0$` is a width, not the flag.
        if at(i) == '0' && at(i + 1) != '$' {
            i += 1;
        }
        let mut count = |i: usize, unspecified: &mut Option<&'static str>| -> usize {
            let mut j = i;
            if at(i).is_ascii_digit() {
                j = digits(i);
                let n: String = c[i..j].iter().collect();
                if n.parse::<u64>().is_err() {
                    huge = true;
                } else if n.parse::<u16>().is_err() {
                    unspecified.get_or_insert("count too large");
                }
            } else if !end(i) && ident_start(at(i)) {
                let mut k = i;
                while !end(k) && ident_continue(at(k)) {
                    k += 1;
                }
                // An identifier here is a count only with its dollar sign.
                if at(k) == '$' {
                    j = k;
                }
            }
            if j > i && at(j) == '$' {
                unspecified.get_or_insert("width or precision parameter");
                return j + 1;
            }
            j
        };
        i = count(i, unspecified);
        if at(i) == '.' {
            i += 1;
            if at(i) == '*' {
                unspecified.get_or_insert("precision from the arguments");
                i += 1;
            } else {
                let j = count(i, unspecified);
                if j == i {
                    unspecified.get_or_insert("empty precision");
                }
                i = j;
            }
        }
        options = i > b;
        push(out, b, i);
        if at(i) == '(' {
            i = attributes(c, i)?;
        }
        // type
        let rest = |i: usize, s: &str| s.chars().enumerate().all(|(k, ch)| at(i + k) == ch);
        if at(i) == 's' && !end(i) {
            sty = true;
            i += 1;
        } else {
            for t in ["x?", "X?", "?", "o", "x", "X", "p", "b", "e", "E"] {
                if rest(i, t) {
                    push(out, i, i + t.len());
                    i += t.len();
                    break;
                }
            }
        }
    }
    let b = i;
    while !end(i) && at(i).is_whitespace() {
        i += 1;
    }
    push(out, b, i);
    if end(i) || at(i) != '}' {
        return Err(match unspecified {
            // Whatever follows, the call does not compile; but why is open.
            Some(u) => Skip(u),
            None => Reject("placeholder is not closed where the grammar ends"),
        });
    }
    if huge && unspecified.is_none() {
        return Err(Reject("count too large for any integer"));
    }
    out.stripped.push('}');
    out.args.push(Arg { arg, sty, options });
    Ok(i + 1)
}

/// Reads `( ... )`; returns the index behind it.
fn attributes(c: &[char], start: usize) -> Result<usize, Verdict> {
    let Some(len) = c[start..].iter().position(|&ch| ch == ')') else {
        return Err(Reject("attribute list is not closed"));
    };
    let inner: String = c[start + 1..start + len].iter().collect();
    if inner.chars().any(char::is_whitespace) {
        return Err(Skip("whitespace in an attribute list"));
    }
    let mut parts: Vec<&str> = inner.split(',').collect();
    if parts.last() == Some(&"") {
        // A trailing comma, or an empty list.
        parts.pop();
        if inner == "," {
            return Err(Reject("attribute list of a single comma"));
        }
    }
    for p in parts {
        let (key, value) = match p.split_once('=') {
            Some((k, v)) => (k, Some(v)),
            None => (p, None),
        };
        match (key, value) {
            // An aspect may be given again: the grammar does not forbid it.
            ("fg" | "bg", Some(v)) if COLORS.contains(&v) => {}
            ("bold" | "normal" | "faint", None) => {}
            ("fg" | "bg", Some(_)) => return Err(Reject("unknown color")),
            ("fg" | "bg", None) => return Err(Reject("attribute without its color")),
            ("bold" | "normal" | "faint", Some(_)) => return Err(Reject("value for an attribute that takes none")),
            _ => return Err(Reject("unknown attribute")),
        }
    }
    Ok(start + len + 1)
}

/// A macro call: format string, argument tokens and where it is made.
#[derive(Clone, Debug)]
pub struct Sample {
    pub fmt: String,
    pub pos: usize,
    pub named: Vec<String>,
    /// Positional arguments behind the first named one.
    pub late: usize,
    pub trailing: bool,
    pub target: usize,
    /// Written in place of everything between the parentheses.
    pub tokens: Option<String>,
}

/// Variables in scope at every call.
pub fn variables() -> &'static [&'static str] {
    static ALL: std::sync::OnceLock<Vec<&str>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut all = vec!["a", "b", "x1", "a·b", "q\u{303}"];
        for v in call::NAMES.iter().chain(call::KEYWORDS) {
            if !all.iter().any(|w| call::unraw(w) == call::unraw(v)) {
                all.push(v);
            }
        }
        all
    })
}

fn in_scope(n: &str) -> bool {
    variables().iter().any(|v| call::unraw(v) == n)
}

const TARGETS: &[(&str, &str)] = &[
    ("::stylish::format_args!(", ")"),
    ("::stylish::plain::format!(", ")"),
    ("::stylish::html::format!(", ")"),
    ("::stylish::write!(::stylish::plain(String::new()), ", ").unwrap()"),
    ("::stylish::writeln!(::stylish::plain(String::new()), ", ").unwrap()"),
    ("::stylish::format!(", ")"),
];

impl Sample {
    pub fn args(&self) -> String {
        let mut s = String::new();
        for i in 0..self.pos {
            s += &format!(", ::rt::Any({})", i % 256);
        }
        for (i, n) in self.named.iter().enumerate() {
            s += &format!(", {n} = ::rt::Any({})", (100 + i) % 256);
            if i == 0 {
                for _ in 0..self.late {
                    s += ", ::rt::Any(50)";
                }
            }
        }
        if self.trailing {
            s.push(',');
        }
        s
    }

    pub fn call(&self) -> String {
        let (a, b) = TARGETS[self.target];
        match &self.tokens {
            Some(t) => format!("{a}{t}{b}"),
            None => format!("{a}{}{}{b}", call::escaped(&self.fmt), self.args()),
        }
    }

    /// The same call for std, as far as it can read it.
    pub fn std_call(&self, fmt: &str) -> String {
        match &self.tokens {
            Some(t) => format!("::core::format_args!({t})"),
            None => format!("::std::format!({}{})", call::escaped(fmt), self.args()),
        }
    }

    /// Names the call captures that are not in scope.
    pub fn undefined(&self, p: &Parsed) -> Vec<String> {
        let known = |n: &str| {
            in_scope(n) || self.named.iter().any(|m| call::unraw(m) == n)
        };
        p.args
            .iter()
            .filter_map(|a| match &a.arg {
                Some(Err(n)) if !known(n) => Some(n.clone()),
                _ => None,
            })
            .collect()
    }

    pub fn verdict(&self) -> (Verdict, Option<Parsed>) {
        if let Some(t) = &self.tokens {
            // Only generated malformed; std confirms.
            if t.is_empty() && self.target == 4 {
                return (Skip("an empty line"), None);
            }
            return (Reject("argument tokens"), None);
        }
        let p = match parse(&self.fmt) {
            Ok(p) => p,
            Err(v) => return (v, None),
        };
        match p.unspecified {
            Some(u @ "count too large") => return (Skip(u), None),
            Some(u) => return (Maybe(u), Some(p)),
            None => {}
        }
        if self.late > 0 && !self.named.is_empty() {
            return (Reject("positional argument after a named one"), Some(p));
        }
        let names: Vec<&str> = self.named.iter().map(|n| call::unraw(n)).collect();
        for (i, n) in names.iter().enumerate() {
            if names[..i].contains(n) {
                return (Reject("duplicate argument"), Some(p));
            }
        }
        let mut next = 0;
        let mut used_pos = vec![false; self.pos];
        let mut used_named = vec![false; names.len()];
        for a in &p.args {
            let i = match &a.arg {
                None => {
                    next += 1;
                    next - 1
                }
                Some(Ok(i)) => *i,
                Some(Err(n)) => {
                    match names.iter().position(|m| m == n) {
                        Some(k) => used_named[k] = true,
                        None if in_scope(n) => {}
                        None => return (Reject("name that is not defined"), Some(p)),
                    }
                    continue;
                }
            };
            if i < self.pos {
                used_pos[i] = true;
            } else if i < self.pos + names.len() {
                return (Skip("named argument referred to by position"), Some(p));
            } else {
                return (Reject("missing argument"), Some(p));
            }
        }
        if used_pos.contains(&false) || used_named.contains(&false) {
            return (Reject("unused argument"), Some(p));
        }
        (Accept, Some(p))
    }
}

// ------------------------------------------------------------ generation

const ALPHABET: &[&str] = &[
    "{", "}", ":", "(", ")", ",", "=", ".", "$", "#", "0", "1", "9", "<", "^", ">", "+", "-", "?", "x", "X", "o", "b",
    "e", "E", "s", "p", "*", " ", "_", "fg", "bg", "bold", "red", "default", "{{", "}}", "{}", "a", "é", "!", "/", "\n",
    "[", "]", "r#", "'", "\"", "\\", ";", "%", "@", "~", "|", "&", "\t", "0$", ":?", "()", "normal", "faint", "s?", "??",
    "{:", "(fg=red)", "?#", "xx", "d", "i", "u", "f", "c", "=red", ",,", "bright", "gray", "grey", "orange", "dim", "italic",
    "underline", "fg=blue", "bg=green",
];

fn mutate(src: &mut Src, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let i = src.idx(c.len() + 1);
    let (before, after): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
    let drop = |n: usize| c[(i + n).min(c.len())..].iter().collect::<String>();
    match src.below(7) {
        0 => format!("{before}{}", drop(1)),
        1 => format!("{before}{}{after}", src.pick(ALPHABET)),
        2 => format!("{before}{}{}", src.pick(ALPHABET), drop(1)),
        3 => {
            let n = 1 + src.idx(6);
            format!("{before}{}{after}", c[i..(i + n).min(c.len())].iter().collect::<String>())
        }
        4 => {
            let n = 1 + src.idx(6);
            format!("{before}{}", drop(n))
        }
        5 if i + 1 < c.len() => format!("{before}{}{}{}", c[i + 1], c[i], drop(2)),
        5 => format!("{before}{}", drop(1)),
        _ => {
            let swapped = c.get(i).map(|ch| {
                if ch.is_uppercase() { ch.to_lowercase().collect::<String>() } else { ch.to_uppercase().collect() }
            });
            format!("{before}{}{}", swapped.unwrap_or_default(), drop(1))
        }
    }
}

fn any(_: &mut Src, _: &mut u32) -> Val {
    Val { expr: String::new(), traits: &["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E", "s"] }
}

const TOKENS: &[&str] = &[
    "", ",", "x1", "5", "'c'", "b\"{}\", a", "\"{}\" a", "\"{}\"; a", "\"{}\",, a", "\"{}\", a,,", "\"{}\", , a", "\"{}\" => a",
    "\"{}\", a b", "\"{}\", a; b", "\"{}\", = a", "\"{}\", a =", "\"{}\", n = ", "\"{n}\", n: a", "\"{n}\", n := a",
    "\"{n}\", n == 1", "\"{n}\", let n = 1", "\"{}\" \"{}\", a, b", "\"{}\" + \"\", a", "(\"{}\"), a b", "&\"{}\", a", "{ \"{}\" }, a,,",
    "\"{}\".to_owned(), a", "format!(\"{}\", a)", "\"{}\", (a", "\"{}\", struct", "\"{}\", fn", "\"{}\", @", "\"{}\", ..., a", "\"{}\"a, a",
    "c\"{}\", a", "1.5, a", "true, a", "\"{n}\", n.m = 1", "\"{n}\", (n) = 1, n = 1,,", "\"{n}\", \"n\" = 1", "\"{n}\", 1 = 1", "\"{n}\", a::n = 1",
    "\"{n}\", n = 1 2", "\"{n}\", ::n = a", "\"{n}\", <a>::n = a", "\"{n}\", #[allow(unused)] n = a", "\"{n}\", n::<> = a", "\"{n}\", #![allow(unused)] n = a", "\"{n}\", self::n = a", "\"{n}\", n = 1, n", "\"{n}\", n += a, n = ", "\"{0}{n}\", n = a, b", "\"{n}{n}\", n = a, n = b", "\"{n}\", n = a, r#n = b",
    "\"{}{}\", a", "\"{}\", a, b", "\"\", a", "\"\", n = a", "\"{1}\", a", "\"{0}\", a, b", "\"{q}\"", "\"{q}\", a", "\"{n}\", m = a", "\"{n}\", n = a, m = b",
];

pub fn generate(src: &mut Src) -> Sample {
    let target = src.idx(TARGETS.len());
    if src.chance(1, 30) {
        let t = (*src.pick(TOKENS)).to_owned();
        return Sample { fmt: String::new(), pos: 0, named: vec![], late: 0, trailing: false, target, tokens: Some(t) };
    }
    let simple = src.chance(1, 4);
    let (fmt, mut pos, mut named) = if simple {
        // Any string at all.
        let s = src.list(0, 12, 4, |s| *s.pick(ALPHABET)).concat();
        (if src.chance(1, 2) { format!("{{{s}}}") } else { s }, src.idx(3), Vec::new())
    } else {
        let o = Opts { attrs: true, sty: false, caps: false, max_pieces: 4, idents: true, value: any };
        let c = Call::generate(src, o);
        let captures = src.chance(1, 2);
        let mut named: Vec<String> = c.named.iter().map(|n| n.0.clone()).collect();
        named.retain(|n| !captures || !in_scope(call::unraw(n)));
        (c.format_string(true), c.pos.len(), named)
    };
    let mut fmt = fmt;
    let mutations = src.weighted(&[3, 5, 2, 1]);
    for _ in 0..mutations {
        fmt = mutate(src, &fmt);
    }
    let mut late = 0;
    match src.weighted(&[12, 1, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => pos += 1,
        2 => pos = pos.saturating_sub(1),
        3 => named.push((*src.pick(&["a", "extra", "x1", "r#type", "zz"])).to_owned()),
        4 => {
            if !named.is_empty() {
                let i = src.idx(named.len());
                let n = named[i].clone();
                let alias = if call::unraw(&n) == n && n != "_x" && src.chance(1, 2) { format!("r#{n}") } else { n };
                named.push(alias);
            }
        }
        5 => {
            if !named.is_empty() {
                named.remove(0);
            }
        }
        _ => {
            if !named.is_empty() && pos > 0 {
                late = 1;
                pos -= 1;
            }
        }
    }
    Sample { fmt, pos, named, late, trailing: src.chance(1, 8), target, tokens: None }
}

// ---------------------------------------------------------------- judging

const HEADER: &str = "";

fn accept_code(s: &Sample, p: &Parsed) -> Code {
    let mut c = Code::default();
    c.fixed(format!("pub fn run() -> ::rt::R {{ {}", scope(&s.call())));
    let nl = if s.target == 4 { "\\n" } else { "" };
    // What `{:5s}` and the like show is not specified.
    let compare = p.args.iter().all(|a| !(a.sty && a.options));
    c.subject(format!("let first = ::rt::sink({});", s.call()));
    if compare {
        let mut t = s.clone();
        t.target = 1;
        c.subject(format!("let got = {};", t.call()));
        c.oracle(format!("let want = {};", s.std_call(&p.stripped)));
        c.fixed(format!("::rt::eq(got, want, {})?;", call::escaped(&s.fmt)));
    } else {
        c.oracle(format!("let want = {};", s.std_call(&p.stripped)));
    }
    let _ = nl;
    c.fixed("::std::result::Result::Ok(()) }");
    c
}

/// Those a call can be about.
fn scope(call: &str) -> String {
    variables()
        .iter()
        .enumerate()
        .filter(|(i, v)| *i < 3 || !v.is_ascii() || call.contains(call::unraw(v)))
        .map(|(i, v)| format!("let {v} = ::rt::Any({}); ", 10 + i))
        .collect()
}

fn line(call: &str) -> String {
    // One physical line: format strings are written with escapes.
    format!("fn f@N@() {{ {} ::rt::sink({call}); }}", scope(call))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Judged {
    Held(&'static str),
    Skipped(&'static str),
    Failed(String),
}

/// Decides every sample: std's opinion where it has one, then the code's.
pub fn judge(samples: &[Sample]) -> Vec<Judged> {
    let verdicts: Vec<(Verdict, Option<Parsed>)> = samples.iter().map(Sample::verdict).collect();
    let mut out: Vec<Judged> = vec![Judged::Skipped("?"); samples.len()];
    let mut accept = Vec::new();
    let mut reject = Vec::new();
    for (i, (v, p)) in verdicts.iter().enumerate() {
        match v {
            Accept | Maybe(_) => accept.push(i),
            Reject(why) => {
                // std's reading of the same call, if it can be asked.
                let std = match p {
                    Some(p) => Some(samples[i].std_call(&p.stripped)),
                    None if samples[i].tokens.is_some() => Some(samples[i].std_call("")),
                    None if !samples[i].fmt.contains('(') && !stylish_trait(&samples[i].fmt) => {
                        Some(samples[i].std_call(&samples[i].fmt))
                    }
                    None => None,
                };
                reject.push((i, *why, std));
            }
            Skip(why) => out[i] = Judged::Skipped(why),
        }
    }
    let codes: Vec<Code> = accept.iter().map(|&i| accept_code(&samples[i], verdicts[i].1.as_ref().unwrap())).collect();
    let outs = prog::run_all(&PLAIN, HEADER, &codes, 60);
    for (&i, o) in accept.iter().zip(outs) {
        out[i] = match o {
            Outcome::Pass => Judged::Held("accepted"),
            Outcome::Invalid(_) | Outcome::Skipped => Judged::Skipped("std does not accept it"),
            Outcome::Rejected(_) if matches!(verdicts[i].0, Maybe(_)) => Judged::Skipped(match verdicts[i].0 {
                Maybe(why) => why,
                _ => "?",
            }),
            Outcome::Rejected(m) => Judged::Failed(format!("a valid call does not compile: {m}")),
            Outcome::Wrong(m) => Judged::Failed(format!("a valid call renders wrongly: {m}")),
        };
    }
    let asked: Vec<usize> = (0..reject.len()).filter(|&k| reject[k].2.is_some()).collect();
    let lines: Vec<String> = asked.iter().map(|&k| line(reject[k].2.as_ref().unwrap())).collect();
    let names = |list: &[usize]| -> Vec<Vec<String>> {
        list.iter()
            .map(|&k| {
                let i = reject[k].0;
                match &verdicts[i].1 {
                    Some(p) => samples[i].undefined(p),
                    None if samples[i].tokens.as_ref().is_some_and(|t| t.contains("{q}")) => vec!["q".into()],
                    None => vec![],
                }
            })
            .collect()
    };
    let std = prog::verdicts(HEADER, &lines, &names(&asked), 200);
    let mut drop = vec![false; reject.len()];
    for (&k, v) in asked.iter().zip(std) {
        if v.is_none() {
            drop[k] = true;
            out[reject[k].0] = Judged::Skipped("std accepts it");
        }
    }
    let live: Vec<usize> = (0..reject.len()).filter(|&k| !drop[k]).collect();
    let lines: Vec<String> = live.iter().map(|&k| line(&samples[reject[k].0].call())).collect();
    let got = prog::verdicts(HEADER, &lines, &names(&live), 200);
    for (&k, v) in live.iter().zip(got) {
        let (i, why, _) = &reject[k];
        out[*i] = match v {
            Some(_) => Judged::Held("rejected"),
            None => Judged::Failed(format!("a malformed call compiles ({why})")),
        };
    }
    out
}

/// Whether some placeholder may end in the `s` trait, which std has not.
fn stylish_trait(s: &str) -> bool {
    s.contains('s')
}

fn text(s: &Sample) -> String {
    format!("{}\n// verdict of the grammar: {:?}", s.call(), s.verdict().0)
}

fn failures(samples: &[Sample]) -> Vec<Option<String>> {
    judge(samples)
        .into_iter()
        .map(|j| match j {
            Judged::Failed(m) => Some(m),
            _ => None,
        })
        .collect()
}

pub fn run_samples(run: &mut Run, name: &str, samples: Vec<Sample>, exhaustive: bool) -> Option<usize> {
    let t = std::time::Instant::now();
    let mut first = None;
    let mut st = Stats::default();
    let n = samples.len();
    for (b, chunk) in samples.chunks(12_800).enumerate() {
        for (k, j) in judge(chunk).into_iter().enumerate() {
            let i = b * 12_800 + k;
            st.evaluations += 1;
            let class = match j {
                Judged::Held(c) => {
                    st.nontrivial += 1;
                    st.distinct.insert(hash_str(&chunk[k].call()));
                    if i % (n / 2 + 1) == 1 {
                        st.samples.push(clip(&text(&chunk[k]), 600));
                    }
                    c.to_owned()
                }
                Judged::Skipped(why) => format!("skipped: {why}"),
                Judged::Failed(m) => {
                    if first.is_none() {
                        first = Some((i, m));
                    }
                    "failed".into()
                }
            };
            *st.classes.entry(class).or_default() += 1;
        }
        if first.is_some() {
            break;
        }
    }
    run.note(name, st, exhaustive, t);
    let (i, message) = first?;
    run.fail(name, Failure { choices: vec![i as u64], message, repr: text(&samples[i]) });
    Some(i)
}

fn sample(fmt: String, pos: usize) -> Sample {
    Sample { fmt, pos, named: vec![], late: 0, trailing: false, target: 0, tokens: None }
}

/// All short placeholder bodies.
fn bodies(len: usize, alphabet: &[&str]) -> Vec<Sample> {
    let mut list = vec![String::new()];
    let mut last = list.clone();
    for _ in 0..len {
        let mut nextl = Vec::new();
        for s in &last {
            for a in alphabet {
                nextl.push(format!("{s}{a}"));
            }
        }
        list.extend(nextl.iter().cloned());
        last = nextl;
    }
    list.into_iter()
        .map(|s| {
            let named = s.starts_with(|c: char| c.is_alphabetic());
            sample(format!("{{{s}}}"), usize::from(!named))
        })
        .collect()
}

/// Every attribute, with every single-character edit.
fn edits() -> Vec<Sample> {
    let mut list = vec!["".to_owned(), ",".into(), "bold,".into(), "bold,faint,".into()];
    let mut words: Vec<String> = ["bold", "normal", "faint", "fg=red", "bg=red"].iter().map(|s| (*s).to_owned()).collect();
    words.extend(COLORS.iter().map(|c| format!("fg={c}")));
    words.extend(COLORS.iter().map(|c| format!("bg={c}")));
    for w in &words {
        list.push(w.clone());
        for i in 0..w.len() {
            list.push(format!("{}{}", &w[..i], &w[i + 1..]));
            list.push(format!("{}{}{}", &w[..i], w[i..i + 1].to_uppercase(), &w[i + 1..]));
            list.push(format!("{}{}{}", &w[..i], &w[i..i + 1], &w[i..]));
            list.push(format!("{}{}", &w[..i], "_".to_owned() + &w[i..]));
        }
        for suffix in ["s", "=", "=red", "2", ".", "(", "-", "\u{301}", "=bold"] {
            list.push(format!("{w}{suffix}"));
        }
    }
    list.sort();
    list.dedup();
    list.into_iter().map(|a| sample(format!("{{:({a})}}"), 1)).collect()
}

/// Every variable captured, as a named argument, and both; and others.
fn captures() -> Vec<Sample> {
    let mut list = Vec::new();
    for v in variables().iter().chain(&["self", "Self", "super", "crate", "_", "zz", "r#a"]) {
        let n = call::unraw(v);
        let mut add = |fmt: String, pos: usize, named: &[&str]| {
            list.push(Sample {
                target: (hash_str(&fmt) % TARGETS.len() as u64) as usize,
                fmt,
                pos,
                named: named.iter().map(|&n| n.to_owned()).collect(),
                late: 0,
                trailing: false,
                tokens: None,
            })
        };
        add(format!("{{{n}}}"), 0, &[]);
        add(format!("{{{n}:>7(fg=red)?}}{{{n}}}"), 0, &[]);
        if ["self", "Self", "super", "crate", "_"].contains(v) {
            continue;
        }
        add(format!("{{{v}}}"), 0, &[v]);
        add(format!("{{{n}}}"), 0, &[v]);
        add(format!("{{{n}}}{{}}{{a}}"), 1, &[v]);
        add(format!("{{{n}}}{{x1}}"), 0, &["x1", v]);
        add(format!("{{{n}}}"), 0, &[v, "x1"]);
        add(format!("{{{n}}}{{}}"), 0, &[]);
    }
    list
}

/// Everything short in place of the name of a named argument.
fn names(len: usize) -> Vec<Sample> {
    const PARTS: &[&str] = &[
        "n", "m", "a", "r#n", "::", "<u8>", "<a>", "<>", "u8", "#[allow(unused)]", "(n)", "[n]", "{n}", "&", "*", "-", "!", "mut", "let",
        ":", "?", ".", "..", "'n", "_", "\"n\"", "1", "==", "=", "+", ",", "as", "|n|", "move", "unsafe", "const", "#", "@", "$", "~",
        ".n", "()", "n!()", "N", "async",
    ];
    let mut list = vec![String::new()];
    let mut last = list.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|s| PARTS.iter().map(move |p| format!("{s} {p}"))).collect();
        list.extend(last.iter().cloned());
    }
    list.iter()
        .flat_map(|s| [(s, "{n}"), (s, "{a}{n}")])
        .filter(|(s, f)| *f == "{n}" || s.len() < 12)
        .map(|(s, f)| Sample {
            target: (hash_str(s) % TARGETS.len() as u64) as usize,
            tokens: Some(format!("\"{f}\",{s} = a")),
            ..sample(String::new(), 0)
        })
        .collect()
}

/// Numbers near every limit, in every place for one.
fn numbers() -> Vec<Sample> {
    let mut values = vec!["0".to_owned(), "1".into(), "2".into(), "00".into(), "01".into(), "0000000000000000000000001".into()];
    values.extend(["١", "1_0", "1u8", "0x1", "1e1", "²", "-1", "+1", "１"].map(String::from));
    for bits in [8, 16, 31, 32, 33, 63, 64, 65, 127] {
        let n = 1u128 << bits;
        values.extend([n - 1, n, n + 1].map(|n| n.to_string()));
    }
    values.push(format!("{}", u128::MAX));
    values.push("340282366920938463463374607431768211456".into());
    values.push("340282366920938463463374607431768211457".into());
    values.push(format!("1{}", "0".repeat(60)));
    let mut out = Vec::new();
    for v in &values {
        for f in ["{@}", "{0}{@}", "{@}{}", "{@}{@:?}{}", "{:@}", "{:.@}", "{:3.@}", "{0:@.2}", "{:>@(fg=red)}", "{:#0@(bold)?}", "{a:@}", "{@:(bg=blue)}"] {
            for pos in 1..=2 {
                let target = out.len() % TARGETS.len();
                out.push(Sample { target, ..sample(f.replace('@', v), pos) });
            }
        }
    }
    out
}

/// Every kind of whitespace, and what only looks like it.
fn spaces() -> Vec<Sample> {
    let mut marks: Vec<char> = ('\0'..=char::MAX).filter(|c| c.is_whitespace()).collect();
    marks.extend(['\u{200b}', '\u{200e}', '\u{2060}', '\u{feff}', '\u{180e}', '\u{ad}', '\0', '\u{1f}', '\u{2800}', '\u{3164}', '：', '｝', '｛', '（', '＞']);
    let mut out = Vec::new();
    for m in marks {
        for f in ["{@}", "{0@}", "{:@}", "{:?@}", "{a@}", "{:(bold)@}", "{:5@}", "{:.2(fg=red)x?@@}", "{:s@}", "{0:<@}", "{@@:}", "{@0}", "@{}@", "{:>@5}", "{:5@(bold)}", "{:(bold)@?}", "{:x@?}"] {
            let pos = usize::from(!f.contains('a'));
            let target = out.len() % TARGETS.len();
            out.push(Sample { target, ..sample(f.replace('@', &m.to_string()), pos) });
        }
    }
    out
}

/// Calls with many arguments, one of which is unused, missing, duplicate or late.
fn wide(counts: &[usize]) -> Vec<Sample> {
    let mut out = Vec::new();
    for (k, &n) in counts.iter().enumerate() {
        let target = k % TARGETS.len();
        let mut add = |fmt: String, pos: usize, named: Vec<String>, late: usize| {
            out.push(Sample { fmt, pos, named, late, trailing: false, target, tokens: None });
        };
        let name = |i: usize| format!("n{i}");
        let names = |n: usize| (0..n).map(name).collect::<Vec<_>>();
        let but = |n: usize, j: usize| (0..n).filter(|&i| i != j).map(|i| format!("{{{i}}}")).collect::<String>();
        let by_name = |n: usize, j: usize| (0..n).filter(|&i| i != j).map(|i| format!("{{{}}}", name(i))).collect::<String>();
        add("{}".repeat(n), n, vec![], 0);
        add("{}".repeat(n), n + 1, vec![], 0);
        add("{}".repeat(n + 1), n, vec![], 0);
        add(format!("{{{n}}}") + &"{}".repeat(n), n, vec![], 0);
        add(by_name(n, n), 0, names(n), 0);
        add(by_name(n, n), n, names(n), 0);
        add("{}".repeat(n) + &by_name(n, n), n, names(n), 0);
        add("{}".repeat(n) + &by_name(n, n), n - 1, names(n), 1);
        for j in [0, 7, 8, n / 2, n - 2, n - 1] {
            if j >= n {
                continue;
            }
            add(but(n, j), n, vec![], 0);
            add(by_name(n, j), 0, names(n), 0);
            let mut twice = names(n);
            twice.push(name(j));
            add(by_name(n, n), 0, twice, 0);
            let mut missing = names(n);
            missing.remove(j);
            add(by_name(n, n), 0, missing, 0);
        }
    }
    out
}

const WIDE: &[usize] = &[9, 12, 17, 33, 65, 129];
/// Also those near a number that occurs in the macros.
fn counts(thorough: bool) -> Vec<usize> {
    let mut c = WIDE.to_vec();
    for &n in &crate::text::lits().counts {
        c.extend([n, n + 1, n + 2].iter().filter(|n| !WIDE.contains(n)));
    }
    if thorough {
        c.extend(WIDER);
    }
    c
}

const WIDER: &[usize] = &[8, 10, 11, 13, 16, 18, 20, 25, 26, 27, 32, 34, 40, 50, 63, 64, 66, 70, 99, 100, 101, 127, 128, 130, 200, 255, 256, 257, 260];

/// The recorded defects, each with calls that show it.
const KNOWN: &[(&str, &str, &str)] = &[
    ("fill", "a fill character other than space (`{:*<5}`) is not accepted: todo!() in macros/src/format.rs", "::stylish::plain::format!(\"{:*<5}\", a)"),
    ("width-positional", "a width taken from a positional argument (`{:1$}`) is not accepted: todo!() in macros/src/to_tokens.rs", "::stylish::plain::format!(\"{:1$}\", a, 5usize)"),
    ("width-named", "a width taken from a named argument (`{:w$}`) is not accepted: todo!() in macros/src/to_tokens.rs", "::stylish::plain::format!(\"{:w$}\", a, w = 5usize)"),
    ("precision-positional", "a precision taken from a positional argument (`{:.1$}`) is not accepted: todo!() in macros/src/to_tokens.rs", "::stylish::plain::format!(\"{:.1$}\", a, 5usize)"),
    ("precision-named", "a precision taken from a named argument (`{:.p$}`) is not accepted: todo!() in macros/src/to_tokens.rs", "::stylish::plain::format!(\"{:.p$}\", a, p = 5usize)"),
    ("precision-star", "a precision taken from the arguments (`{:.*}`) is not accepted", "::stylish::plain::format!(\"{:.*}\", 5usize, a)"),
];

fn known(run: &mut Run) {
    run.known_rejections(HEADER, KNOWN, line);
}

pub fn check(run: &mut Run) {
    known(run);
    if run.failed() {
        return;
    }
    run_samples(run, "attribute edits", edits(), true);
    if run.failed() {
        return;
    }
    let small = &[":", "0", "1", ".", "#", "?", "x", "s", "<", "(", ")", "+", "a", " ", "{", "}"];
    let len = if run.thorough { 4 } else { 3 };
    run_samples(run, "placeholder bodies", bodies(len, small), true);
    if run.failed() {
        return;
    }
    let toks = &["(", ")", ",", "fg=red", "bold", "bg=", "default", "=", "s", "?", ":", "5"];
    let len = if run.thorough { 4 } else { 3 };
    let list: Vec<Sample> = bodies(len, toks)
        .into_iter()
        .map(|mut s| {
            s.fmt.insert(1, ':');
            s.pos = 1;
            s
        })
        .collect();
    run_samples(run, "attribute lists", list, true);
    if run.failed() {
        return;
    }
    run_samples(run, "argument names", names(if run.thorough { 3 } else { 2 }), true);
    if run.failed() {
        return;
    }
    run_samples(run, "captures", captures(), true);
    if run.failed() {
        return;
    }
    run_samples(run, "numbers", numbers(), true);
    if run.failed() {
        return;
    }
    run_samples(run, "spaces", spaces(), true);
    if run.failed() {
        return;
    }
    run_samples(run, "many arguments", wide(&counts(run.thorough)), true);
    if run.failed() {
        return;
    }
    let n = run.cases(8000, 150_000);
    let base = mix(run.seed ^ hash_str("calls"));
    let make = |i: u64| {
        let mut src = Src::random(base ^ mix(i));
        let s = generate(&mut src);
        (src, s)
    };
    let samples: Vec<Sample> = (0..n).map(|i| make(i).1).collect();
    if let Some(i) = run_samples(run, "calls", samples, false) {
        let f = run.take_failure();
        let (src, s) = make(i as u64);
        let f = prog::shrink(src, f.message, text(&s), generate, text, failures);
        run.fail("calls", f);
    }
}

/// One stored case again.
pub fn replay(name: &str, choices: Vec<u64>) -> (String, Option<String>) {
    let s = match name {
        "calls" => generate(&mut Src::replay(choices)),
        "attribute edits" => edits().swap_remove(choices[0] as usize),
        "captures" => captures().swap_remove(choices[0] as usize),
        "numbers" => numbers().swap_remove(choices[0] as usize),
        "spaces" => spaces().swap_remove(choices[0] as usize),
        "many arguments" => wide(&counts(true)).swap_remove(choices[0] as usize),
        "argument names" => names(3).swap_remove(choices[0] as usize),
        _ => broken("this kind of violation is replayed by running the check again"),
    };
    let t = text(&s);
    (t, failures(&[s]).remove(0))
}

#[allow(dead_code)]
fn unused(_: &mut Case) {}
