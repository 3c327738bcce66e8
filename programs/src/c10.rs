//! C10: every placeholder gets the argument std would give it, and every
//! argument is evaluated once, in order.

use crate::{
    call::{self, Call, Opts, Piece, Val, ALL, DEBUG, FLOAT, INT, TEXT},
    engine::{Case, Src},
    prog::Code,
};

fn val(expr: String, traits: &'static [&'static str]) -> Val {
    Val { expr, traits }
}

/// A fresh logged call giving a small i64.
fn leaf(src: &mut Src, k: &mut u32) -> String {
    if src.chance(1, 10) {
        // The same tokens, but not the same value.
        return "::rt::turn()".to_owned();
    }
    *k += 1;
    format!("::rt::l({k}, {}i64)", 1 + src.below(9))
}

/// An i64 operand that binds tightly.
fn tight(src: &mut Src, k: &mut u32, depth: u32) -> String {
    if depth == 0 || src.chance(2, 3) {
        return leaf(src, k);
    }
    format!("({})", int(src, k, depth - 1))
}

/// An i64 expression of any form.
fn int(src: &mut Src, k: &mut u32, depth: u32) -> String {
    let mut t = |src: &mut Src| tight(src, k, depth);
    match src.below(59) {
        0 => t(src),
        1 => {
            let op = *src.pick(&["+", "-", "*", "&", "|", "^"]);
            format!("{} {op} {}", t(src), t(src))
        }
        2 => {
            let (o, p) = (*src.pick(&["+", "-", "*", "&", "|", "^"]), *src.pick(&["+", "-", "*", "&", "|", "^"]));
            format!("{} {o} {} {p} {}", t(src), t(src), t(src))
        }
        3 => format!("{} {} {}", t(src), src.pick(&["/", "%", "<<", ">>"]), 1 + src.below(5)),
        4 => format!("-{}", t(src)),
        5 => format!("!{}", t(src)),
        6 => format!("- -{}", t(src)),
        7 => format!("-{} {} {}", t(src), src.pick(&["+", "*"]), t(src)),
        8 => format!("{} as u8 as i64", t(src)),
        9 => format!("{} as i64 {} {} as i64", t(src), src.pick(&["+", "-", "|"]), t(src)),
        10 => format!("*&{}", t(src)),
        11 => format!("{{ {} }}", t(src)),
        12 => format!("{{ let q = {}; q {} q }}", t(src), src.pick(&["+", "*"])),
        13 => format!("if {} > 3 {{ {} }} else {{ {} }}", t(src), t(src), t(src)),
        14 => format!("match {} {{ 1 | 2 => {}, n if n > 5 => n, _ => {{ {} }} }}", t(src), t(src), t(src)),
        15 => format!("loop {{ break {} }}", t(src)),
        16 => format!("'lab: {{ if {} > 4 {{ break 'lab {} }} {} }}", t(src), t(src), t(src)),
        17 => format!("unsafe {{ {} }}", t(src)),
        18 => format!("{}.pow(2)", t(src)),
        19 => format!("{}.min({}).max({})", t(src), t(src), t(src)),
        20 => format!("Pt {{ x: {}, y: {} }}.x", t(src), t(src)),
        21 => format!("({}, {}).1", t(src), t(src)),
        22 => format!("[{}, {}][1]", t(src), t(src)),
        23 => format!("(|a: i64, b: i64| a - b)({}, {})", t(src), t(src)),
        24 => format!("::core::convert::identity::<i64>({})", t(src)),
        25 => format!("<i64 as ::core::convert::From<i32>>::from({} as i32)", t(src)),
        26 => format!("K + {}", t(src)),
        27 => format!("::core::primitive::i8::MAX as i64 - {}", t(src)),
        28 => format!("{{ cnt += {}; cnt }}", t(src)),
        29 => format!("if let ::core::option::Option::Some(q) = ::core::option::Option::Some({}) {{ q }} else {{ 0 }}", t(src)),
        30 => format!("::std::collections::HashMap::<i64, i64>::from([({}, {})]).len() as i64", t(src), t(src)),
        31 => format!("twice!({})", t(src)),
        32 => format!("ok({})? + {}", t(src), t(src)),
        33 => format!("{{ if {} > 7 {{ return ::core::result::Result::Err(::std::format!(\"early {{}}\", {})) }} {} }}", t(src), t(src), t(src)),
        34 => format!("{{ if {} > 7 {{ continue 'outer }} {} }}", t(src), t(src)),
        35 => format!("{{ if {} > 7 {{ break 'outer }} {} }}", t(src), t(src)),
        36 => format!("{{ let mut s = 0; for i in 0..{} {{ s += ::rt::l(900, i) }} s }}", t(src)),
        37 => format!("bad({})?", t(src)),
        38 => format!("[{}, {}].into_iter().map(|v| v * 2).sum::<i64>()", t(src), t(src)),
        39 => format!("match ({}, {}) {{ (a, b) if a == b => 0, (a, b) => a - b }}", t(src), t(src)),
        40 => format!("::rt::later({}).await", t(src)),
        41 => format!("{{ let ::core::option::Option::Some(q) = ::core::option::Option::Some({}) else {{ return Err(\"else\".into()) }}; q }}", t(src)),
        42 => format!("const {{ 3 + 4 }} + {}", t(src)),
        43 => format!("match {} {{ ..=3 => {}, 4..=6 => 2, 7.. => {} }}", t(src), t(src), t(src)),
        44 => format!("(({}, 2), 3).0.0", t(src)),
        45 => format!("[{}, 7][..1].len() as i64", t(src)),
        46 => format!("if {} > 3 {{ {} }} else {{ {} }}.max(2)", t(src), t(src), t(src)),
        47 => format!("{{ {} }} + 1", t(src)),
        48 => format!("wide::<{{ 1 + 2 }}>() + {}", t(src)),
        49 => format!("{{ struct Z(i64); impl Z {{ fn get(&self) -> i64 {{ self.0 }} }} Z({}).get() }}", t(src)),
        50 => format!("inner!(\"{{}}{{q:>3}}{{0}}\", {}, q = {}).len() as i64", t(src), t(src)),
        51 => format!("{{ let v: &dyn Fn(i64) -> i64 = &|n| n * 2; v({}) }}", t(src)),
        52 => format!("{{ let mut v = ::std::vec![{}, {}]; v.sort(); v[0] }}", t(src), t(src)),
        53 => format!("{{ let (end, mut q) = ({}, 0); while q < end {{ q += 3 }} q }}", t(src)),
        54 => format!("async {{ {} + ::rt::later({}).await }}.await", t(src), t(src)),
        55 => format!("(async |v: i64| v + 1)({}).await", t(src)),
        56 => format!("matches!({}, 1 | 2) as i64", t(src)),
        57 => format!("'lab: loop {{ if {} > 3 {{ break 'lab 5 }} break {} }}", t(src), t(src)),
        _ => format!("it + {}", t(src)),
    }
}

fn expr(src: &mut Src, k: &mut u32) -> Val {
    let e = |src: &mut Src, k: &mut u32| tight(src, k, 1);
    match src.weighted(&[10, 2, 1, 2, 1, 2, 2, 1, 2, 2, 1, 1, 2, 2, 1, 1, 1, 1, 3]) {
        0 => val(int(src, k, 1), INT),
        1 => {
            let op = *src.pick(&["<", ">", "==", "!=", "<=", ">="]);
            val(format!("{} {op} {}", e(src, k), e(src, k)), TEXT)
        }
        2 => {
            let op = *src.pick(&["&&", "||"]);
            val(format!("{} > 5 {op} {} < 3", e(src, k), e(src, k)), TEXT)
        }
        3 => match src.below(5) {
            0 => val(format!("{}..{}", e(src, k), e(src, k)), DEBUG),
            1 => val(format!("{}..={}", e(src, k), e(src, k)), DEBUG),
            2 => val(format!("..{}", e(src, k)), DEBUG),
            3 => val(format!("{}..", e(src, k)), DEBUG),
            _ => val(format!("{} + 1..{} * 2", e(src, k), e(src, k)), DEBUG),
        },
        4 => {
            let place = *src.pick(&["cnt +=", "cnt -=", "cnt |=", "cnt *=", "*&mut cnt =", "tup.0 =", "arr[1] =", "(cnt =", "{ cnt ="]);
            let close = match &place[..1] {
                "(" => ")",
                "{" => "; }",
                _ => "",
            };
            val(format!("{place} {}{close}", e(src, k)), DEBUG)
        }
        5 => val(format!("({}, {})", e(src, k), e(src, k)), DEBUG),
        6 => val(format!("[{}; 3]", e(src, k)), DEBUG),
        7 => val(format!("Pt {{ x: {}, y: 2 }}", e(src, k)), DEBUG),
        8 => val(if src.chance(1, 3) { format!("&mut {}", leaf(src, k)) } else { format!("{}{}", src.pick(&["&", "&&"]), e(src, k)) }, if src.chance(1, 2) { &["", "?", "x", "e"] } else { &["", "?"] }),
        9 => val(format!("::std::vec![{}, {}]", e(src, k), e(src, k)), DEBUG),
        10 => val(format!("::std::format!(\"<{{}}>\", {})", e(src, k)), TEXT),
        11 => {
            *k += 1;
            val(format!("::rt::l({k}, ::std::string::String::from(\"own\")).as_str()"), TEXT)
        }
        12 => val(
            (*src.pick(&["\"lit\"", "'c'", "true", "r\"\\n{}\"", "concat!(\"a\", 1, 'b')", "stringify!(a, b)", "\"a\\\nb\""])).to_owned(),
            TEXT,
        ),
        13 => {
            let v = *src.pick(&["-1", "1u8", "0xFFi64", "K", "b'x'", "1_000", "it", "-K", "!0u8", "Unit_::C", "-it", "it as u16", "0b11 | it as i32"]);
            val(v.to_owned(), INT)
        }
        14 => val((*src.pick(&["1.5", "1e3", "-0.0", "2.0f32 * 3.0", "1. / 3.", "it as f64 / 2."])).to_owned(), FLOAT),
        15 => val((*src.pick(&["()", "b\"ab\"", "..", "Some(1)", "[(); 0]", "Pt { ..Pt { x: 1, y: 2 } }", "while false {}", "loop { break }", "{}", "for _ in 0..2 {}", "(1,)"])).to_owned(), DEBUG),
        16 => {
            *k += 1;
            val(format!("::rt::l({k}, ::rt::Probe({}))", src.below(9)), ALL)
        }
        18 => {
            let e = *src.pick(&["::rt::turn()", "{ ::rt::turn() }", "::rt::turn() * 2", "Once(::rt::turn())", "[::rt::turn()]"]);
            match &e[..1] {
                "O" => val(e.to_owned(), &["", "?"]),
                "[" => val(e.to_owned(), DEBUG),
                _ => val(e.to_owned(), INT),
            }
        }
        _ => {
            // A value that can be neither copied nor cloned.
            *k += 1;
            val(format!("Once(::rt::l({k}, {}))", src.below(9)), &["", "?"])
        }
    }
}

const HELPERS: &str = "const K: i64 = 40; \
#[derive(Debug)] struct Pt { x: i64, y: i64 } \
struct Unit_; impl Unit_ { const C: i64 = 3; } \
struct Once(i64); \
impl ::core::fmt::Display for Once { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { self.0.fmt(f) } } \
impl ::core::fmt::Debug for Once { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.pad(\"Once\") } } \
fn wide<const N: i64>() -> i64 { N } \
fn ok(v: i64) -> Result<i64, String> { Ok(v) } \
fn bad(v: i64) -> Result<i64, String> { if v > 6 { Err(format!(\"bad {v}\")) } else { Ok(v) } } \
macro_rules! twice { ($e:expr) => { $e * 2 }; }";

pub fn random(src: &mut Src, case: &mut Case) -> Code {
    let many = src.chance(1, 5);
    let o = Opts { attrs: false, sty: false, caps: true, max_pieces: if many { 40 } else { 9 }, idents: false, value: expr };
    let mut call = Call::generate(src, o);
    if many {
        // More arguments than digits.
        let mut k = 500;
        for _ in 0..4 + src.below(10) {
            let v = expr(src, &mut k);
            call.pos.push(v);
        }
        let used: Vec<usize> = {
            let mut next = 0;
            call.pieces
                .iter()
                .filter_map(|p| match p {
                    Piece::Arg(call::Ref::Next, ..) => {
                        next += 1;
                        Some(next - 1)
                    }
                    Piece::Arg(call::Ref::Index(i, _), ..) => Some(*i),
                    _ => None,
                })
                .collect()
        };
        for i in 0..call.pos.len() {
            if !used.contains(&i) {
                let v = call.pos[i].clone();
                let ty = *src.pick(v.traits);
                let at = src.idx(call.pieces.len() + 1);
                let piece = Piece::Arg(call::Ref::Index(i, false), call::spec(src, ty, false), v);
                call.pieces.insert(at, piece);
            }
        }
    }
    // A variable beside an explicit argument of the same name.
    let shadow: Vec<String> = call.named.iter().filter(|_| src.chance(1, 2)).map(|(n, _)| n.clone()).collect();
    let form = call.form(src);
    let (cut, trailing) = (src.idx(40), src.chance(1, 6));
    let repeat = src.below(2);
    // The arguments as metavariables of the caller's own macro.
    let meta = src.chance(1, 5) && !call.pos.is_empty() && call.named.is_empty();
    let s = call.format_string(false);
    let lit = call::write_form(form, &s, cut);
    let route = src.below(4);
    let mut c = Code::default();
    c.fixed(HELPERS);
    let awaits = call.args(false).contains(".await");
    let (is_async, run) = if awaits { ("async", "::rt::block") } else { ("", "") };
    let body = |c: &mut Code, std: bool| {
        let name = if std { "orac" } else { "subj" };
        let inner = if std { "::std::format!" } else { "::stylish::plain::format!" };
        c.fixed(format!("macro_rules! inner {{ ($($t:tt)*) => {{ {inner}($($t)*) }} }}"));
        c.fixed(format!("{is_async} fn {name}() -> Result<String, String> {{ let mut out = String::new(); let mut cnt = 0i64; let mut turn = 0i64; let mut tup = (0i64, 0i64); let mut arr = [0i64; 2];"));
        c.oracle(call.locals());
        c.oracle(shadow.iter().map(|n| format!("let {n} = \"WRONG VARIABLE\";")).collect::<Vec<_>>().join(" "));
        c.fixed(format!("'outer: for it in 1i64..={} {{ turn += it;", 1 + repeat * 2));
        let target = match (std, route) {
            (true, _) => "::std::format!",
            (false, 0) => "::stylish::plain::format!",
            (false, 1) => "::stylish::ansi::format!",
            (false, _) => "::stylish::format_args!",
        };
        let (before, after) = match (std, route) {
            (true, _) | (false, 0 | 1) => ("", ""),
            (false, 2) => ("::rt::once(", ")"),
            (false, _) => ("::rt::thrice(", ")"),
        };
        let (def, m) = if meta {
            (
                format!("macro_rules! fwd {{ ($f:literal $(, $e:expr)* $(,)?) => {{ {target}($f $(, $e)*) }}; ($f:expr $(, $e:expr)* $(,)?) => {{ {target}($f $(, $e)*) }}; }}"),
                "fwd!".to_owned(),
            )
        } else {
            call::forward(form, target, "fwd")
        };
        c.fixed(def);
        let args = call.args(trailing);
        let line = format!("let s = {before}{m}({lit}{args}){after};");
        if std {
            c.oracle(line);
        } else {
            c.subject(line);
        }
        if std || route < 2 {
            c.fixed("::rt::l(::rt::RENDER, ());");
        }
        c.fixed("out += &s; out.push('|'); } out += &format!(\"{cnt} {turn} {tup:?} {arr:?}\"); Ok(out) }");
    };
    body(&mut c, false);
    body(&mut c, true);
    c.fixed(format!("pub fn run() -> ::rt::R {{ ::rt::take_log(); let a = {run}(subj()); let la = ::rt::take_log(); let b = {run}(orac()); let lb = ::rt::take_log();"));
    c.fixed(format!("::rt::same((a, la), (b, lb), {})\n}}", call::escaped(&s)));
    case.nontrivial = call.pos.len() + call.named.len() > 0;
    case.class(call.pos.len() > 10, "more than ten positional arguments");
    case.class(!call.pos.is_empty() && !call.named.is_empty(), "positional and named");
    case.class(!call.caps.is_empty() && call.pos.len() + call.named.len() > 0, "captured and explicit");
    case.class(!shadow.is_empty(), "named argument shadows a variable");
    let exprs: Vec<&str> = call.pos.iter().chain(call.named.iter().map(|(_, v)| v)).map(|v| v.expr.as_str()).collect();
    case.class(exprs.iter().enumerate().any(|(i, e)| e.contains("turn()") && exprs[..i].contains(e)), "equal expressions of different values");
    case.class(awaits, "awaits in an argument");
    case.class(meta, "arguments through a macro");
    c
}

/// `self` captured in methods, references in every position.
pub fn fixed(i: usize) -> Code {
    let s = FIXED[i];
    let mut c = Code::default();
    c.fixed("#[derive(Debug, Clone, Copy)] struct S(i64); impl ::core::fmt::Display for S { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { self.0.fmt(f) } }");
    c.fixed("impl S { fn subj(self) -> String {");
    c.subject(format!("::stylish::plain::format!({s})"));
    c.fixed("} fn orac(self) -> String {");
    c.oracle(format!("::std::format!({s})"));
    c.fixed("} fn subj_ref(&mut self) -> String {");
    c.subject(format!("::rt::thrice(::stylish::format_args!({s}))"));
    c.fixed("} }");
    c.fixed("pub fn run() -> ::rt::R { let a = S(5).subj(); let b = S(5).orac(); let d = S(5).subj_ref(); ::rt::same((&a, &d), (&b, &b), \"methods\") }");
    c
}

pub const FIXED: &[&str] = &[
    "\"{self}\"",
    "\"{self:?}{self:>4}\"",
    "\"{}{self}{0}\", self",
    "\"{self}{x}\", x = self.0 + 1",
    "\"{0}{self}{x}{}\", self, x = { self.0 * 2 }",
];

/// Argument expressions the macro does not read (recorded defects). Also calls
/// next to them that must stay accepted.
const KNOWN: &[(&str, &str, &str)] = &[
    ("c-string", "an argument that is a C string literal (`c\"..\"`) is not accepted: the pinned syn 1.0 panics on it", "::stylish::plain::format!(\"{:?}\", c\"x\")"),
    ("use-bound", "an argument with a precise capturing bound (`impl Sized + use<>`) inside a block is not accepted: unknown to the pinned syn 1.0", "::stylish::plain::format!(\"{:?}\", { fn f() -> impl Sized + use<> { 3 } f(); 3 })"),
    ("safe-extern", "an argument with an `unsafe extern` block that declares a `safe fn` is not accepted: unknown to the pinned syn 1.0", "::stylish::plain::format!(\"{:?}\", { unsafe extern \"C\" { safe fn abs(x: i32) -> i32; } abs(-3) })"),
    ("raw-pointer", "`&raw const` is not accepted in an argument", "{ let x = 1; ::stylish::plain::format!(\"{}\", &raw const x as usize == 0) }"),
    ("let-chain", "a block with a `let` chain in an argument is not accepted", "::stylish::plain::format!(\"{}\", { let Some(q) = Some(1) else { panic!() }; if q > 0 && true { q } else { 0 } })"),
];

pub fn known(run: &mut crate::Run) {
    run.known_rejections("", KNOWN, |call| format!("fn f@N@() {{ ::rt::sink({call}); }}"));
}
