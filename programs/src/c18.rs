//! C18: the formatting macros work whatever names are in scope.

use std::{collections::BTreeSet, sync::OnceLock};

use crate::{
    call::{self, Call, Form, Opts, Val, ALL, FLOAT, INT, TEXT},
    engine::{Case, Src},
    prog::{Code, Rustc, Search, PLAIN},
    Run,
};

const KEYWORDS: &[&str] = &[
    "as", "async", "await", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false",
    "final", "fn", "for", "gen", "if", "impl", "in", "let", "loop", "macro", "macro_rules", "match", "mod", "move", "mut",
    "override", "priv", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "try",
    "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "abstract", "become", "_",
];

const COMMON: &[&str] = &[
    "Option", "Some", "None", "Result", "Ok", "Err", "Default", "Display", "Debug", "Formatter", "Arguments", "Style",
    "String", "Vec", "Box", "Fn", "FnOnce", "FnMut", "Into", "From", "AsRef", "Clone", "Copy", "Drop", "Send", "Sync",
    "Sized", "Iterator", "ToString", "ToOwned", "Write", "Color", "Foreground", "Background", "Intensity", "Restyle",
    "StyleDiff", "core", "std", "alloc", "stylish", "stylish_core", "stylish_macros", "stylish_style", "fmt", "str", "u8",
    "u16", "u32", "u64", "usize", "i32", "i64", "bool", "char", "f", "fmt", "s", "x", "args", "arg", "w", "write",
    "writeln", "format", "format_args", "concat", "stringify", "panic", "println", "print", "vec", "assert", "matches",
    "todo", "unreachable", "drop", "with", "apply", "write_str", "write_fmt", "write_char", "with_args", "new", "default",
    "clone", "Red", "Blue", "Bold", "Faint", "Normal", "Left", "Right", "Center", "Plus", "Minus", "LowerHex",
    "UpperHex", "Lower", "Upper", "StdFmt", "Error", "io", "ansi", "html", "plain", "Ansi", "Html", "Plain", "result",
    "option", "convert", "ops", "mem", "marker", "panicking", "prelude", "include_str", "env", "compile_error", "inline",
];

/// Every name the expansions could mention: those of the sources that make
/// them, and common ones.
fn names() -> &'static [String] {
    static NAMES: OnceLock<Vec<String>> = OnceLock::new();
    NAMES.get_or_init(|| {
        let mut set: BTreeSet<String> = COMMON.iter().map(|s| (*s).to_owned()).collect();
        for file in [
            "macros/src/lib.rs",
            "macros/src/to_tokens.rs",
            "core/src/lib.rs",
            "core/src/format.rs",
            "core/src/write.rs",
            "core/src/formatter.rs",
            "core/src/arguments.rs",
            "ansi/src/format.rs",
            "html/src/format.rs",
            "plain/src/format.rs",
        ] {
            let text = std::fs::read_to_string(std::path::Path::new(crate::prog::REPO).join(file)).unwrap_or_default();
            let code: Vec<&str> = text.lines().filter(|l| !l.trim_start().starts_with("//")).collect();
            let code = code.join("\n");
            let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
            for w in code.split(|c: char| !word(c)) {
                if w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
                    set.insert(w.to_owned());
                }
            }
        }
        set.into_iter()
            .filter(|w| !KEYWORDS.contains(&w.as_str()))
            // Ours, and the macros' own reserved ones.
            .filter(|w| !w.starts_with("__stylish") && !w.starts_with("zq_"))
            .collect()
    })
}

fn value(src: &mut Src, k: &mut u32) -> Val {
    let v = |expr: String, traits| Val { expr, traits };
    *k += 1;
    match src.below(6) {
        0 => v(format!("{}", src.below(100)), INT),
        1 => v((*src.pick(&["\"text\"", "'c'", "true", "\"\""])).to_owned(), TEXT),
        2 => v(format!("{}.5", src.below(10)), FLOAT),
        3 => v(format!("::rt::l({k}, {})", src.below(9)), INT),
        4 => v("[1, 2]".to_owned(), call::DEBUG),
        _ => v(format!("::rt::Probe({})", src.below(10)), ALL),
    }
}

/// An item declaring `name` in some namespaces.
fn item(src: &mut Src, name: &str) -> String {
    match src.below(12) {
        0 => format!("struct {name};"),
        1 => format!("const {name}: () = ();"),
        2 => format!("fn {name}() {{}}"),
        3 => format!("mod {name} {{}}"),
        4 => format!("macro_rules! {name} {{ ($($zq_t:tt)*) => {{ ::core::compile_error!(\"shadowed\") }}; }}"),
        5 => format!("trait {name} {{}}"),
        6 => format!("type {name} = ();"),
        7 => format!("static {name}: () = ();"),
        8 => format!("enum {name} {{}}"),
        9 => format!("struct {name}(());"),
        10 => format!("union {name} {{ zq_u: () }}"),
        _ => format!("enum Zq_{name} {{ {name} }} use self::Zq_{name}::{name};"),
    }
}

/// Whether the item puts something in the value namespace that a `let`
/// pattern would take for a path.
fn is_value(item: &str) -> bool {
    item.starts_with("const") || item.starts_with("static") || item.contains("struct") || item.starts_with("enum Zq_") || item.starts_with("fn ")
}

struct Scope {
    /// At module level.
    module: Vec<String>,
    /// Within the function, before the call.
    inner: Vec<String>,
    generics: Vec<String>,
    prelude: bool,
}

fn scope(src: &mut Src, taken: &[String], form: Form) -> Scope {
    let all = names();
    let mut used: BTreeSet<String> = taken.iter().cloned().collect();
    let mut values: BTreeSet<String> = BTreeSet::new();
    let builtin = matches!(form, Form::Concat | Form::ViaConcat);
    let mut module = Vec::new();
    let mut inner = Vec::new();
    let pick = |src: &mut Src| -> String {
        if src.chance(1, 3) {
            (*src.pick(COMMON)).to_owned()
        } else {
            src.pick(all).clone()
        }
    };
    let few = src.chance(1, 3);
    src.list(0, if few { 4 } else { 40 }, if few { 2 } else { 20 }, |src| {
        let n = pick(src);
        if used.contains(&n) {
            return;
        }
        let it = item(src, &n);
        // `concat!` stands in the call itself.
        if builtin && it.starts_with("macro_rules") && n == "concat" {
            return;
        }
        used.insert(n.clone());
        if is_value(&it) {
            values.insert(n.clone());
        }
        module.push(it);
    });
    let mut inner_used: BTreeSet<String> = taken.iter().cloned().collect();
    src.list(0, 20, 5, |src| {
        let n = pick(src);
        if inner_used.contains(&n) {
            return;
        }
        if src.chance(1, 2) {
            if !values.contains(&n) && !["Some", "None", "Ok", "Err"].contains(&n.as_str()) {
                inner.push(format!("let {n} = ();"));
                inner_used.insert(n);
            }
        } else {
            let it = item(src, &n);
            // Within a block, `self::` is the module around it.
            if it.contains("use self::") || (builtin && it.starts_with("macro_rules") && n == "concat") {
                return;
            }
            inner_used.insert(n);
            inner.push(it);
        }
    });
    let mut generics = Vec::new();
    if src.chance(1, 3) {
        src.list(0, 4, 2, |src| {
            let n = pick(src);
            if used.contains(&n) || inner_used.contains(&n) {
                return;
            }
            used.insert(n.clone());
            if src.chance(1, 2) {
                generics.push(n);
            } else if n != "usize" {
                generics.push(format!("const {n}: usize"));
            }
        });
        // `usize` must be what it is.
        if used.contains("usize") || inner_used.contains("usize") {
            generics.retain(|g| !g.starts_with("const"));
        }
    }
    Scope { module, inner, generics, prelude: !src.chance(1, 3) }
}

/// The call in a place with names of its own, and in one without.
pub fn scoped(src: &mut Src, case: &mut Case) -> Code {
    under(src, case, "stylish")
}

/// Where `::std`, `::core` and `::alloc` are something else.
pub fn crates(src: &mut Src, case: &mut Case) -> Code {
    let mut c = under(src, case, "stylish");
    for (_, l) in &mut c.lines {
        *l = l.replace("::std::", "::rt::real_std::").replace("::core::", "::rt::real_std::");
    }
    c
}

pub fn renamed(src: &mut Src, case: &mut Case) -> Code {
    under(src, case, "renamed")
}

const ROUTES: &[(&str, &str, &str, &str)] = &[
    ("::rt::Chars", "::rt::record(", "format_args!", ")"),
    ("::std::string::String", "::rt::thrice(", "format_args!", ")"),
    ("::std::string::String", "", "plain::format!", ""),
    ("::std::string::String", "", "ansi::format!", ""),
    ("::std::string::String", "", "html::format!", ""),
    ("::rt::Chars", "::rt::show(&", "format!", ")"),
    ("::rt::Chars", "{ let mut zq_w = ::rt::Rec(::std::vec::Vec::new()); ", "write!", "; zq_w.0 }"),
    ("::rt::Chars", "{ let mut zq_w = ::rt::Rec(::std::vec::Vec::new()); ", "writeln!", "; zq_w.0 }"),
];

fn under(src: &mut Src, case: &mut Case, krate: &str) -> Code {
    let o = Opts { attrs: true, sty: true, caps: true, max_pieces: 6, idents: false, value };
    let mut call = Call::generate(src, o);
    // Values that do not depend on names.
    for (_, v) in &mut call.caps {
        *v = Val { expr: match v.traits {
            t if t == call::STY => "::rt::Sty(\"cap\", ::stylish::Color::Red)".into(),
            _ => "::rt::Probe(1)".into(),
        }, traits: v.traits };
    }
    let form = call.form(src);
    let (cut, trailing) = (src.idx(40), src.chance(1, 6));
    let s = call.format_string(true);
    let lit = call::write_form(form, &s, cut);
    let args = call.args(trailing).replace("::stylish::", "::rt::stylish::");
    let (ty, before, mac, after) = *src.pick(ROUTES);
    let path = format!("::{krate}::{mac}");
    let (import, target) = match src.below(4) {
        // Imported under another name, or through a module of the caller's.
        0 => (format!("use {} as zq_m;", path.trim_end_matches('!')), "zq_m!".to_owned()),
        1 => (format!("pub mod zq_re {{ pub use ::{krate}::*; }}"), format!("self::zq_re::{mac}")),
        _ => (String::new(), path),
    };
    let write = mac.starts_with("write");
    let taken: Vec<String> = call.caps.iter().chain(&call.named).map(|(n, _)| call::unraw(n).to_owned()).collect();
    let sc = scope(src, &taken, form);
    let place = src.below(5);
    let mut c = Code::default();
    for shadowed in [false, true] {
        let (def, m) = if write {
            (String::new(), target.clone())
        } else {
            call::forward(form, &target, if shadowed { "zq_fwd" } else { "zq_plain" })
        };
        let m = if write { format!("{m}(zq_w, {lit}{args}).unwrap()") } else { format!("{m}({lit}{args})") };
        let line = format!("{before}{m}{after}");
        let locals = call.locals().replace("::stylish::", "::rt::stylish::");
        if !shadowed {
            c.fixed("mod zq_outside {");
            c.fixed("use ::rt::stylish::Write as _;");
            c.fixed(import.clone());
            c.fixed(def);
            c.fixed(format!("pub fn zq_f() -> {ty} {{"));
            c.oracle(locals);
            c.other(line);
            c.fixed("} }");
            continue;
        }
        if !sc.prelude {
            c.fixed("#[no_implicit_prelude]");
        }
        c.fixed("pub mod zq_inside {");
        c.fixed("use ::rt::stylish::Write as _;");
        c.fixed(import.clone());
        for i in &sc.module {
            c.oracle(i.clone());
        }
        c.fixed(def);
        let gens = if sc.generics.is_empty() { String::new() } else { format!("<{}>", sc.generics.join(", ")) };
        let inst: Vec<&str> = sc.generics.iter().map(|g| if g.starts_with("const") { "0" } else { "()" }).collect();
        let inst = if inst.is_empty() { String::new() } else { format!("::<{}>", inst.join(", ")) };
        match place {
            // A method, so that `self` and `Self` are there too.
            0 => c.fixed(format!("pub struct Zq_s; impl Zq_s {{ pub fn zq_g{gens}(&self) -> {ty} {{")),
            1 => c.fixed(format!("pub trait Zq_tr {{ fn zq_g{gens}(&self) -> {ty} {{")),
            _ => c.fixed(format!("fn zq_g{gens}() -> {ty} {{")),
        }
        for i in &sc.inner {
            c.oracle(i.clone());
        }
        c.oracle(locals);
        match place {
            2 => {
                c.fixed("let zq_c = || {");
                c.subject(line);
                c.fixed("}; zq_c()");
            }
            3 => {
                c.fixed("'a: loop { break 'a");
                c.subject(line);
                c.fixed("}");
            }
            _ => c.subject(line),
        }
        match place {
            0 => {
                c.fixed("} }");
                c.fixed(format!("pub fn zq_f() -> {ty} {{ Zq_s.zq_g{inst}() }}"));
            }
            1 => {
                c.fixed("} }");
                c.fixed(format!("impl Zq_tr for () {{}} pub fn zq_f() -> {ty} {{ <() as Zq_tr>::zq_g{inst}(&()) }}"));
            }
            _ => {
                c.fixed("}");
                c.fixed(format!("pub fn zq_f() -> {ty} {{ zq_g{inst}() }}"));
            }
        }
        c.fixed("}");
    }
    c.fixed("pub fn run() -> ::rt::R { let zq_got = zq_inside::zq_f(); ::rt::take_log();");
    c.fixed(format!("::rt::same(zq_got, zq_outside::zq_f(), {})\n}}", call::escaped(&s)));
    let n = sc.module.len() + sc.inner.len() + sc.generics.len();
    case.nontrivial = n > 0;
    case.class(n > 10, "more than ten declarations");
    case.class(!sc.prelude, "without the prelude");
    case.class(!sc.generics.is_empty(), "generic parameters");
    case.class(!call.caps.is_empty(), "captured");
    c
}

/// Arguments whose types have methods of any name, traits in scope that
/// give every type methods of any name.
pub fn methods(src: &mut Src, case: &mut Case) -> Code {
    let lower: Vec<&String> = names().iter().filter(|n| n.starts_with(|c: char| c.is_ascii_lowercase())).collect();
    let mut own = BTreeSet::new();
    let mut blanket = BTreeSet::new();
    for _ in 0..src.below(12) {
        own.insert(if src.chance(1, 3) { "fmt".to_owned() } else { (*src.pick(&lower)).clone() });
    }
    for _ in 0..src.below(12) {
        blanket.insert(if src.chance(1, 3) { "fmt".to_owned() } else { (*src.pick(&lower)).clone() });
    }
    let signature = |src: &mut Src, n: &String| {
        let recv = *src.pick(&["self", "&self", "&mut self"]);
        let args = *src.pick(&["", ", _: u8", ", _: &mut ::core::fmt::Formatter<'_>", ", _: &mut ::rt::stylish::Formatter<'_>", ", _: &str"]);
        format!("fn {n}({recv}{args}) -> u8 where Self: ::core::marker::Sized {{ 0 }}")
    };
    let mut c = Code::default();
    c.fixed("pub struct V(pub i64);");
    for t in ["Display", "Debug", "Octal", "LowerHex", "UpperHex", "Binary", "LowerExp", "UpperExp"] {
        c.fixed(format!("impl ::core::fmt::{t} for V {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ ::core::fmt::{t}::fmt(&self.0, f) }} }}"));
    }
    c.fixed("impl ::rt::stylish::Display for V { fn fmt(&self, f: &mut ::rt::stylish::Formatter<'_>) -> ::rt::stylish::Result { ::rt::stylish::Formatter::write_str(f, \"styled\") } }");
    for n in &own {
        let m = signature(src, n);
        c.oracle(format!("impl V {{ pub {m} }}"));
    }
    let deref = src.chance(1, 3);
    if deref {
        c.fixed("impl ::core::ops::Deref for V { type Target = i64; fn deref(&self) -> &i64 { &77 } }");
        c.fixed("impl ::core::ops::DerefMut for V { fn deref_mut(&mut self) -> &mut i64 { panic!() } }");
    }
    // Neither the type's own methods nor the traits' matter to std.
    let mut s = String::new();
    let mut args = String::new();
    let mut named = 0;
    for i in 0..1 + src.below(4) {
        let spec = *src.pick(&["", ":?", ":o", ":x", ":X", ":b", ":e", ":E", ":#x?", ":>7", ":08.2", ":s"]);
        let arg = *src.pick(&["V(1)", "&V(22)", "v", "&v", "&&V(-3)", "r", "*r", "&*r"]);
        match src.below(4) {
            0 => s += &format!("{{v{spec}}}"),
            1 => s += &format!("{{r{spec}}}"),
            2 => {
                s += &format!("{{n{named}{spec}}}");
                args += &format!(", n{named} = {arg}");
                named += 1;
            }
            _ => {
                s += &format!("{{{spec}}}");
                // Those given by position come first.
                let at = if named == 0 { args.len() } else { args.find(", n0 =").unwrap() };
                args.insert_str(at, &format!(", {arg}"));
            }
        }
        s += &format!("<{i}>");
    }
    let lets = "let v = V(400); let r = &V(-5);";
    let (mac, html) = *src.pick(&[("plain::format", false), ("ansi::format", false), ("html::format", true)]);
    let line = format!("::stylish::{mac}!({}{args})", call::escaped(&s));
    c.fixed("mod zq_inside { use super::V;");
    if !blanket.is_empty() {
        c.fixed("pub trait Zq_all {");
        for n in &blanket {
            let m = signature(src, n);
            c.oracle(m);
        }
        c.fixed("} impl<T: ?::core::marker::Sized> Zq_all for T {}");
    }
    c.fixed(format!("pub fn subj() -> ::std::string::String {{ {lets}"));
    c.subject(line.clone());
    c.fixed("} }");
    c.fixed(format!("fn orac() -> ::std::string::String {{ {lets}"));
    // std has no such trait: the text is known.
    let plain = s.replace(":s}", ":S}");
    let mut rest = plain.as_str();
    let mut fmt = String::new();
    let mut pos = 0;
    let mut pargs: Vec<String> = args.split(", ").filter(|a| !a.is_empty()).map(String::from).collect();
    while let Some(i) = rest.find('{') {
        fmt += &rest[..i];
        let e = i + rest[i..].find('}').unwrap();
        let body = &rest[i + 1..e];
        let implicit = body.is_empty() || body.starts_with(':');
        if let Some(name) = body.strip_suffix(":S") {
            fmt += "styled";
            if implicit {
                // Its argument goes too.
                pargs.remove(pos);
            } else if name.starts_with('n') {
                pargs.retain(|a| !a.starts_with(&format!("{name} =")));
            }
        } else {
            fmt += &rest[i..=e];
            pos += usize::from(implicit);
        }
        rest = &rest[e + 1..];
    }
    fmt += rest;
    c.oracle(format!("::std::format!({}{})", call::escaped(&fmt), pargs.iter().map(|a| format!(", {a}")).collect::<String>()));
    c.fixed("}");
    let esc = if html { ".replace('<', \"&lt;\").replace('>', \"&gt;\")" } else { "" };
    c.fixed(format!("pub fn run() -> ::rt::R {{ ::rt::same(zq_inside::subj(), orac(){esc}, \"methods\") }}"));
    case.nontrivial = !own.is_empty() || !blanket.is_empty();
    case.class(own.contains("fmt") || blanket.contains("fmt"), "a method called fmt");
    case.class(deref, "a type that dereferences");
    c
}

/// Which variable a placeholder captures from within the caller's macros.
pub fn hygiene(src: &mut Src, case: &mut Case) -> Code {
    let n = *src.pick(&["x", "f", "fmt", "args", "r#type", "s", "v0"]);
    let u = call::unraw(n);
    let ty = *src.pick(&["", "?", ":>7", ":#?"]);
    let spec = if ty.is_empty() || ty.starts_with(':') { ty.to_owned() } else { format!(":{ty}") };
    let (kind, explicit) = (src.below(11), src.chance(1, 3));
    let lets = |k: u32| format!("let {n} = ::rt::l({k}, {k}00);");
    let more = if explicit { ", ::rt::l(7, 70)" } else { "" };
    let lit = format!("\"<{{{u}{spec}}}>{}\"", if explicit { "{}" } else { "" });
    let mut c = Code::default();
    let side = |c: &mut Code, name: &str, target: &str, subject: bool| {
        let (defs, body) = match kind {
            // The string is the macro's, the variable too.
            0 => (format!("macro_rules! zq_{name} {{ () => {{{{ {} {target}({lit}{more}) }}}}; }}", lets(1)), format!("{} zq_{name}!()", lets(2))),
            // The string is the caller's, past a variable of the macro's.
            1 => (format!("macro_rules! zq_{name} {{ ($f:literal) => {{{{ {} {target}($f{more}) }}}}; }}", lets(1)), format!("{} zq_{name}!({lit})", lets(2))),
            2 => (format!("macro_rules! zq_{name} {{ ($f:expr) => {{{{ {} {target}($f{more}) }}}}; }}", lets(1)), format!("{} zq_{name}!({lit})", lets(2))),
            3 => (format!("macro_rules! zq_{name} {{ ($f:tt) => {{{{ {} {target}($f{more}) }}}}; }}", lets(1)), format!("{} zq_{name}!({lit})", lets(2))),
            // An argument named by the caller.
            4 => (format!("macro_rules! zq_{name} {{ ($n:ident) => {{ {target}({lit}, {more_}$n = ::rt::l(5, 5)) }}; }}", more_ = more.trim_start_matches(", ").to_owned() + if explicit { ", " } else { "" }), format!("{} zq_{name}!({n})", lets(2))),
            // Through two macros.
            5 => (format!("macro_rules! zq_{name} {{ ($f:literal) => {{{{ {} zq_{name}!(@ $f) }}}}; (@ $f:literal) => {{{{ {} {target}($f{more}) }}}}; }}", lets(1), lets(3)), format!("{} zq_{name}!({lit})", lets(2))),
            // The variable's name is the caller's, the string the macro's.
            6 => (format!("macro_rules! zq_{name} {{ ($n:ident) => {{{{ {} let $n = 9; {target}({lit}{more}) }}}}; }}", lets(1)), format!("{} zq_{name}!({n})", lets(2))),
            // Arguments as metavariables.
            7 => (format!("macro_rules! zq_{name} {{ ($($e:expr),*) => {{{{ {} {target}(\"{{}}{{0{spec}}}{{{u}}}\" $(, $e)*) }}}}; }}", lets(1)), format!("{} zq_{name}!({n})", lets(2))),
            // The same name twice, but not the same variable.
            8 => (format!("macro_rules! zq_{name} {{ ($e:expr) => {{{{ {} {target}(\"{{}}{{}}{{{u}}}\", {n}, $e) }}}}; }}", lets(1)), format!("{} zq_{name}!({n})", lets(2))),
            9 => (format!("macro_rules! zq_{name} {{ ($e:expr, $f:literal) => {{{{ {} {target}($f, $e, {n}, q = $e, w = {n}) }}}}; }}", lets(1)), format!("{} zq_{name}!({n}, \"{{1}}{{0{spec}}}{{w}}{{q}}{{{u}}}\")", lets(2))),
            // A constant of the module.
            _ => (format!("const ZQ_K: i32 = 4; static ZQ_S: i32 = 5; macro_rules! zq_{name} {{ () => {{ {target}(\"{{ZQ_K{spec}}}{{ZQ_S}}\") }}; }}"), format!("zq_{name}!()")),
        };
        c.fixed(format!("fn {name}() -> ::std::string::String {{"));
        if subject {
            c.subject(defs);
            c.subject(body);
        } else {
            c.oracle(defs);
            c.oracle(body);
        }
        c.fixed("}");
    };
    let target = *src.pick(&["::stylish::plain::format!", "::stylish::ansi::format!", "::stylish::html::format!"]);
    side(&mut c, "subj", target, true);
    side(&mut c, "orac", "::std::format!", false);
    let html = if target.contains("html") { ".replace('<', \"&lt;\").replace('>', \"&gt;\")" } else { "" };
    c.fixed("pub fn run() -> ::rt::R { ::rt::take_log();");
    c.fixed(format!("let a = subj(); let la = ::rt::take_log(); let b = orac(){html}; let lb = ::rt::take_log(); ::rt::same((a, la), (b, lb), \"hygiene {kind}\")\n}}"));
    case.nontrivial = true;
    c
}

const RENAMED: Rustc<'static> = Rustc { edition: "2021", name: "renamed", extra: &[] };
const E2015: Rustc<'static> = Rustc { edition: "2015", name: "stylish", extra: &[] };
const E2018: Rustc<'static> = Rustc { edition: "2018", name: "stylish", extra: &[] };
const E2024: Rustc<'static> = Rustc { edition: "2024", name: "stylish", extra: &[] };

pub fn search_of(name: &str) -> Option<Search<'static>> {
    let extern_ = "extern crate stylish; extern crate rt;";
    Some(match name {
        "scopes" => Search { name: "scopes", gen: scoped, opts: PLAIN, header: "", shard: 40 },
        "renamed" => Search { name: "renamed", gen: renamed, opts: RENAMED, header: "", shard: 40 },
        "edition 2015" => Search { name: "edition 2015", gen: scoped, opts: E2015, header: extern_, shard: 40 },
        "edition 2018" => Search { name: "edition 2018", gen: scoped, opts: E2018, header: "", shard: 40 },
        "edition 2024" => Search { name: "edition 2024", gen: scoped, opts: E2024, header: "", shard: 40 },
        "crates" => Search {
            name: "crates",
            gen: crates,
            opts: PLAIN,
            header: "extern crate self as std; extern crate self as core; extern crate self as alloc;",
            shard: 40,
        },
        "methods" => Search { name: "methods", gen: methods, opts: PLAIN, header: "", shard: 40 },
        "hygiene" => Search { name: "hygiene", gen: hygiene, opts: PLAIN, header: "", shard: 40 },
        _ => return None,
    })
}

pub fn check(run: &mut Run) {
    for (name, quick, thorough) in [
        ("scopes", 1280, 40_000),
        ("renamed", 320, 8_000),
        ("edition 2015", 320, 8_000),
        ("edition 2018", 320, 8_000),
        ("edition 2024", 320, 8_000),
        ("hygiene", 320, 4_000),
        ("methods", 320, 8_000),
        ("crates", 160, 4_000),
    ] {
        let n = run.cases(quick, thorough);
        run.search(&search_of(name).unwrap(), n);
    }
}
