//! C15, over programs: a line-writing call is the write with a newline, and
//! the string-returning macros are the functions.

use crate::{
    call::{self, Call, Form, Opts},
    engine::{Case, Src},
    prog::Code,
};

/// Ways to name the destination `w`; each notes its evaluation in the log.
const DST: &[&str] = &[
    "$",
    "&mut $",
    "(&mut *(&mut $))",
    "{ ::rt::l(1, ()); &mut $ }",
    "::rt::l(2, &mut $)",
    "::std::boxed::Box::new(&mut $)",
    "[&mut $][0]",
    "(&mut $, 3).0",
    "if ::rt::l(3, true) { &mut $ } else { ::std::panic!() }",
];

/// A destination: how to make it, how to end a line in it by hand, and how to
/// see what it got.
const SINKS: &[(&str, &str, &str)] = &[
    ("::rt::Rec::default()", "::stylish::Write::write_str(&mut $, \"\\n\", ::stylish::Style::default()).unwrap();", "$.0"),
    ("::stylish::ansi(::std::string::String::new())", "::stylish::Write::write_str(&mut $, \"\\n\", ::stylish::Style::default()).unwrap();", "$.finish().unwrap()"),
    ("::stylish::html(::std::string::String::new())", "::stylish::Write::write_str(&mut $, \"\\n\", ::stylish::Style::default()).unwrap();", "$.finish().unwrap()"),
    ("::stylish::plain(::std::string::String::new())", "::stylish::Write::write_str(&mut $, \"\\n\", ::stylish::Style::default()).unwrap();", "$.into_inner()"),
    ("::stylish::String::new()", "::stylish::Write::write_str(&mut $, \"\\n\", ::stylish::Style::default()).unwrap();", "::rt::record(::stylish::format_args!(\"{:s}\", $))"),
    ("::stylish::io::ansi(::std::vec::Vec::new())", "::stylish::io::Write::write_all(&mut $, b\"\\n\", ::stylish::Style::default()).unwrap();", "$.finish().unwrap()"),
    ("::stylish::io::plain(::std::vec::Vec::new())", "::stylish::io::Write::write_all(&mut $, b\"\\n\", ::stylish::Style::default()).unwrap();", "$.into_inner()"),
];

fn setup(src: &mut Src) -> (Call, Form, String, String, String) {
    let o = Opts { attrs: true, sty: true, caps: true, max_pieces: 7, idents: false, value: call::value };
    let call = Call::generate(src, o);
    let form = call.form(src);
    let (cut, trailing) = (src.idx(40), src.chance(1, 4));
    let s = call.format_string(true);
    let lit = call::write_form(form, &s, cut);
    let args = call.args(trailing);
    (call, form, s, lit, args)
}

fn classes(case: &mut Case, call: &Call, form: Form) {
    case.class(!call.caps.is_empty(), "captured");
    case.class(!call.named.is_empty(), "named");
    case.class(form != Form::Escaped, "not a plain literal");
}

/// `macro_rules!` handing the destination and the rest on, per the form.
fn forward(form: Form, target: &str, name: &str) -> (String, String) {
    let m = match form {
        Form::ViaLiteral => format!(
            "macro_rules! {name} {{ ($d:expr, $f:literal $($r:tt)*) => {{ {target}($d, $f $($r)*) }}; }}"
        ),
        Form::ViaExpr | Form::ViaConcat => format!(
            "macro_rules! {name} {{ ($d:expr, $f:expr $(, $($r:tt)*)?) => {{ {target}($d, $f $(, $($r)*)?) }}; }}"
        ),
        _ => return (String::new(), target.to_owned()),
    };
    (m, format!("{name}!"))
}

pub fn writeln(src: &mut Src, case: &mut Case) -> Code {
    let (call, form, s, lit, args) = setup(src);
    let (new, newline, end) = *src.pick(SINKS);
    let dst = *src.pick(DST);
    let repeat = 1 + src.below(2);
    let scope = src.chance(1, 3);
    let mut c = Code::default();
    if scope {
        // On a formatter, within a style.
        c.fixed("struct W<F>(F); impl<F: ::core::ops::Fn(&mut ::stylish::Formatter<'_>) -> ::stylish::Result> ::stylish::Display for W<F> { fn fmt(&self, f: &mut ::stylish::Formatter<'_>) -> ::stylish::Result { (self.0)(f) } }");
    }
    c.fixed("pub fn run() -> ::rt::R { use ::stylish::Write as _; use ::stylish::io::Write as _;");
    c.oracle(call.locals());
    let (da, a) = forward(form, "::stylish::writeln!", "fwda");
    let (db, b) = forward(form, "::stylish::write!", "fwdb");
    c.fixed(da);
    c.fixed(db);
    if scope {
        let style = format!(
            "::rt::style(::stylish::Color::{}, ::stylish::Color::{}, ::stylish::Intensity::{})",
            call::variant(src.pick(call::COLORS)),
            call::variant(src.pick(call::COLORS)),
            src.pick(&["Normal", "Bold", "Faint"])
        );
        c.fixed("let wa = W(|f: &mut ::stylish::Formatter<'_>| {");
        c.fixed(format!("let mut g = f.with({style});"));
        for _ in 0..repeat {
            c.subject(format!("{a}({}, {lit}{args})?;", dst.replace('$', "g")));
        }
        c.fixed("f.write_str(\"end\") });");
        c.fixed("let wb = W(|f: &mut ::stylish::Formatter<'_>| {");
        c.fixed(format!("let mut g = f.with({style});"));
        for _ in 0..repeat {
            c.other(format!("{b}({}, {lit}{args})?;", dst.replace('$', "g")));
            c.fixed("g.write_str(\"\\n\")?;");
        }
        c.fixed("f.write_str(\"end\") });");
        c.fixed("let ga = ::rt::record(::stylish::format_args!(\"{:s}\", wa)); let la = ::rt::take_log(); let gb = ::rt::record(::stylish::format_args!(\"{:s}\", wb)); let lb = ::rt::take_log();");
    } else {
        for (name, m, line) in [("wa", &a, true), ("wb", &b, false)] {
            c.fixed(format!("let mut {name} = {new};"));
            for _ in 0..repeat {
                let call = format!("{m}({}, {lit}{args}).unwrap();", dst.replace('$', name));
                if line {
                    c.subject(call);
                } else {
                    c.other(call);
                    c.fixed(newline.replace('$', name));
                }
            }
            c.fixed(format!("let l{name} = ::rt::take_log();"));
        }
        c.fixed(format!("let ga = {}; let gb = {}; let (la, lb) = (lwa, lwb);", end.replace('$', "wa"), end.replace('$', "wb")));
    }
    c.fixed(format!("::rt::same(ga, gb, {})?;", call::escaped(&format!("writeln (left) and write with a newline of {s}"))));
    c.fixed("::rt::same(la, lb, \"evaluations of the destination\")\n}");
    case.nontrivial = call.placeholders() > 0 || form != Form::Escaped;
    classes(case, &call, form);
    case.class(scope, "on a formatter");
    c
}

pub fn strings(src: &mut Src, case: &mut Case) -> Code {
    let (call, form, s, lit, args) = setup(src);
    let (fd, f) = call::forward(form, "::stylish::format_args!", "fwdf");
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    c.oracle(call.locals());
    if !fd.is_empty() {
        c.fixed(fd);
    }
    let n = src.idx(4);
    let (module, name) = [("ansi::", "ansi"), ("html::", "html"), ("plain::", "plain"), ("", "string")][n];
    let (d, m) = call::forward(form, &format!("::stylish::{module}format!"), "fwdm");
    if !d.is_empty() {
        c.fixed(d);
    }
    c.subject(format!("let got = {m}({lit}{args});"));
    c.other(format!("let want = ::stylish::{module}format({f}({lit}{args}));"));
    if n == 3 {
        c.fixed("let got = ::rt::record(::stylish::format_args!(\"{:s}\", got)); let want = ::rt::record(::stylish::format_args!(\"{:s}\", want));");
    }
    c.fixed(format!("::rt::same(got, want, {})\n}}", call::escaped(&format!("{name} macro and function of {s}"))));
    case.nontrivial = call.placeholders() > 0 || form != Form::Escaped;
    classes(case, &call, form);
    c
}

/// Calls without a format string, and fixed odd ones.
pub fn fixed(i: usize) -> Code {
    let (dst, sink) = (DST[i % DST.len()], SINKS[i / DST.len() % SINKS.len()]);
    let comma = if i / DST.len() / SINKS.len() == 1 { "," } else { "" };
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R { use ::stylish::Write as _; use ::stylish::io::Write as _;");
    c.fixed(format!("let mut wa = {}; let mut wb = {};", sink.0, sink.0));
    c.subject(format!("::stylish::writeln!({}{comma}).unwrap();", dst.replace('$', "wa")));
    c.fixed("::rt::take_log();");
    c.fixed(sink.1.replace('$', "wb"));
    c.fixed(format!("::rt::same({}, {}, \"writeln without a format string\")\n}}", sink.2.replace('$', "wa"), sink.2.replace('$', "wb")));
    c
}

pub const FIXED: usize = DST.len() * SINKS.len() * 2;
