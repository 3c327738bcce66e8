//! C08: without attributes, the same text as std.

use crate::{
    call::{self, Call, Form, Opts},
    engine::{Case, Src},
    prog::Code,
};

pub const SWEEP: usize = 48;

/// One combination of alignment, sign, `#` and `0`, with every width,
/// precision and trait.
pub fn sweep(i: usize) -> Code {
    let align = ["", "<", "^", ">"][i % 4];
    let sign = ["", "+", "-"][i / 4 % 3];
    let alt = ["", "#"][i / 12 % 2];
    let zero = ["", "0"][i / 24 % 2];
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    c.fixed("let p = ::rt::Probe(7);");
    for width in ["", "7"] {
        for prec in ["", ".3"] {
            for ty in call::ALL {
                let s = format!("{align}{sign}{alt}{zero}{width}{prec}{ty}");
                c.subject(format!("let got = ::stylish::plain::format!(\"{{:{s}}}\", p);"));
                c.oracle(format!("let want = ::std::format!(\"{{:{s}}}\", p);"));
                c.fixed(format!("::rt::eq(got, want, \"{{:{s}}}\")?;"));
            }
        }
    }
    c.fixed("::std::result::Result::Ok(())\n}");
    c
}

/// A plane of characters.
const PLANES: usize = 17;
pub const VALUES: usize = PLANES + 4;

/// The same call under both, on whatever is in scope.
fn both(c: &mut Code, at: &str, formats: &[&str], args: &str) {
    for f in formats {
        c.subject(format!("let got = ::stylish::plain::format!(\"{f}\", {args});"));
        c.oracle(format!("let want = ::std::format!(\"{f}\", {args});"));
        c.fixed(format!("if got != want {{ ::rt::eq(got, want, &::std::format!(\"{{}} {{}}\", {:?}, {at}))?; }}", f));
    }
}

/// Every character on its own, text of every length and in every number of
/// pieces, and numbers around every power of two.
pub fn values(i: usize) -> Code {
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    if i < PLANES {
        c.fixed(format!("for n in {}u32..{} {{", i << 16, (i + 1) << 16));
        c.fixed("let ::std::option::Option::Some(c) = ::std::char::from_u32(n) else { continue };");
        c.fixed("let mut buf = [0; 4]; let s: &str = c.encode_utf8(&mut buf);");
        both(&mut c, "n", &["{}", "{:?}", "{:>3}", "x{}y", "{:.1}"], "c");
        both(&mut c, "n", &["{}", "{:?}", "{:^4}", "x{}y"], "s");
        both(&mut c, "n", &["{}", "{}{0:?}"], "::rt::Pieces(s, 2)");
        c.fixed("}");
    } else if i == PLANES {
        c.fixed("for n in 0..1100usize {");
        c.fixed("let s = \"é\".repeat(n);");
        both(&mut c, "n", &["{}", "{:?}", "{:>9}", "{:.7}", "<{}>"], "s");
        both(&mut c, "n", &["{}", "{:?}", "<{}>"], "::rt::Pieces(\"ab\", n)");
        both(&mut c, "n", &["{}"], "::rt::Pieces(\"\", n)");
        c.fixed("}\nfor n in [4000usize, 65535, 65536, 65537, 100000] {\nlet s = \"y\".repeat(n);");
        both(&mut c, "n", &["{}", "{:?}", "{:.60000}", "{:65535}"], "s");
        both(&mut c, "n", &["{}"], "::rt::Pieces(\"z\", n)");
        c.fixed("}");
    } else if i == PLANES + 1 {
        for ty in ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"] {
            c.fixed(format!("for k in 0..{ty}::BITS {{ for d in 0..3 {{ for neg in [false, true] {{"));
            c.fixed(format!("let v = ((1 as {ty}) << k).wrapping_add(d).wrapping_sub(1); let v = if neg {{ (0 as {ty}).wrapping_sub(v) }} else {{ v }};"));
            both(&mut c, "v", &["{}", "{:?}", "{:+}", "{:#x}", "{:X}", "{:#o}", "{:#010b}", "{:e}", "{:E}", "{:#x?}", "{:08X?}", "{:^20}"], "v");
            c.fixed("}}}");
        }
    } else if i == PLANES + 2 {
        for (ty, bits, mantissa) in [("f32", "u32", 23), ("f64", "u64", 52)] {
            // Every exponent, with a few mantissas.
            c.fixed(format!("for e in 0..(1 as {bits}) << ({bits}::BITS - 1 - {mantissa}) {{ for m in [0, 1, (1 << {mantissa}) - 1, 1 << ({mantissa} - 1), 0x2aaaaa] {{ for sign in [0, (1 as {bits}) << ({bits}::BITS - 1)] {{"));
            c.fixed(format!("let v = {ty}::from_bits(sign | e << {mantissa} | m);"));
            both(&mut c, "v", &["{}", "{:?}", "{:+.3}", "{:e}", "{:012.2E}"], "v");
            c.fixed("}}}");
        }
    } else {
        // Values formatted by their own implementations, nested in others.
        c.fixed("for n in 0..300usize {");
        both(&mut c, "n", &["{:?}", "{:#?}", "{:04x?}"], "(0..n).collect::<::std::vec::Vec<_>>()");
        both(&mut c, "n", &["{}", "{:p}"], "::rt::Probe(n as u8)");
        both(&mut c, "n", &["{}", "{:>12}"], "::std::format_args!(\"{n:>5}{n:?}\")");
        both(&mut c, "n", &["{}", "{:?}"], "::std::boxed::Box::new(n)");
        c.fixed("}");
    }
    c.fixed("::std::result::Result::Ok(())\n}");
    c
}

pub const LITERALS: usize = 272;

/// Every character as literal text, 4096 at a time.
pub fn literals(i: usize) -> Code {
    let mut c = Code::default();
    let text: String = (i as u32 * 4096..(i as u32 + 1) * 4096).filter_map(char::from_u32).collect();
    let lit = call::escaped(&text.replace('{', "{{").replace('}', "}}"));
    c.fixed("pub fn run() -> ::rt::R {");
    c.subject(format!("let got = ::stylish::plain::format!({lit});"));
    c.oracle(format!("let want = ::std::format!({lit});"));
    c.fixed(format!("::rt::eq(got, want, \"characters from {:#x}\")", i * 4096));
    c.fixed("}");
    c
}

pub const SEPARATED: usize = 48;

/// Characters as pieces of literal text of their own.
pub fn separated(i: usize) -> Code {
    // Latin to Cyrillic and the like, then general punctuation and symbols.
    let base = if i < 32 { i * 48 } else { 0x2000 + (i - 32) * 48 };
    let mut c = Code::default();
    let mut lit = String::new();
    for ch in (base as u32..base as u32 + 48).filter_map(char::from_u32) {
        lit += "{0}";
        match ch {
            '{' | '}' => lit.extend([ch, ch]),
            _ => lit.push(ch),
        }
    }
    let lit = call::escaped(&lit);
    c.fixed("pub fn run() -> ::rt::R {");
    c.subject(format!("let got = ::stylish::plain::format!({lit}, 1);"));
    c.oracle(format!("let want = ::std::format!({lit}, 1);"));
    c.fixed(format!("::rt::eq(got, want, \"characters from {base:#x}, one by one\")"));
    c.fixed("}");
    c
}

pub const ROUTES: &[(&str, &str, &str)] = &[
    ("::stylish::plain::format!", "", ""),
    ("::stylish::format_args!", "::rt::once(", ")"),
    ("::stylish::format_args!", "::rt::thrice(", ")"),
    ("::stylish::ansi::format!", "", ""),
    // Within a Display that is itself formatted with options, which are not
    // those of what it writes.
    ("::stylish::format_args!", "::rt::within(\"s\", |f| f.write_fmt(", "))"),
    ("::stylish::format_args!", "::rt::within(\"#07.2s\", |f| f.write_fmt(", "))"),
    ("::stylish::format_args!", "::rt::within(\"^+40s\", |f| f.write_fmt(", "))"),
    ("::stylish::format!", "::stylish::plain::format(::stylish::format_args!(\"{:s}\", ", "))"),
];

pub fn random(src: &mut Src, case: &mut Case) -> Code {
    let o = Opts { attrs: false, sty: false, caps: true, max_pieces: 10, idents: false, value: call::value };
    let call = Call::generate(src, o);
    let form = call.form(src);
    let (cut, trailing) = (src.idx(40), src.chance(1, 6));
    let (target, before, after) = *src.pick(ROUTES);
    let s = call.format_string(false);
    let lit = call::write_form(form, &s, cut);
    let args = call.args(trailing);
    let (def, subject) = call::forward(form, target, "fwd");
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    c.oracle(call.locals());
    if !def.is_empty() {
        c.fixed(def);
    }
    c.subject(format!("let got: ::std::string::String = {before}{subject}({lit}{args}){after};"));
    c.oracle(format!("let want = ::std::format!({lit}{args});"));
    c.fixed(format!("::rt::eq(got, want, {})\n}}", call::escaped(&s)));
    case.nontrivial = call.placeholders() > 0;
    case.class(call.placeholders() > 2, "three or more placeholders");
    case.class(call.placeholders() > 20, "over 20 placeholders");
    case.class(s.len() > 1000, "over 1000 bytes");
    case.class(!call.caps.is_empty(), "captured");
    case.class(!call.named.is_empty(), "named");
    case.class(form != Form::Escaped, "not a plain literal");
    c
}
