//! C09: attributes restyle exactly as the programmatic restyles do.

use crate::{
    call::{self, Attr, Call, Opts, Piece, COLORS},
    engine::{Case, Src},
    prog::Code,
};

const INTENSITIES: &[Option<&str>] = &[None, Some("bold"), Some("faint"), Some("normal")];

fn style_of(fg: &str, bg: &str, i: &str) -> String {
    format!(
        "::rt::style(::stylish::Color::{}, ::stylish::Color::{}, ::stylish::Intensity::{})",
        call::variant(fg),
        call::variant(bg),
        call::variant(i)
    )
}

fn restyled(start: &str, attrs: &[Attr]) -> String {
    let mut s = start.to_owned();
    for a in attrs {
        s += &format!(".with({})", a.restyle());
    }
    s
}

pub const SWEEP: usize = 18 * 4 * 2;
pub const ITEMS: usize = 18;

fn color(i: usize) -> Option<&'static str> {
    i.checked_sub(1).map(|i| COLORS[i])
}

/// One foreground, intensity and start style with every background.
pub fn sweep(i: usize) -> Code {
    let fg = color(i % 18);
    let intensity = INTENSITIES[i / 18 % 4];
    let start = [style_of("default", "default", "normal"), style_of("brightgreen", "magenta", "faint")][i / 72].clone();
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    c.fixed(format!("let start = {start};"));
    for b in 0..18 {
        let mut attrs = Vec::new();
        attrs.extend(fg.map(Attr::Fg));
        attrs.extend(color(b).map(Attr::Bg));
        attrs.extend(intensity.map(Attr::Intensity));
        // Every order occurs across the sweep.
        let n = attrs.len().max(1);
        attrs.rotate_left((b + i) % n);
        if (b / 3 + i) % 2 == 1 {
            attrs.reverse();
        }
        let comma = if !attrs.is_empty() && (b + i) % 5 == 0 { "," } else { "" };
        let list = attrs.iter().map(Attr::show).collect::<Vec<_>>().join(",");
        c.subject(format!("let got = ::rt::record_in(start, ::stylish::format_args!(\"a{{:({list}{comma})}}b\", \"x\"));"));
        c.fixed(format!(
            "let want = ::rt::join(::std::vec![::rt::run(\"a\", start), ::rt::run(\"x\", {}), ::rt::run(\"b\", start)]);",
            restyled("start", &attrs)
        ));
        c.fixed(format!("::rt::styled_eq(got, want, \"{{:({list}{comma})}}\")?;"));
    }
    c.fixed("::std::result::Result::Ok(())\n}");
    c
}

pub const REPEATS: usize = 17;
pub const REPEAT_ITEMS: usize = 40;

/// An aspect that is set twice: the last one wins, as for restyles.
pub fn repeats(i: usize) -> Code {
    let is = ["bold", "faint", "normal"];
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    c.fixed(format!("let start = {};", style_of("brightgreen", "magenta", is[i % 3])));
    for j in 0..REPEAT_ITEMS {
        let attrs = match j {
            0..=16 => vec![Attr::Fg(COLORS[i]), Attr::Fg(COLORS[j])],
            17..=33 => vec![Attr::Bg(COLORS[i]), Attr::Bg(COLORS[j - 17])],
            34..=36 => vec![Attr::Intensity(is[i % 3]), Attr::Intensity(is[j - 34])],
            37 => vec![Attr::Intensity("bold"), Attr::Fg(COLORS[i]), Attr::Intensity("faint"), Attr::Intensity(is[i % 3])],
            38 => vec![Attr::Fg(COLORS[i]), Attr::Bg(COLORS[16 - i]), Attr::Fg("default"), Attr::Bg(COLORS[i])],
            _ => vec![Attr::Fg("default"), Attr::Bg("default"), Attr::Fg(COLORS[i]), Attr::Bg(COLORS[i])],
        };
        let list = attrs.iter().map(Attr::show).collect::<Vec<_>>().join(",");
        c.subject(format!("let got = ::rt::record_in(start, ::stylish::format_args!(\"a{{:({list})}}b\", \"x\"));"));
        c.fixed(format!(
            "let want = ::rt::join(::std::vec![::rt::run(\"a\", start), ::rt::run(\"x\", {}), ::rt::run(\"b\", start)]);",
            restyled("start", &attrs)
        ));
        c.fixed(format!("::rt::styled_eq(got, want, \"{{:({list})}}\")?;"));
    }
    c.fixed("::std::result::Result::Ok(())\n}");
    c
}

pub const VALUES: usize = 17;

/// Every character, by itself as a value, restyled and not.
pub fn values(i: usize) -> Code {
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    c.fixed("let start = ::rt::style(::stylish::Color::Green, ::stylish::Color::Default, ::stylish::Intensity::Bold);");
    c.fixed(format!("for n in {}u32..{} {{", i << 16, (i + 1) << 16));
    c.fixed("let ::std::option::Option::Some(c) = ::std::char::from_u32(n) else { continue };");
    let calls = [
        ("{:(fg=red,normal)}", "{}", vec![Attr::Fg("red"), Attr::Intensity("normal")]),
        ("{:(bg=blue)?}", "{:?}", vec![Attr::Bg("blue")]),
        ("{:>3(fg=default,bg=brightwhite,faint)}", "{:>3}", vec![Attr::Fg("default"), Attr::Bg("brightwhite"), Attr::Intensity("faint")]),
    ];
    for (call, plain, attrs) in &calls {
        c.subject(format!("let got = ::rt::record_in(start, ::stylish::format_args!(\"a{call}\", c));"));
        c.fixed(format!(
            "let want = ::rt::join(::std::vec![::rt::run(\"a\", start), ::rt::run(&::std::format!(\"{plain}\", c), {})]);",
            restyled("start", attrs)
        ));
        c.fixed("if got != want { ::rt::styled_eq(got, want, &::std::format!(\"character {n:#x}\"))?; }");
    }
    c.fixed("}\n::std::result::Result::Ok(())\n}");
    c
}

fn start(src: &mut Src) -> String {
    if src.chance(1, 3) {
        return style_of("default", "default", "normal");
    }
    let (f, b) = (*src.pick(COLORS), *src.pick(COLORS));
    style_of(f, b, src.pick(&["normal", "bold", "faint"]))
}

pub fn random(src: &mut Src, case: &mut Case) -> Code {
    let o = Opts { attrs: true, sty: true, caps: true, max_pieces: 8, idents: false, value: call::value };
    let mut call = Call::generate(src, o);
    let start = start(src);
    let form = call.form(src);
    let (cut, trailing) = (src.idx(40), src.chance(1, 6));
    let route = src.below(4);
    let s = call.format_string(true);
    let mut c = Code::default();
    c.fixed("pub fn run() -> ::rt::R {");
    c.fixed(format!("let start = {start};"));
    c.oracle(call.locals());
    // Values are bound first, so that both sides see the same ones.
    let mut local = |v: &mut call::Val, n: String| {
        c.oracle(format!("let {n} = {};", v.expr));
        v.expr = n;
    };
    let mut by_expr = Vec::new();
    for (i, v) in call.pos.iter_mut().enumerate() {
        local(v, format!("p_{i}"));
    }
    for (i, (_, v)) in call.named.iter_mut().enumerate() {
        local(v, format!("n_{i}"));
    }
    let mut next = 0;
    for p in &call.pieces {
        by_expr.push(match p {
            Piece::Lit(_) => String::new(),
            Piece::Arg(r, ..) => match r {
                call::Ref::Next => {
                    next += 1;
                    call.pos[next - 1].expr.clone()
                }
                call::Ref::Index(i, _) => call.pos[*i].expr.clone(),
                call::Ref::Name(n) => {
                    let named = call.named.iter().find(|(name, _)| call::unraw(name) == n);
                    match named {
                        Some((_, v)) => v.expr.clone(),
                        None => call.caps.iter().find(|(name, _)| call::unraw(name) == n).unwrap().0.clone(),
                    }
                }
            },
        });
    }
    let lit = call::write_form(form, &s, cut);
    let args = call.args(trailing);
    let (def, m) = call::forward(form, "::stylish::format_args!", "fwd");
    if !def.is_empty() {
        c.fixed(def);
    }
    match route {
        0 | 1 => c.subject(format!("let got = ::rt::record_in(start, {m}({lit}{args}));")),
        2 => {
            // Through a user's Display, whose options are not those of what it
            // writes.
            let outer = src.pick(&["s", "s", "#07.2s", "^+40s"]);
            c.subject(format!(
                "struct W<F>(F); impl<F: ::core::ops::Fn(&mut ::stylish::Formatter<'_>) -> ::stylish::Result> ::stylish::Display for W<F> {{ fn fmt(&self, f: &mut ::stylish::Formatter<'_>) -> ::stylish::Result {{ (self.0)(f) }} }}\nlet w = W(|f: &mut ::stylish::Formatter<'_>| f.with(start).write_fmt({m}({lit}{args})));\nlet got = ::rt::record(::stylish::format_args!(\"{{:{outer}}}\", w));"
            ));
        }
        _ => {
            // Within an attributed string.
            c.subject(format!("let kept = ::stylish::format({m}({lit}{args}));\nlet got = ::rt::record_in(start, ::stylish::format_args!(\"{{:s}}\", kept));"));
        }
    }
    // An attributed string holds complete styles: the surrounding style does
    // not reach its text.
    let outer = if route == 3 { "::stylish::Style::default()" } else { "start" };
    let mut parts = Vec::new();
    let mut styled = false;
    for (p, e) in call.pieces.iter().zip(&by_expr) {
        match p {
            Piece::Lit(t) => parts.push(format!("::rt::run({}, {outer})", call::escaped(t))),
            Piece::Arg(_, spec, v) => {
                let attrs = spec.attrs.clone().unwrap_or_default().0;
                styled |= !attrs.is_empty();
                let st = restyled(outer, &attrs);
                if v.traits == call::STY {
                    parts.push(format!("{e}.expect({st})"));
                } else {
                    parts.push(format!("::rt::run(&::std::format!(\"{{{}}}\", {e}), {st})", spec.show(false)));
                }
            }
        }
    }
    c.oracle(format!("let want = ::rt::join(::std::vec![{}]);", parts.join(", ")));
    c.fixed(format!("::rt::styled_eq(got, want, {})\n}}", call::escaped(&s)));
    case.nontrivial = styled;
    case.class(call.pieces.len() > 3, "four or more pieces");
    case.class(route == 2, "within a Display");
    c
}
