//! Generated formatting macro calls: format strings, values and argument
//! lists that std accepts once the attributes are removed.

use crate::{engine::Src, text};

pub const INT: &[&str] = &["", "?", "x?", "X?", "o", "x", "X", "b", "e", "E"];
pub const FLOAT: &[&str] = &["", "?", "e", "E", "x?"];
pub const TEXT: &[&str] = &["", "?", "X?"];
pub const DEBUG: &[&str] = &["?", "x?", "X?"];
pub const PTR: &[&str] = &["p", "?"];
pub const ALL: &[&str] = &["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"];
pub const STY: &[&str] = &["s"];

#[derive(Clone, Debug)]
pub struct Val {
    pub expr: String,
    pub traits: &'static [&'static str],
}

pub const COLORS: &[&str] = &[
    "red", "default", "black", "green", "yellow", "blue", "magenta", "cyan", "white", "brightblack", "brightred",
    "brightgreen", "brightyellow", "brightblue", "brightmagenta", "brightcyan", "brightwhite",
];

pub fn variant(color: &str) -> String {
    match color.strip_prefix("bright") {
        Some(c) => format!("Bright{}", variant(c)),
        None => color[..1].to_uppercase() + &color[1..],
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Attr {
    Fg(&'static str),
    Bg(&'static str),
    Intensity(&'static str),
}

impl Attr {
    pub fn show(&self) -> String {
        match self {
            Attr::Fg(c) => format!("fg={c}"),
            Attr::Bg(c) => format!("bg={c}"),
            Attr::Intensity(i) => (*i).to_owned(),
        }
    }

    pub fn restyle(&self) -> String {
        match self {
            Attr::Fg(c) => format!("::stylish::Foreground(::stylish::Color::{})", variant(c)),
            Attr::Bg(c) => format!("::stylish::Background(::stylish::Color::{})", variant(c)),
            Attr::Intensity(i) => format!("::stylish::Intensity::{}", variant(i)),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub align: &'static str,
    pub sign: &'static str,
    pub alt: bool,
    pub zero: bool,
    pub width: String,
    pub prec: Option<String>,
    pub attrs: Option<(Vec<Attr>, bool)>,
    pub ty: &'static str,
    pub colon: bool,
    /// Whitespace before the closing brace.
    pub tail: &'static str,
}

impl Spec {
    pub fn options(&self) -> String {
        format!(
            "{}{}{}{}{}{}",
            self.align,
            self.sign,
            if self.alt { "#" } else { "" },
            if self.zero { "0" } else { "" },
            self.width,
            self.prec.as_ref().map(|p| format!(".{p}")).unwrap_or_default(),
        )
    }

    pub fn attributes(&self) -> String {
        match &self.attrs {
            None => String::new(),
            Some((list, comma)) => {
                let l: Vec<String> = list.iter().map(Attr::show).collect();
                format!("({}{})", l.join(","), if *comma { "," } else { "" })
            }
        }
    }

    /// The part from the colon on.
    pub fn show(&self, attrs: bool) -> String {
        let a = if attrs { self.attributes() } else { String::new() };
        let body = format!("{}{}{}", self.options(), a, self.ty);
        if body.is_empty() && !self.colon {
            self.tail.to_owned()
        } else {
            format!(":{body}{}", self.tail)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ref {
    Next,
    Index(usize, bool),
    Name(String),
}

#[derive(Clone, Debug)]
pub enum Piece {
    Lit(String),
    Arg(Ref, Spec, Val),
}

#[derive(Clone, Debug, Default)]
pub struct Call {
    pub pieces: Vec<Piece>,
    pub pos: Vec<Val>,
    pub named: Vec<(String, Val)>,
    pub caps: Vec<(String, Val)>,
}

/// What the generator may use.
#[derive(Clone, Copy)]
pub struct Opts {
    pub attrs: bool,
    pub sty: bool,
    pub caps: bool,
    pub max_pieces: usize,
    /// Named arguments by any identifier, whether or not std agrees.
    pub idents: bool,
    pub value: fn(&mut Src, &mut u32) -> Val,
}

pub const NAMES: &[&str] = &["a", "b", "name", "_x", "x1", "r#type", "r#fn", "é", "变量", "Self_", "a_b_c", "fg", "s", "x", "self_", "r#match", "a·b", "q\u{303}1", "x‿y", "𝔸", "কি"];

/// Keywords, as raw identifiers, and what is a keyword in some places only.
pub const KEYWORDS: &[&str] = &[
    "r#abstract", "r#as", "r#async", "r#await", "r#become", "r#box", "r#break", "r#const", "r#continue", "r#do", "r#dyn",
    "r#else", "r#enum", "r#extern", "r#false", "r#fn", "r#for", "r#if", "r#impl", "r#in", "r#let", "r#loop", "r#macro",
    "r#match", "r#mod", "r#move", "r#mut", "r#override", "r#priv", "r#pub", "r#ref", "r#return", "r#static", "r#struct",
    "r#trait", "r#true", "r#try", "r#type", "r#typeof", "r#unsafe", "r#unsized", "r#use", "r#virtual", "r#where",
    "r#while", "r#yield", "union", "auto", "default", "macro_rules", "raw", "safe", "gen",
    "bold", "normal", "bg", "r", "b", "c", "br", "e", "o", "p", "X", "fmt",
];

/// Any identifier at all.
pub fn identifier(src: &mut Src) -> String {
    let mut any = |ok: fn(char) -> bool, default: char| {
        let top = *src.pick(&[0x80, 0x250, 0x3000, 0x3_0000]);
        (0..12).filter_map(|_| char::from_u32(src.below(top) as u32)).find(|&c| ok(c)).unwrap_or(default)
    };
    let mut s = String::from(any(unicode_ident::is_xid_start, 'a'));
    for _ in 0..3 {
        s.push(any(unicode_ident::is_xid_continue, '_'));
    }
    s
}

/// The name as it is referred to in a format string.
pub fn unraw(name: &str) -> &str {
    name.strip_prefix("r#").unwrap_or(name)
}

pub fn literal_text(src: &mut Src) -> String {
    match src.weighted(&[6, 3, 3, 2, 1, 1]) {
        0 => (*src.pick(&["x", "hello ", "é", " ", "-", "0", ":", "a\tb"])).to_owned(),
        1 => (*src.pick(&["{", "}", "{}", "}{", "{{", "}}", "{{}}", "{0}", "{:?}", "{a", "}}}", "{{{"])).to_owned(),
        2 => {
            let chars = src.list(1, 12, 3, |s| *s.pick(&['a', '{', '}', ' ', '\n', '"', '\\', '(', ')', '$', '🦀', '\u{301}', '#', '%', '\'', '\t', '\0', '\u{1b}', '<', '&', '\u{2028}', '5', '\r', '\u{feff}']));
            chars.into_iter().collect()
        }
        3 => {
            let l = text::lits();
            if l.strs.is_empty() { "z".into() } else { src.pick(&l.strs).clone() }
        }
        4 if src.chance(1, 8) => {
            let unit = *src.pick(&["long text ", "{} and {{ ", "a\r\n\n", "é\"\\'\t", "}}}{", "🦀\0\u{301}x", "<&> ", "\r\r\u{202e}"]);
            // Braces make a piece each, which takes time to compile.
            let n = if unit.contains('{') { src.pick(&[10, 30, 50]) } else { src.pick(&[100, 103, 410, 820, 1640, 6554]) };
            unit.repeat(n * 10 / unit.len())
        }
        4 => "y".repeat(1 + src.idx(300)),
        _ => {
            let chars = src.list(1, 8, 2, |s| {
                loop {
                    let v = match s.below(3) {
                        0 => s.below(0x80),
                        1 => s.below(0x3000),
                        _ => s.below(0x11_0000),
                    };
                    if let Some(c) = char::from_u32(v as u32) {
                        return c;
                    }
                }
            });
            chars.into_iter().collect()
        }
    }
}

pub fn value(src: &mut Src, _: &mut u32) -> Val {
    let v = |expr: String, traits| Val { expr, traits };
    match src.weighted(&[6, 3, 3, 1, 3, 2, 1, 1, 2]) {
        0 => {
            let ty = *src.pick(&["i32", "u8", "i8", "u16", "i16", "u32", "i64", "u64", "i128", "u128", "isize", "usize"]);
            let e = match src.below(6) {
                0 => format!("{}{ty}", src.below(100)),
                1 => format!("{ty}::MAX"),
                2 => format!("{ty}::MIN"),
                3 => format!("({} as i128 as {ty})", src.below(1 << 20) as i64 - (1 << 19)),
                4 => format!("({ty}::MAX / {})", 1 + src.below(50)),
                _ => format!("(1{ty} << {})", src.below(7)),
            };
            v(e, INT)
        }
        1 => {
            let ty = *src.pick(&["f64", "f32"]);
            let e = match src.below(7) {
                0 => format!("{}.{}{ty}", src.below(1000), src.below(1000)),
                1 => format!("{ty}::{}", src.pick(&["MAX", "MIN", "EPSILON", "MIN_POSITIVE", "NAN", "INFINITY", "NEG_INFINITY"])),
                2 => format!("(-{}.{}{ty})", src.below(10), src.below(100)),
                3 => format!("(-0.0{ty})"),
                4 => format!("{}e{}{ty}", 1 + src.below(9), src.below(30)),
                5 => format!("{}e-{}{ty}", 1 + src.below(9), src.below(30)),
                _ => format!("{}.5{ty}", src.below(6)),
            };
            v(e, FLOAT)
        }
        2 => match src.below(4) {
            0 => v(format!("{:?}", src.pick(&["str", "", "é", "a\nb", "q\"", "🦀x", "longer text here"])), TEXT),
            1 => v(format!("::std::string::String::from({:?})", src.pick(&["String", "", "é"])), TEXT),
            2 => v(format!("{:?}", src.pick(&['c', '\'', '\n', '🦀'])), TEXT),
            _ => v((*src.pick(&["true", "false"])).to_owned(), TEXT),
        },
        3 => v("(0x1234usize as *const u8)".into(), PTR),
        4 => v(format!("::rt::Probe({})", src.below(10)), ALL),
        5 => match src.below(5) {
            0 => v(format!("::rt::deep({})", src.below(100) as i64 - 50), DEBUG),
            1 => v(format!("::std::option::Option::Some({}i32)", src.below(300)), DEBUG),
            2 => v(format!("[{}u8, 255]", src.below(200)), DEBUG),
            3 => v("(1.5f32, \"x\", ())".into(), DEBUG),
            _ => v(format!("({}..{}i32)", src.below(9), src.below(99)), DEBUG),
        },
        6 => v(format!("::rt::Pad({:?})", src.pick(&["pad", "", "é🦀", "long padded text"])), TEXT),
        7 => v(format!("::rt::Int({}, {:?})", src.pick(&["true", "false"]), src.pick(&["12", "", "0", "9999"])), ALL),
        _ => v(format!("::rt::Nest({}, {:?})", src.below(300) as i64 - 100, src.pick(&["in", "é", ""])), TEXT),
    }
}

fn sty(src: &mut Src) -> Val {
    let c = variant(src.pick(COLORS));
    Val { expr: format!("::rt::Sty({:?}, ::stylish::Color::{c})", src.pick(&["s", "", "é", "two words"])), traits: STY }
}

pub fn attrs(src: &mut Src) -> (Vec<Attr>, bool) {
    let mut list = Vec::new();
    if src.chance(2, 3) {
        list.push(Attr::Fg(*src.pick(COLORS)));
    }
    if src.chance(1, 2) {
        list.push(Attr::Bg(*src.pick(COLORS)));
    }
    if src.chance(1, 2) {
        list.push(Attr::Intensity(*src.pick(&["bold", "faint", "normal"])));
    }
    // The same aspect again: the last one wins.
    if src.chance(1, 6) {
        for _ in 0..1 + src.idx(3) {
            list.push(match src.below(3) {
                0 => Attr::Fg(*src.pick(COLORS)),
                1 => Attr::Bg(*src.pick(COLORS)),
                _ => Attr::Intensity(*src.pick(&["bold", "faint", "normal"])),
            });
        }
    }
    // Any order.
    for i in (1..list.len()).rev() {
        let j = src.idx(i + 1);
        list.swap(i, j);
    }
    let comma = !list.is_empty() && src.chance(1, 4);
    (list, comma)
}

fn number(src: &mut Src) -> String {
    let n = match src.weighted(&[8, 4, 1, 1]) {
        3 => text::size(src, 5000) as u64,
        0 => src.below(16),
        1 => *src.pick(&[20, 32, 40, 64, 100, 127, 128]),
        _ => *src.pick(&[255, 256, 257, 1000, 4096]),
    };
    let zeros = if src.chance(1, 12) { "0" } else { "" };
    format!("{zeros}{n}")
}

pub fn spec(src: &mut Src, ty: &'static str, with_attrs: bool) -> Spec {
    let mut s = Spec { ty, ..Spec::default() };
    if ty != "s" && src.chance(2, 3) {
        if src.chance(1, 2) {
            s.align = *src.pick(&["<", "^", ">", " <", " ^", " >"]);
        }
        if src.chance(1, 3) {
            s.sign = *src.pick(&["+", "-"]);
        }
        s.alt = src.chance(1, 3);
        s.zero = src.chance(1, 3);
        if src.chance(1, 2) {
            s.width = number(src);
            // A width of its own cannot start with a zero: that is the flag.
            if !s.zero && s.width.starts_with('0') {
                s.zero = true;
                s.width.remove(0);
            }
        }
        if src.chance(1, 3) {
            s.prec = Some(number(src));
        }
    }
    if with_attrs && src.chance(2, 3) {
        s.attrs = Some(attrs(src));
    }
    s.colon = src.chance(1, 8);
    if src.chance(1, 16) {
        s.tail = " ";
    }
    // A space after the colon would read as the fill of an alignment.
    s
}

impl Call {
    pub fn generate(src: &mut Src, o: Opts) -> Call {
        let mut c = Call::default();
        let mut next = 0;
        let mut k = 0;
        // Now and then a long call.
        let (max, avg) = if src.chance(1, 30) { (o.max_pieces * 20, 70) } else { (o.max_pieces, 4) };
        let n = src.list(1, max, avg, |src| {
            if src.chance(1, 3) {
                let t = literal_text(src);
                c.pieces.push(Piece::Lit(t));
                return;
            }
            let fresh = |src: &mut Src, k: &mut u32| {
                if o.sty && src.chance(1, 4) {
                    sty(src)
                } else {
                    (o.value)(src, k)
                }
            };
            let (r, v) = match src.weighted(&[5, 3, 3, if o.caps { 3 } else { 0 }]) {
                0 => {
                    if next == c.pos.len() {
                        let v = fresh(src, &mut k);
                        c.pos.push(v);
                    }
                    next += 1;
                    (Ref::Next, c.pos[next - 1].clone())
                }
                1 => {
                    let i = if c.pos.is_empty() || src.chance(1, 2) {
                        let v = fresh(src, &mut k);
                        c.pos.push(v);
                        c.pos.len() - 1
                    } else {
                        src.idx(c.pos.len())
                    };
                    (Ref::Index(i, src.chance(1, 16)), c.pos[i].clone())
                }
                kind => {
                    let name = match o.idents && src.chance(1, 4) {
                        true => identifier(src),
                        false if src.chance(1, 4) => (*src.pick(KEYWORDS)).to_owned(),
                        false => (*src.pick(NAMES)).to_owned(),
                    };
                    let found = c.named.iter().chain(&c.caps).find(|(n, _)| *n == name);
                    let v = match found {
                        Some((_, v)) => v.clone(),
                        None => {
                            if kind == 2 {
                                let v = fresh(src, &mut k);
                                c.named.push((name.clone(), v.clone()));
                                v
                            } else {
                                // Captured variables are plain values.
                                let v = if o.sty && src.chance(1, 4) { sty(src) } else { value(src, &mut 0) };
                                c.caps.push((name.clone(), v.clone()));
                                v
                            }
                        }
                    };
                    (Ref::Name(unraw(&name).to_owned()), v)
                }
            };
            let ty = *src.pick(v.traits);
            let s = spec(src, ty, o.attrs);
            c.pieces.push(Piece::Arg(r, s, v));
        });
        let _ = n;
        // std reads the brace of `{:}<` as a fill character.
        let s = c.format_string(true);
        if [":}<", ":}^", ":}>"].iter().any(|p| s.contains(p)) {
            for p in &mut c.pieces {
                if let Piece::Arg(_, s, _) = p {
                    s.colon = false;
                }
            }
        }
        c
    }

    pub fn placeholders(&self) -> usize {
        self.pieces.iter().filter(|p| matches!(p, Piece::Arg(..))).count()
    }

    pub fn format_string(&self, attrs: bool) -> String {
        let mut s = String::new();
        for p in &self.pieces {
            match p {
                Piece::Lit(t) => s += &t.replace('{', "{{").replace('}', "}}"),
                Piece::Arg(r, spec, _) => {
                    s.push('{');
                    match r {
                        Ref::Next => {}
                        Ref::Index(i, pad) => {
                            if *pad {
                                s.push('0');
                            }
                            s += &i.to_string();
                        }
                        Ref::Name(n) => s += n,
                    }
                    s += &spec.show(attrs);
                    s.push('}');
                }
            }
        }
        s
    }
}

/// How a format string is written in the source.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Escaped,
    Raw,
    RealNewlines,
    Concat,
    ViaLiteral,
    ViaExpr,
    ViaConcat,
}

pub fn escaped(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            '\t' => out += "\\t",
            '\0' => out += "\\0",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out += &format!("\\x{:02x}", c as u32),
            c if c.is_alphanumeric() || c.is_ascii() || c == '🦀' => out.push(c),
            c => out += &format!("\\u{{{:x}}}", c as u32),
        }
    }
    out.push('"');
    out
}

/// As escaped, but line breaks and tabs stand as themselves.
fn real(s: &str) -> String {
    escaped(s).replace("\\n", "\n").replace("\\\n", "\\\\n")
}

fn raw(s: &str) -> Option<String> {
    if s.contains('\r') || s.chars().any(|c| (c as u32) < 0x20 && c != '\n' && c != '\t' || matches!(c as u32, 0x7f..=0x9f | 0x202a..=0x202e | 0x2066..=0x2069)) {
        return None;
    }
    let mut hashes = String::new();
    while s.contains(&format!("\"{hashes}")) {
        hashes.push('#');
    }
    Some(format!("r{hashes}\"{s}\"{hashes}"))
}

/// The literal (or builtin call) for `s`; `cut` says where to split.
pub fn write_form(form: Form, s: &str, cut: usize) -> String {
    match form {
        Form::Raw | Form::ViaExpr => raw(s).unwrap_or_else(|| escaped(s)),
        Form::RealNewlines if !s.contains('\\') => real(s),
        Form::Concat | Form::ViaConcat => {
            let mut at = cut % (s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            format!("concat!({}, {})", escaped(&s[..at]), escaped(&s[at..]))
        }
        _ => escaped(s),
    }
}

impl Call {
    /// The argument list after the format string, starting with a comma.
    pub fn args(&self, trailing: bool) -> String {
        let mut out = String::new();
        for v in &self.pos {
            out += ", ";
            out += &v.expr;
        }
        for (n, v) in &self.named {
            out += &format!(", {n} = {}", v.expr);
        }
        if trailing {
            out.push(',');
        }
        out
    }

    pub fn locals(&self) -> String {
        self.caps.iter().map(|(n, v)| format!("let {n} = {};", v.expr)).collect::<Vec<_>>().join(" ")
    }

    pub fn form(&self, src: &mut Src) -> Form {
        // std captures nothing through a builtin macro.
        if self.caps.is_empty() {
            *src.pick(&[Form::Escaped, Form::Raw, Form::RealNewlines, Form::Concat, Form::ViaLiteral, Form::ViaExpr, Form::ViaConcat])
        } else {
            *src.pick(&[Form::Escaped, Form::Raw, Form::RealNewlines, Form::ViaLiteral, Form::ViaExpr])
        }
    }
}

/// A macro `fwd!` handing its tokens on to `target`, as the form asks, and
/// the way to call it.
pub fn forward(form: Form, target: &str, name: &str) -> (String, String) {
    let m = match form {
        Form::ViaLiteral => format!(
            "macro_rules! {name} {{ ($f:literal $($r:tt)*) => {{ {target}($f $($r)*) }}; }}"
        ),
        Form::ViaExpr | Form::ViaConcat => {
            format!("macro_rules! {name} {{ ($f:expr $(, $($r:tt)*)?) => {{ {target}($f $(, $($r)*)?) }}; }}")
        }
        _ => return (String::new(), target.to_owned()),
    };
    (m, format!("{name}!"))
}
