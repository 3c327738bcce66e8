//! Generated values implementing `stylish::Display`, and what they mean.

use std::{cell::Cell, fmt::Write as _};

use stylish::{Formatter, ToAnsiString as _, ToHtmlString as _, ToPlainString as _, ToStylishString as _};

use crate::{
    engine::Src,
    model::{push_str, Styled, PLAIN, R, St, COLORS, INTENSITIES},
    text,
};

thread_local! {
    /// Which values were formatted, in order, as a hash: really, and by the model.
    static CALLS: Cell<[u64; 2]> = const { Cell::new([0; 2]) };
}

thread_local! {
    /// Whether values that fail panic instead.
    static PANICS: Cell<bool> = const { Cell::new(false) };
}

struct Failure;

/// Runs `f` with every value that fails panicking instead; whether one did.
pub fn panics(f: impl FnOnce()) -> bool {
    PANICS.with(|p| p.set(true));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    PANICS.with(|p| p.set(false));
    match res {
        Ok(()) => false,
        Err(e) if e.is::<Failure>() => true,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn fail<E>(e: E) -> Result<(), E> {
    if PANICS.with(Cell::get) {
        std::panic::panic_any(Failure);
    }
    Err(e)
}

fn called(side: usize, id: u64) {
    CALLS.with(|c| {
        let mut v = c.get();
        v[side] = crate::engine::mix(v[side] ^ (id + 1).wrapping_mul(0x9e37_79b9));
        c.set(v);
    })
}

/// Since the last time: which values were formatted.
pub fn take_calls() -> u64 {
    CALLS.with(|c| c.replace([0; 2]))[0]
}

/// The same for one rendering of the node, by the model.
pub fn model_calls(node: &Node) -> u64 {
    take_calls();
    flat(node);
    CALLS.with(|c| c.replace([0; 2]))[1]
}

/// After one rendering: every value in it was formatted once for each time it
/// occurs, in order.
pub fn once(want: u64, how: &str) -> Result<(), String> {
    if take_calls() == want {
        return Ok(());
    }
    Err(format!("{how}: the values in it were not formatted exactly once each, in order"))
}

/// How text is handed to the formatter, in its current style.
#[derive(Clone, Debug)]
pub enum How {
    Str,
    FmtStr,
    FmtChars,
    FmtArgs,
    Std,
    /// In parts, split at these character counts (cyclically).
    Parts(Vec<usize>),
    /// Surrounded by empty writes, which may have another style.
    Empties(St),
}

/// A std value that writes its text in parts.
#[derive(Clone, Debug)]
pub struct Chunks {
    pub parts: Vec<String>,
    pub by_char: bool,
    pub fail: bool,
}

impl Chunks {
    fn go(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        called(0, self.parts.len() as u64);
        for p in &self.parts {
            if self.by_char {
                for c in p.chars() {
                    f.write_char(c)?;
                }
            } else {
                f.write_str(p)?;
            }
        }
        if self.fail {
            return fail(std::fmt::Error);
        }
        Ok(())
    }
}

impl std::fmt::Display for Chunks {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.go(f)
    }
}

/// How many ways there are of formatting `Chunks`.
pub const N_CHUNKS: u64 = 18;

macro_rules! any_trait {
    ($($t:ident)*) => { $(
        impl std::fmt::$t for Chunks {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.go(f)
            }
        }
    )* };
}

any_trait!(Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);

impl std::fmt::Debug for Dbg<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.go(f)
    }
}

struct Dbg<'a>(&'a Chunks);

#[derive(Clone, Debug)]
pub enum Val {
    Int(i64),
    Text(String),
    Float(f64),
    Char(char),
    Bool(bool),
    Opt(Option<Vec<u16>>),
}

impl Val {
    fn generate(src: &mut Src) -> Val {
        match src.below(6) {
            0 => Val::Int(match src.below(3) {
                0 => src.below(20) as i64 - 10,
                1 => text::size(src, 1 << 20) as i64,
                _ => (src.below(1 << 32) as i64) << 31 ^ src.below(1 << 32) as i64,
            }),
            1 => Val::Text(text::text_no_esc(src, 40)),
            2 => Val::Float(*src.pick(&[0.0, -0.0, 1.5, -2.25, 1e10, 1e-7, f64::INFINITY, f64::NAN, 3.999])),
            3 => Val::Char(*src.pick(&['a', '<', '&', '\'', '"', '\n', '\u{0}', '🦀', '\u{301}'])),
            4 => Val::Bool(src.chance(1, 2)),
            _ => Val::Opt(match src.below(2) {
                0 => None,
                _ => Some(src.list(0, 4, 1, |s| s.below(300) as u16)),
            }),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Node {
    Text(String, How),
    Seq(Vec<Node>),
    With(R, Vec<Node>),
    Chain(R, R, Vec<Node>),
    /// Through the write trait on the formatter: an explicit style.
    Abs(String, St, u8),
    /// A std-formatted value, template by number.
    Val(Val, u8),
    Chunks(Chunks, u8),
    /// Children within a format string, template by number.
    Args(u8, Vec<Node>),
    /// By an attribute list.
    Attrs(u16, Box<Node>),
    /// An attributed string built from these runs.
    Attributed(Vec<(String, St)>),
    Recorded(Box<Node>),
    Twice(Box<Node>),
    Ref(Box<Node>),
    Dyn(Box<Node>),
    WriteFmt(Box<Node>, u8),
    Line(Box<Node>, u8),
    /// The same format arguments in two scopes, then one again.
    Scopes(R, Box<Node>),
    /// Counts how often it is formatted.
    Tick(u8, Box<Node>),
    /// The text of another rendering, made while this one is under way.
    Inner(u8, Box<Node>),
    Fail(String),
}

/// Child `i` of a template, an empty text when there is none.
fn child(nodes: &[Node], i: usize) -> &Node {
    const EMPTY: &Node = &Node::Seq(Vec::new());
    nodes.get(i).unwrap_or(EMPTY)
}

enum P {
    T(&'static str),
    C(usize, &'static [At]),
}

#[derive(Clone, Copy)]
enum At {
    F(u8),
    B(u8),
    I(u8),
}

fn at(ats: &[At], mut s: St) -> St {
    for a in ats {
        match *a {
            At::F(c) => s.fg = c,
            At::B(c) => s.bg = c,
            At::I(c) => s.int = c,
        }
    }
    s
}

pub const N_TEMPLATES: u8 = 22;

fn template(n: u8) -> &'static [P] {
    use At::*;
    use P::*;
    match n {
        0 => &[C(0, &[])],
        1 => &[C(0, &[F(2)])],
        2 => &[C(0, &[B(5)])],
        3 => &[C(0, &[I(1)])],
        4 => &[C(0, &[I(2)])],
        5 => &[T("<"), C(0, &[F(3), I(1)]), T(">")],
        6 => &[C(0, &[]), T("-"), C(1, &[])],
        7 => &[C(0, &[]), C(1, &[B(2)]), C(0, &[])],
        8 => &[C(0, &[F(7), B(8), I(2)]), T("{}")],
        9 => &[C(0, &[F(4)]), T("/"), C(1, &[])],
        10 => &[C(0, &[]), T(" & "), C(1, &[F(5)]), T("\n"), C(2, &[B(6)])],
        11 => &[C(0, &[F(0)])],
        12 => &[C(0, &[B(0)])],
        13 => &[C(0, &[I(0)])],
        14 => &[T("é"), C(1, &[F(1), B(4)]), C(0, &[]), T("🦀'\"")],
        15 => &[T("just text")],
        // A value that does not look at the options is not changed by them.
        16 => &[C(0, &[])],
        17 => &[C(0, &[F(2)]), T("|"), C(1, &[B(3), I(1)])],
        18 => &[T("    1"), C(0, &[]), T("0x2a")],
        19 => &[C(0, &[]), T("[1.50"), C(1, &[F(1)]), T("\"<\"")],
        20 => &[C(2, &[]), C(1, &[I(2)]), C(0, &[]), C(0, &[B(16)])],
        _ => &[T("{"), C(0, &[F(9), B(10), I(1)]), T("}\n"), C(1, &[])],
    }
}

impl stylish::Display for Node {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        match self {
            Node::Text(s, how) => match how {
                How::Str => f.write_str(s),
                How::FmtStr => std::fmt::Write::write_str(f, s),
                How::FmtChars => s.chars().try_for_each(|c| std::fmt::Write::write_char(f, c)),
                How::FmtArgs => f.write_fmt(stylish::format_args!("{}", s)),
                How::Std => std::fmt::Write::write_fmt(f, std::format_args!("{s}")),
                How::Parts(at) => {
                    let mut rest = s.as_str();
                    let mut i = 0;
                    while !rest.is_empty() {
                        let n = at.get(i % at.len().max(1)).copied().unwrap_or(1).max(1);
                        let end = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
                        f.write_str(&rest[..end])?;
                        rest = &rest[end..];
                        i += 1;
                    }
                    Ok(())
                }
                How::Empties(st) => {
                    f.write_str("")?;
                    f.with(st.real()).write_str("")?;
                    f.write_str(s)?;
                    stylish::Write::write_str(f, "", st.real())?;
                    f.write_str("")
                }
            },
            Node::Seq(nodes) => nodes.iter().try_for_each(|n| n.fmt(f)),
            Node::With(r, nodes) => {
                // Common shapes go through the concrete types.
                let mut g = match r {
                    R::Fg(c) => f.with(stylish::Foreground(COLORS[*c as usize])),
                    R::Bg(c) => f.with(stylish::Background(COLORS[*c as usize])),
                    R::Int(i) => f.with(INTENSITIES[*i as usize]),
                    R::Abs(s) => f.with(s.real()),
                    r => f.with(r),
                };
                nodes.iter().try_for_each(|n| n.fmt(&mut g))
            }
            Node::Chain(a, b, nodes) => {
                let mut outer = f.with(a);
                {
                    let mut g = outer.with(b);
                    nodes.iter().try_for_each(|n| n.fmt(&mut g))?;
                }
                nodes.iter().try_for_each(|n| n.fmt(&mut outer))
            }
            Node::Abs(s, st, how) => match how {
                0 => stylish::Write::write_str(f, s, st.real()),
                1 => s.chars().try_for_each(|c| stylish::Write::write_char(f, c, st.real())),
                2 => {
                    let mut f = f;
                    stylish::Write::write_str(&mut f, s, st.real())
                }
                _ => {
                    let d: &mut dyn stylish::Write = f;
                    s.chars().try_for_each(|c| d.write_char(c, st.real()))
                }
            },
            Node::Val(v, t) => {
                macro_rules! with_val {
                    ($v:ident => $e:expr) => {
                        match v {
                            Val::Int($v) => $e,
                            Val::Text($v) => $e,
                            Val::Float($v) => $e,
                            Val::Char($v) => $e,
                            Val::Bool($v) => $e,
                            Val::Opt(v) => {
                                let $v = &Show(v);
                                $e
                            }
                        }
                    };
                }
                with_val!(v => match t {
                    0 => f.write_fmt(stylish::format_args!("{}", v)),
                    1 => f.write_fmt(stylish::format_args!("{:?}", v)),
                    2 => f.write_fmt(stylish::format_args!("{:8}|", v)),
                    3 => f.write_fmt(stylish::format_args!("{:>9(fg=red)}", v)),
                    4 => f.write_fmt(stylish::format_args!("{:^12.2(bold)}<", v)),
                    5 => f.write_fmt(stylish::format_args!("{:#?}", v)),
                    6 => f.write_fmt(stylish::format_args!("a{:(bg=blue,faint)?}b", v)),
                    // Wide ones.
                    13 => f.write_fmt(stylish::format_args!("{0:<70}{0:>0133(fg=red)?}", v)),
                    14 => f.write_fmt(stylish::format_args!("{:>270.65(bold)}", v)),
                    15 => f.write_fmt(stylish::format_args!("{:^1030(faint)}", v)),
                    _ => number(v.number(), *t, f),
                })
            }
            Node::Chunks(c, t) => match t {
                0 => f.write_fmt(stylish::format_args!("{}", c)),
                1 => f.write_fmt(stylish::format_args!("[{:(fg=red)}]", c)),
                2 => f.write_fmt(stylish::format_args!("{:(bold)?}", Dbg(c))),
                3 => std::fmt::Write::write_fmt(f, std::format_args!("{c}")),
                // The options are not looked at.
                4 => f.write_fmt(stylish::format_args!("{:o}", c)),
                5 => f.write_fmt(stylish::format_args!("{:x}", c)),
                6 => f.write_fmt(stylish::format_args!("{:(faint)X}", c)),
                7 => f.write_fmt(stylish::format_args!("{:p}", *c)),
                8 => f.write_fmt(stylish::format_args!("{:#b}", c)),
                9 => f.write_fmt(stylish::format_args!("{0:+e}", c)),
                10 => f.write_fmt(stylish::format_args!("{:>08.3(bg=green)E}", c)),
                11 => f.write_fmt(stylish::format_args!("{:x?}", Dbg(c))),
                12 => f.write_fmt(stylish::format_args!("{d:#X?}", d = Dbg(c))),
                13 => f.write_fmt(stylish::format_args!("{:#?}", Dbg(c))),
                14 => f.write_fmt(stylish::format_args!("{:^+#030.2}", c)),
                15 => f.write_fmt(stylish::format_args!("{:<5}{:(fg=red)o}", c, c)),
                16 => f.write_fmt(stylish::format_args!("{:(bold)p}{c:b}", *c)),
                _ => f.write_fmt(stylish::format_args!("[{:9.2(fg=red)e}]", c)),
            },
            Node::Attrs(t, n) => crate::attrs::render(*t, f, &**n),
            Node::Args(t, n) => {
                let (x, y, z) = (child(n, 0), child(n, 1), child(n, 2));
                match t {
                    0 => f.write_fmt(stylish::format_args!("{:s}", x)),
                    1 => f.write_fmt(stylish::format_args!("{:(fg=red)s}", x)),
                    2 => f.write_fmt(stylish::format_args!("{:(bg=blue)s}", x)),
                    3 => f.write_fmt(stylish::format_args!("{:(bold)s}", x)),
                    4 => f.write_fmt(stylish::format_args!("{:(faint)s}", x)),
                    5 => f.write_fmt(stylish::format_args!("<{:(fg=green,bold)s}>", x)),
                    6 => f.write_fmt(stylish::format_args!("{:s}-{:s}", x, y)),
                    7 => f.write_fmt(stylish::format_args!("{0:s}{1:(bg=red)s}{0:s}", x, y)),
                    8 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=white,faint)s}{{}}", x)),
                    9 => f.write_fmt(stylish::format_args!("{x:(fg=yellow)s}/{b:s}", b = y)),
                    10 => f.write_fmt(stylish::format_args!("{:s} & {:(fg=blue)s}\n{:(bg=magenta)s}", x, y, z)),
                    11 => f.write_fmt(stylish::format_args!("{:(fg=default)s}", x)),
                    12 => f.write_fmt(stylish::format_args!("{:(bg=default)s}", x)),
                    13 => f.write_fmt(stylish::format_args!("{:(normal)s}", x)),
                    14 => f.write_fmt(stylish::format_args!("é{1:(fg=black,bg=yellow)s}{0:s}🦀'\"", x, y)),
                    15 => f.write_fmt(stylish::format_args!("just text")),
                    16 => f.write_fmt(stylish::format_args!("{:>19s}", x)),
                    17 => f.write_fmt(stylish::format_args!("{:3(fg=red)s}|{:^+#30.1(bg=green,bold)s}", x, y)),
                    18 => f.write_fmt(stylish::format_args!("{:>5}{:s}{:#x}", 1, x, 42)),
                    19 => f.write_fmt(stylish::format_args!("{:07s}[{:.2}{:(fg=black)s}{:?}", x, 1.5, y, "<")),
                    20 => f.write_fmt(stylish::format_args!("{1:s}{y:(faint)s}{0:s}{0:(bg=brightwhite)s}", x, z, y = y)),
                    _ => f.write_fmt(stylish::format_args!(
                        "{{{:(bold,fg=brightblack,bg=brightred,)s}}}
{:s}",
                        x, y
                    )),
                }
            }
            Node::Attributed(runs) => attributed(runs).fmt(f),
            Node::Recorded(n) => f.write_fmt(stylish::format_args!("{:s}", n.to_stylish_string())),
            Node::Twice(n) => {
                let n: &Node = n;
                let args = stylish::format_args!("({:s})", n);
                f.write_fmt(stylish::format_args!("{0:s}{0:s}", args))
            }
            Node::Ref(n) => (&&**n).fmt(f),
            Node::Dyn(n) => {
                let d: &dyn stylish::Display = &**n;
                f.write_fmt(stylish::format_args!("{:s}", d))
            }
            Node::WriteFmt(n, how) => { let n = &**n; match how {
                0 => stylish::Write::write_fmt(f, stylish::format_args!("{:s}", n)),
                1 => stylish::write!(f, "{:s}", n),
                2 => {
                    let d: &mut dyn stylish::Write = f;
                    stylish::write!(d, "{:s}", n)
                }
                _ => stylish::Write::write_fmt(&mut { f }, stylish::format_args!("{:s}", n)),
            } }
            Node::Line(n, how) => { let n = &**n; match how {
                0 => stylish::writeln!(f, "{:s}", n),
                1 => stylish::writeln!(f, "{:(fg=red)s}.", n),
                _ => {
                    n.fmt(f)?;
                    stylish::writeln!(f)
                }
            } }
            Node::Scopes(r, n) => {
                let n: &Node = n;
                let args = stylish::format_args!("({:s}{:(fg=magenta)})", n, 'x');
                stylish::Display::fmt(&args, &mut f.with(r))?;
                stylish::Display::fmt(&args, f)?;
                f.with(r).write_fmt(args)
            }
            Node::Tick(id, n) => {
                called(0, 100 + *id as u64);
                n.fmt(f)
            }
            Node::Inner(how, n) => {
                let n = &**n;
                f.write_str("{")?;
                // Markup is written as text: it depends on `n` alone.
                let text = match how {
                    0 => n.to_plain_string(),
                    1 => n.to_html_string(),
                    2 => stylish::html::format!("{:s}", n),
                    3 => n.to_ansi_string().replace('\x1b', "E"),
                    4 => stylish::plain::format!("{:s}", n.to_stylish_string()),
                    _ => {
                        let mut w = stylish::html(std::string::String::new());
                        stylish::write!(w, "{:s}", n)?;
                        f.write_str("}{")?;
                        w.finish()?
                    }
                };
                f.write_str(&text)?;
                f.write_str("}")
            }
            Node::Fail(s) => {
                f.write_str(s)?;
                fail(stylish::Error)
            }
        }
    }
}

/// Numbers through the other traits.
trait Number {
    fn number(&self) -> i64 {
        -42
    }
}

impl Number for i64 {
    fn number(&self) -> i64 {
        *self
    }
}
impl Number for String {}
impl Number for f64 {}
impl Number for char {
    fn number(&self) -> i64 {
        *self as i64
    }
}
impl Number for bool {}
impl Number for &Show<'_> {}

fn number(v: i64, t: u8, f: &mut Formatter<'_>) -> stylish::Result {
    let p = std::ptr::without_provenance::<u8>(v as usize);
    match t {
        7 => stylish::write!(f, "{:x}.{:#X}", v, v),
        8 => stylish::write!(f, "{:012o}.{:#(fg=red)o}", v, v),
        9 => stylish::write!(f, "{:+e}.{:.3(bold)E}", v, v as f64),
        10 => stylish::write!(f, "{:#b}.{:>(faint)b}", v, v),
        11 => stylish::write!(f, "{:p}.{:#(bg=cyan)p}", p, p),
        _ => stylish::write!(f, "{:x?}.{v:#(bold)X?}", v),
    }
}

fn number_text(v: i64, t: u8, st: St) -> (String, String, String, St) {
    let p = std::ptr::without_provenance::<u8>(v as usize);
    let (a, b, st) = match t {
        7 => (format!("{v:x}"), format!("{v:#X}"), st),
        8 => (format!("{v:012o}"), format!("{v:#o}"), St { fg: 2, ..st }),
        9 => (format!("{v:+e}"), format!("{:.3E}", v as f64), St { int: 1, ..st }),
        10 => (format!("{v:#b}"), format!("{v:>b}"), St { int: 2, ..st }),
        11 => (format!("{p:p}"), format!("{p:#p}"), St { bg: 7, ..st }),
        _ => (format!("{v:x?}"), format!("{v:#X?}"), St { int: 1, ..st }),
    };
    (a + ".", b, String::new(), st)
}

struct Show<'a>(&'a Option<Vec<u16>>);

impl std::fmt::Debug for Show<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

impl std::fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.0.iter().flatten()).finish()
    }
}

pub fn attributed(runs: &[(String, St)]) -> stylish::String {
    let mut s = stylish::String::new();
    for (text, st) in runs {
        stylish::Write::write_str(&mut s, text, st.real()).unwrap();
    }
    s
}

/// The model: what a node writes. `Err` where it fails.
pub fn flatten(node: &Node, st: St, out: &mut Styled) -> Result<(), ()> {
    match node {
        Node::Text(s, _) => push_str(out, s, st),
        Node::Seq(nodes) => return nodes.iter().try_for_each(|n| flatten(n, st, out)),
        Node::With(r, nodes) => {
            let st = r.model(st);
            return nodes.iter().try_for_each(|n| flatten(n, st, out));
        }
        Node::Chain(a, b, nodes) => {
            let outer = a.model(st);
            let inner = b.model(outer);
            nodes.iter().try_for_each(|n| flatten(n, inner, out))?;
            nodes.iter().try_for_each(|n| flatten(n, outer, out))?;
        }
        Node::Abs(s, abs, _) => push_str(out, s, *abs),
        Node::Val(v, t) => {
            macro_rules! with_val {
                ($v:ident => $e:expr) => {
                    match v {
                        Val::Int($v) => $e,
                        Val::Text($v) => $e,
                        Val::Float($v) => $e,
                        Val::Char($v) => $e,
                        Val::Bool($v) => $e,
                        Val::Opt(v) => {
                            let $v = &Show(v);
                            $e
                        }
                    }
                };
            }
            let (pre, text, post, inner) = with_val!(v => match t {
                0 => (String::new(), format!("{v}"), String::new(), st),
                1 => (String::new(), format!("{v:?}"), String::new(), st),
                2 => (String::new(), format!("{v:8}"), "|".into(), st),
                3 => (String::new(), format!("{v:>9}"), String::new(), St { fg: 2, ..st }),
                4 => (String::new(), format!("{v:^12.2}"), "<".into(), St { int: 1, ..st }),
                5 => (String::new(), format!("{v:#?}"), String::new(), st),
                6 => ("a".into(), format!("{v:?}"), "b".into(), St { bg: 5, int: 2, ..st }),
                13 => (format!("{v:<70}"), format!("{v:>0133?}"), String::new(), St { fg: 2, ..st }),
                14 => (String::new(), format!("{v:>270.65}"), String::new(), St { int: 1, ..st }),
                15 => (String::new(), format!("{v:^1030}"), String::new(), St { int: 2, ..st }),
                _ => number_text(v.number(), *t, st),
            });
            push_str(out, &pre, st);
            push_str(out, &text, inner);
            push_str(out, &post, st);
        }
        Node::Chunks(c, t) => {
            let (pre, post, inner) = match t {
                1 | 17 => ("[", "]", St { fg: 2, ..st }),
                2 | 16 => ("", "", St { int: 1, ..st }),
                6 => ("", "", St { int: 2, ..st }),
                10 => ("", "", St { bg: 3, ..st }),
                _ => ("", "", st),
            };
            push_str(out, pre, st);
            let twice = [st, St { fg: 2, ..st }];
            let styles = match t {
                15 => &twice[..],
                16 => &[inner, st],
                _ => &[inner],
            };
            for &inner in styles {
                called(1, c.parts.len() as u64);
                for p in &c.parts {
                    push_str(out, p, inner);
                }
                if c.fail {
                    return Err(());
                }
            }
            push_str(out, post, st);
        }
        Node::Attrs(t, n) => flatten(n, crate::attrs::model(*t, st), out)?,
        Node::Args(t, nodes) => {
            for p in template(*t) {
                match p {
                    P::T(s) => push_str(out, s, st),
                    P::C(i, ats) => flatten(child(nodes, *i), at(ats, st), out)?,
                }
            }
        }
        Node::Attributed(runs) => runs.iter().for_each(|(s, st)| push_str(out, s, *st)),
        Node::Recorded(n) => flatten(n, St::default(), out)?,
        Node::Twice(n) => {
            for _ in 0..2 {
                push_str(out, "(", st);
                flatten(n, st, out)?;
                push_str(out, ")", st);
            }
        }
        Node::Ref(n) | Node::Dyn(n) | Node::WriteFmt(n, _) => flatten(n, st, out)?,
        Node::Line(n, how) => {
            flatten(n, if *how == 1 { St { fg: 2, ..st } } else { st }, out)?;
            push_str(out, if *how == 1 { ".\n" } else { "\n" }, st);
        }
        Node::Scopes(r, n) => {
            let inner = r.model(st);
            for st in [inner, st, inner] {
                push_str(out, "(", st);
                flatten(n, st, out)?;
                push_str(out, "x", St { fg: 6, ..st });
                push_str(out, ")", st);
            }
        }
        Node::Tick(id, n) => {
            called(1, 100 + *id as u64);
            flatten(n, st, out)?;
        }
        Node::Inner(how, n) => {
            // The same rendering by itself, which other checks look at.
            let calls = CALLS.with(Cell::get);
            let text = match how {
                0 | 4 => flat(n).iter().map(|c| c.0).collect(),
                3 => (&**n).to_ansi_string().replace('\x1b', "E"),
                _ => (&**n).to_html_string(),
            };
            CALLS.with(|c| c.set(calls));
            flatten(n, PLAIN, &mut Vec::new()).unwrap();
            push_str(out, if *how > 4 { "{}{" } else { "{" }, st);
            push_str(out, &text, st);
            push_str(out, "}", st);
        }
        Node::Fail(s) => {
            push_str(out, s, st);
            return Err(());
        }
    }
    Ok(())
}

pub fn flat(node: &Node) -> Styled {
    let mut out = Vec::new();
    let _ = flatten(node, St::default(), &mut out);
    out
}

impl Node {
    /// Whether rendering the node itself needs the heap.
    pub fn allocates(&self) -> bool {
        match self {
            Node::Attributed(_) | Node::Recorded(_) | Node::Inner(..) => true,
            Node::With(r, n) => restyle_allocates(r) || n.iter().any(Node::allocates),
            Node::Chain(a, b, n) => {
                restyle_allocates(a) || restyle_allocates(b) || n.iter().any(Node::allocates)
            }
            Node::Scopes(r, n) => restyle_allocates(r) || n.allocates(),
            Node::Seq(n) | Node::Args(_, n) => n.iter().any(Node::allocates),
            Node::Twice(n)
            | Node::Attrs(_, n)
            | Node::Ref(n)
            | Node::Dyn(n)
            | Node::WriteFmt(n, _)
            | Node::Line(n, _)
            | Node::Tick(_, n) => {
                n.allocates()
            }
            Node::Text(..) | Node::Abs(..) | Node::Val(..) | Node::Chunks(..) | Node::Fail(_) => false,
        }
    }
}

fn restyle_allocates(r: &R) -> bool {
    match r {
        R::Fgs(_) | R::Dyn(_) | R::Typed(7, _) => true,
        R::Some(r) | R::Ref(r) | R::Boxed(r) | R::DynRef(r) | R::User(r) => restyle_allocates(r),
        R::Pair(a, b) => restyle_allocates(a) || restyle_allocates(b),
        R::Triple(a, b, c) => restyle_allocates(a) || restyle_allocates(b) || restyle_allocates(c),
        R::Slice(v) => v.iter().any(restyle_allocates),
        _ => false,
    }
}

pub struct Gen {
    pub esc: bool,
    /// Chance in 64 that a leaf fails.
    pub fail: u64,
    pub heap: bool,
    pub max_text: usize,
}

impl Gen {
    pub const PLAIN: Gen = Gen { esc: false, fail: 0, heap: true, max_text: 5000 };

    pub fn text(&self, src: &mut Src) -> String {
        if self.esc {
            text::text(src, self.max_text)
        } else {
            text::text_no_esc(src, self.max_text)
        }
    }

    fn restyle(&self, src: &mut Src) -> R {
        let depth = src.weighted(&[4, 3, 1]) as u32;
        let r = R::generate(src, depth);
        if !self.heap && restyle_allocates(&r) {
            return R::Fg(2);
        }
        r
    }

    pub fn nodes(&self, src: &mut Src, depth: u32) -> Vec<Node> {
        src.list(0, 8, 2, |src| self.node(src, depth))
    }

    pub fn runs(&self, src: &mut Src) -> Vec<(String, St)> {
        let mut v = src.list(0, 40, 3, |src| (self.text(src), St::generate(src)));
        if src.chance(1, 40) {
            // Many style changes.
            let n = text::size(src, 1200);
            let k = 1 + src.idx(5);
            let sts: Vec<St> = (0..k).map(|_| St::generate(src)).collect();
            v.extend((0..n).map(|i| (char::from(b'a' + (i % 26) as u8).to_string(), sts[i % k])));
        }
        v
    }

    pub fn node(&self, src: &mut Src, depth: u32) -> Node {
        src.span(|src| {
            if self.fail > 0 && src.chance(self.fail, 64) {
                let t = self.text(src);
                return if src.chance(1, 2) {
                    Node::Chunks(
                        Chunks { parts: vec![t], by_char: src.chance(1, 3), fail: true },
                        src.below(N_CHUNKS) as u8,
                    )
                } else {
                    Node::Fail(t)
                };
            }
            let n = if depth == 0 { 5 } else { 18 };
            let b = |src: &mut Src| Box::new(self.node(src, depth.saturating_sub(1)));
            match src.weighted(&[14, 5, 4, 3, 3, 16, 4, 8, 3, 2, 2, 2, 2, 3, 3, 2, 3, 1][..n]) {
                0 => {
                    let t = self.text(src);
                    let how = match src.below(7) {
                        0 => How::Str,
                        1 => How::FmtStr,
                        2 => How::FmtChars,
                        3 => How::FmtArgs,
                        4 => How::Std,
                        5 => How::Parts((0..1 + src.idx(3)).map(|_| 1 + src.idx(5)).collect()),
                        _ => How::Empties(St::generate(src)),
                    };
                    Node::Text(t, how)
                }
                1 => Node::Abs(self.text(src), St::generate(src), src.below(4) as u8),
                2 => {
                    let v = Val::generate(src);
                    let wide = self.max_text > 60 && src.chance(1, 30);
                    Node::Val(v, if wide { 13 + src.below(3) } else { src.below(13) } as u8)
                }
                3 => Node::Chunks(
                    Chunks {
                        parts: src.list(0, 5, 2, |src| self.text(src)),
                        by_char: src.chance(1, 3),
                        fail: false,
                    },
                    src.below(N_CHUNKS) as u8,
                ),
                4 if self.heap => Node::Attributed(self.runs(src)),
                4 => Node::Text(self.text(src), How::Str),
                5 => Node::With(self.restyle(src), self.nodes(src, depth - 1)),
                6 => Node::Chain(self.restyle(src), self.restyle(src), self.nodes(src, depth - 1)),
                7 if src.chance(1, 3) => Node::Attrs(src.below(crate::attrs::N.into()) as u16, b(src)),
                7 => {
                    let t = src.below(N_TEMPLATES as u64) as u8;
                    Node::Args(t, (0..3).map(|_| self.node(src, depth - 1)).collect())
                }
                8 => Node::Seq(self.nodes(src, depth - 1)),
                9 if self.heap && self.fail == 0 => Node::Recorded(b(src)),
                9 => Node::Ref(b(src)),
                10 => Node::Twice(b(src)),
                11 => Node::Ref(b(src)),
                12 => Node::Dyn(b(src)),
                13 => Node::WriteFmt(b(src), src.below(4) as u8),
                14 => Node::Line(b(src), src.below(3) as u8),
                15 => Node::Scopes(self.restyle(src), b(src)),
                17 if self.heap && self.fail == 0 => Node::Inner(src.below(6) as u8, b(src)),
                _ => Node::Tick(src.below(20) as u8, b(src)),
            }
        })
    }

    /// A whole value.
    pub fn doc(&self, src: &mut Src) -> Node {
        let depth = src.weighted(&[1, 3, 4, 3, 1]) as u32;
        Node::Seq(src.list(1, 8, 2, |src| self.node(src, depth)))
    }
}

/// The same value with every style in it replaced.
pub fn restyled(node: &Node, src: &mut Src) -> Node {
    let vec = |v: &Vec<Node>, src: &mut Src| v.iter().map(|n| restyled(n, src)).collect::<Vec<_>>();
    let r = |src: &mut Src| R::generate(src, 1);
    let st = |src: &mut Src| St::generate(src);
    match node {
        Node::Seq(v) => Node::Seq(vec(v, src)),
        Node::With(_, v) => Node::With(r(src), vec(v, src)),
        Node::Chain(_, _, v) => Node::Chain(r(src), r(src), vec(v, src)),
        Node::Abs(s, _, h) => Node::Abs(s.clone(), st(src), *h),
        Node::Attrs(_, n) => Node::Attrs(src.below(crate::attrs::N.into()) as u16, Box::new(restyled(n, src))),
        Node::Args(t, v) => {
            let t = match t {
                0..=4 | 11..=13 => [0, 1, 2, 3, 4, 11, 12, 13][src.idx(8)],
                t => *t,
            };
            Node::Args(t, vec(v, src))
        }
        Node::Attributed(runs) => Node::Attributed(runs.iter().map(|(s, _)| (s.clone(), st(src))).collect()),
        Node::Recorded(n) => Node::Recorded(Box::new(restyled(n, src))),
        Node::Twice(n) => Node::Twice(Box::new(restyled(n, src))),
        Node::Ref(n) => Node::Ref(Box::new(restyled(n, src))),
        Node::Dyn(n) => Node::Dyn(Box::new(restyled(n, src))),
        Node::WriteFmt(n, h) => Node::WriteFmt(Box::new(restyled(n, src)), *h),
        Node::Line(n, h) => Node::Line(Box::new(restyled(n, src)), *h),
        Node::Scopes(_, n) => Node::Scopes(r(src), Box::new(restyled(n, src))),
        Node::Tick(i, n) => Node::Tick(*i, Box::new(restyled(n, src))),
        n => n.clone(),
    }
}

/// Something worth testing: text in at least two styles.
pub fn interesting(v: &[(char, St)]) -> bool {
    v.windows(2).any(|w| w[0].1 != w[1].1)
}
