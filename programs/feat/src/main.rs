#![allow(warnings)]
#![recursion_limit = "512"]

use std::fmt::Write as _;

use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff, Write};

/// Values for the generated calls.
pub mod rt {
    mod values {
        include!("../../rt/values.rs");
    }
    pub use values::*;

    pub struct Sty(pub &'static str, pub stylish::Color);

    impl stylish::Display for Sty {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            f.write_str(self.0)?;
            f.with(stylish::Foreground(self.1)).write_str("/in")?;
            f.with(stylish::Background(self.1)).with(stylish::Intensity::Faint).write_str("/bg")?;
            f.write_str("/out")
        }
    }
}

/// One line of output: what it is from, which case, and the value.
macro_rules! out {
    ($name:expr, $i:expr, $($v:tt)*) => {
        println!("{} {} {:?}", $name, $i, $($v)*)
    };
}

// ------------------------------------------------------------ random writes

struct Rng(u64);

impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        (z ^ (z >> 31)) % n
    }
}

const COLORS: [Color; 17] = [
    Color::Default, Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan,
    Color::White, Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue,
    Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite,
];
const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];
const TEXTS: [&str; 12] =
    ["a", "", "é", "<&>\"'", "\n", "\x1b[1m", "日本", "plain text", "</span>", "🦀", "\0", "a longer text, with a comma"];

fn style(r: &mut Rng) -> Style {
    let mut s = Style::default();
    if r.below(2) == 0 {
        s.foreground = COLORS[r.below(17) as usize];
    }
    if r.below(2) == 0 {
        s.background = COLORS[r.below(17) as usize];
    }
    if r.below(2) == 0 {
        s.intensity = INTENSITIES[r.below(3) as usize];
    }
    s
}

enum Op {
    Str(&'static str),
    Char(char),
}

fn writes(seed: u64) -> Vec<(Op, Style)> {
    let mut r = Rng(seed);
    let mut last = Style::default();
    (0..r.below(12))
        .map(|_| {
            let st = if r.below(3) == 0 { last } else { style(&mut r) };
            last = st;
            let op = match r.below(4) {
                0 => Op::Char(['x', '<', 'é', '"', '\n'][r.below(5) as usize]),
                _ => Op::Str(TEXTS[r.below(12) as usize]),
            };
            (op, st)
        })
        .collect()
}

fn perform(w: &mut dyn Write, ops: &[(Op, Style)]) -> Vec<bool> {
    ops.iter()
        .map(|(op, st)| match op {
            Op::Str(s) => w.write_str(s, *st).is_ok(),
            Op::Char(c) => w.write_char(*c, *st).is_ok(),
        })
        .collect()
}

/// A `core::fmt` sink that fails after some writes.
#[derive(Clone, Debug, Default)]
struct Few(String, Option<u32>);

impl std::fmt::Write for Few {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match &mut self.1 {
            Some(0) => return Err(std::fmt::Error),
            Some(n) => *n -= 1,
            None => {}
        }
        self.0 += s;
        Ok(())
    }
}

#[derive(Default)]
struct Rec(Vec<(char, Style)>);

impl Write for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        self.0.extend(s.chars().map(|c| (c, style)));
        Ok(())
    }
}

fn core(cases: u64) {
    for i in 0..cases {
        let mut r = Rng(i * 3);
        let (a, b, c) = (style(&mut r), style(&mut r), style(&mut r));
        let d: StyleDiff = b.diff_from(a);
        out!("diff", i, (d, c.with(d), c.with((Foreground(a.foreground), [Background(b.background)].as_slice(), &b.intensity)), c.with(Some(d)).with(())));
        let mut w = Rec::default();
        let res = perform(&mut &mut w, &writes(i));
        out!("rec", i, (res, &w.0));
    }
}

#[cfg(feature = "ansi")]
fn ansi(cases: u64) {
    for i in 0..cases {
        for limit in [None, Some(i as u32 % 7)] {
            let mut w: stylish::Ansi<Few> = stylish::ansi(Few(String::new(), limit));
            let res = perform(&mut w, &writes(i));
            let seen = format!("{w:?}");
            out!("ansi", i, (limit, res, seen, w.finish().map(|f| f.0)));
        }
    }
}

#[cfg(feature = "html")]
fn html(cases: u64) {
    for i in 0..cases {
        for limit in [None, Some(i as u32 % 7)] {
            let mut w: stylish::Html<Few> = stylish::html(Few(String::new(), limit));
            let res = perform(&mut w, &writes(i));
            let seen = format!("{w:?}");
            out!("html", i, (limit, res, seen, w.finish().map(|f| f.0)));
        }
    }
}

#[cfg(feature = "plain")]
fn plain(cases: u64) {
    for i in 0..cases {
        for limit in [None, Some(i as u32 % 7)] {
            let mut w: stylish::Plain<Few> = stylish::plain(Few(String::new(), limit));
            let res = perform(&mut w, &writes(i));
            let seen = format!("{w:?}");
            out!("plain", i, (limit, res, seen, w.into_inner().0));
        }
    }
}

#[cfg(any(feature = "alloc", feature = "std"))]
fn string(cases: u64) {
    for i in 0..cases {
        let mut w = stylish::String::new();
        let res = perform(&mut w, &writes(i));
        let kept = w.clone();
        let more = perform(&mut w, &writes(i + 1));
        out!("string", i, (res, more, kept, w));
    }
}

#[cfg(feature = "std")]
mod io {
    use super::*;
    use stylish::io::Write as _;

    /// Takes a few bytes at a time, is interrupted now and then, and fails
    /// in the end if it has a limit.
    #[derive(Clone, Debug, Default)]
    struct Slow(Vec<u8>, u32, Option<u32>);

    impl std::io::Write for Slow {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.1 += 1;
            if self.1 % 4 == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            if self.2.is_some_and(|n| self.1 > n) {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "limit"));
            }
            let n = b.len().min(1 + self.1 as usize % 3);
            self.0.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            self.1 += 1;
            Ok(())
        }
    }

    fn perform(w: &mut dyn stylish::io::Write, ops: &[(Op, Style)]) -> Vec<String> {
        let mut out: Vec<String> = Vec::new();
        for (op, st) in ops {
            let mut b = [0; 4];
            let res: stylish::io::Result<()> = match op {
                Op::Str(s) => w.write_all(s.as_bytes(), *st),
                Op::Char(c) => w.write(c.encode_utf8(&mut b).as_bytes(), *st).map(drop),
            };
            out.push(match res {
                Ok(()) => "ok".into(),
                Err(e) => { let e: stylish::io::Error = e; format!("{:?} {e}", e.kind()) }
            });
        }
        out.push(format!("{:?}", w.flush().map_err(|e| e.kind())));
        let _: Option<stylish::io::ErrorKind> = None;
        out
    }

    /// A writer of the program's own.
    struct Own(Vec<(u8, Style)>);

    impl stylish::io::Write for Own {
        fn write(&mut self, b: &[u8], style: Style) -> stylish::io::Result<usize> {
            let n = b.len().min(2);
            self.0.extend(b[..n].iter().map(|&b| (b, style)));
            Ok(n)
        }
        fn flush(&mut self) -> stylish::io::Result<()> {
            Ok(())
        }
    }

    pub fn run(cases: u64) {
        for i in 0..cases {
            let mut w = Own(vec![]);
            let res = perform(&mut w.by_ref(), &writes(i));
            out!("io-own", i, (res, w.0));
            for limit in [None, Some(3 + i as u32 % 40)] {
                #[cfg(feature = "ansi")]
                {
                    let mut w: stylish::io::Ansi<Slow> = stylish::io::ansi(Slow(vec![], 0, limit));
                    let res = perform(&mut w, &writes(i));
                    out!("io-ansi", i, (limit, res, w.finish().map(|w| w.0).map_err(|e| e.to_string())));
                }
                #[cfg(feature = "plain")]
                {
                    let mut w: stylish::io::Plain<Slow> = stylish::io::plain(Slow(vec![], 0, limit));
                    let res = perform(&mut w, &writes(i));
                    out!("io-plain", i, (limit, res, w.into_inner().0));
                }
            }
        }
    }
}

/// Fails in the middle.
struct Bad;

impl stylish::Display for Bad {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.with(Foreground(Color::Red)).write_str("before")?;
        Err(stylish::Error)
    }
}

/// Renders generated arguments through everything that is there.
#[cfg(feature = "macros")]
macro_rules! call {
    ($i:expr, $($args:tt)*) => {{
        use stylish::{Display as _, Write as _};
        let mut w = Rec::default();
        stylish::write!(w, $($args)*).unwrap();
        stylish::writeln!(&mut w, $($args)*).unwrap();
        stylish::writeln!(w).unwrap();
        out!("call-rec", $i, &w.0);
        let mut w = Rec::default();
        w.write_fmt(stylish::format_args!("{:(bold,fg=red)s}{:s}", stylish::format_args!($($args)*), stylish::format_args!($($args)*))).unwrap();
        out!("call-nested", $i, &w.0);
        #[cfg(feature = "ansi")]
        {
            let mut w = stylish::Ansi::new(Few::default());
            stylish::writeln!(w, $($args)*).unwrap();
            out!("call-ansi", $i, w.finish().unwrap().0);
        }
        #[cfg(feature = "html")]
        {
            let mut w = stylish::Html::new(Few::default());
            stylish::writeln!(w, $($args)*).unwrap();
            out!("call-html", $i, w.finish().unwrap().0);
        }
        #[cfg(feature = "plain")]
        {
            let mut w = stylish::Plain::new(Few::default());
            stylish::writeln!(w, $($args)*).unwrap();
            out!("call-plain", $i, w.into_inner().0);
        }
        #[cfg(any(feature = "alloc", feature = "std"))]
        {
            use stylish::ToStylishString as _;
            let s: stylish::String = stylish::format!($($args)*);
            let t = stylish::format(stylish::format_args!($($args)*));
            let mut w = Rec::default();
            stylish::write!(w, "{:s}", s).unwrap();
            out!("call-string", $i, (&s, t, (&s as &dyn stylish::Display).to_stylish_string(), &w.0));
            #[cfg(feature = "ansi")]
            {
                use stylish::ToAnsiString as _;
                out!("call-ansi-string", $i, (stylish::ansi::format!($($args)*), stylish::ansi::format(stylish::format_args!("{:s}", s)), s.to_ansi_string()));
            }
            #[cfg(feature = "html")]
            {
                use stylish::ToHtmlString as _;
                out!("call-html-string", $i, (stylish::html::format!($($args)*), stylish::html::format(stylish::format_args!("{:s}", s)), s.to_html_string()));
            }
            #[cfg(feature = "plain")]
            {
                use stylish::ToPlainString as _;
                out!("call-plain-string", $i, (stylish::plain::format!($($args)*), stylish::plain::format(stylish::format_args!("{:s}", s)), s.to_plain_string()));
            }
        }
        #[cfg(feature = "std")]
        {
            #[cfg(feature = "ansi")]
            {
                let mut w = stylish::io::Ansi::new(Vec::new());
                stylish::writeln!(w, $($args)*).unwrap();
                out!("call-io-ansi", $i, w.finish().unwrap());
            }
            #[cfg(feature = "plain")]
            {
                let mut w = stylish::io::Plain::new(Vec::new());
                stylish::writeln!(w, $($args)*).unwrap();
                out!("call-io-plain", $i, w.into_inner());
            }
        }
    }};
}

#[cfg(feature = "macros")]
fn failing() {
    let mut w = Rec::default();
    let res = stylish::write!(w, "a{:s}b", Bad);
    out!("bad-rec", 0, (res, w.0));
    #[cfg(feature = "std")]
    {
        #[cfg(feature = "ansi")]
        {
            let mut w = stylish::io::Ansi::new(Vec::new());
            let res = stylish::write!(w, "a{:s}b", Bad).map_err(|e| (e.kind(), e.to_string()));
            out!("bad-io-ansi", 0, (res, w.finish().unwrap()));
        }
        #[cfg(feature = "plain")]
        {
            let mut w = stylish::io::Plain::new(Vec::new());
            let res = stylish::write!(w, "a{:s}b", Bad).map_err(|e| (e.kind(), e.to_string()));
            out!("bad-io-plain", 0, (res, w.into_inner()));
        }
    }
}

#[cfg(feature = "boxes")]
fn boxes() {
    let b: Box<dyn Restyle> = Box::new(Foreground(Color::Red));
    out!("boxes", 0, Style::default().with(b));
}

#[cfg(feature = "macros")]
mod calls {
    use super::*;
    include!(env!("FEAT_SRC"));
}

fn main() {
    let cases: u64 = std::env::args().nth(1).map_or(10, |a| a.parse().unwrap());
    core(cases);
    #[cfg(feature = "ansi")]
    ansi(cases);
    #[cfg(feature = "html")]
    html(cases);
    #[cfg(feature = "plain")]
    plain(cases);
    #[cfg(any(feature = "alloc", feature = "std"))]
    string(cases);
    #[cfg(feature = "std")]
    io::run(cases);
    #[cfg(feature = "macros")]
    {
        failing();
        calls::run();
    }
    #[cfg(feature = "boxes")]
    boxes();
    println!("E");
}
