//! Run-time support linked into every generated program.
#![allow(warnings)]

pub use stylish;
// For programs where that name is something else.
pub use std as real_std;

use std::{
    cell::{Cell, RefCell},
    fmt,
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
};

use stylish::{Background, Color, Foreground, Intensity, Style};

pub type R = Result<(), String>;

/// Runs the named cases, reporting each on a line of its own.
pub fn main(cases: &[(&str, fn() -> R)]) {
    thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
    let out = std::io::stdout();
    let mut out = out.lock();
    for (id, f) in cases {
        writeln!(out, "S {id}").unwrap();
        out.flush().unwrap();
        let res = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(LAST.with(|l| format!("panic: {}", l.borrow()))),
        };
        match res {
            Ok(()) => writeln!(out, "P {id}").unwrap(),
            Err(m) => writeln!(out, "F {id} {}", m.replace('\\', "\\\\").replace('\n', "\\n")).unwrap(),
        }
        out.flush().unwrap();
    }
    writeln!(out, "E").unwrap();
}

pub fn eq<A: AsRef<str>, B: AsRef<str>>(got: A, want: B, what: &str) -> R {
    if got.as_ref() == want.as_ref() {
        Ok(())
    } else {
        Err(format!("{what}: got {:?}, std gives {:?}", got.as_ref(), want.as_ref()))
    }
}

pub fn same<T: PartialEq + fmt::Debug>(got: T, want: T, what: &str) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

#[path = "values.rs"]
mod values;
pub use values::*;

impl stylish::Display for Any {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str(&std::format!("{}", self))
    }
}

// ---------------------------------------------------------------- styles

pub type Chars = Vec<(char, Style)>;

/// Records every character with the style it arrives in.
#[derive(Default)]
pub struct Rec(pub Chars);

impl stylish::Write for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        self.0.extend(s.chars().map(|c| (c, style)));
        Ok(())
    }
}

pub fn record(args: stylish::Arguments<'_>) -> Chars {
    let mut r = Rec::default();
    stylish::Write::write_fmt(&mut r, args).unwrap();
    r.0
}

/// What `args` writes from within a scope of style `start`.
pub fn record_in(start: Style, args: stylish::Arguments<'_>) -> Chars {
    struct Within<'a>(Style, stylish::Arguments<'a>);
    impl stylish::Display for Within<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            stylish::Display::fmt(&self.1, &mut f.with(self.0))
        }
    }
    record_dyn(&Within(start, args))
}

fn record_dyn(d: &dyn stylish::Display) -> Chars {
    // A `Formatter` without using the macros under test: `Arguments` is the
    // only way in, so borrow one from a fixed call.
    record(stylish::format_args!("{:s}", d))
}

/// The contents of an attributed string.
pub fn show(s: &stylish::String) -> Chars {
    record(stylish::format_args!("{:s}", s))
}

pub fn style(fg: Color, bg: Color, i: Intensity) -> Style {
    let mut s = Style::default();
    s.foreground = fg;
    s.background = bg;
    s.intensity = i;
    s
}

/// A styled run of expected output.
pub fn run(text: &str, style: Style) -> Chars {
    text.chars().map(|c| (c, style)).collect()
}

pub fn join(parts: Vec<Chars>) -> Chars {
    parts.concat()
}

pub fn styled_eq(got: Chars, want: Chars, what: &str) -> R {
    let show = |c: &Chars| {
        let mut out = String::new();
        let mut last = None;
        for (ch, s) in c {
            if last != Some(*s) {
                out += &std::format!("⟨{:?}/{:?}/{:?}⟩", s.foreground, s.background, s.intensity);
                last = Some(*s);
            }
            out.push(*ch);
        }
        out
    };
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {:?}, expected {:?}", show(&got), show(&want)))
    }
}

/// A user value for `{:s}`: plain text, then text in a changed style.
pub struct Sty(pub &'static str, pub Color);

impl stylish::Display for Sty {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str(self.0)?;
        f.with(Foreground(self.1)).write_str("/in")?;
        f.with(Background(self.1)).with(Intensity::Faint).write_str("/bg")?;
        f.write_str("/out")
    }
}

impl Sty {
    pub fn expect(&self, s: Style) -> Chars {
        let mut fg = s;
        fg.foreground = self.1;
        let mut bg = s;
        bg.background = self.1;
        bg.intensity = Intensity::Faint;
        join(vec![run(self.0, s), run("/in", fg), run("/bg", bg), run("/out", s)])
    }
}

/// Logged when rendering starts.
pub const RENDER: u32 = 0xfeed;

/// Several renderings of one `Arguments`.
pub fn thrice(args: stylish::Arguments<'_>) -> String {
    l(RENDER, ());
    // By reference, so that this file compiles whatever becomes of values.
    let a = stylish::plain::format(stylish::format_args!("{:s}", &args));
    let b = stylish::plain::format(stylish::format_args!("{:s}", &args));
    let mut w = stylish::plain(String::new());
    w.write_fmt(args).unwrap();
    let c = w.into_inner();
    if a != b || b != c {
        return format!("renderings differ: {a:?} {b:?} {c:?}");
    }
    a
}

pub fn once(args: stylish::Arguments<'_>) -> String {
    l(RENDER, ());
    stylish::plain::format(args)
}

/// What `write` writes within a Display that is formatted with these options.
pub fn within(options: &str, write: impl Fn(&mut stylish::Formatter<'_>) -> stylish::Result) -> String {
    struct W<F>(F);
    impl<F: Fn(&mut stylish::Formatter<'_>) -> stylish::Result> stylish::Display for W<F> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            (self.0)(f)
        }
    }
    let w = W(write);
    match options {
        "s" => stylish::plain::format!("{:s}", w),
        "#07.2s" => stylish::plain::format!("{:#07.2s}", w),
        _ => stylish::plain::format!("{:^+40s}", w),
    }
}
