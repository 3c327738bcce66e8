//! C14 to C16: failures, agreement of the entry points, allocation.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

use stylish::{ToAnsiString as _, ToHtmlString as _, ToPlainString as _, ToStylishString as _};

use crate::{
    doc::{flat, flatten, interesting, model_calls, once, take_calls, Gen, Node},
    engine::{Case, Src},
    fmt_checks::*,
    model::*,
    sinks::*,
};

// ---------------------------------------------------------------- C14

/// A text sink whose `fail_at`-th write fails (later ones would succeed).
#[derive(Default)]
struct FailState {
    calls: usize,
    fail_at: usize,
    failed: bool,
    after: usize,
    data: String,
    /// How much had arrived before each write.
    ends: Vec<usize>,
}

#[derive(Clone, Default)]
struct FailSink(Rc<RefCell<FailState>>);

impl std::fmt::Write for FailSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut st = self.0.borrow_mut();
        if st.failed {
            st.after += 1;
        }
        if st.calls == st.fail_at {
            st.calls += 1;
            st.failed = true;
            return Err(std::fmt::Error);
        }
        st.calls += 1;
        let end = st.data.len();
        st.ends.push(end);
        st.data.push_str(s);
        Ok(())
    }
}

/// The fmt writers over one sink.
fn through(
    kind: usize,
    sink: FailSink,
    f: &mut dyn FnMut(&mut dyn stylish::Write) -> stylish::Result,
) -> (stylish::Result, stylish::Result) {
    match kind {
        0 => {
            let mut w = stylish::Plain::new(sink);
            let r = f(&mut w);
            (r, Ok(()))
        }
        1 => {
            let mut w = stylish::Ansi::new(sink);
            let r = f(&mut w);
            if r.is_err() {
                return (r, Ok(()));
            }
            (r, w.finish().map(|_| ()))
        }
        _ => {
            let mut w = stylish::Html::new(sink);
            let r = f(&mut w);
            if r.is_err() {
                return (r, Ok(()));
            }
            (r, w.finish().map(|_| ()))
        }
    }
}

const KINDS: [&str; 3] = ["plain", "ansi", "html"];

pub fn c14_sink(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let g = Gen { esc: false, max_text: 600, ..Gen::PLAIN };
    let node = g.doc(src);
    let kind = src.idx(3);
    let how = src.below(4);
    let clean = FailSink::default();
    clean.0.borrow_mut().fail_at = usize::MAX;
    let mut go = |w: &mut dyn stylish::Write| -> stylish::Result {
        let mut w = w;
        match how {
            0 => stylish::write!(w, "{:s}", node),
            1 => stylish::write!(w, "a{:s}b{:s}", node, node),
            2 => stylish::writeln!(w, "{:(fg=red)s}", node),
            _ => {
                let s = stylish::format!("{:s}.", node);
                stylish::write!(&mut w, "{:s}", s)
            }
        }
    };
    let (r, fin) = through(kind, clean.clone(), &mut go);
    r.and(fin).map_err(|_| format!("{}: error without any fault", KINDS[kind]))?;
    let total = clean.0.borrow().calls;
    let at = if total == 0 { 0 } else { src.idx(total) };
    case.repr(|| format!("{} sink failing at write {at} of {total}: {}", KINDS[kind], show(&node)));
    if total == 0 {
        return Ok(());
    }
    case.nontrivial = at > 0;
    case.class(at + 1 == total, "last write fails");
    // Where the output stands after `at` writes.
    let fault = FailSink::default();
    fault.0.borrow_mut().fail_at = at;
    let (r, fin) = through(kind, fault.clone(), &mut go);
    let st = fault.0.borrow();
    if !st.failed {
        return Err("the same rendering made fewer writes the second time".into());
    }
    if r.is_ok() && fin.is_ok() {
        return Err(format!("{}: write {at} of {total} failed and success was reported", KINDS[kind]));
    }
    if st.after > 0 {
        return Err(format!("{}: {} writes attempted after write {at} failed", KINDS[kind], st.after));
    }
    let full = &clean.0.borrow().data;
    if !full.starts_with(&st.data) {
        return Err(format!("{}: {:?} is no prefix of the output", KINDS[kind], crate::engine::clip(&st.data, 200)));
    }
    // Nothing before the point of failure is missing.
    if st.calls != at + 1 || st.data.len() != clean.0.borrow().ends[at] {
        return Err(format!("{}: {} writes, expected {}", KINDS[kind], st.calls, at + 1));
    }
    Ok(())
}

/// A single write (not a rendering) through a failing sink, then recovery is
/// not promised, only that the error is reported.
pub fn c14_direct(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let g = Gen { esc: false, max_text: 300, ..Gen::PLAIN };
    let mut ops = gen_ops(src, &g, false);
    ops.retain(|op| !matches!(op, WOp::Failing(_) | WOp::Panicking(_)));
    failing_writes(src, case, &ops)
}

pub fn c14_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let ops = gen_large(src, false);
    failing_writes(src, case, &ops)
}

fn failing_writes(src: &mut Src, case: &mut Case, ops: &[WOp]) -> Result<(), String> {
    let kind = src.idx(3);
    let clean = FailSink::default();
    clean.0.borrow_mut().fail_at = usize::MAX;
    let mut go = |w: &mut dyn stylish::Write| apply_ops(w, ops);
    let (r, fin) = through(kind, clean.clone(), &mut go);
    r.and(fin).map_err(|_| format!("{}: error without any fault", KINDS[kind]))?;
    let total = clean.0.borrow().calls;
    if total == 0 {
        return Ok(());
    }
    let at = src.idx(total);
    case.repr(|| format!("{} sink failing at write {at} of {total}: {ops:?}", KINDS[kind]));
    case.nontrivial = at > 0;
    let fault = FailSink::default();
    fault.0.borrow_mut().fail_at = at;
    let (r, fin) = through(kind, fault.clone(), &mut go);
    let st = fault.0.borrow();
    if r.is_ok() && fin.is_ok() {
        return Err(format!("{}: write {at} of {total} failed and success was reported", KINDS[kind]));
    }
    if st.after > 0 {
        return Err(format!("{}: {} writes attempted after write {at} failed", KINDS[kind], st.after));
    }
    if clean.0.borrow().data[..clean.0.borrow().ends[at]] != st.data {
        return Err(format!("{}: what arrived is not what precedes the failure", KINDS[kind]));
    }
    Ok(())
}

fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn c14_display(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let g = Gen { esc: false, fail: 8, max_text: 300, ..Gen::PLAIN };
    let node = g.doc(src);
        let (pre, pre_st) = if src.chance(1, 2) { (g.text(src), St::generate(src)) } else { (String::new(), PLAIN) };
    let mut want = Vec::new();
    push_str(&mut want, &pre, pre_st);
    let fails = flatten(&node, PLAIN, &mut want).is_err();
    case.repr(|| format!("after {pre:?} in {pre_st:?}: {}", show(&node)));
    case.nontrivial = fails && !want.is_empty();
    case.class(fails, "fails");
    let calls = model_calls(&node);
    let mut rec = Recorder::default();
    stylish::Write::write_str(&mut rec, &pre, pre_st.real()).unwrap();
    let r = stylish::write!(&mut rec as &mut dyn stylish::Write, "{:s}", node);
    once(calls, "sink")?;
    if r.is_err() != fails {
        return Err(format!("sink: reported {r:?} while the value fails: {fails}"));
    }
    if let Some(d) = first_difference(&rec.out, &want) {
        return Err(format!("what reached the sink before the failure: {d}"));
    }
    // The fmt writers report it, with the text up to there delivered.
    let mut s = String::new();
    let mut w = stylish::Plain::new(&mut s);
    stylish::Write::write_str(&mut w, &pre, pre_st.real()).unwrap();
    let r = stylish::writeln!(w, "{:s}", node);
    let text = chars_of(&want) + if fails { "" } else { "\n" };
    if r.is_err() != fails || s != text {
        return Err(format!("plain: {r:?}, {s:?}, expected failure: {fails}, text {text:?}"));
    }
    let mut s = String::new();
    let mut w = stylish::Ansi::new(&mut s);
    stylish::Write::write_str(&mut w, &pre, pre_st.real()).unwrap();
    let r = stylish::write!(w, "{:s}", node);
    let got = toks_to_styled(&read_ansi(s.as_bytes())?.toks)?;
    if r.is_err() != fails || got != want {
        return Err(format!("ansi: {r:?}, {s:?}, expected failure: {fails}"));
    }
    let mut s = String::new();
    let mut w = stylish::Html::new(&mut s);
    stylish::Write::write_str(&mut w, &pre, pre_st.real()).unwrap();
    let r = stylish::write!(w, "{:s}", node);
    let got = html_styled(&read_html(&s)?.0);
    if r.is_err() != fails || got != want {
        return Err(format!("html: {r:?}, {s:?}, expected failure: {fails}"));
    }
    // An attributed string being written into.
    let mut s = stylish::String::new();
    stylish::Write::write_str(&mut s, &pre, pre_st.real()).unwrap();
    let r = stylish::Write::write_fmt(&mut s, stylish::format_args!("{:s}", node));
    if r.is_err() != fails || record(&s) != want {
        return Err(format!("attributed string: {r:?}, {s:?}, expected failure: {fails}"));
    }
    // io writers.
    let mut w = stylish::io::Plain::new(Vec::new());
    stylish::io::Write::write_all(&mut w, pre.as_bytes(), pre_st.real()).unwrap();
    let r = stylish::write!(w, "{:s}", node);
    let data = w.into_inner();
    if r.is_err() != fails || data != chars_of(&want).into_bytes() {
        return Err(format!("io plain: {r:?}, {data:?}, expected failure: {fails}"));
    }
    let mut data = Vec::new();
    let mut w = stylish::io::Ansi::new(&mut data);
    stylish::io::Write::write_all(&mut w, pre.as_bytes(), pre_st.real()).unwrap();
    let r = stylish::write!(w, "{:s}", node);
    let got = toks_to_styled(&read_ansi(&data)?.toks)?;
    if r.is_err() != fails || got != want {
        return Err(format!("io ansi: {r:?}, {data:?}, expected failure: {fails}"));
    }
    // Functions returning a finished string.
    let finished: [(&str, bool); 12] = [
        ("ansi::format", panics(|| stylish::ansi::format(stylish::format_args!("{:s}", node)))),
        ("html::format", panics(|| stylish::html::format(stylish::format_args!("{:s}", node)))),
        ("plain::format", panics(|| stylish::plain::format(stylish::format_args!("{:s}", node)))),
        ("format", panics(|| stylish::format(stylish::format_args!("{:s}", node)))),
        ("ansi::format!", panics(|| stylish::ansi::format!("a{:s}b", node))),
        ("html::format!", panics(|| stylish::html::format!("a{:s}b", node))),
        ("plain::format!", panics(|| stylish::plain::format!("a{:s}b", node))),
        ("format!", panics(|| stylish::format!("a{:s}b", node))),
        ("to_ansi_string", panics(|| node.to_ansi_string())),
        ("to_html_string", panics(|| node.to_html_string())),
        ("to_plain_string", panics(|| node.to_plain_string())),
        ("to_stylish_string", panics(|| node.to_stylish_string())),
    ];
    for (name, panicked) in finished {
        if panicked != fails {
            return Err(format!("{name}: panicked: {panicked}, the value fails: {fails}"));
        }
    }
    Ok(())
}

/// A user's attributed sink that fails at some write.
pub fn c14_user_sink(src: &mut Src, case: &mut Case) -> Result<(), String> {
    struct Sink {
        rec: Recorder,
        left: usize,
        failed: bool,
        after: bool,
    }
    impl stylish::Write for Sink {
        fn write_str(&mut self, s: &str, style: stylish::Style) -> stylish::Result {
            if self.failed {
                self.after = true;
            }
            if self.left == 0 && !self.failed {
                self.failed = true;
                return Err(stylish::Error);
            }
            self.left = self.left.saturating_sub(1);
            stylish::Write::write_str(&mut self.rec, s, style)
        }
    }
    let g = Gen { esc: true, max_text: 300, ..Gen::PLAIN };
    let mut ops = gen_ops(src, &g, false);
    ops.retain(|op| !matches!(op, WOp::Failing(_) | WOp::Panicking(_)));
    let left = src.idx(40);
    case.repr(|| format!("{ops:?}, sink failing at write {left}"));
    let mut sink = Sink { rec: Recorder::default(), left, failed: false, after: false };
    let r = apply_ops(&mut sink, &ops);
    case.nontrivial = sink.failed && left > 0;
    let want = ops_model(&ops);
    if r.is_err() != sink.failed {
        return Err(format!("reported {r:?}, sink failed: {}", sink.failed));
    }
    if sink.after {
        return Err("wrote on after the sink failed".into());
    }
    if !want.starts_with(&sink.rec.out) || (!sink.failed && sink.rec.out.len() != want.len()) {
        return Err("what arrived is not what precedes the failure".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn c15_entry_points(src: &mut Src, case: &mut Case) -> Result<(), String> {
    use stylish::{io::Write as _, Write as _};
    let node = Gen { esc: true, ..Gen::PLAIN }.doc(src);
    case.repr(|| show(&node));
    let want = flat(&node);
    case.nontrivial = interesting(&want);
    let base = outputs(&node);
    same_bytes(base.ansi.as_bytes(), &base.io_ansi, "ansi and io ansi")?;
    same_bytes(base.plain.as_bytes(), &base.io_plain, "plain and io plain")?;
    let n = &node;
    let calls = model_calls(&node);
    // Not a rendering, or one.
    let once = |what: &str| match take_calls() {
        0 => Ok(()),
        n if n == calls => Ok(()),
        _ => Err(format!("{what}: the values in it were not formatted exactly once each, in order")),
    };
    let dynamic: &dyn stylish::Display = &node;

    macro_rules! ways {
        ($name:literal, $base:expr, $module:ident, $Ty:ident, $ctor:ident, $conv:ident, $fin:ident) => {{
            let b: &str = $base;
            let c = |s: String, what: &str| {
                let what = format!(concat!($name, ": {}"), what);
                once(&what)?;
                same(b, &s, &what)
            };
            c(stylish::$module::format!("{:s}", n), "format!")?;
            c(stylish::$module::format!("{n:s}"), "format! capturing")?;
            c(stylish::$module::format!("{:s}", dynamic), "format! of a trait object")?;
            c(n.$conv(), "conversion trait")?;
            c((&&n).$conv(), "conversion trait of a reference")?;
            c(dynamic.$conv(), "conversion trait of a trait object")?;
            let args = stylish::format_args!("{:s}", n);
            c(args.$conv(), "conversion trait of arguments")?;
            c(stylish::$module::format!("{:s}", args), "arguments nested once")?;
            c(stylish::$module::format!("{:s}", stylish::format_args!("{:s}", args)), "arguments nested twice")?;
            c(stylish::$module::format(args), "arguments rendered again")?;
            // A writer around a string.
            let mut w = stylish::$Ty::new(String::new());
            stylish::write!(w, "{:s}", n).map_err(|e| e.to_string())?;
            c(w.$fin(), "writer")?;
            let mut w = stylish::$ctor(String::new());
            w.write_fmt(stylish::format_args!("{:s}", n)).map_err(|e| e.to_string())?;
            c(w.$fin(), "short constructor")?;
            let mut s = String::new();
            let mut w = stylish::$ctor(&mut s);
            stylish::write!(&mut w, "{:s}", n).map_err(|e| e.to_string())?;
            w.$fin();
            c(s, "writer around a borrowed string")?;
            let mut s = String::new();
            let mut w = stylish::$ctor(&mut s as &mut dyn std::fmt::Write);
            {
                let d: &mut dyn stylish::Write = &mut w;
                stylish::write!(d, "{:s}", n).map_err(|e| e.to_string())?;
            }
            w.$fin();
            c(s, "trait object around a trait object")?;
            let mut w = stylish::$ctor(String::new());
            {
                let mut r = &mut w;
                let rr = &mut r;
                stylish::Write::write_fmt(rr, stylish::format_args!("{:s}", n)).map_err(|e| e.to_string())?;
            }
            c(w.$fin(), "reference to a reference")?;
            let mut w = stylish::$ctor(String::new());
            for (t, st) in runs(&want) {
                w.write_str(&t, st.real()).map_err(|e| e.to_string())?;
            }
            c(w.$fin(), "text written directly")?;
            let mut w = stylish::$ctor(String::new());
            for (ch, st) in &want {
                w.write_char(*ch, st.real()).map_err(|e| e.to_string())?;
            }
            c(w.$fin(), "characters written directly")?;
            let copy = stylish::$ctor(String::new()).clone();
            let mut w = copy;
            w.write_fmt(stylish::format_args!("{:s}", n)).map_err(|e| e.to_string())?;
            let w2 = w.clone();
            c(w.$fin(), "cloned writer")?;
            c(w2.$fin(), "clone of a used writer")?;
            let mut w = stylish::$Ty::<String>::default();
            w.write_fmt(stylish::format_args!("{:s}", n)).map_err(|e| e.to_string())?;
            c(w.$fin(), "default writer")?;
        }};
    }
    trait Fin {
        fn fin(self) -> String;
    }
    macro_rules! fin {
        ($t:ty, $s:ident => $e:expr) => {
            impl Fin for $t {
                fn fin($s) -> String {
                    $e;
                    String::new()
                }
            }
        };
    }
    impl Fin for stylish::Ansi<String> {
        fn fin(self) -> String {
            self.finish().unwrap()
        }
    }
    impl Fin for stylish::Html<String> {
        fn fin(self) -> String {
            self.finish().unwrap()
        }
    }
    impl Fin for stylish::Plain<String> {
        fn fin(self) -> String {
            self.into_inner()
        }
    }
    fin!(stylish::Ansi<&mut String>, self => { self.finish().unwrap(); });
    fin!(stylish::Html<&mut String>, self => { self.finish().unwrap(); });
    fin!(stylish::Plain<&mut String>, self => { self.into_inner(); });
    fin!(stylish::Ansi<&mut dyn std::fmt::Write>, self => { let _ = self.finish(); });
    fin!(stylish::Html<&mut dyn std::fmt::Write>, self => { let _ = self.finish(); });
    fin!(stylish::Plain<&mut dyn std::fmt::Write>, self => { let _ = self.into_inner(); });
    ways!("ansi", &base.ansi, ansi, Ansi, ansi, to_ansi_string, fin);
    ways!("html", &base.html, html, Html, html, to_html_string, fin);
    ways!("plain", &base.plain, plain, Plain, plain, to_plain_string, fin);

    macro_rules! io_ways {
        ($name:literal, $base:expr, $Ty:ident, $ctor:ident, $fin:expr) => {{
            let b: &[u8] = $base;
            let fin = $fin;
            let c = |s: Vec<u8>, what: &str| {
                let what = format!(concat!($name, ": {}"), what);
                once(&what)?;
                same_bytes(b, &s, &what)
            };
            let mut w = stylish::io::$ctor(Vec::new());
            stylish::write!(w, "{:s}", n).map_err(|e| e.to_string())?;
            c(fin(w), "writer")?;
            let mut w = stylish::io::$Ty::<Vec<u8>>::default();
            stylish::io::Write::write_fmt(&mut w, stylish::format_args!("{:s}", n)).map_err(|e| e.to_string())?;
            w.flush().map_err(|e| e.to_string())?;
            c(fin(w.clone()), "cloned writer")?;
            c(fin(w), "default writer")?;
            let mut w = stylish::io::$ctor(Vec::new());
            stylish::write!(stylish::io::Write::by_ref(&mut w), "{:s}", n).map_err(|e| e.to_string())?;
            c(fin(w), "by reference")?;
            let mut w = stylish::io::$ctor(Vec::new());
            {
                let d: &mut dyn stylish::io::Write = &mut w;
                stylish::write!(d, "{:s}", n).map_err(|e| e.to_string())?;
            }
            c(fin(w), "trait object")?;
            let mut w = stylish::io::$ctor(Vec::new());
            {
                let mut r = &mut w;
                let rr = &mut r;
                stylish::io::Write::write_fmt(rr, stylish::format_args!("{:s}", n)).map_err(|e| e.to_string())?;
            }
            c(fin(w), "reference to a reference")?;
            let mut w = stylish::io::$ctor(Vec::new());
            {
                let mut r: &mut dyn stylish::io::Write = &mut w;
                for (t, st) in runs(&want) {
                    stylish::io::Write::write_all(&mut r, t.as_bytes(), st.real()).map_err(|e| e.to_string())?;
                }
                stylish::io::Write::flush(&mut r).map_err(|e| e.to_string())?;
            }
            c(fin(w), "text written directly")?;
            let mut v = std::io::BufWriter::with_capacity(7, Vec::new());
            {
                let d: &mut dyn std::io::Write = &mut v;
                let mut w = stylish::io::$ctor(d);
                stylish::write!(w, "{:s}", n).map_err(|e| e.to_string())?;
                let _ = io_done(w);
            }
            c(v.into_inner().map_err(|e| e.to_string())?, "around a buffered writer")?;
        }};
    }
    trait IoDone {
        fn io_done(self);
    }
    impl<T: std::io::Write> IoDone for stylish::io::Ansi<T> {
        fn io_done(self) {
            self.finish().ok().unwrap();
        }
    }
    impl<T: std::io::Write> IoDone for stylish::io::Plain<T> {
        fn io_done(self) {
            self.into_inner();
        }
    }
    fn io_done<T: IoDone>(t: T) {
        t.io_done()
    }
    io_ways!("io ansi", &base.io_ansi, Ansi, ansi, |w: stylish::io::Ansi<Vec<u8>>| w.finish().unwrap());
    io_ways!("io plain", &base.io_plain, Plain, plain, |w: stylish::io::Plain<Vec<u8>>| w.into_inner());
    // A stylish string from each entry point.
    let s = stylish::format!("{:s}", n);
    base.compare(&outputs(&s), "format!")?;
    base.compare(&outputs(&n.to_stylish_string()), "to_stylish_string")?;
    base.compare(&outputs(&dynamic.to_stylish_string()), "to_stylish_string of a trait object")?;
    base.compare(&outputs(&&&node), "references")?;
    base.compare(&outputs(&stylish::format_args!("{:s}", n)), "arguments")?;
    Ok(())
}

/// writeln against write plus a newline in the surrounding style.
pub fn c15_lines(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let g = Gen { esc: true, ..Gen::PLAIN };
    let node = g.node(src, 2);
    let r = R::generate(src, 1);
    let pre = g.node(src, 1);
    case.repr(|| format!("within {r:?} after {}: {}", show(&pre), show(&node)));
    struct Line<'a>(&'a Node, &'a R, &'a Node, u8, bool);
    impl stylish::Display for Line<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            let mut f = f.with(self.1);
            self.2.fmt(&mut f)?;
            let n = self.0;
            match (self.3, self.4) {
                (0, true) => stylish::writeln!(f, "{:s}", n),
                (0, false) => stylish::write!(f, "{:s}\n", n),
                (1, true) => stylish::writeln!(f, "a{:(fg=red)s}", n),
                (1, false) => stylish::write!(f, "a{:(fg=red)s}\n", n),
                (2, true) => stylish::writeln!(f),
                (2, false) => f.write_str("\n"),
                (3, true) => stylish::writeln!(&mut f, "{n:s}{{}}"),
                (3, false) => stylish::write!(&mut f, "{n:s}{{}}\n"),
                (4, true) => stylish::writeln!(f, "text",),
                (4, false) => stylish::write!(f, "text\n",),
                (_, true) => stylish::writeln!(&mut f as &mut dyn stylish::Write, "{:s}", n),
                (_, false) => stylish::write!(&mut f as &mut dyn stylish::Write, "{:s}\n", n),
            }
        }
    }
    case.nontrivial = r.model(PLAIN) != PLAIN;
    for k in 0..6 {
        let a = Line(&node, &r, &pre, k, true);
        let b = Line(&node, &r, &pre, k, false);
        outputs(&a).compare(&outputs(&b), &format!("writeln against write, form {k}"))?;
        if let Some(d) = first_difference(&record(&a), &record(&b)) {
            return Err(format!("writeln against write, form {k}: {d}"));
        }
    }
    Ok(())
}

/// Text in two styles, on its way into a writer.
struct Two<'a> {
    text: &'a str,
    styles: [St; 2],
    how: u8,
}

const HOWS: u8 = 8;

impl stylish::Display for Two<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        use std::fmt::Write as Std;
        use stylish::Write as W;
        let t = self.text;
        for st in self.styles {
            let st = st.real();
            match self.how {
                0 => f.with(st).write_str(t)?,
                1 => W::write_str(f, t, st)?,
                2 => t.chars().try_for_each(|c| W::write_char(f, c, st))?,
                3 => Std::write_str(&mut f.with(st), t)?,
                4 => {
                    let mut f = f.with(st);
                    t.chars().try_for_each(|c| Std::write_char(&mut f, c))?
                }
                5 => Std::write_fmt(&mut f.with(st), core::format_args!("{t}"))?,
                6 => f.with(st).write_fmt(stylish::format_args!("{t}"))?,
                _ => stylish::Display::fmt(&stylish::format_args!("{}", t), &mut f.with(st))?,
            }
        }
        Ok(())
    }
}

/// Through the methods of exactly this type.
fn put<W: stylish::Write + ?Sized>(w: &mut W, two: &Two, k: u8) -> stylish::Result {
    match k {
        0 => two.styles.iter().try_for_each(|st| w.write_str(two.text, st.real())),
        1 => two.styles.iter().try_for_each(|st| two.text.chars().try_for_each(|c| w.write_char(c, st.real()))),
        _ => put_args(w, stylish::format_args!("{:s}", Two { how: k - 2, ..*two })),
    }
}

fn put_args<W: stylish::Write + ?Sized>(mut w: &mut W, args: stylish::Arguments<'_>) -> stylish::Result {
    stylish::Write::write_fmt(&mut w, args)
}

fn io_put<W: stylish::io::Write + ?Sized>(mut w: &mut W, two: &Two, k: u8) -> stylish::io::Result<()> {
    let mut each = |f: &mut dyn FnMut(&mut W, stylish::Style) -> stylish::io::Result<()>| {
        two.styles.iter().try_for_each(|st| f(w, st.real()))
    };
    match k {
        0 => each(&mut |w, st| w.write_all(two.text.as_bytes(), st)),
        1 => each(&mut |w, st| {
            let mut t = two.text.as_bytes();
            while !t.is_empty() {
                let n = w.write(t, st)?;
                t = &t[n.max(1)..];
            }
            w.flush()
        }),
        _ => stylish::io::Write::write_fmt(&mut w, stylish::format_args!("{:s}", Two { how: k - 2, ..*two })),
    }
}

fn every_way(text: &str, styles: [St; 2]) -> Result<(), String> {
    let two = Two { text, styles, how: 0 };
    let e = |e: stylish::Error| e.to_string();
    macro_rules! all {
        ($name:literal, $new:expr, $put:ident, $Dyn:path, $fin:expr, $same:ident, $e:expr) => {{
            let fin = $fin;
            let mut w = $new;
            $put(&mut w, &two, 0).map_err($e)?;
            let want = fin(w);
            for k in 0..HOWS + 2 {
                let at = |what: &str| format!(concat!($name, ", way {}: {}"), k, what);
                let mut w = $new;
                $put(&mut w, &two, k).map_err($e)?;
                $same(&want, &fin(w), &at("writer"))?;
                let mut w = $new;
                $put(&mut &mut w, &two, k).map_err($e)?;
                $same(&want, &fin(w), &at("reference"))?;
                let mut w = $new;
                {
                    let d: &mut dyn $Dyn = &mut w;
                    $put(d, &two, k).map_err($e)?;
                }
                $same(&want, &fin(w), &at("trait object"))?;
            }
            want
        }};
    }
    let want = all!("ansi", stylish::ansi(String::new()), put, stylish::Write,
        |w: stylish::Ansi<String>| w.finish().unwrap(), same, e);
    let html = all!("html", stylish::html(String::new()), put, stylish::Write,
        |w: stylish::Html<String>| w.finish().unwrap(), same, e);
    let plain = all!("plain", stylish::plain(String::new()), put, stylish::Write,
        |w: stylish::Plain<String>| w.into_inner(), same, e);
    let io = |e: stylish::io::Error| e.to_string();
    let io_want = all!("io ansi", stylish::io::ansi(Vec::new()), io_put, stylish::io::Write,
        |w: stylish::io::Ansi<Vec<u8>>| w.finish().unwrap(), same_bytes, io);
    same_bytes(want.as_bytes(), &io_want, "io ansi against ansi")?;
    let io_want = all!("io plain", stylish::io::plain(Vec::new()), io_put, stylish::io::Write,
        |w: stylish::io::Plain<Vec<u8>>| w.into_inner(), same_bytes, io);
    same_bytes(plain.as_bytes(), &io_want, "io plain against plain")?;
    same(&format!("{text}{text}"), &plain, "plain")?;
    let s: String = all!("string, in ansi", stylish::String::new(), put, stylish::Write,
        |s: stylish::String| s.to_ansi_string(), same, e);
    same(&want, &s, "string against ansi")?;
    let s: String = all!("string, in html", stylish::String::new(), put, stylish::Write,
        |s: stylish::String| s.to_html_string(), same, e);
    same(&html, &s, "string against html")
}

/// Every character, through every wrapper of every writer.
pub fn c15_char(i: u64) -> Result<(), String> {
    let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
    let (a, b) = (St::nth(i as usize % N_STYLES), St::nth(i as usize / 7 % N_STYLES));
    every_way(c.encode_utf8(&mut [0; 4]), [a, b]).map_err(|e| format!("{c:?} in {a:?} and {b:?}: {e}"))
}

/// Text of every length up to 1024, and about each power of two above.
pub fn c15_length(i: u64) -> Result<(), String> {
    let n = if i <= 1024 { i as usize } else { (1 << (11 + (i - 1025) / 3)) + ((i - 1025) % 3) as usize - 1 };
    let (a, b) = (St::nth(i as usize * 31 % N_STYLES), St::nth(i as usize * 57 % N_STYLES));
    // Of one, two and three bytes a character, filled up with ASCII.
    let unit = ["abc<&\n", "éñ", "日本"][i as usize % 3];
    let mut text = unit.repeat(n / unit.len());
    text.extend(std::iter::repeat_n('z', n - text.len()));
    every_way(&text, [a, b]).map_err(|e| format!("{n} bytes of {unit:?} in {a:?} and {b:?}: {e}"))
}

// ---------------------------------------------------------------- C16

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}

fn bump() {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
}

// SAFETY: defers to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        bump();
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        bump();
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        bump();
        System.realloc(ptr, layout, new_size)
    }
}

fn allocs() -> u64 {
    ALLOCS.with(Cell::get)
}

/// Hashes what it is given.
#[derive(Default)]
struct Hash(u64, usize);

impl std::fmt::Write for Hash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.1 += s.len();
        Ok(())
    }
}

fn hash(s: &str) -> (u64, usize) {
    let mut h = Hash::default();
    std::fmt::Write::write_str(&mut h, s).unwrap();
    (h.0, h.1)
}

pub fn c16_alloc(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let g = Gen { esc: true, heap: false, max_text: 20_000, ..Gen::PLAIN };
    let node = g.doc(src);
    case.repr(|| show(&node));
    if node.allocates() {
        return Err("harness: the generated value allocates by itself".into());
    }
    let want = flat(&node);
    case.nontrivial = interesting(&want);
    case.class(want.len() > 1000, "over 1000 characters");
    case.class(runs(&want).len() > 20, "over 20 runs");
    let how = src.below(4);
    fn render<W: stylish::Write>(w: &mut W, n: &Node, how: u64) -> stylish::Result {
        match how {
            0 => w.write_fmt(stylish::format_args!("{:s}", n)),
            1 => {
                let a = stylish::format_args!("{:s}", n);
                let b = stylish::format_args!("{:s}", a);
                w.write_fmt(b)
            }
            2 => {
                let d: &mut dyn stylish::Write = w;
                stylish::write!(d, "{:s}", n)
            }
            _ => stylish::write!(w, "{n:s}"),
        }
    }
    macro_rules! measure {
        ($name:literal, $Ty:ident, |$w:ident| $fin:expr) => {{
            let before = allocs();
            let mut $w = stylish::$Ty::new(Hash::default());
            let r = render(&mut $w, &node, how);
            let h: Hash = $fin;
            let n = allocs() - before;
            if r.is_err() {
                return Err(concat!($name, ": error").to_owned());
            }
            if n != 0 {
                return Err(format!(concat!($name, ": {} heap allocations"), n));
            }
            (h.0, h.1)
        }};
    }
    // Before anything else is rendered, so that what is made once counts.
    let ansi = measure!("ansi", Ansi, |w| w.finish().unwrap());
    let html = measure!("html", Html, |w| w.finish().unwrap());
    let plain = measure!("plain", Plain, |w| w.into_inner());
    let o = outputs(&node);
    for (name, got, expect) in [("ansi", ansi, &o.ansi), ("html", html, &o.html), ("plain", plain, &o.plain)] {
        if got != hash(expect) {
            return Err(format!("{name}: other output than into a string"));
        }
    }
    Ok(())
}

/// Direct writes: lengths and numbers of style changes near every boundary.
pub fn c16_writes(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let g = Gen { esc: true, heap: false, max_text: 70_000, ..Gen::PLAIN };
    let ops = gen_ops(src, &g, true);
    writes_allocate(case, ops)
}

pub fn c16_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let ops = gen_large(src, true);
    writes_allocate(case, ops)
}

fn writes_allocate(case: &mut Case, mut ops: Vec<WOp>) -> Result<(), String> {
    // A panic allocates by itself.
    ops.retain(|op| !matches!(op, WOp::Panicking(_)));
    ops.retain(|op| !matches!(op, WOp::Doc(n) | WOp::Line(n) | WOp::Failing(n) if n.allocates()));
    case.repr(|| format!("{ops:?}"));
    case.nontrivial = ops.len() > 1;
    case.class(ops.len() > 100, "over 100 writes");
    let before = allocs();
    let mut w = stylish::Ansi::new(Hash::default());
    let r = apply_ops(&mut w, &ops);
    let got_a = w.finish();
    let mut w = stylish::Html::new(Hash::default());
    let r = r.and(apply_ops(&mut w, &ops));
    let got_h = w.finish();
    let mut w = stylish::Plain::new(Hash::default());
    let r = r.and(apply_ops(&mut w, &ops));
    let n = allocs() - before;
    r.map_err(|e| e.to_string())?;
    if n != 0 {
        return Err(format!("{n} heap allocations"));
    }
    let (ga, gh) = (got_a.unwrap(), got_h.unwrap());
    let (a, h) = (ops_ansi(&ops)?, ops_html(&ops)?);
    if (ga.0, ga.1) != hash(&a) || (gh.0, gh.1) != hash(&h) {
        return Err("other output than into a string".into());
    }
    Ok(())
}
