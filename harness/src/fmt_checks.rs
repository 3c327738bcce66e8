//! C01 to C07: styles, scoping, and the output formats.

use stylish::{Restyle, Style};

use crate::{
    doc::{attributed, flat, flatten, interesting, model_calls, once, panics, restyled, Gen, How, Node},
    engine::{threads, Case, Src},
    model::*,
    sinks::*,
    text,
};

// ---------------------------------------------------------------- C01

pub fn c01_restyle(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let depth = src.below(4) as u32;
    let r = R::generate(src, depth);
    let start = St::generate(src);
    case.repr(|| format!("{start:?} restyled by {r:?}"));
    let want = r.model(start);
    case.nontrivial = want != start;
    case.class(depth >= 2, "composed");
    case.class(matches!(r, R::DiffOf(..) | R::Diff(..)), "diff");
    for (how, got) in [
        ("with", start.real().with(&r)),
        ("apply", r.apply(start.real())),
        ("by value", start.real().with(r.clone())),
        ("in a pair after the start", Style::default().with((start.real(), &r))),
        ("in a slice", start.real().with(&[&r][..])),
        ("as an option", start.real().with(Some(&r))),
    ] {
        if St::of(got) != want {
            return Err(format!("{how}: {start:?} restyled by {r:?} is {:?}, expected {want:?}", St::of(got)));
        }
    }
    // The difference made is exactly what diff_from reports.
    let d = want.real().diff_from(start.real());
    if d.foreground.is_some() != (want.fg != start.fg)
        || d.background.is_some() != (want.bg != start.bg)
        || d.intensity.is_some() != (want.int != start.int)
    {
        return Err(format!("difference from {start:?} to {want:?} is {d:?}"));
    }
    // And the same restyle through a formatter.
    struct Show<'a>(&'a R);
    impl stylish::Display for Show<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            f.with(self.0).write_str("x")
        }
    }
    let got = record(&Show(&r));
    let want = r.model(PLAIN);
    if got != [('x', want)] {
        return Err(format!("formatter restyled by {r:?} writes {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// Runs `f` over `0..n` on all threads; the lowest failing index.
pub fn sweep(name: &str, n: u64, f: impl Fn(u64) -> Result<(), String> + Sync) -> Option<(u64, String)> {
    let fails = std::sync::Mutex::new(Vec::new());
    let t = threads();
    let part = crate::engine::hash_str(name);
    std::thread::scope(|s| {
        for k in 0..t {
            let (f, fails) = (&f, &fails);
            s.spawn(move || {
                for i in (k..n).step_by(t as usize) {
                    crate::engine::progress::note(k, part, i);
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)))
                        .unwrap_or_else(|_| Err(format!("unexpected panic: {}", crate::engine::last_panic())));
                    if let Err(e) = res {
                        fails.lock().unwrap().push((i, e));
                        break;
                    }
                }
            });
        }
    });
    fails.into_inner().unwrap().into_iter().min()
}

pub const PAIRS: u64 = (N_STYLES * N_STYLES) as u64;

fn pair(i: u64) -> (St, St) {
    (St::nth(i as usize % N_STYLES), St::nth(i as usize / N_STYLES))
}

pub fn c01_pair(i: u64) -> Result<(), String> {
    let (a, b) = pair(i);
    let d = b.real().diff_from(a.real());
    if St::of(a.real().with(d)) != b {
        return Err(format!("{a:?} with its difference to {b:?} is {:?}", St::of(a.real().with(d))));
    }
    let ok = d.foreground.map(color_index) == (a.fg != b.fg).then_some(b.fg)
        && d.background.map(color_index) == (a.bg != b.bg).then_some(b.bg)
        && d.intensity.map(intensity_index) == (a.int != b.int).then_some(b.int);
    if !ok {
        return Err(format!("the difference from {a:?} to {b:?} is {d:?}"));
    }
    if (a == b) != (a.real() == b.real()) {
        return Err(format!("equality of {a:?} and {b:?}"));
    }
    for k in 0..4u64 {
        let c = St::nth((crate::engine::mix(i * 4 + k) % N_STYLES as u64) as usize);
        let want = R::DiffOf(a, b).model(c);
        if St::of(c.real().with(d)) != want {
            return Err(format!("{c:?} with the difference {d:?} is {:?}", St::of(c.real().with(d))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn c02_scopes(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let node = Gen { esc: true, ..Gen::PLAIN }.doc(src);
    let outer = src.chance(1, 2).then(|| R::generate(src, 1));
    case.repr(|| show(&node));
    let mut want = Vec::new();
    let node = match outer {
        Some(r) => Node::With(r, vec![node, Node::Text("|".into(), How::Str)]),
        None => node,
    };
    flatten(&node, PLAIN, &mut want).unwrap();
    case.nontrivial = interesting(&want);
    case.class(want.len() > 100, "over 100 characters");
    case.class(runs(&want).len() > 8, "over 8 runs");
    let calls = model_calls(&node);
    case.class(calls != 0, "counts formatting calls");
    let check = |got: &Styled, how: &str| match first_difference(got, &want) {
        Some(d) => Err(format!("{how}: {d}")),
        None => once(calls, how),
    };
    check(&record(&node), "sink")?;
    let mut c = CharRecorder::default();
    stylish::write!(&mut c as &mut dyn stylish::Write, "{:s}", node).map_err(|e| e.to_string())?;
    check(&c.out, "trait object")?;
    for kind in 0..5 {
        let how = match kind {
            0 => (ansi(&node), "ansi").1,
            1 => (html(&node), "html").1,
            2 => (plain(&node), "plain").1,
            3 => (io_ansi(&node), "io ansi").1,
            _ => (io_plain(&node), "io plain").1,
        };
        once(calls, how)?;
    }
    // Two renderings into one sink, with writes between: each starts unstyled.
    let mut r = Recorder::default();
    let st = St::generate(src);
    {
        use stylish::Write as _;
        let w = &mut &mut r;
        w.write_str("before", st.real()).unwrap();
        w.write_fmt(stylish::format_args!("{:s}", node)).unwrap();
        w.write_char('-', st.real()).unwrap();
        w.write_fmt(stylish::format_args!("[{:s}]", node)).unwrap();
    }
    let mut both = Vec::new();
    push_str(&mut both, "before", st);
    both.extend(&want);
    both.push(('-', st));
    both.push(('[', PLAIN));
    both.extend(&want);
    both.push((']', PLAIN));
    match first_difference(&r.out, &both) {
        Some(d) => Err(format!("two renderings: {d}")),
        None => Ok(()),
    }
}

// ------------------------------------------------- writer operations

#[derive(Clone, Debug)]
pub enum WOp {
    Str(String, St),
    Chars(String, St),
    Empty(St),
    Doc(Node),
    Line(Node),
    Args(String),
    /// A value that fails somewhere; what precedes that was written.
    Failing(Node),
    /// The same, but it panics.
    Panicking(Node),
    /// Flush (an io writer) and go on with a clone of the writer.
    Fork,
}

pub fn gen_ops(src: &mut Src, g: &Gen, many: bool) -> Vec<WOp> {
    let mut ops = src.list(1, 60, 5, |src| match src.weighted(&[20, 6, 6, 8, 2, 4, 1, 1]) {
        0 => WOp::Str(g.text(src), St::generate(src)),
        1 => WOp::Chars(g.text(src), St::generate(src)),
        2 => WOp::Empty(St::generate(src)),
        3 => WOp::Doc(g.doc(src)),
        4 => WOp::Line(g.node(src, 1)),
        5 => WOp::Args(g.text(src)),
        6 => WOp::Fork,
        _ => gen_failing(src, g),
    });
    if many && src.chance(1, 40) {
        let n = text::size(src, 3000);
        let k = 1 + src.idx(6);
        let sts: Vec<St> = (0..k).map(|_| St::generate(src)).collect();
        let t = g.text(src);
        for i in 0..n {
            ops.push(WOp::Str(
                if t.is_empty() || t.len() > 20 { "x".into() } else { t.clone() },
                sts[i % k],
            ));
        }
    }
    ops
}

/// A value some part of which fails, if it does.
fn gen_failing(src: &mut Src, g: &Gen) -> WOp {
    let node = Gen { fail: 12, ..*g }.doc(src);
    match flatten(&node, PLAIN, &mut Vec::new()) {
        Ok(()) => WOp::Doc(node),
        Err(()) if src.chance(1, 3) => WOp::Panicking(node),
        Err(()) => WOp::Failing(node),
    }
}

/// A count around a power of two, up to `max`.
fn big(src: &mut Src, max: usize) -> usize {
    let n = match src.below(4) {
        0 => (1usize << src.idx(19)) + src.idx(3),
        1 => (1 << 16) + src.idx(5),
        2 => 255 + src.idx(4),
        _ => text::size(src, max),
    };
    n.saturating_sub(1).clamp(1, max)
}

/// Sizes beyond those of `gen_ops`: very long texts, very many style changes,
/// deeply nested and very wide values.
pub fn gen_large(src: &mut Src, esc: bool) -> Vec<WOp> {
    let g = Gen { esc, max_text: 12, ..Gen::PLAIN };
    let mut ops = Vec::new();
    if src.chance(1, 2) {
        ops.push(WOp::Str(g.text(src), St::generate(src)));
    }
    let some = |t: String| if t.is_empty() { "x".to_owned() } else { t };
    let k = 1 + src.idx(4);
    let sts: Vec<St> = (0..k).map(|_| St::generate(src)).collect();
    match src.below(6) {
        0 => {
            let unit = some(g.text(src));
            let n = big(src, 300_000);
            let t: String = unit.chars().cycle().take(n).collect();
            ops.push(if src.chance(1, 2) { WOp::Str(t, sts[0]) } else { WOp::Chars(t, sts[0]) });
        }
        1 => {
            let unit = some(g.text(src));
            let n = big(src, 140_000);
            let chars = src.chance(1, 2);
            for i in 0..n {
                let (t, st) = (unit.clone(), sts[i % k]);
                ops.push(if chars { WOp::Chars(t, st) } else { WOp::Str(t, st) });
            }
        }
        2 => {
            let n = big(src, 140_000);
            for i in 0..n {
                ops.push(WOp::Empty(sts[i % k]));
            }
        }
        3 => {
            // Deep: every level writes before and after the next one.
            let n = big(src, 1500);
            let how = src.below(6) as u8;
            let mut node = Node::Text(some(g.text(src)), How::Str);
            for i in 0..n {
                let level = if how == 5 { i % 5 } else { how as usize };
                node = match level {
                    0 => Node::With(
                        R::Abs(sts[i % k]),
                        vec![Node::Text("<".into(), How::Str), node, Node::Text(">".into(), How::Str)],
                    ),
                    1 => Node::Args(5, vec![node]),
                    2 => Node::Args((i % 5) as u8, vec![node]),
                    3 => Node::WriteFmt(Box::new(Node::With(R::Fg((i % 9) as u8), vec![node])), (i % 4) as u8),
                    _ => Node::Dyn(Box::new(Node::Line(Box::new(node), (i % 2) as u8))),
                };
            }
            ops.push(WOp::Doc(node));
        }
        4 => {
            let n = big(src, 100_000);
            let t = some(g.text(src));
            let nodes = (0..n)
                .map(|i| match i % 3 {
                    0 => Node::Abs(t.clone(), sts[i % k], (i % 4) as u8),
                    1 => Node::Text(t.clone(), How::FmtArgs),
                    _ => Node::With(R::Abs(sts[i % k]), vec![Node::Text(t.clone(), How::FmtStr)]),
                })
                .collect();
            ops.push(WOp::Doc(Node::Seq(nodes)));
        }
        _ => {
            let n = big(src, 100_000);
            let t = some(g.text(src));
            ops.push(WOp::Doc(Node::Attributed((0..n).map(|i| (t.clone(), sts[i % k])).collect())));
        }
    }
    ops.push(WOp::Str(g.text(src), St::generate(src)));
    ops.push(WOp::Chars("e".into(), St::generate(src)));
    ops
}

/// One operation on a writer, of a concrete type or a trait object.
macro_rules! fmt_op {
    ($w:ident, $op:expr) => {{
        use stylish::Write as _;
        match $op {
            WOp::Str(s, st) => $w.write_str(s, st.real()),
            WOp::Chars(s, st) => s.chars().try_for_each(|c| $w.write_char(c, st.real())),
            WOp::Empty(st) => $w.write_str("", st.real()),
            WOp::Doc(n) => stylish::write!($w, "{:s}", n),
            WOp::Line(n) => stylish::writeln!(&mut $w, "{:s}", n),
            WOp::Args(s) => stylish::write!($w, "a{:(fg=red)}{}", s, s),
            WOp::Failing(n) => must_fail(stylish::write!($w, "{:s}", n).is_err()).or(Err(stylish::Error)),
            WOp::Panicking(n) => must_fail(panics(|| {
                let _ = stylish::write!($w, "{:s}", n);
            }))
            .or(Err(stylish::Error)),
            WOp::Fork => Ok(()),
        }
    }};
}

/// The operations on a writer of a known type, by turns through its own
/// methods, a trait object, a reference and a reference to a trait object.
macro_rules! by_turns {
    ($w:ident, $ops:expr, $apply:ident, $through:ident, $one:ident) => {
        $ops.iter().enumerate().try_for_each(|(i, op)| match i % 4 {
            0 => $one!($w, op),
            1 => $apply(&mut $w, std::slice::from_ref(op)),
            2 => $through(&mut $w, op),
            _ => $through(&mut $w as &mut dyn through::$through, op),
        })
    };
}

/// The traits, by the names of the functions below.
mod through {
    pub use stylish::{io::Write as io_through, Write as fmt_through};
}

macro_rules! io_op {
    ($w:ident, $op:expr) => {{
        use stylish::io::Write as _;
        match $op {
            WOp::Str(s, st) if s.len() % 2 == 0 => $w.write_all(s.as_bytes(), st.real()),
            WOp::Str(s, st) => {
                let mut rest = s.as_bytes();
                loop {
                    if rest.is_empty() {
                        break Ok(());
                    }
                    match $w.write(rest, st.real()) {
                        Ok(n) => rest = &rest[n..],
                        Err(e) => break Err(e),
                    }
                }
            }
            WOp::Chars(s, st) => s.chars().try_for_each(|c| {
                $w.write_all(c.encode_utf8(&mut [0; 4]).as_bytes(), st.real())
            }),
            WOp::Empty(st) if st.fg % 2 == 0 => $w.write_all(b"", st.real()),
            WOp::Empty(st) => $w.write(b"", st.real()).map(|_| ()),
            WOp::Doc(n) => stylish::write!($w, "{:s}", n),
            WOp::Line(n) => stylish::writeln!(&mut $w, "{:s}", n),
            WOp::Args(s) => stylish::write!($w, "a{:(fg=red)}{}", s, s),
            WOp::Failing(n) => must_fail(stylish::write!($w, "{:s}", n).is_err()),
            WOp::Panicking(n) => must_fail(panics(|| {
                let _ = stylish::write!($w, "{:s}", n);
            })),
            WOp::Fork => $w.flush(),
        }
    }};
}

/// Through the methods of exactly this type.
fn fmt_through<W: stylish::Write>(mut w: W, op: &WOp) -> stylish::Result {
    fmt_op!(w, op)
}

fn io_through<W: stylish::io::Write>(mut w: W, op: &WOp) -> stylish::io::Result<()> {
    io_op!(w, op)
}

fn large_case(src: &mut Src, case: &mut Case, esc: bool) -> (Vec<WOp>, Styled) {
    let ops = gen_large(src, esc);
    case.repr(|| format!("{ops:?}"));
    let want = ops_model(&ops);
    case.nontrivial = want.len() > 1000 || ops.len() > 200;
    case.class(want.len() > 65536, "over 65536 characters");
    case.class(runs(&want).len() > 65536, "over 65536 runs");
    case.class(ops.len() > 65536, "over 65536 writes");
    (ops, want)
}

pub fn c02_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (ops, want) = large_case(src, case, true);
    let mut r = Recorder::default();
    apply_ops(&mut r, &ops).map_err(|e| e.to_string())?;
    match first_difference(&r.out, &want) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

pub fn c03_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (ops, want) = large_case(src, case, false);
    check_ansi(ops_ansi(&ops)?.as_bytes(), &want).map_err(|e| format!("fmt writer: {e}"))?;
    check_ansi(&ops_io_ansi(&ops)?, &want).map_err(|e| format!("io writer: {e}"))
}

pub fn c04_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (ops, want) = large_case(src, case, false);
    same_as_canonical(&[("large", &ops)], &want)
}

pub fn c05_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (ops, want) = large_case(src, case, true);
    check_html(&ops_html(&ops)?, &want)
}

pub fn c06_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let (ops, want) = large_case(src, case, true);
    let want = chars_of(&want);
    check_plain(&ops, &want)
}

pub fn c07_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    use stylish::Write as _;
    let (ops, want) = large_case(src, case, false);
    let mut s = stylish::String::new();
    by_turns!(s, ops, apply_ops, fmt_through, fmt_op).map_err(|e| e.to_string())?;
    let copy = s.clone();
    check_string(&s, &want, src)?;
    // And appended to another one, twice.
    let mut t = stylish::String::new();
    stylish::write!(t, "{:s}{:s}", copy, s).map_err(|e| e.to_string())?;
    let twice: Styled = want.iter().chain(&want).copied().collect();
    check_string(&t, &twice, src).map_err(|e| format!("appended twice: {e}"))
}

pub fn ops_model(ops: &[WOp]) -> Styled {
    let mut out = Vec::new();
    for op in ops {
        match op {
            WOp::Str(s, st) | WOp::Chars(s, st) => push_str(&mut out, s, *st),
            WOp::Empty(_) | WOp::Fork => {}
            WOp::Doc(n) => flatten(n, PLAIN, &mut out).unwrap(),
            WOp::Failing(n) | WOp::Panicking(n) => flatten(n, PLAIN, &mut out).unwrap_err(),
            WOp::Line(n) => {
                flatten(n, PLAIN, &mut out).unwrap();
                out.push(('\n', PLAIN));
            }
            WOp::Args(s) => {
                push_str(&mut out, "a", PLAIN);
                push_str(&mut out, s, St { fg: 2, ..PLAIN });
                push_str(&mut out, s, PLAIN);
            }
        }
    }
    out
}

pub fn apply_ops(w: &mut dyn stylish::Write, ops: &[WOp]) -> stylish::Result {
    let mut w = w;
    ops.iter().try_for_each(|op| fmt_op!(w, op))
}

fn must_fail(failed: bool) -> std::io::Result<()> {
    if failed {
        return Ok(());
    }
    Err(std::io::Error::new(std::io::ErrorKind::Other, "a failing value was written without an error"))
}

pub fn apply_io_ops(w: &mut dyn stylish::io::Write, ops: &[WOp]) -> stylish::io::Result<()> {
    let mut w = w;
    ops.iter().try_for_each(|op| io_op!(w, op))
}

/// The operations, cut after each fork.
fn forks(ops: &[WOp]) -> impl Iterator<Item = &[WOp]> {
    ops.split_inclusive(|op| matches!(op, WOp::Fork))
}

pub fn ops_ansi(ops: &[WOp]) -> Result<String, String> {
    let mut w = stylish::ansi(String::new());
    for part in forks(ops) {
        by_turns!(w, part, apply_ops, fmt_through, fmt_op).map_err(|e| format!("ansi write: {e}"))?;
        if let Some(WOp::Fork) = part.last() {
            w = w.clone();
        }
    }
    w.finish().map_err(|e| format!("ansi finish: {e}"))
}

pub fn ops_io_ansi(ops: &[WOp]) -> Result<Vec<u8>, String> {
    let mut w = stylish::io::ansi(Vec::new());
    for part in forks(ops) {
        by_turns!(w, part, apply_io_ops, io_through, io_op).map_err(|e| format!("io ansi write: {e}"))?;
        if let Some(WOp::Fork) = part.last() {
            w = w.clone();
        }
    }
    w.finish().map_err(|e| format!("io ansi finish: {e}"))
}

pub fn ops_html(ops: &[WOp]) -> Result<String, String> {
    let mut w = stylish::html(String::new());
    for part in forks(ops) {
        by_turns!(w, part, apply_ops, fmt_through, fmt_op).map_err(|e| format!("html write: {e}"))?;
        if let Some(WOp::Fork) = part.last() {
            w = w.clone();
        }
    }
    w.finish().map_err(|e| format!("html finish: {e}"))
}

fn classify(want: &[(char, St)], case: &mut Case) {
    case.nontrivial = interesting(want);
    case.class(want.len() > 200, "over 200 characters");
    case.class(runs(want).len() > 20, "over 20 runs");
    case.class(want.windows(2).any(|w| w[0].1.int + w[1].1.int == 3 && w[0].1.int != 0 && w[1].1.int != 0), "bold next to faint");
    case.class(want.last().is_some_and(|c| c.1 != PLAIN), "ends styled");
}

// ---------------------------------------------------------------- C03

pub fn c03_ansi(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let ops = gen_ops(src, &Gen::PLAIN, true);
    case.repr(|| format!("{ops:?}"));
    let want = ops_model(&ops);
    classify(&want, case);
    check_ansi(ops_ansi(&ops)?.as_bytes(), &want).map_err(|e| format!("fmt writer: {e}"))?;
    check_ansi(&ops_io_ansi(&ops)?, &want).map_err(|e| format!("io writer: {e}"))
}

/// Styles only: long random walks over styles, one character each.
pub fn c03_walk(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let ops = src.list(1, 400, 60, |src| WOp::Str("x".into(), St::generate(src)));
    case.repr(|| format!("{ops:?}"));
    let want = ops_model(&ops);
    classify(&want, case);
    check_ansi(ops_ansi(&ops)?.as_bytes(), &want).map_err(|e| format!("fmt writer: {e}"))?;
    check_ansi(&ops_io_ansi(&ops)?, &want).map_err(|e| format!("io writer: {e}"))?;
    // The same through an attributed string.
    let s = attributed(&runs(&want));
    check_ansi(ansi(&s).as_bytes(), &want).map_err(|e| format!("attributed string: {e}"))
}

/// ESC in the text: with a stand-in character instead, the output is the same
/// with the stand-in replaced.
pub fn c03_escapes(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let pieces: Vec<(String, St)> = src.list(1, 12, 4, |src| {
        let mut t = text::text(src, 2000).replace('\u{1}', "");
        for _ in 0..src.below(4) {
            t.push('\x1b');
            t.push_str(src.pick(&["", "[", "[0m", "[31m", "[1;", "]0;t\x07", "c", "\x1b", "[2J", "m"]));
        }
        (t, St::generate(src))
    });
    case.repr(|| format!("{pieces:?}"));
    case.nontrivial = pieces.iter().any(|p| p.0.contains('\x1b'));
    let real: Vec<WOp> = pieces.iter().map(|(t, s)| WOp::Str(t.clone(), *s)).collect();
    let stand_in: Vec<WOp> =
        pieces.iter().map(|(t, s)| WOp::Str(t.replace('\x1b', "\u{1}"), *s)).collect();
    let a = ops_ansi(&stand_in)?;
    check_ansi(a.as_bytes(), &ops_model(&stand_in)).map_err(|e| format!("fmt writer: {e}"))?;
    same(&ops_ansi(&real)?, &a.replace('\u{1}', "\x1b"), "fmt writer, ESC passed through")?;
    let a = String::from_utf8(ops_io_ansi(&stand_in)?).map_err(|e| e.to_string())?;
    check_ansi(a.as_bytes(), &ops_model(&stand_in)).map_err(|e| format!("io writer: {e}"))?;
    let b = ops_io_ansi(&real)?;
    same_bytes(&b, a.replace('\u{1}', "\x1b").as_bytes(), "io writer, ESC passed through")
}

pub fn c03_pair(i: u64) -> Result<(), String> {
    use stylish::{io::Write as _, Write as _};
    let (a, b) = pair(i);
    let want = [('a', a), ('b', b)];
    let mut w = stylish::Ansi::new(String::new());
    w.write_str("a", a.real()).unwrap();
    w.write_str("b", b.real()).unwrap();
    let out = w.finish().unwrap();
    check_ansi(out.as_bytes(), &want).map_err(|e| format!("fmt writer, {a:?} then {b:?}: {e}: {out:?}"))?;
    let mut w = stylish::io::Ansi::new(Vec::new());
    w.write_all(b"a", a.real()).unwrap();
    w.write_all(b"b", b.real()).unwrap();
    let out = w.finish().unwrap();
    check_ansi(&out, &want)
        .map_err(|e| format!("io writer, {a:?} then {b:?}: {e}: {:?}", String::from_utf8_lossy(&out)))
}

// ---------------------------------------------------------------- C04

/// Another way of writing exactly these styled characters.
fn rewrite(src: &mut Src, chars: &[(char, St)]) -> Vec<WOp> {
    let mut ops = Vec::new();
    for (s, st) in runs(chars) {
        let mut rest = s.as_str();
        let mut budget = 40;
        while !rest.is_empty() {
            budget -= 1;
            if src.chance(1, 5) {
                ops.push(WOp::Empty(St::generate(src)));
            }
            let n = if budget == 0 { usize::MAX } else { text::size(src, 4000).max(1) };
            let end = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
            let (part, tail) = rest.split_at(end);
            rest = tail;
            let part = part.to_owned();
            ops.push(match src.below(6) {
                0 => WOp::Str(part, st),
                1 => WOp::Chars(part, st),
                2 => WOp::Doc(Node::Abs(part, st, src.below(4) as u8)),
                3 => WOp::Doc(Node::With(
                    R::Abs(st),
                    vec![Node::Text(
                        part,
                        match src.below(5) {
                            0 => How::Str,
                            1 => How::FmtStr,
                            2 => How::FmtChars,
                            3 => How::FmtArgs,
                            _ => How::Empties(St::generate(src)),
                        },
                    )],
                )),
                4 => WOp::Doc(Node::Attributed(vec![(String::new(), St::generate(src)), (part, st)])),
                _ => {
                    // As a difference from another style.
                    let from = St::generate(src);
                    WOp::Doc(Node::Chain(
                        R::Abs(from),
                        R::DiffOf(from, st),
                        vec![Node::With(R::Abs(st), vec![]), Node::Text(String::new(), How::Str)],
                    ))
                }
            });
            if let Some(WOp::Doc(Node::Chain(..))) = ops.last() {
                // Wrote nothing: only noise. Now the part itself.
                let part = &s[s.len() - rest.len() - (end)..s.len() - rest.len()];
                ops.push(WOp::Str(part.to_owned(), st));
            }
        }
    }
    if src.chance(1, 3) {
        ops.push(WOp::Empty(St::generate(src)));
    }
    ops
}

pub fn c04_chunking(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let ops = gen_ops(src, &Gen::PLAIN, true);
    let want = ops_model(&ops);
    classify(&want, case);
    let other = rewrite(src, &want);
    case.repr(|| format!("{ops:?}\nversus {other:?}"));
    same_as_canonical(&[("original", &ops), ("rewritten", &other)], &want)
}

/// Each of these gives what one write per run gives, in every format.
fn same_as_canonical(ways: &[(&str, &[WOp])], want: &Styled) -> Result<(), String> {
    let canon: Vec<WOp> = runs(want).into_iter().map(|(s, st)| WOp::Str(s, st)).collect();
    let a = ops_ansi(&canon)?;
    let h = ops_html(&canon)?;
    let ia = ops_io_ansi(&canon)?;
    check_ansi_economy(a.as_bytes()).map_err(|e| format!("ansi: {e}"))?;
    check_ansi_economy(&ia).map_err(|e| format!("io ansi: {e}"))?;
    check_html_economy(&h).map_err(|e| format!("html: {e}"))?;
    same_bytes(&ia, a.as_bytes(), "io ansi and ansi")?;
    for &(what, ops) in ways {
        same(&a, &ops_ansi(ops)?, &format!("ansi, one write per run vs {what}"))?;
        same_bytes(&ia, &ops_io_ansi(ops)?, &format!("io ansi, one write per run vs {what}"))?;
        same(&h, &ops_html(ops)?, &format!("html, one write per run vs {what}"))?;
        let mut p = stylish::plain(String::new());
        by_turns!(p, ops, apply_ops, fmt_through, fmt_op).map_err(|e| e.to_string())?;
        same(&chars_of(want), &p.into_inner(), &format!("plain, {what}"))?;
        let mut s = stylish::String::new();
        by_turns!(s, ops, apply_ops, fmt_through, fmt_op).map_err(|e| e.to_string())?;
        same(&a, &ansi(&s), &format!("attributed string in ansi, {what}"))?;
        same(&h, &html(&s), &format!("attributed string in html, {what}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn html_text(src: &mut Src) -> String {
    let mut t = text::text(src, 5000);
    if src.chance(1, 3) {
        for _ in 0..1 + src.below(5) {
            t.push(*src.pick(&['&', '<', '>', '"', '\'']));
            t.push_str(src.pick(&["", "a", "amp;", "#39;", "/span>", "span style=color:red>", "日", " ", "é"]));
        }
    }
    t
}

pub fn c05_html(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let g = Gen { esc: true, ..Gen::PLAIN };
    let mut ops = gen_ops(src, &g, true);
    for _ in 0..src.below(3) {
        ops.push(WOp::Str(html_text(src), St::generate(src)));
    }
    case.repr(|| format!("{ops:?}"));
    let want = ops_model(&ops);
    classify(&want, case);
    case.class(want.iter().any(|c| "&<>\"'".contains(c.0)), "has metacharacters");
    check_html(&ops_html(&ops)?, &want)
}

/// Text only: every character class around metacharacters.
pub fn c05_text(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let t = html_text(src);
    let st = St::generate(src);
    case.repr(|| format!("{t:?} in {st:?}"));
    case.nontrivial = t.contains(['&', '<', '>', '"', '\'']);
    let mut want = Vec::new();
    push_str(&mut want, &t, st);
    for op in [WOp::Str(t.clone(), st), WOp::Chars(t.clone(), st), WOp::Doc(Node::Abs(t.clone(), st, 0))] {
        let name = format!("{op:?}");
        check_html(&ops_html(&[op])?, &want).map_err(|e| format!("{}: {e}", crate::engine::clip(&name, 60)))?;
    }
    Ok(())
}

pub fn c05_pair(i: u64) -> Result<(), String> {
    use stylish::Write as _;
    let (a, b) = pair(i);
    let mut w = stylish::Html::new(String::new());
    w.write_str("a", a.real()).unwrap();
    w.write_str("&", b.real()).unwrap();
    let out = w.finish().unwrap();
    check_html(&out, &[('a', a), ('&', b)]).map_err(|e| format!("{a:?} then {b:?}: {e}: {out:?}"))
}

/// Every character, alone and repeated.
pub fn c05_char(i: u64) -> Result<(), String> {
    let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
    let st = St::nth(i as usize % N_STYLES);
    let t = format!("{c}a{c}{c}");
    let mut want = Vec::new();
    push_str(&mut want, &t, st);
    check_html(&ops_html(&[WOp::Str(t, st)])?, &want).map_err(|e| format!("character {c:?} in {st:?}: {e}"))
}

// ---------------------------------------------------------------- C06

fn strip_ansi(s: &str) -> Result<String, String> {
    let t = read_ansi(s.as_bytes())?;
    Ok(chars_of(&toks_to_styled(&t.toks)?))
}

pub fn c06_text(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let node = Gen::PLAIN.doc(src);
    let other = restyled(&node, src);
    case.repr(|| format!("{}\nrestyled: {}", show(&node), show(&other)));
    let styled = flat(&node);
    let want = chars_of(&styled);
    case.nontrivial = interesting(&styled);
    case.class(want.contains(['&', '<', '>', '"', '\'']), "has metacharacters");
    for (what, node) in [("value", &node), ("restyled value", &other)] {
        let o = outputs(node);
        same(&want, &o.plain, &format!("plain text of the {what}"))?;
        same(&want, &String::from_utf8_lossy(&o.io_plain), &format!("io plain text of the {what}"))?;
        same(&want, &strip_ansi(&o.ansi)?, &format!("text of the ansi output of the {what}"))?;
        let ia = String::from_utf8(o.io_ansi).map_err(|e| e.to_string())?;
        same(&want, &strip_ansi(&ia)?, &format!("text of the io ansi output of the {what}"))?;
        let (toks, _) = read_html(&o.html)?;
        same(&want, &chars_of(&html_styled(&toks)), &format!("text of the html output of the {what}"))?;
        let s = stylish::format(stylish::format_args!("{:s}", node));
        same(&want, &plain(&s), &format!("text of the attributed string of the {what}"))?;
    }
    Ok(())
}

/// Text with ESC and anything else, verbatim in plain output.
pub fn c06_plain(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let ops = gen_ops(src, &Gen { esc: true, ..Gen::PLAIN }, true);
    case.repr(|| format!("{ops:?}"));
    let want = chars_of(&ops_model(&ops));
    case.nontrivial = !want.is_empty();
    case.class(want.contains('\x1b'), "has ESC");
    check_plain(&ops, &want)
}

fn check_plain(ops: &[WOp], want: &str) -> Result<(), String> {
    let mut p = stylish::plain(String::new());
    by_turns!(p, ops, apply_ops, fmt_through, fmt_op).map_err(|e| e.to_string())?;
    same(want, &p.into_inner(), "plain text")?;
    let mut p = stylish::io::plain(Vec::new());
    by_turns!(p, ops, apply_io_ops, io_through, io_op).map_err(|e| e.to_string())?;
    same_bytes(want.as_bytes(), &p.into_inner(), "io plain text")?;
    let mut s = stylish::String::new();
    by_turns!(s, ops, apply_ops, fmt_through, fmt_op).map_err(|e| e.to_string())?;
    same(want, &plain(&s), "text of the attributed string")
}

/// Every character, through every text output.
pub fn c06_char(i: u64) -> Result<(), String> {
    let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
    let (a, b) = (St::nth(i as usize % N_STYLES), St::nth(i as usize / 7 % N_STYLES));
    let t = format!("{c}a{c}{c}");
    let cs = format!("{c}{c}");
    let ops = [
        WOp::Str(t.clone(), a),
        WOp::Chars(cs.clone(), b),
        WOp::Chars(cs.clone(), b),
        WOp::Str(t.clone(), a),
        WOp::Chars(cs, b),
        WOp::Args(c.into()),
    ];
    let at = |e: String| format!("character {c:?} in {a:?} and {b:?}: {e}");
    let want = chars_of(&ops_model(&ops));
    check_plain(&ops, &want).map_err(at)?;
    if c != '\x1b' {
        same(&want, &strip_ansi(&ops_ansi(&ops).map_err(at)?).map_err(at)?, "ansi").map_err(at)?;
        let o = String::from_utf8(ops_io_ansi(&ops).map_err(at)?).map_err(|e| at(e.to_string()))?;
        same(&want, &strip_ansi(&o).map_err(at)?, "io ansi").map_err(at)?;
    }
    Ok(())
}

/// Every byte string of up to two bytes, through the byte-oriented writers.
pub fn c06_byte(i: u64) -> Result<(), String> {
    use stylish::io::Write as _;
    let (a, b) = (St::nth(i as usize % N_STYLES), St::nth(i as usize / 5 % N_STYLES));
    let buf = if i < 256 { vec![i as u8] } else { vec![(i - 256) as u8, ((i - 256) >> 8) as u8] };
    let at = |e: String| format!("bytes {buf:?}: {e}");
    let mut p = stylish::io::Plain::new(Vec::new());
    let mut w = stylish::io::Ansi::new(Vec::new());
    let want = [&buf[..], &buf[..], b"|", &buf[..]].concat();
    for st in [a, b] {
        p.write_all(&buf, st.real()).map_err(|e| at(e.to_string()))?;
        w.write_all(&buf, st.real()).map_err(|e| at(e.to_string()))?;
    }
    p.write_all(b"|", b.real()).map_err(|e| at(e.to_string()))?;
    w.write_all(b"|", b.real()).map_err(|e| at(e.to_string()))?;
    let n = p.write(&buf, a.real()).map_err(|e| at(e.to_string()))?;
    let m = w.write(&buf, a.real()).map_err(|e| at(e.to_string()))?;
    if (n, m) != (buf.len(), buf.len()) {
        return Err(at(format!("a write returned {n} and {m}")));
    }
    same_bytes(&want, &p.into_inner(), "io plain").map_err(at)?;
    let out = w.finish().map_err(|e| at(e.to_string()))?;
    if buf.contains(&0x1b) {
        return Ok(());
    }
    let got: Vec<u8> = read_ansi(&out)
        .map_err(at)?
        .toks
        .iter()
        .filter_map(|t| if let Tok::Byte(b, _) = t { Some(*b) } else { None })
        .collect();
    same_bytes(&want, &got, "io ansi").map_err(at)
}

/// Arbitrary bytes through the io writers.
pub fn c06_bytes(src: &mut Src, case: &mut Case) -> Result<(), String> {
    use stylish::io::Write as _;
    let parts: Vec<(Vec<u8>, St, bool)> =
        src.list(1, 12, 4, |src| (text::bytes(src, 5000), St::generate(src), src.chance(1, 3)));
    case.repr(|| format!("{parts:?}"));
    let all: Vec<u8> = parts.iter().flat_map(|p| p.0.clone()).collect();
    case.nontrivial = std::str::from_utf8(&all).is_err();
    case.class(all.contains(&0x1b), "has ESC");
    fn go<W: stylish::io::Write>(w: &mut W, b: &[u8], st: St, single: bool) -> Result<(), String> {
        if single {
            let mut rest = b;
            while !rest.is_empty() {
                let n = w.write(rest, st.real()).map_err(|e| e.to_string())?;
                if n == 0 || n > rest.len() {
                    return Err(format!("write of {} bytes returned {n}", rest.len()));
                }
                rest = &rest[n..];
            }
            Ok(())
        } else {
            w.write_all(b, st.real()).map_err(|e| e.to_string())
        }
    }
    let mut w = stylish::io::Plain::new(Vec::new());
    for (b, st, single) in &parts {
        go(&mut w, b, *st, *single)?;
    }
    w.flush().map_err(|e| e.to_string())?;
    same_bytes(&all, &w.into_inner(), "io plain bytes")?;
    // With ESC replaced by a stand-in the terminal model reads the text back.
    let swap = |b: &[u8], from: u8, to: u8| -> Vec<u8> {
        b.iter().map(|&b| if b == from { to } else { b }).collect()
    };
    let mut w = stylish::io::Ansi::new(Vec::new());
    let mut v = stylish::io::Ansi::new(Vec::new());
    for (b, st, single) in &parts {
        let b = swap(b, 1, 2);
        go(&mut v, &b, *st, *single)?;
        go(&mut w, &swap(&b, 0x1b, 1), *st, *single)?;
    }
    let w = w.finish().map_err(|e| e.to_string())?;
    let v = v.finish().map_err(|e| e.to_string())?;
    let t = read_ansi(&w)?;
    let got: Vec<u8> =
        t.toks.iter().filter_map(|t| if let Tok::Byte(b, _) = t { Some(*b) } else { None }).collect();
    same_bytes(&swap(&swap(&all, 1, 2), 0x1b, 1), &got, "io ansi bytes")?;
    // ESC itself: the escape sequences are where they were.
    let mut marks = Vec::new();
    let mut i = 0;
    for tok in &t.toks {
        match tok {
            Tok::Byte(..) => i += 1,
            Tok::Sgr => {
                let end = i + w[i..].iter().position(|&b| b == b'm').unwrap() + 1;
                marks.extend(i..end);
                i = end;
            }
        }
    }
    let mut back = w.clone();
    let mut m = marks.iter().peekable();
    for (i, b) in back.iter_mut().enumerate() {
        if m.peek() == Some(&&i) {
            m.next();
        } else if *b == 1 {
            *b = 0x1b;
        }
    }
    same_bytes(&back, &v, "io ansi bytes with ESC")
}

// ---------------------------------------------------------------- C07

pub fn c07_history(src: &mut Src, case: &mut Case) -> Result<(), String> {
    use stylish::Write as _;
    let g = Gen { esc: false, max_text: 3000, ..Gen::PLAIN };
    let mut real: Vec<stylish::String> = vec![stylish::String::new()];
    let mut model: Vec<Styled> = vec![Vec::new()];
    let mut log: Vec<String> = Vec::new();
    let want_repr = case.want_repr;
    let steps = src.list(1, 60, 12, |src| (src.weighted(&[10, 4, 3, 5, 5, 4, 3, 3, 3, 2, 3, 2]), src.idx(8)));
    // The parameters of the steps are drawn here, so that a step shrinks alone.
    for (op, which) in steps {
        let i = which % real.len();
        let step = src.span(|src| -> Result<String, String> {
            Ok(match op {
                0 => {
                    let (t, st) = (g.text(src), St::generate(src));
                    real[i].write_str(&t, st.real()).map_err(|e| e.to_string())?;
                    push_str(&mut model[i], &t, st);
                    format!("#{i}.write_str({t:?}, {st:?})")
                }
                1 => {
                    let (t, st) = (g.text(src), St::generate(src));
                    for c in t.chars() {
                        real[i].write_char(c, st.real()).map_err(|e| e.to_string())?;
                    }
                    push_str(&mut model[i], &t, st);
                    format!("#{i}.write_char for each of {t:?}, {st:?}")
                }
                2 => {
                    let st = St::generate(src);
                    real[i].write_str("", st.real()).map_err(|e| e.to_string())?;
                    format!("#{i}.write_str(\"\", {st:?})")
                }
                3 => {
                    let n = g.doc(src);
                    stylish::write!(real[i], "{:s}", n).map_err(|e| e.to_string())?;
                    model[i].extend(flat(&n));
                    format!("write!(#{i}, {})", show(&n))
                }
                4 if real.iter().map(|_| 0).count() > 0 && model[i].len() < 40_000 => {
                    // Append another one, or a copy of itself, restyled or not.
                    let j = src.idx(real.len());
                    let copy = real[j].clone();
                    match src.below(3) {
                        0 => stylish::write!(real[i], "{:s}", copy).map_err(|e| e.to_string())?,
                        1 => stylish::write!(real[i], "{:(fg=red,bold)s}", copy).map_err(|e| e.to_string())?,
                        _ => stylish::Write::write_fmt(&mut real[i], stylish::format_args!("{:s}", &&copy))
                            .map_err(|e| e.to_string())?,
                    }
                    let m = model[j].clone();
                    model[i].extend(m);
                    format!("append a copy of #{j} to #{i}")
                }
                5 => {
                    let c = real[i].clone();
                    let m = model[i].clone();
                    if real.len() < 6 {
                        real.push(c);
                        model.push(m);
                    } else {
                        let j = src.idx(real.len());
                        real[j].clone_from(&c);
                        model[j] = m;
                    }
                    format!("clone #{i}")
                }
                6 => {
                    let n = g.node(src, 2);
                    real[i] = stylish::ToStylishString::to_stylish_string(&n);
                    model[i] = flat(&n);
                    format!("#{i} = {} recorded", show(&n))
                }
                7 => {
                    let n = g.node(src, 2);
                    real[i] = stylish::format(stylish::format_args!("<{:(bg=blue)s}>", n));
                    model[i].clear();
                    push_str(&mut model[i], "<", PLAIN);
                    flatten(&n, St { bg: 5, ..PLAIN }, &mut model[i]).unwrap();
                    push_str(&mut model[i], ">", PLAIN);
                    format!("#{i} = format!(\"<{{:(bg=blue)s}}>\", {})", show(&n))
                }
                8 => {
                    let n = text::size(src, 1500);
                    let sts = [St::generate(src), St::generate(src)];
                    let d: &mut dyn stylish::Write = &mut real[i];
                    for k in 0..n {
                        d.write_char('x', sts[k % 2].real()).map_err(|e| e.to_string())?;
                        model[i].push(('x', sts[k % 2]));
                    }
                    format!("{n} characters alternating {sts:?} into #{i}")
                }
                9 => {
                    real[i] = stylish::String::default();
                    model[i].clear();
                    format!("#{i} = new")
                }
                11 => {
                    let (n, how) = match gen_failing(src, &g) {
                        WOp::Failing(n) => (n, "fails"),
                        WOp::Panicking(n) => (n, "panics"),
                        _ => return Ok(String::new()),
                    };
                    let failed = match how {
                        "fails" => stylish::write!(real[i], "{:s}", n).is_err(),
                        _ => panics(|| {
                            let _ = stylish::write!(real[i], "{:s}", n);
                        }),
                    };
                    if !failed {
                        return Err("a failing value was written without an error".into());
                    }
                    flatten(&n, PLAIN, &mut model[i]).unwrap_err();
                    format!("write!(#{i}, {}), which {how}", show(&n))
                }
                _ => {
                    check_string(&real[i], &model[i], src)?;
                    format!("display #{i}")
                }
            })
        });
        match step {
            Ok(s) => {
                if want_repr {
                    log.push(s);
                }
            }
            Err(e) => {
                case.repr = log.join("; ");
                return Err(e);
            }
        }
    }
    case.repr = log.join("; ");
    case.nontrivial = model.iter().any(|m| interesting(m));
    case.class(real.len() > 1, "has clones");
    case.class(model.iter().any(|m| runs(m).len() > 30), "over 30 runs");
    for (i, (r, m)) in real.iter().zip(&model).enumerate() {
        check_string(r, m, src).map_err(|e| format!("#{i}: {e}"))?;
        check_string(r, m, src).map_err(|e| format!("#{i} displayed again: {e}"))?;
    }
    Ok(())
}

pub fn check_string(s: &stylish::String, want: &Styled, src: &mut Src) -> Result<(), String> {
    if let Some(d) = first_difference(&record(s), want) {
        return Err(format!("displayed: {d}"));
    }
    // Within a restyled scope it keeps its styles.
    let r = R::generate(src, 1);
    struct In<'a>(&'a stylish::String, &'a R);
    impl stylish::Display for In<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            stylish::Display::fmt(self.0, &mut f.with(self.1))
        }
    }
    if let Some(d) = first_difference(&record(&In(s, &r)), want) {
        return Err(format!("displayed within {r:?}: {d}"));
    }
    check_ansi(ansi(s).as_bytes(), want)?;
    check_html(&html(s), want)?;
    same(&plain(s), &chars_of(want), "plain")
}

pub fn c07_record(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let node = Gen { esc: true, ..Gen::PLAIN }.doc(src);
    case.repr(|| show(&node));
    case.nontrivial = interesting(&flat(&node));
    let direct = outputs(&node);
    let s = stylish::format(stylish::format_args!("{:s}", node));
    direct.compare(&outputs(&s), "directly vs recorded")?;
    let s2 = stylish::ToStylishString::to_stylish_string(&node);
    direct.compare(&outputs(&s2.clone()), "directly vs recorded and cloned")?;
    let s3 = stylish::ToStylishString::to_stylish_string(&s2);
    direct.compare(&outputs(&s3), "directly vs recorded twice")
}
