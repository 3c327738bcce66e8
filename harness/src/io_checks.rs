//! C12 and C13: the io writers over scripted streams.

use std::{
    cell::RefCell,
    fmt,
    io::{self, ErrorKind},
    rc::Rc,
};

use crate::{
    doc::{flatten, Chunks, Gen, How, Node},
    engine::{Case, Src},
    model::*,
    text,
};

/// What the stream does on one write.
#[derive(Clone, Debug, PartialEq)]
enum Act {
    Full,
    Short(usize),
    Intr,
    Hard(Fault),
    Zero,
}

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    Custom(ErrorKind, u32),
    Os(i32),
    Simple(ErrorKind),
}

#[derive(Debug)]
struct Id(u32);

impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "fault #{}", self.0)
    }
}

impl std::error::Error for Id {}

/// Every kind there is but `Interrupted`.
const FAULT_KINDS: [ErrorKind; 38] = [
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionRefused,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::AlreadyExists,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidData,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

impl Fault {
    fn generate(src: &mut Src) -> Fault {
        match src.weighted(&[5, 1, 1]) {
            0 => Fault::Custom(*src.pick(&FAULT_KINDS), src.below(1000) as u32),
            1 => Fault::Os(if src.chance(1, 2) {
                *src.pick(&[28, 32, 11, 5, 104])
            } else {
                // Any error number but EINTR's.
                let n = 1 + src.below(133) as i32;
                if io::Error::from_raw_os_error(n).kind() == ErrorKind::Interrupted { 5 } else { n }
            }),
            _ => Fault::Simple(*src.pick(&FAULT_KINDS)),
        }
    }

    fn error(&self) -> io::Error {
        match self {
            Fault::Custom(k, id) => io::Error::new(*k, Id(*id)),
            Fault::Os(n) => io::Error::from_raw_os_error(*n),
            Fault::Simple(k) => (*k).into(),
        }
    }

    fn is(&self, e: &io::Error) -> bool {
        match self {
            Fault::Custom(k, id) => {
                e.kind() == *k
                    && e.get_ref().and_then(|e| e.downcast_ref::<Id>()).is_some_and(|i| i.0 == *id)
            }
            Fault::Os(n) => e.raw_os_error() == Some(*n),
            Fault::Simple(k) => e.kind() == *k && e.get_ref().is_none() && e.raw_os_error().is_none(),
        }
    }
}

#[derive(Clone, Debug)]
struct Entry {
    text: bool,
    flush: bool,
    act: Act,
    took: usize,
}

#[derive(Default)]
struct State {
    script: Vec<Act>,
    /// What follows the script, over and over; full writes if empty.
    cycle: Vec<Act>,
    pos: usize,
    flush_faults: Vec<Option<Fault>>,
    flushes: usize,
    log: Vec<Entry>,
    data: Vec<u8>,
    styled: Vec<(u8, St)>,
}

impl State {
    fn next(&mut self, buf: &[u8], text: bool) -> io::Result<usize> {
        if buf.is_empty() {
            self.log.push(Entry { text, flush: false, act: Act::Full, took: 0 });
            return Ok(0);
        }
        let act = match self.script.get(self.pos) {
            Some(a) => a.clone(),
            None if self.cycle.is_empty() => Act::Full,
            None => self.cycle[(self.pos - self.script.len()) % self.cycle.len()].clone(),
        };
        self.pos += 1;
        let (took, res) = match &act {
            Act::Full => (buf.len(), Ok(buf.len())),
            Act::Short(n) => {
                let n = (*n).clamp(1, buf.len());
                (n, Ok(n))
            }
            Act::Intr => {
                // In one of the three forms that an error takes.
                let e = match self.pos % 3 {
                    0 => ErrorKind::Interrupted.into(),
                    1 => io::Error::from_raw_os_error(4),
                    _ => io::Error::new(ErrorKind::Interrupted, Id(0)),
                };
                (0, Err(e))
            }
            Act::Hard(f) => (0, Err(f.error())),
            Act::Zero => (0, Ok(0)),
        };
        self.log.push(Entry { text, flush: false, act, took });
        res
    }

    fn flush(&mut self) -> io::Result<()> {
        let f = self.flush_faults.get(self.flushes).cloned().flatten();
        self.flushes += 1;
        let act = f.clone().map_or(Act::Full, Act::Hard);
        self.log.push(Entry { text: false, flush: true, act, took: 0 });
        match f {
            Some(f) => Err(f.error()),
            None => Ok(()),
        }
    }
}

type Shared = Rc<RefCell<State>>;

/// The byte stream below `io::Ansi` and `io::Plain`.
struct Stream(Shared);

/// The bytes escape sequences are made of; text in these checks has none.
fn escape_byte(b: u8) -> bool {
    matches!(b, 0x1b | b'[' | b';' | b'm' | b'0'..=b'9')
}

impl io::Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut st = self.0.borrow_mut();
        let n = st.next(buf, !buf.iter().all(|&b| escape_byte(b)))?;
        st.data.extend(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flush()
    }
}

/// A user's attributed writer relying on the provided methods.
struct User(Shared);

impl stylish::io::Write for User {
    fn write(&mut self, buf: &[u8], style: stylish::Style) -> io::Result<usize> {
        let mut st = self.0.borrow_mut();
        let n = st.next(buf, true)?;
        let style = St::of(style);
        st.styled.extend(buf[..n].iter().map(|&b| (b, style)));
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flush()
    }
}

#[derive(Clone, Debug)]
enum Op {
    All(Vec<u8>, St),
    Once(Vec<u8>, St),
    Fmt(Node),
    Line(Node),
    Flush,
}

enum Writer {
    Ansi(stylish::io::Ansi<Stream>),
    Plain(stylish::io::Plain<Stream>),
    User(User),
}

const WRITERS: [&str; 3] = ["io ansi", "io plain", "user-defined"];

impl Writer {
    fn new(kind: usize, s: &Shared) -> Writer {
        match kind {
            0 => Writer::Ansi(stylish::io::ansi(Stream(s.clone()))),
            1 => Writer::Plain(stylish::io::plain(Stream(s.clone()))),
            _ => Writer::User(User(s.clone())),
        }
    }

    fn op(&mut self, op: &Op, via: u8) -> io::Result<usize> {
        match self {
            Writer::Ansi(w) => match (op, via) {
                (Op::Fmt(n), 0) => stylish::write!(w, "{:s}", n).map(|()| 0),
                (Op::Line(n), 0) => stylish::writeln!(w, "{:s}", n).map(|()| 0),
                _ => run_op(w, op, via),
            },
            Writer::Plain(w) => match (op, via) {
                (Op::Fmt(n), 0) => stylish::write!(w, "{:s}", n).map(|()| 0),
                (Op::Line(n), 0) => stylish::writeln!(w, "{:s}", n).map(|()| 0),
                _ => run_op(w, op, via),
            },
            Writer::User(w) => run_op(w, op, via),
        }
    }

    fn finish(self) -> io::Result<()> {
        match self {
            Writer::Ansi(w) => w.finish().map(|_| ()),
            Writer::Plain(w) => {
                w.into_inner();
                Ok(())
            }
            Writer::User(_) => Ok(()),
        }
    }
}

fn run_op<W: stylish::io::Write>(w: &mut W, op: &Op, via: u8) -> io::Result<usize> {
    match via {
        1 => do_op(&mut &mut *w, op),
        2 => {
            let mut d: &mut dyn stylish::io::Write = w;
            do_op(&mut d, op)
        }
        3 => do_op(stylish::io::Write::by_ref(w), op),
        _ => do_op(w, op),
    }
}

fn do_op<W: stylish::io::Write>(w: &mut W, op: &Op) -> io::Result<usize> {
    match op {
        Op::All(b, st) => w.write_all(b, st.real()).map(|()| b.len()),
        Op::Once(b, st) => w.write(b, st.real()),
        Op::Fmt(n) => stylish::write!(w, "{:s}", n).map(|()| 0),
        Op::Line(n) => stylish::writeln!(w, "{:s}", n).map(|()| 0),
        Op::Flush => w.flush().map(|()| 0),
    }
}

fn clean_bytes(b: Vec<u8>) -> Vec<u8> {
    b.into_iter().map(|b| if escape_byte(b) { b'x' } else { b }).collect()
}

fn clean_str(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii() && escape_byte(c as u8) { 'x' } else { c }).collect()
}

/// The same value with no byte of an escape sequence in its text.
fn clean(n: Node) -> Node {
    let vec = |v: Vec<Node>| v.into_iter().map(clean).collect::<Vec<_>>();
    let b = |n: Box<Node>| Box::new(clean(*n));
    match n {
        Node::Text(s, h) => Node::Text(clean_str(&s), h),
        Node::Seq(v) => Node::Seq(vec(v)),
        Node::With(r, v) => Node::With(r, vec(v)),
        Node::Chain(r, q, v) => Node::Chain(r, q, vec(v)),
        Node::Abs(s, st, h) => Node::Abs(clean_str(&s), st, h),
        Node::Val(..) => Node::Text("val".into(), How::Str),
        Node::Chunks(c, t) => {
            let parts = c.parts.iter().map(|p| clean_str(p)).collect();
            // Templates with brackets would look like part of a sequence.
            Node::Chunks(Chunks { parts, ..c }, if t == 1 || t == 17 { t - 1 } else { t })
        }
        Node::Args(t @ (18 | 19), v) => Node::Args(t - 2, vec(v)),
        Node::Args(t, v) => Node::Args(t, vec(v)),
        Node::Attrs(t, n) => Node::Attrs(t, b(n)),
        Node::Scopes(r, n) => Node::Scopes(r, b(n)),
        Node::Attributed(r) => Node::Attributed(r.into_iter().map(|(s, st)| (clean_str(&s), st)).collect()),
        Node::Recorded(n) => Node::Recorded(b(n)),
        Node::Twice(n) => Node::Twice(b(n)),
        Node::Ref(n) => Node::Ref(b(n)),
        Node::Dyn(n) => Node::Dyn(b(n)),
        Node::WriteFmt(n, h) => Node::WriteFmt(b(n), h),
        Node::Line(n, h) => Node::Line(b(n), h),
        Node::Tick(i, n) => Node::Tick(i, b(n)),
        Node::Inner(_, n) => Node::Inner(0, b(n)),
        Node::Fail(s) => Node::Fail(clean_str(&s)),
    }
}

fn gen_ops(src: &mut Src) -> Vec<(Op, u8)> {
    let g = Gen { max_text: 2000, ..Gen::PLAIN };
    src.list(1, 30, 5, |src| {
        let via = src.below(4) as u8;
        let op = match src.weighted(&[8, 6, 4, 2, 2, 1, 1]) {
            0 => Op::All(clean_bytes(text::bytes(src, 3000)), St::generate(src)),
            1 => Op::Once(clean_bytes(text::bytes(src, 3000)), St::generate(src)),
            2 => Op::Fmt(clean(g.doc(src))),
            3 => Op::Line(clean(g.node(src, 1))),
            4 => Op::Flush,
            5 => Op::All(Vec::new(), St::generate(src)),
            _ => Op::Fmt(clean(Gen { fail: 12, ..g }.doc(src))),
        };
        (op, via)
    })
}

fn op_bytes(op: &Op) -> Vec<(u8, St)> {
    let node = |n: &Node, nl: bool| {
        let mut v = Vec::new();
        let ok = flatten(n, PLAIN, &mut v).is_ok();
        if nl && ok {
            v.push(('\n', PLAIN));
        }
        let mut out = Vec::new();
        for (c, st) in v {
            let mut b = [0; 4];
            out.extend(c.encode_utf8(&mut b).bytes().map(|b| (b, st)));
        }
        out
    };
    match op {
        Op::All(b, st) | Op::Once(b, st) => b.iter().map(|&b| (b, *st)).collect(),
        Op::Fmt(n) => node(n, false),
        Op::Line(n) => node(n, true),
        Op::Flush => Vec::new(),
    }
}

/// Whether a value in it fails by itself.
fn fails(op: &Op) -> bool {
    match op {
        Op::Fmt(n) | Op::Line(n) => flatten(n, PLAIN, &mut Vec::new()).is_err(),
        _ => false,
    }
}

/// What arrived, as bytes in styles; `done` requires a complete stream.
fn delivered(kind: usize, st: &State, done: bool) -> Result<Vec<(u8, St)>, String> {
    match kind {
        0 => {
            let t = read_ansi(&st.data)?;
            if done && t.truncated {
                return Err("stream ends within an escape sequence".into());
            }
            if done && t.end != Term::default() {
                return Err(format!("after finishing the terminal is in {:?}", t.end));
            }
            Ok(t.toks
                .iter()
                .filter_map(|t| if let Tok::Byte(b, s) = t { Some((*b, *s)) } else { None })
                .collect())
        }
        1 => Ok(st.data.iter().map(|&b| (b, PLAIN)).collect()),
        _ => Ok(st.styled.clone()),
    }
}

fn compare(kind: usize, got: &[(u8, St)], want: &[(u8, St)]) -> Result<(), String> {
    let want: Vec<(u8, St)> =
        if kind == 1 { want.iter().map(|b| (b.0, PLAIN)).collect() } else { want.to_vec() };
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "delivered bytes differ at {i}: {:?}, expected {:?} ({} bytes, expected {})",
        got.get(i),
        want.get(i),
        got.len(),
        want.len()
    ))
}

fn gen_script(src: &mut Src, intr: u64) -> Vec<Act> {
    let style = src.below(4);
    let mut script = src.list(0, 400, 25, |src| match style {
        0 => match src.weighted(&[4, 4, 2 * intr]) {
            0 => Act::Full,
            1 => Act::Short(text::size(src, 4000).max(1)),
            _ => Act::Intr,
        },
        1 => Act::Short(1),
        2 => {
            if src.chance(1, 2) {
                Act::Intr
            } else {
                Act::Short(1 + src.idx(4))
            }
        }
        _ => {
            if src.chance(1, 5) {
                Act::Intr
            } else {
                Act::Full
            }
        }
    });
    if src.chance(1, 30) {
        let n = text::size(src, 2000);
        script.extend(std::iter::repeat_n(Act::Short(1), n));
    }
    if src.chance(1, 30) {
        let n = text::size(src, 500);
        let at = src.idx(script.len() + 1);
        script.splice(at..at, std::iter::repeat_n(Act::Intr, n));
    }
    script
}

// ---------------------------------------------------------------- C12

pub fn c12_delivery(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let kind = src.idx(3);
    let ops = gen_ops(src);
    let script = gen_script(src, 1);
    delivery(case, kind, &ops, script, Vec::new())
}

/// Large buffers and values, and streams that go on the same way.
fn gen_large(src: &mut Src) -> (Vec<(Op, u8)>, Vec<Act>, Vec<Act>) {
    let unit = clean_bytes(text::bytes(src, 9));
    let n = match src.below(3) {
        0 => (1usize << src.idx(19)) + src.idx(5),
        1 => (1 << 16) + src.idx(4),
        _ => text::size(src, 200_000),
    };
    let bytes: Vec<u8> = if unit.is_empty() { vec![b'y'; n] } else { unit.iter().cycle().take(n).copied().collect() };
    let st = St::generate(src);
    let mut ops = gen_ops(src);
    ops.truncate(3);
    let text = String::from_utf8_lossy(&bytes).into_owned();
    let op = match src.below(5) {
        0 => Op::Once(bytes, st),
        1 => Op::Fmt(Node::Abs(text, st, 0)),
        2 => Op::Line(Node::Text(text, How::Std)),
        3 => {
            // Many small pieces.
            let sts = [St::generate(src), St::generate(src)];
            Op::Fmt(Node::Attributed(
                (0..text::size(src, 20_000).max(300)).map(|i| ("yé".into(), sts[i % 2])).collect(),
            ))
        }
        _ => Op::All(bytes, st),
    };
    ops.push((op, src.below(4) as u8));
    ops.push((Op::All(b"end".to_vec(), St::generate(src)), 0));
    let mut cycle = src.list(0, 6, 2, |src| match src.below(3) {
        0 => Act::Short(text::size(src, 100_000).max(1)),
        1 => Act::Intr,
        _ => Act::Full,
    });
    if !cycle.is_empty() && cycle.iter().all(|a| *a == Act::Intr) {
        cycle.push(Act::Short(1));
    }
    let intr = if src.chance(1, 4) { text::size(src, 70_000) } else { 0 };
    (ops, vec![Act::Intr; intr], cycle)
}

pub fn c12_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let kind = src.idx(3);
    let (ops, script, cycle) = gen_large(src);
    delivery(case, kind, &ops, script, cycle)
}

fn delivery(
    case: &mut Case,
    kind: usize,
    ops: &[(Op, u8)],
    script: Vec<Act>,
    cycle: Vec<Act>,
) -> Result<(), String> {
    case.repr(|| format!("{} writer, {ops:?}, stream {script:?} then {cycle:?}", WRITERS[kind]));
    let shared: Shared = Default::default();
    shared.borrow_mut().script = script;
    shared.borrow_mut().cycle = cycle;
    let mut w = Writer::new(kind, &shared);
    let mut want = Vec::new();
    let name = WRITERS[kind];
    for (i, (op, via)) in ops.iter().enumerate() {
        let before = shared.borrow().log.len();
        let res = w.op(op, *via);
        let log = shared.borrow().log[before..].to_vec();
        let bytes = op_bytes(op);
        match (op, res) {
            (Op::Once(b, st), Ok(n)) => {
                if n > b.len() || (n == 0 && !b.is_empty()) {
                    return Err(format!("{name}, operation {i}: write of {} bytes returned {n}", b.len()));
                }
                want.extend(b[..n].iter().map(|&b| (b, *st)));
            }
            (Op::Once(..), Err(e)) => {
                let last = log.last();
                let ok = e.kind() == ErrorKind::Interrupted
                    && last.is_some_and(|l| l.text && l.act == Act::Intr);
                if !ok {
                    return Err(format!("{name}, operation {i}: write reported {e:?}, stream did {last:?}"));
                }
            }
            (_, Err(e)) if fails(op) && e.kind() != ErrorKind::Interrupted => want.extend(bytes),
            (_, Ok(_)) if fails(op) => return Err(format!("{name}, operation {i}: a failing value, and no error")),
            (_, Ok(_)) => want.extend(bytes),
            (_, Err(e)) => return Err(format!("{name}, operation {i}: reported {e:?} without a hard error")),
        }
        if let Op::Once(..) = op {
            if log.iter().filter(|l| l.text).count() > 1 {
                return Err(format!("{name}, operation {i}: a single write made several attempts on its text"));
            }
        }
        if let Op::All(b, _) = op {
            if b.is_empty() && !log.is_empty() {
                return Err(format!("{name}, operation {i}: wrote for an empty buffer"));
            }
        }
    }
    w.finish().map_err(|e| format!("{name}, finish: {e:?}"))?;
    let st = shared.borrow();
    case.nontrivial = st.log.iter().any(|l| matches!(l.act, Act::Short(_) | Act::Intr));
    case.class(st.log.iter().any(|l| !l.text && l.act == Act::Intr), "interrupted within a style change");
    case.class(st.log.iter().any(|l| l.text && l.act == Act::Intr), "interrupted on text");
    case.class(st.log.iter().any(|l| !l.text && matches!(l.act, Act::Short(_))), "short write within a style change");
    case.class(st.log.windows(2).any(|w| w[0].act == Act::Intr && w[1].act == Act::Intr), "interrupted twice in a row");
    compare(kind, &delivered(kind, &st, true).map_err(|e| format!("{name}: {e}"))?, &want)
        .map_err(|e| format!("{name}: {e}"))
}

// ---------------------------------------------------------------- C13

pub fn c13_faults(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let kind = src.idx(3);
    let ops = gen_ops(src);
    let mut script = gen_script(src, 1);
    // Hard faults at chosen places.
    for _ in 0..1 + src.below(3) {
        let at = match src.below(2) {
            0 => src.idx(script.len() + 1),
            _ => src.idx(60),
        };
        while script.len() < at {
            script.push(Act::Full);
        }
        let fault = if src.chance(1, 5) { Act::Zero } else { Act::Hard(Fault::generate(src)) };
        script.insert(at, fault);
    }
    let flush_faults: Vec<Option<Fault>> =
        src.list(0, 4, 1, |src| src.chance(1, 2).then(|| Fault::generate(src)));
    faults(case, kind, &ops, script, Vec::new(), flush_faults)
}

/// A fault far into large writes.
pub fn c13_large(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let kind = src.idx(3);
    let (ops, mut script, cycle) = gen_large(src);
    let at = match src.below(3) {
        0 => (1usize << src.idx(18)) + src.idx(3),
        1 => text::size(src, 70_000),
        _ => src.idx(1000),
    };
    let mut i = 0;
    while script.len() < at {
        script.push(if cycle.is_empty() { Act::Short(1 + at % 7) } else { cycle[i % cycle.len()].clone() });
        i += 1;
    }
    let fault = if src.chance(1, 5) { Act::Zero } else { Act::Hard(Fault::generate(src)) };
    script.insert(at, fault);
    faults(case, kind, &ops, script, cycle, Vec::new())
}

fn faults(
    case: &mut Case,
    kind: usize,
    ops: &[(Op, u8)],
    script: Vec<Act>,
    cycle: Vec<Act>,
    flush_faults: Vec<Option<Fault>>,
) -> Result<(), String> {
    let name = WRITERS[kind];
    case.repr(|| {
        format!("{name} writer, {ops:?}, stream {script:?} then {cycle:?}, flushes {flush_faults:?}")
    });
    let shared: Shared = Default::default();
    shared.borrow_mut().script = script;
    shared.borrow_mut().cycle = cycle;
    shared.borrow_mut().flush_faults = flush_faults;
    let mut w = Writer::new(kind, &shared);
    let mut want: Vec<(u8, St)> = Vec::new();
    let mut failed_before = false;
    for (i, (op, via)) in ops.iter().enumerate() {
        let (before, data_before) = {
            let s = shared.borrow();
            (s.log.len(), s.data.len())
        };
        let res = w.op(op, *via);
        let st = shared.borrow();
        let log = &st.log[before..];
        let at = |e: String| format!("{name}, operation {i}: {e}");
        let single = matches!(op, Op::Once(..));
        let fault = log.iter().position(|l| {
            matches!(l.act, Act::Hard(_)) || (l.act == Act::Zero && !(single && l.text))
        });
        let bytes = op_bytes(op);
        if let Some(f) = fault {
            let entry = &log[f];
            let err = match res {
                Err(e) => e,
                Ok(n) => return Err(at(format!("success ({n}) although the stream did {entry:?}"))),
            };
            let same = match &entry.act {
                Act::Hard(fault) => fault.is(&err),
                _ => err.kind() == ErrorKind::WriteZero,
            };
            if !same {
                return Err(at(format!("reported {err:?}, the stream did {entry:?}")));
            }
            if f + 1 != log.len() {
                return Err(at(format!("{} attempts after the stream did {entry:?}", log.len() - f - 1)));
            }
            let text: usize = log.iter().filter(|l| l.text).map(|l| l.took).sum();
            if single && text > 0 {
                return Err(at(format!("the failed single write delivered {text} bytes")));
            }
            if text > bytes.len() {
                return Err(at(format!("delivered {text} of {} bytes", bytes.len())));
            }
            want.extend(&bytes[..text]);
            case.nontrivial = true;
            case.class(entry.text, "failed on text");
            case.class(entry.flush, "failed on flush");
            case.class(!entry.text && !entry.flush, "failed within a style change");
            case.class(entry.act == Act::Zero, "stopped accepting");
            case.class(failed_before, "second failure");
            case.class(matches!(op, Op::Fmt(_) | Op::Line(_)), "failed in a formatted write");
            // Everything up to the fault is as it would have been without.
            if !failed_before && !ops[..i].iter().any(|o| matches!(o.0, Op::Once(..))) {
                let clean: Shared = Default::default();
                let mut twin = Writer::new(kind, &clean);
                for (o, v) in &ops[..=i] {
                    if let (false, Err(e)) = (fails(o), twin.op(o, *v)) {
                        return Err(at(format!("{e:?} without any fault")));
                    }
                }
                let c = clean.borrow();
                if !c.data.starts_with(&st.data) || !c.styled.starts_with(&st.styled) {
                    return Err(at("what was delivered is no prefix of the output without the fault".into()));
                }
            }
            failed_before = true;
            if !entry.text && !entry.flush {
                // Cut off within a style change: nothing more is promised.
                let got = delivered(kind, &st, false).map_err(at)?;
                return compare(kind, &got, &want).map_err(at);
            }
        } else {
            match (op, res) {
                (Op::Once(b, st), Ok(n)) => {
                    if n > b.len() {
                        return Err(at(format!("write of {} bytes returned {n}", b.len())));
                    }
                    let took: usize = log.iter().filter(|l| l.text).map(|l| l.took).sum();
                    if took != n {
                        return Err(at(format!("write returned {n}, the stream took {took}")));
                    }
                    want.extend(b[..n].iter().map(|&b| (b, *st)));
                }
                (Op::Once(..), Err(e)) => {
                    if e.kind() != ErrorKind::Interrupted
                        || !log.last().is_some_and(|l| l.text && l.act == Act::Intr)
                    {
                        return Err(at(format!("write reported {e:?} without a fault")));
                    }
                    if st.data.len() < data_before {
                        return Err(at("data went back".into()));
                    }
                }
                (_, Err(_)) if fails(op) => want.extend(bytes),
                (_, Ok(_)) if fails(op) => return Err(at("a failing value, and no error".into())),
                (_, Ok(_)) => want.extend(bytes),
                (_, Err(e)) => return Err(at(format!("reported {e:?} without a fault: {log:?}"))),
            }
        }
    }
    let before = shared.borrow().log.len();
    let res = w.finish();
    let st = shared.borrow();
    let log = &st.log[before..];
    let fault = log.iter().position(|l| matches!(l.act, Act::Hard(_) | Act::Zero));
    match (fault, res) {
        (None, Ok(())) => {
            let got = delivered(kind, &st, true).map_err(|e| format!("{name}: {e}"))?;
            compare(kind, &got, &want).map_err(|e| format!("{name}: {e}"))
        }
        (None, Err(e)) => Err(format!("{name}: finish reported {e:?} without a fault")),
        (Some(f), res) => {
            case.class(true, "failed in finish");
            let ok = match (&log[f].act, res) {
                (Act::Hard(fault), Err(e)) => fault.is(&e),
                (_, Err(e)) => e.kind() == ErrorKind::WriteZero,
                _ => false,
            };
            if !ok || f + 1 != log.len() {
                return Err(format!("{name}: finish did not stop with the error of {:?}", log[f]));
            }
            let got = delivered(kind, &st, false).map_err(|e| format!("{name}: {e}"))?;
            compare(kind, &got, &want).map_err(|e| format!("{name}: {e}"))
        }
    }
}
