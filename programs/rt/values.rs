// Values to format, and a log of evaluations: std only.

use std::{
    cell::{Cell, RefCell},
    fmt,
};

// ---------------------------------------------------------------- log

thread_local! {
    static LOG: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
}

/// Notes that expression `k` was evaluated.
pub fn l<T>(k: u32, v: T) -> T {
    LOG.with(|l| l.borrow_mut().push(k));
    v
}

/// A different value each time.
pub fn turn() -> i64 {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.push(777);
        l.len() as i64 % 9 + 1
    })
}

pub fn take_log() -> Vec<u32> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ---------------------------------------------------------------- values

/// Shows every option of the formatter it is given.
#[derive(Clone, Copy)]
pub struct Probe(pub u8);

impl Probe {
    fn show(&self, name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(name)?;
        let align = match f.align() {
            None => "none",
            Some(fmt::Alignment::Left) => "left",
            Some(fmt::Alignment::Center) => "center",
            Some(fmt::Alignment::Right) => "right",
        };
        let s = std::format!(
            "[{} w={:?} p={:?} fill={:?} align={align} plus={} minus={} alt={} zero={}]",
            self.0,
            f.width(),
            f.precision(),
            f.fill(),
            f.sign_plus(),
            f.sign_minus(),
            f.alternate(),
            f.sign_aware_zero_pad(),
        );
        f.write_str(&s)?;
        if name == "Debug" {
            fmt::Debug::fmt(&0xabu8, f)?;
        }
        Ok(())
    }
}

macro_rules! probe {
    ($($t:ident)*) => { $(impl fmt::$t for Probe {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.show(stringify!($t), f)
        }
    })* };
}
probe!(Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);

/// `pad` with text, in several writes for `Debug`.
#[derive(Clone)]
pub struct Pad(pub &'static str);

impl fmt::Display for Pad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(self.0)
    }
}

impl fmt::Debug for Pad {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Pad").field("0", &self.0).field("len", &self.0.len()).finish()
    }
}

/// `pad_integral` with a prefix.
#[derive(Clone)]
pub struct Int(pub bool, pub &'static str);

macro_rules! int {
    ($($t:ident)*) => { $(impl fmt::$t for Int {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.pad_integral(self.0, concat!("0", stringify!($t)), self.1)
        }
    })* };
}
int!(Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);

/// Formats through further formatting macros, of std and char by char.
#[derive(Clone)]
pub struct Nest(pub i32, pub &'static str);

impl fmt::Display for Nest {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write as _;
        write!(f, "<{:>4}|{:#x}|", self.0, self.0)?;
        for c in self.1.chars() {
            f.write_char(c)?;
        }
        fmt::Display::fmt(&self.0, f)?;
        f.write_fmt(format_args!("{:-^6}>", self.1))
    }
}

impl fmt::Debug for Nest {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entry(&self.1, &self.0).entries([(1, Pad("é"))]).finish()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Deep {
    pub a: i64,
    pub b: Vec<Option<&'static str>>,
    pub c: (f64, char),
    pub d: Kind,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Unit,
    Tuple(u8, String),
    Named { x: Box<Kind> },
}

pub fn deep(n: i64) -> Deep {
    Deep {
        a: n,
        b: vec![Some("q\"\n"), None],
        c: (n as f64 / 8.0, 'é'),
        d: Kind::Named { x: Box::new(Kind::Tuple(n as u8, String::from("x\ty"))) },
    }
}

/// Has every formatting trait; shows the options it is given.
#[derive(Clone, Copy)]
pub struct Any(pub u8);

macro_rules! any {
    ($($t:ident)*) => { $(impl fmt::$t for Any {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::$t::fmt(&Probe(self.0), f)
        }
    })* };
}
any!(Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);

pub fn sink<T>(_: T) {}

/// Runs a future to its end.
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

/// A future that is ready at the second time of asking.
pub async fn later<T>(v: T) -> T {
    let mut asked = false;
    std::future::poll_fn(move |_| {
        if asked {
            std::task::Poll::Ready(())
        } else {
            asked = true;
            std::task::Poll::Pending
        }
    })
    .await;
    v
}

/// Writes its text this many times.
pub struct Pieces<'a>(pub &'a str, pub usize);

impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (0..self.1).try_for_each(|_| f.write_str(self.0))
    }
}

impl fmt::Debug for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (0..self.1).try_for_each(|_| self.0.chars().try_for_each(|c| fmt::Write::write_char(f, c)))
    }
}
