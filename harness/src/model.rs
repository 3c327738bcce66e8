//! The reference model: styles, a terminal, an HTML reader.

use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};

use crate::engine::Src;

pub const COLORS: [Color; 17] = [
    Color::Default,
    Color::Black,
    Color::Red,
    Color::Green,
    Color::Yellow,
    Color::Blue,
    Color::Magenta,
    Color::Cyan,
    Color::White,
    Color::BrightBlack,
    Color::BrightRed,
    Color::BrightGreen,
    Color::BrightYellow,
    Color::BrightBlue,
    Color::BrightMagenta,
    Color::BrightCyan,
    Color::BrightWhite,
];

pub const COLOR_NAMES: [&str; 17] = [
    "default",
    "black",
    "red",
    "green",
    "yellow",
    "blue",
    "magenta",
    "cyan",
    "white",
    "brightblack",
    "brightred",
    "brightgreen",
    "brightyellow",
    "brightblue",
    "brightmagenta",
    "brightcyan",
    "brightwhite",
];

/// What the HTML writer's stylesheet vocabulary means, pinned.
pub const CSS: [&str; 17] = [
    "inherit", "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "gray", "#af0000",
    "#00ff00", "#ffff00", "#0000ff", "#ff00ff", "#00ffff", "#ffffff",
];

pub const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];
pub const INTENSITY_NAMES: [&str; 3] = ["normal", "bold", "faint"];

/// A style as the model sees it: indices into the tables above.
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct St {
    pub fg: u8,
    pub bg: u8,
    pub int: u8,
}

pub const N_STYLES: usize = 17 * 17 * 3;
pub const PLAIN: St = St { fg: 0, bg: 0, int: 0 };

pub fn color_index(c: Color) -> u8 {
    match c {
        Color::Default => 0,
        Color::Black => 1,
        Color::Red => 2,
        Color::Green => 3,
        Color::Yellow => 4,
        Color::Blue => 5,
        Color::Magenta => 6,
        Color::Cyan => 7,
        Color::White => 8,
        Color::BrightBlack => 9,
        Color::BrightRed => 10,
        Color::BrightGreen => 11,
        Color::BrightYellow => 12,
        Color::BrightBlue => 13,
        Color::BrightMagenta => 14,
        Color::BrightCyan => 15,
        Color::BrightWhite => 16,
        _ => 255,
    }
}

pub fn intensity_index(i: Intensity) -> u8 {
    match i {
        Intensity::Normal => 0,
        Intensity::Bold => 1,
        Intensity::Faint => 2,
        _ => 255,
    }
}

impl St {
    pub fn nth(i: usize) -> St {
        St { fg: (i % 17) as u8, bg: (i / 17 % 17) as u8, int: (i / 289) as u8 }
    }

    pub fn real(self) -> Style {
        let mut s = Style::default();
        s.foreground = COLORS[self.fg as usize];
        s.background = COLORS[self.bg as usize];
        s.intensity = INTENSITIES[self.int as usize];
        s
    }

    pub fn of(s: Style) -> St {
        St { fg: color_index(s.foreground), bg: color_index(s.background), int: intensity_index(s.intensity) }
    }

    /// Default often, a small palette often, anything otherwise.
    pub fn generate(src: &mut Src) -> St {
        src.span(|src| match src.weighted(&[3, 6, 6]) {
            0 => PLAIN,
            1 => {
                let c = [0u8, 2, 6, 10];
                St { fg: *src.pick(&c), bg: *src.pick(&c), int: src.below(3) as u8 }
            }
            _ => St { fg: src.below(17) as u8, bg: src.below(17) as u8, int: src.below(3) as u8 },
        })
    }
}

/// A restyle expression. Its [`Restyle`] implementation goes through the
/// library's implementations for the shape it stands for; [`R::model`] is the
/// reference semantics.
#[derive(Clone, Debug)]
pub enum R {
    Unit,
    Fg(u8),
    Bg(u8),
    Int(u8),
    None,
    Some(Box<R>),
    Diff(Option<u8>, Option<u8>, Option<u8>),
    /// The difference from the first style to the second.
    DiffOf(St, St),
    Abs(St),
    Pair(Box<R>, Box<R>),
    Triple(Box<R>, Box<R>, Box<R>),
    Slice(Vec<R>),
    Fgs(Vec<u8>),
    Ref(Box<R>),
    Boxed(Box<R>),
    Dyn(Box<R>),
    DynRef(Box<R>),
    /// A user-defined restyle that depends on the style in force.
    Swap,
    /// Concrete types, some without fields.
    Typed(u8, u8),
    /// A user-defined restyle made of other restyles.
    User(Box<R>),
}

pub struct SwapRestyle;

impl Restyle for SwapRestyle {
    fn apply(&self, style: Style) -> Style {
        style.with((Foreground(style.background), Background(style.foreground)))
    }
}

pub fn diff(f: Option<u8>, b: Option<u8>, i: Option<u8>) -> StyleDiff {
    let mut d = StyleDiff::default();
    d.foreground = f.map(|f| COLORS[f as usize]);
    d.background = b.map(|b| COLORS[b as usize]);
    d.intensity = i.map(|i| INTENSITIES[i as usize]);
    d
}

impl Restyle for R {
    fn apply(&self, style: Style) -> Style {
        match self {
            R::Unit => style.with(()),
            R::Fg(c) => style.with(Foreground(COLORS[*c as usize])),
            R::Bg(c) => style.with(Background(COLORS[*c as usize])),
            R::Int(i) => style.with(INTENSITIES[*i as usize]),
            R::None => style.with(None::<Foreground>),
            R::Some(r) => style.with(Some(&**r)),
            R::Diff(f, b, i) => style.with(diff(*f, *b, *i)),
            R::DiffOf(a, b) => style.with(b.real().diff_from(a.real())),
            R::Abs(s) => style.with(s.real()),
            R::Pair(a, b) => style.with((&**a, &**b)),
            R::Triple(a, b, c) => style.with((&**a, &**b, &**c)),
            R::Slice(rs) => style.with(&rs[..]),
            R::Fgs(cs) => {
                let v: Vec<Foreground> = cs.iter().map(|c| Foreground(COLORS[*c as usize])).collect();
                style.with(&v[..])
            }
            R::Ref(r) => style.with(&&**r),
            R::Boxed(r) => style.with(r),
            R::Dyn(r) => {
                let b: Box<dyn Restyle> = Box::new((**r).clone());
                style.with(b)
            }
            R::DynRef(r) => {
                let b: &dyn Restyle = &**r;
                style.with(b)
            }
            R::Swap => style.with(SwapRestyle),
            R::Typed(t, c) => {
                let (fg, bg) = (Foreground(COLORS[*c as usize]), Background(COLORS[*c as usize]));
                match t {
                    0 => style.with((fg, SwapRestyle)),
                    1 => style.with((SwapRestyle, fg)),
                    2 => style.with(((), SwapRestyle)),
                    3 => style.with((SwapRestyle, ())),
                    4 => style.with((SwapRestyle, bg, SwapRestyle)),
                    5 => style.with((fg, SwapRestyle, bg)),
                    6 => style.with(Some(SwapRestyle)),
                    7 => style.with(Box::new((bg, SwapRestyle))),
                    8 => style.with(&[SwapRestyle, SwapRestyle, SwapRestyle][..]),
                    _ => style.with(((), (), SwapRestyle)),
                }
            }
            R::User(r) => r.apply(style),
        }
    }
}

impl R {
    pub fn model(&self, s: St) -> St {
        match self {
            R::Unit | R::None => s,
            R::Fg(c) => St { fg: *c, ..s },
            R::Bg(c) => St { bg: *c, ..s },
            R::Int(i) => St { int: *i, ..s },
            R::Some(r) | R::Ref(r) | R::Boxed(r) | R::Dyn(r) | R::DynRef(r) | R::User(r) => r.model(s),
            R::Diff(f, b, i) => {
                St { fg: f.unwrap_or(s.fg), bg: b.unwrap_or(s.bg), int: i.unwrap_or(s.int) }
            }
            R::DiffOf(a, b) => St {
                fg: if a.fg == b.fg { s.fg } else { b.fg },
                bg: if a.bg == b.bg { s.bg } else { b.bg },
                int: if a.int == b.int { s.int } else { b.int },
            },
            R::Abs(t) => *t,
            R::Pair(a, b) => b.model(a.model(s)),
            R::Triple(a, b, c) => c.model(b.model(a.model(s))),
            R::Slice(rs) => rs.iter().fold(s, |s, r| r.model(s)),
            R::Fgs(cs) => St { fg: cs.last().copied().unwrap_or(s.fg), ..s },
            R::Swap => St { fg: s.bg, bg: s.fg, ..s },
            R::Typed(t, c) => {
                let swap = |s: St| St { fg: s.bg, bg: s.fg, ..s };
                let (fg, bg) = (|s: St| St { fg: *c, ..s }, |s: St| St { bg: *c, ..s });
                match t {
                    0 => swap(fg(s)),
                    1 => fg(swap(s)),
                    4 => swap(bg(swap(s))),
                    5 => bg(swap(fg(s))),
                    7 => swap(bg(s)),
                    _ => swap(s),
                }
            }
        }
    }

    fn opt(src: &mut Src, n: u64) -> Option<u8> {
        match src.below(n + 1) {
            0 => None,
            v => Some((v - 1) as u8),
        }
    }

    pub fn generate(src: &mut Src, depth: u32) -> R {
        src.span(|src| {
            let b = |src: &mut Src| Box::new(R::generate(src, depth.saturating_sub(1)));
            let n = if depth == 0 { 6 } else { 16 };
            match src.weighted(&[1, 8, 6, 6, 3, 3, 2, 3, 3, 2, 2, 1, 2, 2, 2, 2][..n]) {
                0 => R::Unit,
                1 => R::Fg(src.below(17) as u8),
                2 => R::Bg(src.below(17) as u8),
                3 => R::Int(src.below(3) as u8),
                4 => R::Diff(R::opt(src, 17), R::opt(src, 17), R::opt(src, 3)),
                5 => R::Abs(St::generate(src)),
                6 => R::None,
                7 => R::Pair(b(src), b(src)),
                8 => R::Triple(b(src), b(src), b(src)),
                9 => R::Some(b(src)),
                10 => {
                    if src.chance(1, 12) {
                        let n = crate::text::size(src, 300);
                        let c = src.below(17) as u8;
                        let last = src.below(17) as u8;
                        let mut v = vec![c; n];
                        v.push(last);
                        R::Fgs(v)
                    } else if src.chance(1, 24) {
                        // The elements that matter may be anywhere.
                        let n = crate::text::size(src, 300).max(1);
                        let mut v = vec![R::Int(src.below(3) as u8); n];
                        for _ in 0..1 + src.below(3) {
                            let i = src.idx(n);
                            v[i] = R::generate(src, 0);
                        }
                        R::Slice(v)
                    } else {
                        R::Slice(src.list(0, 6, 2, |src| R::generate(src, depth - 1)))
                    }
                }
                11 => R::Fgs(src.list(0, 6, 2, |src| src.below(17) as u8)),
                12 => R::DiffOf(St::generate(src), St::generate(src)),
                13 if src.chance(1, 2) => R::Swap,
                13 => R::Typed(src.below(10) as u8, src.below(17) as u8),
                14 => match src.below(2) {
                    0 => R::Ref(b(src)),
                    _ => R::DynRef(b(src)),
                },
                _ => match src.below(3) {
                    0 => R::Boxed(b(src)),
                    1 => R::Dyn(b(src)),
                    _ => R::User(b(src)),
                },
            }
        })
    }
}

/// Styled characters, the reference form of any output.
pub type Styled = Vec<(char, St)>;

pub fn chars_of(v: &[(char, St)]) -> String {
    v.iter().map(|&(c, _)| c).collect()
}

pub fn push_str(out: &mut Styled, s: &str, st: St) {
    out.extend(s.chars().map(|c| (c, st)));
}

/// Groups styled characters into maximal runs of one style.
pub fn runs(v: &[(char, St)]) -> Vec<(String, St)> {
    let mut out: Vec<(String, St)> = Vec::new();
    for &(c, st) in v {
        match out.last_mut() {
            Some((s, last)) if *last == st => s.push(c),
            _ => out.push((c.to_string(), st)),
        }
    }
    out
}

pub fn first_difference(got: &[(char, St)], want: &[(char, St)]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Some(format!(
        "at character {i}: got {:?}, expected {:?} (got {} characters, expected {})",
        got.get(i),
        want.get(i),
        got.len(),
        want.len()
    ))
}

/// Terminal attributes: bold and faint are separate bits.
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default)]
pub struct Term {
    fg: u8,
    bg: u8,
    bold: bool,
    faint: bool,
}

impl Term {
    /// The style shown, `None` if it is none a [`Style`] can express.
    pub fn style(self) -> Option<St> {
        let int = match (self.bold, self.faint) {
            (false, false) => 0,
            (true, false) => 1,
            (false, true) => 2,
            (true, true) => return None,
        };
        Some(St { fg: self.fg, bg: self.bg, int })
    }

    fn sgr(&mut self, params: &[u8]) -> Result<(), String> {
        let text = std::str::from_utf8(params).map_err(|_| "not ascii".to_owned())?;
        for p in text.split(';') {
            let n: u32 = if p.is_empty() { 0 } else { p.parse().map_err(|_| format!("bad parameter {p:?}"))? };
            match n {
                0 => *self = Term::default(),
                1 => self.bold = true,
                2 => self.faint = true,
                22 => (self.bold, self.faint) = (false, false),
                30..=37 => self.fg = (n - 29) as u8,
                39 => self.fg = 0,
                90..=97 => self.fg = (n - 81) as u8,
                40..=47 => self.bg = (n - 39) as u8,
                49 => self.bg = 0,
                100..=107 => self.bg = (n - 91) as u8,
                _ => return Err(format!("unexpected SGR parameter {n}")),
            }
        }
        Ok(())
    }
}

/// One thing a terminal reads.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// A byte (of a character) shown in a style.
    Byte(u8, St),
    /// A style change.
    Sgr,
}

pub struct Terminal {
    pub toks: Vec<Tok>,
    pub end: Term,
    /// The output stopped within an escape sequence.
    pub truncated: bool,
}

/// Reads ANSI output whose text has no ESC in it.
pub fn read_ansi(data: &[u8]) -> Result<Terminal, String> {
    let mut toks = Vec::new();
    let mut term = Term::default();
    let mut i = 0;
    while i < data.len() {
        if data[i] != 0x1b {
            let st = term.style().ok_or_else(|| format!("byte {i} shown both bold and faint"))?;
            toks.push(Tok::Byte(data[i], st));
            i += 1;
            continue;
        }
        let start = i;
        i += 1;
        if i >= data.len() {
            return Ok(Terminal { toks, end: term, truncated: true });
        }
        if data[i] != b'[' {
            return Err(format!("byte {start}: escape sequence that is not CSI"));
        }
        i += 1;
        let params = i;
        while i < data.len() && (data[i].is_ascii_digit() || data[i] == b';') {
            i += 1;
        }
        if i >= data.len() {
            return Ok(Terminal { toks, end: term, truncated: true });
        }
        if data[i] != b'm' {
            return Err(format!("byte {start}: control sequence that is not SGR"));
        }
        term.sgr(&data[params..i]).map_err(|e| format!("byte {start}: {e}"))?;
        toks.push(Tok::Sgr);
        i += 1;
    }
    Ok(Terminal { toks, end: term, truncated: false })
}

/// Joins bytes into characters; all bytes of a character have its style.
pub fn toks_to_styled(toks: &[Tok]) -> Result<Styled, String> {
    let bytes: Vec<(u8, St)> =
        toks.iter().filter_map(|t| if let Tok::Byte(b, s) = t { Some((*b, *s)) } else { None }).collect();
    let raw: Vec<u8> = bytes.iter().map(|b| b.0).collect();
    let text = String::from_utf8(raw).map_err(|e| format!("text is not UTF-8: {e}"))?;
    let mut out = Vec::new();
    for (i, c) in text.char_indices() {
        let st = bytes[i].1;
        if bytes[i..i + c.len_utf8()].iter().any(|b| b.1 != st) {
            return Err(format!("style changes within the character {c:?}"));
        }
        out.push((c, st));
    }
    Ok(out)
}

/// Checks complete ANSI output (finished): decodes to `want`, ends default.
pub fn check_ansi(data: &[u8], want: &[(char, St)]) -> Result<(), String> {
    let t = read_ansi(data)?;
    if t.truncated {
        return Err("output ends within an escape sequence".to_owned());
    }
    let got = toks_to_styled(&t.toks)?;
    if let Some(d) = first_difference(&got, want) {
        return Err(format!("terminal shows something else: {d}"));
    }
    if t.end != Term::default() {
        return Err(format!("terminal is left in {:?}", t.end));
    }
    Ok(())
}

/// Economy of the markup in ANSI output.
pub fn check_ansi_economy(data: &[u8]) -> Result<(), String> {
    let t = read_ansi(data)?;
    let mut pending = 0;
    let mut last = PLAIN;
    for (i, tok) in t.toks.iter().enumerate() {
        match tok {
            Tok::Sgr => pending += 1,
            Tok::Byte(_, st) => {
                if pending > 1 {
                    return Err(format!("{pending} escape sequences for one style change (token {i})"));
                }
                if pending == 1 && *st == last {
                    return Err(format!("escape sequence between characters of one style (token {i})"));
                }
                pending = 0;
                last = *st;
            }
        }
    }
    if pending > 1 || (pending == 1 && last == PLAIN) {
        return Err("needless escape sequence at the end".to_owned());
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
pub enum HTok {
    Char(char, St),
    Open,
    Close,
}

fn css(style: &str) -> Result<St, String> {
    let mut st = PLAIN;
    for decl in style.split(';') {
        let decl = decl.trim();
        if decl.is_empty() {
            continue;
        }
        let (prop, value) = decl.split_once(':').ok_or_else(|| format!("bad declaration {decl:?}"))?;
        let value = value.trim();
        let color = || {
            CSS.iter().position(|c| *c == value).map(|i| i as u8).ok_or_else(|| format!("unexpected colour {value:?}"))
        };
        match prop.trim() {
            "color" => st.fg = color()?,
            "background-color" => st.bg = color()?,
            "font-weight" => {
                st.int = match value {
                    "inherit" => 0,
                    "bolder" => 1,
                    "lighter" => 2,
                    _ => return Err(format!("unexpected font-weight {value:?}")),
                }
            }
            p => return Err(format!("unexpected property {p:?}")),
        }
    }
    Ok(st)
}

fn char_ref(name: &str) -> Option<char> {
    match name {
        "amp" => Some('&'),
        "lt" => Some('<'),
        "gt" => Some('>'),
        "quot" => Some('"'),
        "apos" => Some('\''),
        _ => {
            let n = name.strip_prefix('#')?;
            let v = match n.strip_prefix(['x', 'X']) {
                Some(h) => u32::from_str_radix(h, 16).ok()?,
                None => n.parse().ok()?,
            };
            char::from_u32(v)
        }
    }
}

/// Reads HTML output strictly: text and flat style spans only.
pub fn read_html(s: &str) -> Result<(Vec<HTok>, bool), String> {
    let mut toks = Vec::new();
    let mut open: Option<St> = None;
    let mut i = 0;
    while let Some(c) = s[i..].chars().next() {
        match c {
            '<' => {
                let end = s[i..].find('>').ok_or("unterminated tag")? + i;
                let tag = &s[i + 1..end];
                if tag == "/span" {
                    if open.take().is_none() {
                        return Err(format!("byte {i}: closing tag without an open span"));
                    }
                    toks.push(HTok::Close);
                } else {
                    let value = tag
                        .strip_prefix("span style=")
                        .ok_or_else(|| format!("byte {i}: unexpected tag {tag:?}"))?;
                    let value = if let Some(q) = value.strip_prefix('"') {
                        q.strip_suffix('"').ok_or("unbalanced quote")?
                    } else {
                        if value.contains([' ', '\t', '\n', '\r', '"', '\'', '=', '<', '`', '\u{c}']) {
                            return Err(format!("byte {i}: unquoted value {value:?}"));
                        }
                        value
                    };
                    if open.is_some() {
                        return Err(format!("byte {i}: span within a span"));
                    }
                    open = Some(css(value)?);
                    toks.push(HTok::Open);
                }
                i = end + 1;
            }
            '&' => {
                let end = s[i..].find(';').ok_or("character reference without ;")? + i;
                let name = &s[i + 1..end];
                let c = char_ref(name).ok_or_else(|| format!("byte {i}: unknown character reference {name:?}"))?;
                toks.push(HTok::Char(c, open.unwrap_or(PLAIN)));
                i = end + 1;
            }
            '>' | '"' | '\'' => return Err(format!("byte {i}: unescaped {c:?}")),
            c => {
                toks.push(HTok::Char(c, open.unwrap_or(PLAIN)));
                i += c.len_utf8();
            }
        }
    }
    Ok((toks, open.is_some()))
}

pub fn html_styled(toks: &[HTok]) -> Styled {
    toks.iter().filter_map(|t| if let HTok::Char(c, s) = t { Some((*c, *s)) } else { None }).collect()
}

/// Checks finished HTML output against the expected characters.
pub fn check_html(s: &str, want: &[(char, St)]) -> Result<(), String> {
    let (toks, open) = read_html(s)?;
    if open {
        return Err("a span is left open".to_owned());
    }
    if let Some(d) = first_difference(&html_styled(&toks), want) {
        return Err(format!("HTML reads as something else: {d}"));
    }
    Ok(())
}

pub fn check_html_economy(s: &str) -> Result<(), String> {
    let (toks, _) = read_html(s)?;
    let mut last = PLAIN;
    let (mut opened, mut closed) = (0, 0);
    let mut in_span = false;
    for (i, tok) in toks.iter().enumerate() {
        match tok {
            HTok::Open => (opened, in_span) = (opened + 1, true),
            HTok::Close => (closed, in_span) = (closed + 1, false),
            HTok::Char(_, st) => {
                if opened > 1 || closed > 1 {
                    return Err(format!("more than one tag pair for one style change (token {i})"));
                }
                if opened + closed > 0 && *st == last {
                    return Err(format!("tags between characters of one style (token {i})"));
                }
                if *st == PLAIN && in_span {
                    return Err(format!("span around unstyled text (token {i})"));
                }
                (opened, closed) = (0, 0);
                last = *st;
            }
        }
    }
    if opened > 0 || closed > 1 {
        return Err("needless tags at the end".to_owned());
    }
    Ok(())
}
