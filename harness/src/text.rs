//! Text, length and byte generators, seeded with the literals that occur in
//! the code under test.

use std::{path::Path, sync::OnceLock};

use crate::engine::Src;

#[derive(Default, Debug)]
pub struct Lits {
    /// Integers below 2^20, sorted, without duplicates.
    pub ints: Vec<usize>,
    /// Those of the macros, in a range that is worth trying as a count.
    #[allow(dead_code)]
    pub counts: Vec<usize>,
    pub strs: Vec<String>,
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut entries: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    entries.sort();
    for p in entries {
        let name = p.file_name().unwrap().to_string_lossy().into_owned();
        if p.is_dir() {
            if !matches!(&*name, "target" | "tests" | ".git" | "examples" | "benches") {
                walk(&p, out);
            }
        } else if name.ends_with(".rs") {
            out.push(p);
        }
    }
}

fn scan(text: &str, lits: &mut Lits) {
    let mut chars = text.chars().peekable();
    let mut prev_ident = false;
    while let Some(c) = chars.next() {
        match c {
            '/' if chars.peek() == Some(&'/') => {
                while chars.peek().is_some_and(|&c| c != '\n') {
                    chars.next();
                }
                prev_ident = false;
            }
            '"' => {
                let mut s = String::new();
                while let Some(c) = chars.next() {
                    match c {
                        '"' => break,
                        '\\' => escape(&mut chars, &mut s),
                        c => s.push(c),
                    }
                }
                if !s.is_empty() && s.len() <= 300 {
                    lits.strs.push(s);
                }
                prev_ident = false;
            }
            '\'' => {
                // A char literal or a lifetime.
                let mut look = chars.clone();
                let mut s = String::new();
                match look.next() {
                    Some('\\') => escape(&mut look, &mut s),
                    Some(c) => s.push(c),
                    None => {}
                }
                if look.next() == Some('\'') {
                    lits.strs.push(s);
                    chars = look;
                }
                prev_ident = false;
            }
            c if c.is_ascii_digit() && !prev_ident => {
                let mut s = String::from(c);
                while chars.peek().is_some_and(|c| c.is_ascii_alphanumeric() || *c == '_') {
                    s.push(chars.next().unwrap());
                }
                let s: String = s.replace('_', "");
                for suffix in ["usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize", "u128"] {
                    if let Some(t) = s.strip_suffix(suffix) {
                        if let Ok(n) = t.parse() {
                            lits.ints.push(n);
                        }
                    }
                }
                let v = if let Some(h) = s.strip_prefix("0x") {
                    usize::from_str_radix(h, 16).ok()
                } else if let Some(b) = s.strip_prefix("0b") {
                    usize::from_str_radix(b, 2).ok()
                } else {
                    s.parse().ok()
                };
                lits.ints.extend(v);
            }
            c => prev_ident = c.is_alphanumeric() || c == '_',
        }
    }
}

fn escape(chars: &mut std::iter::Peekable<std::str::Chars<'_>>, s: &mut String) {
    match chars.next() {
        Some('n') => s.push('\n'),
        Some('t') => s.push('\t'),
        Some('r') => s.push('\r'),
        Some('0') => s.push('\0'),
        Some('x') => {
            let h: String = chars.by_ref().take(2).collect();
            s.extend(u8::from_str_radix(&h, 16).ok().map(|b| b as char));
        }
        Some('u') => {
            chars.next();
            let mut h = String::new();
            for c in chars.by_ref() {
                if c == '}' {
                    break;
                }
                h.push(c);
            }
            s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
        }
        Some('\n') => {}
        Some(c) => s.push(c),
        None => {}
    }
}

/// The literals in the sources of the code under test.
pub fn lits() -> &'static Lits {
    static LITS: OnceLock<Lits> = OnceLock::new();
    LITS.get_or_init(|| {
        let mut files = Vec::new();
        walk(Path::new("/repo"), &mut files);
        let mut lits = Lits::default();
        for f in files {
            if let Ok(text) = std::fs::read_to_string(&f) {
                let n = lits.ints.len();
                scan(&text, &mut lits);
                if f.starts_with("/repo/macros") {
                    let new: Vec<usize> = lits.ints[n..].iter().copied().filter(|n| (10..=400).contains(n)).collect();
                    lits.counts.extend(new);
                }
            }
        }
        // Powers of integer literals are not literal: add a few products.
        lits.ints.retain(|&n| n < 1 << 20);
        let small: Vec<usize> = lits.ints.clone();
        for &n in &small {
            if (2..=16).contains(&n) {
                lits.ints.push(1 << n);
            }
        }
        lits.ints.sort();
        lits.ints.dedup();
        lits.counts.sort();
        lits.counts.dedup();
        lits.counts.truncate(8);
        lits.strs.sort();
        lits.strs.dedup();
        lits
    })
}

/// A count or length: small, near a boundary, or near a literal of the code.
pub fn size(src: &mut Src, max: usize) -> usize {
    let n = match src.weighted(&[10, 3, 4, 2]) {
        0 => src.idx(9),
        1 => {
            let p = 1usize << src.idx(17);
            (p + src.idx(3)).saturating_sub(1)
        }
        2 => {
            let ints = &lits().ints;
            if ints.is_empty() {
                src.idx(40)
            } else {
                (*src.pick(ints) + src.idx(3)).saturating_sub(1)
            }
        }
        _ => src.idx(300),
    };
    n.min(max)
}

const SNIPPETS: &[&str] = &[
    "a", "b", " ", "hello", "&", "<", ">", "\"", "'", "/", "\n", "{", "}", "{}", "{{", "=", ";", "m", "[",
    "0", "1", "&amp;", "&lt;", "&#x27;", "&quot", "&#39;", "<span style=color:red>", "</span>", "<b>",
    "<!--", "]]>", "[31m", "[0m", "\t", "\r", "\r\n", "\0", "\x07", "\x7f", "\x08", "é", "ß", "日本",
    "🦀", "👩‍👩‍👧", "e\u{301}", "\u{200d}", "\u{feff}", "\u{2028}", "\u{202e}", "\u{80}", "\u{9b}", "\u{7ff}",
    "\u{800}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\\", "%", "#",
    "color:inherit", "style=", "$", "!", "  ", "xyz",
];

fn snippet(src: &mut Src, out: &mut String) {
    match src.weighted(&[24, 6, 4, 3, 3]) {
        0 => out.push_str(src.pick(SNIPPETS)),
        1 => out.push((0x20 + src.below(0x5f)) as u8 as char),
        2 => {
            let strs = &lits().strs;
            if !strs.is_empty() {
                out.push_str(src.pick(strs));
            }
        }
        3 => out.extend(char::from_u32(src.below(0x800) as u32)),
        _ => out.push(char::from_u32(src.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
    }
}

/// Any text, up to about `max` bytes, possibly empty, possibly with ESC.
pub fn text(src: &mut Src, max: usize) -> String {
    src.span(|src| {
        let mut s = String::new();
        match src.weighted(&[30, 2, 1]) {
            0 => {
                for p in src.list(0, 12, 2, |src| {
                    let mut p = String::new();
                    snippet(src, &mut p);
                    p
                }) {
                    s.push_str(&p);
                }
            }
            1 => {
                // One snippet repeated to a chosen length in characters.
                let mut p = String::new();
                snippet(src, &mut p);
                let n = size(src, max);
                if !p.is_empty() {
                    s = p.chars().cycle().take(n).collect();
                }
            }
            _ => {
                // Filler of a chosen length with snippets around it.
                snippet(src, &mut s);
                let n = size(src, max);
                s.extend(std::iter::repeat_n('x', n));
                snippet(src, &mut s);
            }
        }
        if s.len() > max {
            let mut end = max;
            while !s.is_char_boundary(end) {
                end -= 1;
            }
            s.truncate(end);
        }
        s
    })
}

/// Text without the escape character.
pub fn text_no_esc(src: &mut Src, max: usize) -> String {
    text(src, max).replace('\x1b', "\u{241b}")
}

/// Arbitrary bytes, often not UTF-8.
pub fn bytes(src: &mut Src, max: usize) -> Vec<u8> {
    src.span(|src| match src.weighted(&[6, 4, 2]) {
        0 => text(src, max).into_bytes(),
        1 => src.list(0, 24, 5, |src| src.below(256) as u8),
        _ => {
            let b = src.below(256) as u8;
            let n = size(src, max);
            vec![b; n]
        }
    })
}
