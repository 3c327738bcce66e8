//! Sinks and the ways of rendering a value into each format.

use std::fmt::Write as _;

use stylish::{Display, Style};

use crate::{
    doc::Node,
    model::{Styled, St},
};

/// Records every character with the style it arrives in.
#[derive(Default, Clone, Debug)]
pub struct Recorder {
    pub out: Styled,
}

impl stylish::Write for Recorder {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        let st = St::of(style);
        self.out.extend(s.chars().map(|c| (c, st)));
        Ok(())
    }
}

/// The same, with its own `write_char`.
#[derive(Default)]
pub struct CharRecorder {
    pub out: Styled,
}

impl stylish::Write for CharRecorder {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        let st = St::of(style);
        self.out.extend(s.chars().map(|c| (c, st)));
        Ok(())
    }

    fn write_char(&mut self, c: char, style: Style) -> stylish::Result {
        self.out.push((c, St::of(style)));
        Ok(())
    }
}

pub fn record(d: &dyn Display) -> Styled {
    let mut r = Recorder::default();
    stylish::Write::write_fmt(&mut r, stylish::format_args!("{:s}", d)).unwrap();
    r.out
}

pub fn ansi(d: &dyn Display) -> String {
    stylish::ansi::format(stylish::format_args!("{:s}", d))
}

pub fn html(d: &dyn Display) -> String {
    stylish::html::format(stylish::format_args!("{:s}", d))
}

pub fn plain(d: &dyn Display) -> String {
    stylish::plain::format(stylish::format_args!("{:s}", d))
}

pub fn io_ansi(d: &dyn Display) -> Vec<u8> {
    let mut w = stylish::io::Ansi::new(Vec::new());
    w.write_fmt(stylish::format_args!("{:s}", d)).unwrap();
    w.finish().unwrap()
}

pub fn io_plain(d: &dyn Display) -> Vec<u8> {
    let mut w = stylish::io::Plain::new(Vec::new());
    w.write_fmt(stylish::format_args!("{:s}", d)).unwrap();
    w.into_inner()
}

/// Every output format of one value.
#[derive(PartialEq, Debug, Clone)]
pub struct Outputs {
    pub ansi: String,
    pub html: String,
    pub plain: String,
    pub io_ansi: Vec<u8>,
    pub io_plain: Vec<u8>,
}

pub fn outputs(d: &dyn Display) -> Outputs {
    Outputs { ansi: ansi(d), html: html(d), plain: plain(d), io_ansi: io_ansi(d), io_plain: io_plain(d) }
}

impl Outputs {
    pub fn compare(&self, other: &Outputs, what: &str) -> Result<(), String> {
        let s = |b: &Vec<u8>| String::from_utf8_lossy(b).into_owned();
        for (name, a, b) in [
            ("ansi", self.ansi.clone(), other.ansi.clone()),
            ("html", self.html.clone(), other.html.clone()),
            ("plain", self.plain.clone(), other.plain.clone()),
            ("io ansi", s(&self.io_ansi), s(&other.io_ansi)),
            ("io plain", s(&self.io_plain), s(&other.io_plain)),
        ] {
            same(&a, &b, &format!("{name}: {what}"))?;
        }
        Ok(())
    }
}

pub fn same(a: &str, b: &str, what: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
    let clip = |s: &str| {
        let from = i.saturating_sub(30);
        let b = &s.as_bytes()[from.min(s.len())..(i + 30).min(s.len())];
        String::from_utf8_lossy(b).into_owned()
    };
    Err(format!("{what}: outputs differ at byte {i}: {:?} vs {:?} (lengths {} and {})", clip(a), clip(b), a.len(), b.len()))
}

pub fn same_bytes(a: &[u8], b: &[u8], what: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).take_while(|(a, b)| a == b).count();
    let w = |s: &[u8]| s[i.saturating_sub(10).min(s.len())..(i + 10).min(s.len())].to_vec();
    Err(format!("{what}: bytes differ at {i}: {:?} vs {:?} (lengths {} and {})", w(a), w(b), a.len(), b.len()))
}

pub fn show(node: &Node) -> String {
    let mut s = String::new();
    let _ = write!(s, "{node:?}");
    s
}
