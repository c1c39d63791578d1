//! Reading from other sources than a string, and the answers a source gives.
use crate::agree::pulled;
use crate::engine::*;
use crate::obs::event_line;
use crate::verdicts::cap;
use std::fmt::Debug;
use yam_core::parsing::{Parser, ParserIter, SkipTabs, Source, StrSource};
use crate::trees::{self, of_yaml};
use yam_core::prelude::{Yaml, YamlError, YamlLoader};

/// A source that answers every question by its definition, over a text of its own.
pub struct Plain {
    text: Vec<u8>,
    pos: usize,
    len: usize,
}
impl Plain {
    pub fn new(s: &str, len: usize) -> Plain {
        Plain { text: s.as_bytes().to_vec(), pos: 0, len }
    }
    fn rest(&self) -> &[u8] {
        &self.text[self.pos..]
    }
    /// How many bytes at the front are all of these.
    fn run(&self, f: impl Fn(u8) -> bool) -> usize {
        self.rest().iter().take_while(|c| f(**c)).count()
    }
    fn take(&mut self, n: usize) -> Vec<u8> {
        let v = self.rest()[..n].to_vec();
        self.pos += n;
        v
    }
}
fn char_at(b: &[u8]) -> char {
    for n in 1..=b.len().min(4) {
        if let Ok(s) = std::str::from_utf8(&b[..n]) {
            return s.chars().next().unwrap();
        }
    }
    '\u{FFFD}'
}
fn brk(c: u8) -> bool {
    c == b'\n' || c == b'\r'
}
fn blank_or_end(c: Option<u8>) -> bool {
    matches!(c, None | Some(0 | b' ' | b'\t' | b'\n' | b'\r'))
}
/// Blanks, then a comment if it is separated from what is before it.
fn blanks_and_comment(rest: &[u8], tabs: bool, separated: bool) -> (usize, Result<(bool, bool), ()>) {
    let n = rest.iter().take_while(|c| **c == b' ' || tabs && **c == b'\t').count();
    let any_tabs = rest[..n].contains(&b'\t');
    let ws = separated || rest[..n].contains(&b' ');
    if rest.get(n) != Some(&b'#') {
        return (n, Ok((any_tabs, ws)));
    }
    if !ws && !any_tabs {
        return (n, Err(()));
    }
    let c = rest[n..].iter().take_while(|c| !brk(**c) && **c != 0).count();
    (n + c, Ok((any_tabs, ws)))
}
unsafe impl Source for Plain {
    fn peekz(&self, n: usize) -> u8 {
        self.rest().get(n).copied().unwrap_or(0)
    }
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        self.rest()[n]
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.rest().get(n).copied()
    }
    fn peek_char(&self) -> char {
        char_at(self.rest())
    }
    fn buf_max_len(&self) -> usize {
        self.len
    }
    fn buf_is_empty(&self) -> bool {
        self.rest().is_empty()
    }
    fn fetch_while_is_alpha(&mut self, out: &mut Vec<u8>) -> usize {
        let n = self.run(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'-');
        out.extend(self.take(n));
        n
    }
    fn push_non_breakz_chr(&mut self, v: &mut Vec<u8>) {
        let n = self.run(|c| !brk(c));
        v.extend(self.take(n));
    }
    fn skip(&mut self, n: usize) {
        self.pos = (self.pos + n).min(self.text.len());
    }
    fn skip_while_blank(&mut self) -> usize {
        let n = self.run(|c| c == b' ' || c == b'\t');
        self.take(n).len()
    }
    fn skip_ws_to_eol(&mut self, tabs: bool, separated: bool) -> (u32, Result<SkipTabs, &'static str>) {
        let (n, r) = blanks_and_comment(self.rest(), tabs, separated);
        self.pos += n;
        let r = match r {
            Ok((any_tabs, has_yaml_ws)) => Ok(SkipTabs::Result { any_tabs, has_yaml_ws }),
            Err(()) => Err("comments must be separated from other tokens by whitespace"),
        };
        (n as u32, r)
    }
    fn skip_while_non_breakz(&mut self) -> usize {
        let n = self.run(|c| !brk(c) && c != 0);
        self.take(n).len()
    }
    fn skip_and_accumulate_to_eol(&mut self, v: &mut Vec<u8>) {
        let n = self.run(|c| !brk(c));
        v.extend(self.take(n));
    }
    fn next_next_byte_is(&self, c: u8) -> bool {
        self.peekz(1) == c
    }
    fn next_is_three(&self, c: u8) -> bool {
        self.rest().starts_with(&[c, c, c])
    }
    fn next_can_be_plain_scalar(&self, flow: bool) -> bool {
        let fl = |c: Option<&u8>| flow && c.is_some_and(|c| b",[]{}".contains(c));
        let r = self.rest();
        !(fl(r.first()) || r.first() == Some(&b':') && (blank_or_end(r.get(1).copied()) || fl(r.get(1))))
    }
    fn next_is_document_indicator(&self) -> bool {
        let r = self.rest();
        (r.starts_with(b"---") || r.starts_with(b"...")) && blank_or_end(r.get(3).copied())
    }
}
/// A source that leaves to the trait whatever it can.
struct Minimal(Plain);
unsafe impl Source for Minimal {
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        unsafe { self.0.peek_unsafe(n) }
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.0.peek_checked(n)
    }
    fn peek_char(&self) -> char {
        self.0.peek_char()
    }
    fn buf_is_empty(&self) -> bool {
        self.0.buf_is_empty()
    }
    fn push_non_breakz_chr(&mut self, v: &mut Vec<u8>) {
        self.0.push_non_breakz_chr(v);
    }
    fn skip(&mut self, n: usize) {
        self.0.skip(n);
    }
    fn skip_ws_to_eol(&mut self, tabs: bool, separated: bool) -> (u32, Result<SkipTabs, &'static str>) {
        self.0.skip_ws_to_eol(tabs, separated)
    }
}

fn lines<S: Source>(src: S, n: usize) -> Result<(String, Option<YamlError>), String> {
    let mut p = Parser::new(src);
    let mut o = String::new();
    let mut k = 0;
    while let Some(r) = p.next_event() {
        match r {
            Ok((e, s)) => {
                o.push_str(&format!("{s:?} "));
                event_line(&e, &mut o);
            }
            Err(e) => return Ok((o, Some(e))),
        }
        k += 1;
        if k > n {
            return Err("pulling events does not end".into());
        }
    }
    Ok((o, None))
}
/// The parser reports the same from any source.
pub fn sources(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let (v, err) = pulled(s)?;
    let mut want = String::new();
    for (e, sp) in &v {
        want.push_str(&format!("{sp:?} "));
        event_line(e, &mut want);
    }
    ctx.outcome(&want);
    ctx.add(TRANS, 4 * v.len() as u64);
    ctx.add(if err.is_some() { REJECTED } else { ACCEPTED }, 1);
    let n = cap(s.len());
    let mut all = vec![("a string source", lines(StrSource::new(s), n)?), ("a source with the default methods", lines(Minimal(Plain::new(s, 0)), n)?)];
    for (what, len) in [("a source with a buffer of 2", 2), ("a source with a buffer of 5", 5), ("a source with a large buffer", 4096)] {
        all.push((what, lines(Plain::new(s, len), n)?));
    }
    for (what, (got, e)) in all {
        ctx.add(TRACES, 1);
        if got != want || e != err {
            return Err(format!("reading from {what} differs\n{e:?}\n{got}from a string: {err:?}\n{want}"));
        }
    }
    let mut a = ParserIter::new(Plain::new(s, 64));
    let t = s.to_string();
    let mut b = ParserIter::from_str_ref(&t);
    for _ in 0..=n {
        let (x, y) = (a.next(), b.next());
        if x != y || a.error() != b.error() {
            return Err(format!("iterating differs: {x:?} {:?}, from a string: {y:?} {:?}", a.error(), b.error()));
        }
        if x.is_none() {
            break;
        }
    }
    let t = trees::text;
    let all = |r: Result<Vec<Yaml>, YamlError>| r.map(|v| v.iter().map(|y| t(&of_yaml(y))).collect::<Vec<_>>());
    let one = |r: Result<Yaml, YamlError>| r.map(|y| t(&of_yaml(&y)));
    let want = all(YamlLoader::load_from(s));
    if all(YamlLoader::load_from_parser(&mut Parser::new(Plain::new(s, 64)))) != want {
        return Err("loading all documents differs".into());
    }
    let want = one(YamlLoader::load_single(s));
    if one(YamlLoader::load_single_source(Plain::new(s, 64))) != want || one(YamlLoader::load_single_from_parser(&mut Parser::new(Plain::new(s, 3)))) != want {
        return Err("loading one document differs".into());
    }
    Ok(())
}

/// What an operation answers, collects and leaves to be read.
fn does<S: Source, R: Debug>(mut s: S, at: usize, f: impl Fn(&mut S, &mut Vec<u8>) -> R) -> String {
    s.skip(at);
    let mut v = b"<".to_vec();
    let r = f(&mut s, &mut v);
    let rest: Vec<u8> = (0..).map_while(|n| s.peek_checked(n)).collect();
    format!("{r:?}, collects {:?}, leaves {:?}, empty {}", String::from_utf8_lossy(&v), String::from_utf8_lossy(&rest), s.buf_is_empty())
}
/// The string source and the default methods answer every question as defined, everywhere.
pub fn answers(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let places: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).chain([s.len() + 1, s.len() + 5]).collect();
    macro_rules! ask {
        ($at:expr, $what:expr, $f:expr) => {{
            let want = does(Plain::new(s, 128), $at, $f);
            ctx.add(TRANS, 2);
            ctx.outcome(&want);
            let got = does(StrSource::new(s), $at, $f);
            if got != want {
                return Err(format!("{} at {} is {got}, not {want}", $what, $at));
            }
            let got = does(Minimal(Plain::new(s, 0)), $at, $f);
            if got != want {
                return Err(format!("{} at {} of a source with the default methods is {got}, not {want}", $what, $at));
            }
        }};
    }
    for &at in &places {
        ctx.add(TRACES, 1);
        for n in 0..5 {
            ask!(at, format!("peekz {n}"), |s, _| s.peekz(n));
            ask!(at, format!("peek_checked {n}"), |s, _| s.peek_checked(n));
            if at + n < s.len() {
                ask!(at, format!("peek_unsafe {n}"), |s, _| unsafe { s.peek_unsafe(n) });
            }
            ask!(at, format!("skip {n}"), |s, _| {
                s.skip(n);
                s.skip(1);
            });
        }
        ask!(at, "peek_char", |s, _| s.peek_char());
        ask!(at, "buf_is_empty", |s, _| s.buf_is_empty());
        ask!(at, "fetch_while_is_alpha", |s, v| s.fetch_while_is_alpha(v));
        // Whether a NUL character stops it is not said, and the parser never asks there.
        if !s.as_bytes()[at.min(s.len())..].iter().take_while(|c| !brk(**c)).any(|c| *c == 0) {
            ask!(at, "push_non_breakz_chr", |s, v| s.push_non_breakz_chr(v));
        }
        ask!(at, "skip_while_blank", |s, _| s.skip_while_blank());
        for tabs in [false, true] {
            for sep in [false, true] {
                ask!(at, format!("skip_ws_to_eol {tabs} {sep}"), |s, _| {
                    let (n, r) = s.skip_ws_to_eol(tabs, sep);
                    (n, r.map_err(|_| ()))
                });
            }
            ask!(at, format!("next_can_be_plain_scalar {tabs}"), |s, _| s.next_can_be_plain_scalar(tabs));
        }
        ask!(at, "skip_while_non_breakz", |s, _| s.skip_while_non_breakz());
        ask!(at, "skip_and_accumulate_to_eol", |s, v| s.skip_and_accumulate_to_eol(v));
        for c in [b'a', b'-', b'.', b' ', b'\n', b':', 0xA9] {
            ask!(at, format!("next_next_byte_is {c}"), |s, _| s.next_next_byte_is(c));
            ask!(at, format!("next_is_three {c}"), |s, _| s.next_is_three(c));
        }
        ask!(at, "next_is_document_indicator", |s, _| s.next_is_document_indicator());
    }
    Ok(())
}
/// The classes every byte belongs to, at every value.
pub struct Bytes;
impl Job for Bytes {
    fn name(&self) -> String {
        "every pair of ASCII characters; every character of the basic plane and every 256th other one alone".into()
    }
    fn len(&self) -> u64 {
        128 * 128 + 0x10000 + 0x1000
    }
    fn input(&self, i: u64) -> String {
        if i < 128 * 128 {
            format!("{}{}", (i / 128) as u8 as char, (i % 128) as u8 as char)
        } else {
            let c = i - 128 * 128;
            let c = if c < 0x10000 { c } else { 0x10000 + (c - 0x10000) * 256 + c % 256 };
            char::from_u32(c as u32).map(String::from).unwrap_or_default()
        }
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        answers(&self.input(i), ctx)
    }
}
