//! Changes of a text that must not change what it means. The changed text's events are compared
//! with those of the original; for comments and indentation, where it is the reference model that
//! knows whether a change is one of layout only, the model is asked whenever they differ.
use crate::agree::pulled;
use crate::conf::{self, Verdict};
use crate::engine::*;
use crate::obs::event_line;
use std::fmt::Write;
use yam_core::prelude::{Yaml, YamlError, YamlLoader};

// ---------------------------------------------------------------------------------------------
// Line break styles.

/// Events with lines and columns, and the error with its place.
fn placed(s: &str) -> Result<String, String> {
    let (evs, err) = pulled(s)?;
    let mut o = String::new();
    for (e, sp) in &evs {
        let _ = write!(o, "{}:{}-{}:{} ", sp.start.line, sp.start.col, sp.end.line, sp.end.col);
        event_line(e, &mut o);
    }
    match err {
        Some(YamlError::ScannerErr { mark, info }) => {
            let _ = write!(o, "error {}:{} {info}", mark.line, mark.col);
        }
        Some(e) => {
            let _ = write!(o, "error {e}");
        }
        None => {}
    }
    Ok(o)
}
fn trees(s: &str) -> String {
    match YamlLoader::<Yaml>::load_from(s) {
        Ok(d) => format!("{d:?}"),
        Err(YamlError::ScannerErr { mark, info }) => format!("error {}:{} {info}", mark.line, mark.col),
        Err(e) => format!("error {e}"),
    }
}

pub fn breaks(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    if s.contains('\r') || !s.contains('\n') {
        return Ok(());
    }
    ctx.add(EVALS, 1);
    let want = placed(s)?;
    let tree = trees(s);
    ctx.outcome(&want);
    for style in [&["\r\n"] as &[&str], &["\r"], &["\r\n", "\r"], &["\n", "\r\n"], &["\n", "\n", "\r"]] {
        let mut t = String::new();
        let mut k = 0;
        for c in s.chars() {
            if c == '\n' {
                // A line feed would join a carriage return before it.
                let b = style[k % style.len()];
                t.push_str(if t.ends_with('\r') && b == "\n" { "\r" } else { b });
                k += 1;
            } else {
                t.push(c);
            }
        }
        ctx.add(TRACES, 1);
        let got = placed(&t)?;
        ctx.add(TRANS, got.len() as u64 / 16);
        if got != want {
            return Err(format!("{t:?} differs from {s:?}\nwith line feeds:\n{want}\nwith {style:?}:\n{got}"));
        }
        if trees(&t) != tree {
            return Err(format!("the trees of {t:?} differ from those of {s:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Layout.

fn events(s: &str) -> Option<String> {
    conf::yam(s).ok()
}
/// `t` is a changed `s` and should have the events `want`, made from those of `s` by `f`.
fn same(s: &str, t: &str, want: &str, f: &dyn Fn(&str) -> String, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(TRACES, 1);
    let got = conf::yam(t);
    if let Ok(g) = &got {
        if g == want {
            ctx.add(TRANS, g.bytes().filter(|&b| b == b'\n').count() as u64);
            ctx.add(ACCEPTED, 1);
            return Ok(());
        }
    }
    let (Verdict::Events(a), Verdict::Events(b)) = (conf::model(s), conf::model(t)) else {
        ctx.add(SKIPPED, 1);
        return Ok(());
    };
    if f(&a) != b {
        // The change was not one of layout only.
        ctx.add(SKIPPED, 1);
        return Ok(());
    }
    let got = got.unwrap_or_else(|e| format!("error {e}\n"));
    Err(format!("{t:?} should mean the same as {s:?}\nexpected:\n{want}reported:\n{got}"))
}

/// Comments and blank lines at the end of every line.
pub fn comments(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    // A change at every line of a text of very many takes too long.
    if s.len() > 4000 {
        ctx.add(SKIPPED, 1);
        return Ok(());
    }
    let Some(want) = events(s) else { return Ok(()) };
    ctx.add(EVALS, 1);
    ctx.outcome(&want);
    let id = |x: &str| x.to_string();
    let ends = s.char_indices().filter(|x| x.1 == '\n').map(|x| x.0).chain([s.len()]);
    for at in ends {
        for ins in [" #c", "\t#", " #'\"[{: ", "\n", "\n  \n", "\n#c", "\n    # - a: b", "\n#\n\n #"] {
            let t = format!("{}{ins}{}", &s[..at], &s[at..]);
            same(s, &t, &want, &id, ctx)?;
        }
    }
    Ok(())
}

fn indented(s: &str, by: usize, first: bool) -> String {
    let mut o = String::new();
    for (i, l) in s.split_inclusive('\n').enumerate() {
        if (i > 0 || first) && l != "\n" {
            o.push_str(&" ".repeat(by));
        }
        o.push_str(l);
    }
    o
}
/// Every run of leading spaces made `k` times as long.
fn scaled(s: &str, k: usize) -> String {
    let mut o = String::new();
    for l in s.split_inclusive('\n') {
        let n = l.len() - l.trim_start_matches(' ').len();
        o.push_str(&" ".repeat(n * k));
        o.push_str(&l[n..]);
    }
    o
}
/// The events of one document with its root nested in `pre` and `post`.
fn nested(ev: &str, pre: &str, post: &str) -> String {
    let l: Vec<&str> = ev.split_inclusive('\n').collect();
    if l.len() < 2 {
        return ev.to_string();
    }
    format!("{}{pre}{}{post}{}", l[0], l[1..l.len() - 1].concat(), l[l.len() - 1])
}

/// Indentation changed as a whole.
pub fn indentation(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let Some(want) = events(s) else { return Ok(()) };
    // One bare document; markers and directives belong to the first column.
    if want.matches("+DOC").count() != 1 || !want.starts_with("+DOC\n") || s.starts_with("%") || s.contains("---") || s.contains("...") {
        return Ok(());
    }
    ctx.add(EVALS, 1);
    ctx.outcome(&want);
    let id = |x: &str| x.to_string();
    for k in [1, 2, 5] {
        same(s, &indented(s, k, true), &want, &id, ctx)?;
    }
    for k in [2, 3] {
        let t = scaled(s, k);
        if t != s {
            same(s, &t, &want, &id, ctx)?;
        }
    }
    let map = |x: &str| nested(x, "+MAP\n=VAL :k\n", "-MAP\n");
    let seq = |x: &str| nested(x, "+SEQ\n", "-SEQ\n");
    let set = |x: &str| nested(x, "+MAP\n", "=VAL :\n-MAP\n");
    let both = |x: &str| map(&seq(x));
    let deep = |x: &str| seq(&map(&seq(&map(&map(x)))));
    for k in [1, 2, 7] {
        same(s, &format!("k:\n{}", indented(s, k, true)), &map(&want), &map, ctx)?;
        same(s, &format!("-\n{}", indented(s, k, true)), &seq(&want), &seq, ctx)?;
        same(s, &format!("-{}{}", " ".repeat(k), indented(s, k + 1, false)), &seq(&want), &seq, ctx)?;
        same(s, &format!("?{}{}", " ".repeat(k), indented(s, k + 1, false)), &set(&want), &set, ctx)?;
    }
    same(s, &format!("k:\n- {}", indented(s, 2, false)), &both(&want), &both, ctx)?;
    same(s, &format!("-  k:\n      - k:\n         k:\n          {}", indented(s, 10, false)), &deep(&want), &deep, ctx)?;
    if s.ends_with('\n') {
        let more = |x: &str| nested(x, "+MAP\n=VAL :k\n", "=VAL :z\n=VAL :y\n-MAP\n");
        same(s, &format!("k:\n{}z: y\n", indented(s, 3, true)), &more(&want), &more, ctx)?;
        let more = |x: &str| nested(x, "+SEQ\n+MAP\n=VAL :k\n", "-MAP\n=VAL :z\n-SEQ\n");
        same(s, &format!("- k:\n{}- z\n", indented(s, 3, true)), &more(&want), &more, ctx)?;
    }
    Ok(())
}

