//! The positions reported with events and errors.
use crate::agree::pulled;
use crate::engine::*;
use crate::obs::{event_line, render_ref};
use crate::refyaml::{Outcome, Ref, Where};
use yam_core::parsing::Event;
use yam_core::prelude::{Marker, ScalarType, YamlError};

/// Offset of every line start, by the definition of a line break.
struct Lines<'a> {
    s: &'a str,
    starts: Vec<usize>,
}
impl Lines<'_> {
    fn new(s: &str) -> Lines<'_> {
        let b = s.as_bytes();
        let mut starts = vec![0];
        for i in 0..b.len() {
            if b[i] == b'\n' || (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) {
                starts.push(i + 1);
            }
        }
        Lines { s, starts }
    }
    fn check(&self, what: &str, m: Marker) -> Result<(), String> {
        if m.pos > self.s.len() || !self.s.is_char_boundary(m.pos) {
            return Err(format!("{what} is not a place in the text: {m:?}"));
        }
        let line = self.starts.partition_point(|&x| x <= m.pos);
        let start = self.starts[line - 1];
        let col = m.pos - start + 1;
        // Byte order marks at the start of a document take no column.
        let boms = self.s[start..m.pos].chars().take_while(|&c| c == '\u{FEFF}').count();
        let col_ok = (0..=boms).any(|k| m.col as usize + 3 * k == col);
        if m.line as usize != line || !col_ok {
            return Err(format!("{what}: offset {} is line {line} column {col}, not line {} column {}", m.pos, m.line, m.col));
        }
        Ok(())
    }
}

fn name(e: &Event) -> String {
    let mut l = String::new();
    event_line(e, &mut l);
    l.trim_end().to_string()
}

pub fn positions(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let (evs, err) = pulled(s)?;
    let lines = Lines::new(s);
    let mut ended = 0;
    let mut last = Marker { pos: 0, col: 1, line: 1 };
    ctx.add(TRANS, 2 * evs.len() as u64);
    for (e, sp) in &evs {
        let n = name(e);
        lines.check(&format!("the start of {n}"), sp.start)?;
        lines.check(&format!("the end of {n}"), sp.end)?;
        if sp.end.pos < sp.start.pos {
            return Err(format!("{n} ends at {} before it starts at {}", sp.end.pos, sp.start.pos));
        }
        if sp.start.pos < last.pos {
            return Err(format!("{n} starts at {} before the event ahead of it at {}", sp.start.pos, last.pos));
        }
        if sp.start.pos < ended {
            return Err(format!("{n} starts at {} inside the event ahead of it, which ends at {ended}", sp.start.pos));
        }
        // What has no text of its own may be reported at the text that follows it.
        let empty = match e {
            Event::Scalar(v) => v.value.is_empty() && v.scalar_type == ScalarType::Plain,
            Event::Alias(_) | Event::DocumentStart(true) => false,
            _ => true,
        };
        ended = if empty { sp.start.pos } else { sp.end.pos };
        last = sp.start;
    }
    match &err {
        Some(YamlError::ScannerErr { mark, info }) => {
            lines.check(&format!("the error \"{info}\""), *mark)?;
            ctx.add(REJECTED, 1);
            return Ok(());
        }
        Some(_) => {
            ctx.add(REJECTED, 1);
            return Ok(());
        }
        None => ctx.add(ACCEPTED, 1),
    }
    against_model(s, &evs, ctx)
}

fn against_model(s: &str, evs: &[(Event, yam_core::prelude::Span)], ctx: &mut Ctx) -> Result<(), String> {
    let ch: Vec<char> = s.chars().collect();
    let mut r = Ref::parse_located(&ch, false, false);
    if r.0 == Outcome::Err {
        r = Ref::parse_located(&ch, true, false);
    }
    let (Outcome::Ok(want), wheres) = r else {
        ctx.add(SKIPPED, 1);
        return Ok(());
    };
    let inner: Vec<_> = evs.iter().filter(|e| !matches!(e.0, Event::StreamStart | Event::StreamEnd)).collect();
    // The events themselves are the subject of other properties.
    let (mut a, mut b) = (String::new(), String::new());
    render_ref(&want, &mut a);
    inner.iter().for_each(|e| event_line(&e.0, &mut b));
    if a != b {
        ctx.add(SKIPPED, 1);
        return Ok(());
    }
    ctx.add(TRACES, 1);
    let mut off: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    off.push(s.len());
    let mut sig = String::new();
    for ((e, sp), w) in inner.iter().zip(&wheres) {
        let Where { start, end } = *w;
        for (what, want, got) in [("starts", start, sp.start.pos), ("ends", end, sp.end.pos)] {
            if let Some((a, b)) = want {
                let (a, b) = (off[a], off[b]);
                if got < a || got > b {
                    let w = if a == b { format!("{a}") } else { format!("{a} to {b}") };
                    return Err(format!("{} {what} at {got} instead of {w}", name(e)));
                }
                ctx.add(EVENTS, 1);
            }
        }
        sig.push_str(&format!("{} {} ", sp.start.pos, sp.end.pos));
    }
    ctx.outcome(&sig);
    Ok(())
}
