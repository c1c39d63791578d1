//! Observation of the implementation: canonical text of its event stream.
use crate::refyaml::{Ev, Props, Style};
use std::fmt::Write;
use yam_core::parsing::{Event, Parser, Source};
use yam_core::prelude::ScalarType;

/// Canonical text of reference events, with anchors replaced by ids (1-based, in order of
/// definition) and aliases by the id of the most recent preceding definition.
pub fn render_ref(evs: &[Ev], out: &mut String) {
    let mut anchors: Vec<(&str, usize)> = Vec::new();
    let mut next = 1;
    for e in evs {
        match e {
            Ev::DocStart(x) => {
                anchors.clear();
                out.push_str(if *x { "+DOC ---\n" } else { "+DOC\n" })
            }
            Ev::DocEnd => out.push_str("-DOC\n"),
            Ev::Seq(p) => {
                out.push_str("+SEQ");
                props(p, &mut anchors, &mut next, out);
                out.push('\n');
            }
            Ev::SeqEnd => out.push_str("-SEQ\n"),
            Ev::Map(p) => {
                out.push_str("+MAP");
                props(p, &mut anchors, &mut next, out);
                out.push('\n');
            }
            Ev::MapEnd => out.push_str("-MAP\n"),
            Ev::Scalar(st, v, p) => {
                out.push_str("=VAL");
                props(p, &mut anchors, &mut next, out);
                out.push(' ');
                out.push(match st {
                    Style::Plain => ':',
                    Style::Single => '\'',
                    Style::Double => '"',
                    Style::Literal => '|',
                    Style::Folded => '>',
                });
                esc(v, out);
                out.push('\n');
            }
            Ev::Alias(n) => {
                let id = anchors.iter().rev().find(|a| a.0 == n).map_or(0, |a| a.1);
                let _ = writeln!(out, "=ALI *{id}");
            }
        }
    }
}
fn props<'a>(p: &'a Props, anchors: &mut Vec<(&'a str, usize)>, next: &mut usize, out: &mut String) {
    if let Some(a) = &p.anchor {
        anchors.push((a, *next));
        let _ = write!(out, " &{next}");
        *next += 1;
    }
    if let Some(t) = &p.tag {
        out.push_str(" <");
        esc(t.as_deref().unwrap_or("?"), out);
        out.push('>');
    }
}
pub fn esc(s: &str, out: &mut String) {
    for c in s.chars() {
        match c {
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\\' => out.push_str("\\\\"),
            c => out.push(c),
        }
    }
}

pub fn event_line(ev: &Event, out: &mut String) {
    match ev {
        Event::Nothing => out.push_str("NOTHING\n"),
        Event::StreamStart => out.push_str("+STR\n"),
        Event::StreamEnd => out.push_str("-STR\n"),
        Event::DocumentStart(x) => out.push_str(if *x { "+DOC ---\n" } else { "+DOC\n" }),
        Event::DocumentEnd => out.push_str("-DOC\n"),
        Event::Alias(id) => {
            let _ = writeln!(out, "=ALI *{id}");
        }
        Event::Comment(c) => {
            out.push_str("#COM ");
            esc(c, out);
            out.push('\n');
        }
        Event::Scalar(v) => {
            out.push_str("=VAL");
            iprops(v.anchor_id, v.tag.as_deref(), out);
            out.push(' ');
            out.push(match v.scalar_type {
                ScalarType::Plain => ':',
                ScalarType::SingleQuote => '\'',
                ScalarType::DoubleQuote => '"',
                ScalarType::Literal => '|',
                ScalarType::Folded => '>',
            });
            esc(&v.value, out);
            out.push('\n');
        }
        Event::SequenceStart(a, t) => {
            out.push_str("+SEQ");
            iprops(*a, t.as_deref(), out);
            out.push('\n');
        }
        Event::SequenceEnd => out.push_str("-SEQ\n"),
        Event::MappingStart(a, t) => {
            out.push_str("+MAP");
            iprops(*a, t.as_deref(), out);
            out.push('\n');
        }
        Event::MappingEnd => out.push_str("-MAP\n"),
    }
}
fn iprops(a: usize, t: Option<&yam_core::prelude::Tag>, out: &mut String) {
    if a != 0 {
        let _ = write!(out, " &{a}");
    }
    if let Some(t) = t {
        out.push_str(" <");
        esc(&t.handle, out);
        esc(&t.suffix, out);
        out.push('>');
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    Ok,
    Err(String),
    /// More events than any input of this size can produce.
    Runaway,
}

/// Pull every event; stream start/end lines are not rendered (they are asserted elsewhere).
pub fn pull<T: Source>(p: &mut Parser<'_, T>, len: usize, out: &mut String) -> End {
    let cap = 16 * len + 64;
    for _ in 0..cap {
        match p.next_event() {
            None => return End::Ok,
            Some(Err(e)) => return End::Err(e.to_string()),
            Some(Ok((ev, _))) => {
                if !matches!(ev, Event::StreamStart | Event::StreamEnd) {
                    event_line(&ev, out)
                }
            }
        }
    }
    End::Runaway
}
