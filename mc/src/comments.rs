//! Comment reporting: the core crate built with it against the core crate built without it, and
//! the comments it reports against the reference model.
use crate::agree::pulled;
use crate::engine::*;
use crate::obs::{event_line, render_ref};
use crate::refyaml::{Outcome, Ref};
use crate::verdicts::cap;
use std::borrow::Cow;
use yam_core::parsing::Event;
use yam_core::prelude as p0;
use yam_core_comment::parsing as c;
use yam_core_comment::prelude as c0;

type E<'a> = (Event<'a>, p0::Span);

fn tag(t: Option<Cow<'_, c0::Tag>>) -> Option<Cow<'static, p0::Tag>> {
    t.map(|t| Cow::Owned(p0::Tag { handle: t.handle.clone(), suffix: t.suffix.clone() }))
}
fn event<'a>(e: c::Event<'a>) -> Event<'a> {
    match e {
        c::Event::Nothing => Event::Nothing,
        c::Event::StreamStart => Event::StreamStart,
        c::Event::StreamEnd => Event::StreamEnd,
        c::Event::DocumentStart(x) => Event::DocumentStart(x),
        c::Event::DocumentEnd => Event::DocumentEnd,
        c::Event::Alias(i) => Event::Alias(i),
        c::Event::Comment(t) => Event::Comment(t),
        c::Event::SequenceStart(a, t) => Event::SequenceStart(a, tag(t)),
        c::Event::SequenceEnd => Event::SequenceEnd,
        c::Event::MappingStart(a, t) => Event::MappingStart(a, tag(t)),
        c::Event::MappingEnd => Event::MappingEnd,
        c::Event::Scalar(v) => Event::Scalar(yam_core::parsing::ScalarValue {
            value: v.value,
            scalar_type: match v.scalar_type {
                c0::ScalarType::Plain => p0::ScalarType::Plain,
                c0::ScalarType::SingleQuote => p0::ScalarType::SingleQuote,
                c0::ScalarType::DoubleQuote => p0::ScalarType::DoubleQuote,
                c0::ScalarType::Literal => p0::ScalarType::Literal,
                c0::ScalarType::Folded => p0::ScalarType::Folded,
            },
            anchor_id: v.anchor_id,
            tag: tag(v.tag),
        }),
    }
}
fn marker(m: c0::Marker) -> p0::Marker {
    p0::Marker { pos: m.pos, col: m.col, line: m.line }
}
fn both((e, s): (c::Event<'_>, c0::Span)) -> E<'_> {
    (event(e), p0::Span { start: marker(s.start), end: marker(s.end) })
}
fn show(v: &[E]) -> String {
    let mut o = String::new();
    for (e, s) in v {
        let mut l = String::new();
        event_line(e, &mut l);
        o.push_str(&format!("{}..{} {l}", s.start.pos, s.end.pos));
    }
    o
}

/// What pulling delivers with comment reporting.
fn with_comments(s: &str, peek: bool) -> Result<(Vec<E<'_>>, Option<String>), String> {
    let mut p = c::Parser::new_from_str(s);
    let mut v = vec![];
    loop {
        let ahead = if peek { p.peek().map(|r| r.cloned()) } else { None };
        let n = p.next_event();
        if peek && ahead != n {
            return Err(format!("with comment reporting, peeking gives {ahead:?}, the next pull {n:?}"));
        }
        match n {
            None => return Ok((v, None)),
            Some(Ok(e)) => v.push(both(e)),
            Some(Err(e)) => return Ok((v, Some(format!("{e:?}")))),
        }
        if v.len() > 2 * cap(s.len()) {
            return Err("pulling events with comment reporting does not end".into());
        }
    }
}
struct Pushed<'a>(Vec<E<'a>>);
impl<'a> c::SpannedEventReceiver<'a> for Pushed<'a> {
    fn on_event(&mut self, ev: c::Event<'a>, span: c0::Span) {
        self.0.push(both((ev, span)));
    }
}

pub fn reporting(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let (want, err) = pulled(s)?;
    let err = err.map(|e| format!("{e:?}"));
    let (got, gerr) = with_comments(s, false)?;
    ctx.add(TRANS, got.len() as u64);
    ctx.add(if err.is_some() { REJECTED } else { ACCEPTED }, 1);
    ctx.outcome(&show(&got));
    let is_comment = |e: &E| matches!(e.0, Event::Comment(_));
    if gerr != err || !got.iter().filter(|e| !is_comment(e)).eq(want.iter()) {
        return Err(format!("without comment reporting: {err:?}\n{}with it: {gerr:?}\n{}", show(&want), show(&got)));
    }
    // peeking, pushing, iterating, loading
    let peeked = with_comments(s, true)?;
    if peeked.0 != got || peeked.1 != gerr {
        return Err(format!("peeking before each pull changes what is reported\n{}", show(&peeked.0)));
    }
    let mut r = Pushed(vec![]);
    let e = c::Parser::new_from_str(s).load(&mut r, true).err().map(|e| format!("{e:?}"));
    if r.0 != got || e != gerr {
        return Err(format!("pulled: {gerr:?}\n{}pushed: {e:?}\n{}", show(&got), show(&r.0)));
    }
    let items = |v: Vec<String>, e: Option<String>| format!("{v:?} {e:?}");
    let mut it = yam_core::parsing::ParserIter::from_str_ref(&s);
    let a = it.by_ref().map(|e| format!("{e:?}")).collect();
    let a = items(a, it.error().map(|e| format!("{e:?}")));
    let mut it = c::ParserIter::from_str_ref(&s);
    let b = it.by_ref().map(|e| format!("{e:?}")).collect();
    let b = items(b, it.error().map(|e| format!("{e:?}")));
    if a != b {
        return Err(format!("iterating without comment reporting: {a}\nwith it: {b}"));
    }
    if s.contains('#') {
        let a = p0::YamlLoader::<p0::Yaml>::load_from(s);
        let b = c0::YamlLoader::<c0::Yaml>::load_from(s);
        let (a, b) = (format!("{a:?}"), format!("{b:?}"));
        if a != b {
            return Err(format!("loaded without comment reporting: {a}\nwith it: {b}"));
        }
    }
    each(s, &got)?;
    if err.is_none() {
        against_model(s, &got, ctx)?;
    }
    Ok(())
}

/// Every comment is its piece of the text, in its place.
fn each(s: &str, evs: &[E]) -> Result<(), String> {
    let mut last = 0;
    // The line of a position that only grows.
    let (mut line, mut at) = (1, 0);
    for (e, sp) in evs {
        if sp.start.pos < last {
            return Err(format!("something at {} is reported after something at {last}\n{}", sp.start.pos, show(evs)));
        }
        last = sp.start.pos;
        let Event::Comment(t) = e else { continue };
        let (a, b) = (sp.start.pos, sp.end.pos);
        if s.get(a..b) != Some(&**t) || !t.starts_with('#') {
            return Err(format!("the comment {t:?} is reported at {a}..{b}"));
        }
        if t.contains(['\n', '\r', '\0']) || !s[b..].chars().next().is_none_or(|c| matches!(c, '\n' | '\r' | '\0')) {
            return Err(format!("the comment {t:?} at {a}..{b} is not the rest of its line"));
        }
        if !s[..a].chars().next_back().is_none_or(|c| matches!(c, '\n' | '\r' | ' ' | '\t' | '\u{FEFF}')) {
            return Err(format!("the comment {t:?} at {a}..{b} is not separated from what is before it"));
        }
        line += (at..a).filter(|&i| s.as_bytes()[i] == b'\n' || (s.as_bytes()[i] == b'\r' && s.as_bytes().get(i + 1) != Some(&b'\n'))).count();
        at = a;
        let ends = (sp.end.line, sp.end.col as usize);
        if sp.start.line as usize != line || ends != (sp.start.line, sp.start.col as usize + t.len()) {
            return Err(format!("the comment {t:?} at {a}..{b} on line {line} is reported at {:?} to {:?}", sp.start, sp.end));
        }
        last = b;
    }
    Ok(())
}

/// The comments of an accepted text are those of the model.
fn against_model(s: &str, evs: &[E], ctx: &mut Ctx) -> Result<(), String> {
    let ch: Vec<char> = s.chars().collect();
    let mut r = Ref::parse_commented(&ch, false, false);
    if r.0 == Outcome::Err {
        r = Ref::parse_commented(&ch, true, false);
    }
    let (Outcome::Ok(want), _, comments) = r else {
        ctx.add(SKIPPED, 1);
        return Ok(());
    };
    // The events themselves are the subject of other properties.
    let (mut a, mut b) = (String::new(), String::new());
    render_ref(&want, &mut a);
    evs.iter()
        .filter(|e| !matches!(e.0, Event::StreamStart | Event::StreamEnd | Event::Comment(_)))
        .for_each(|e| event_line(&e.0, &mut b));
    if a != b {
        ctx.add(SKIPPED, 1);
        return Ok(());
    }
    ctx.add(TRACES, 1);
    let mut off: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    off.push(s.len());
    let want: Vec<_> = comments.iter().map(|&(a, b)| (off[a], off[b])).collect();
    let got: Vec<_> = evs.iter().filter(|e| matches!(e.0, Event::Comment(_))).map(|e| (e.1.start.pos, e.1.end.pos)).collect();
    if want != got {
        return Err(format!("comments are at {want:?}, reported are {got:?}\n{}", show(evs)));
    }
    ctx.add(EVENTS, got.len() as u64);
    Ok(())
}
