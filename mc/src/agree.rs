//! Pulling, peeking, pushing and iterating deliver the same events.
use crate::engine::*;
use crate::obs::event_line;
use crate::verdicts::cap;
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::{Event, EventReceiver, Parser, ParserIter, SpannedEventReceiver, StrSource};
use yam_core::prelude::{Span, YamlError};

type E<'a> = (Event<'a>, Span);

/// What pulling delivers: the events and the error after them.
pub fn pulled(s: &str) -> Result<(Vec<E<'_>>, Option<YamlError>), String> {
    let mut p = Parser::new_from_str(s);
    let mut v = vec![];
    while let Some(r) = p.next_event() {
        match r {
            Ok(e) => v.push(e),
            Err(e) => return Ok((v, Some(e))),
        }
        if v.len() > cap(s.len()) {
            return Err("pulling events does not end".into());
        }
    }
    Ok((v, None))
}
struct Spanned<'a>(Vec<E<'a>>);
impl<'a> SpannedEventReceiver<'a> for Spanned<'a> {
    fn on_event(&mut self, ev: Event<'a>, span: Span) {
        self.0.push((ev, span));
    }
}
struct Plain<'a>(Vec<Event<'a>>);
impl<'a> EventReceiver<'a> for Plain<'a> {
    fn on_event(&mut self, ev: Event<'a>) {
        self.0.push(ev);
    }
}
fn show(v: &[E]) -> String {
    let mut o = String::new();
    for (e, s) in v {
        let mut l = String::new();
        event_line(e, &mut l);
        o.push_str(&format!("{}..{} {l}", s.start.pos, s.end.pos));
    }
    o
}
fn simple<'a>(e: &Event<'a>) -> Option<YamEvent<'a>> {
    Some(match e {
        Event::DocumentStart(_) => YamEvent::DocStart,
        Event::DocumentEnd => YamEvent::DocEnd,
        Event::Alias(i) => YamEvent::Alias(*i),
        Event::Scalar(v) => YamEvent::Scalar(v.clone()),
        Event::SequenceStart(a, t) => YamEvent::SeqStart(*a, t.clone()),
        Event::SequenceEnd => YamEvent::SeqEnd,
        Event::MappingStart(a, t) => YamEvent::MapStart(*a, t.clone()),
        Event::MappingEnd => YamEvent::MapEnd,
        _ => return None,
    })
}

pub fn agree(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let (want, err) = pulled(s)?;
    ctx.add(TRANS, want.len() as u64);
    ctx.add(if err.is_some() { REJECTED } else { ACCEPTED }, 1);
    ctx.outcome(&show(&want));
    let same = |what: &str, got: &[E], gerr: &Option<YamlError>| -> Result<(), String> {
        if got == want && *gerr == err {
            return Ok(());
        }
        Err(format!("{what} differs from pulling\npulled: {err:?}\n{}{what}: {gerr:?}\n{}", show(&want), show(got)))
    };
    // push
    let mut r = Spanned(vec![]);
    let e = Parser::new_from_str(s).load(&mut r, true).err();
    same("pushing", &r.0, &e)?;
    let mut r = Plain(vec![]);
    let e = Parser::new_from_str(s).load(&mut r, true).err();
    if !r.0.iter().eq(want.iter().map(|x| &x.0)) || e != err {
        return Err("pushing to a receiver without spans differs from pulling".into());
    }
    // one document at a time
    let mut p = Parser::new_from_str(s);
    let mut got = vec![];
    let mut e = None;
    loop {
        let mut r = Spanned(vec![]);
        let x = p.load(&mut r, false);
        let ends = r.0.iter().filter(|x| matches!(x.0, Event::DocumentEnd)).count();
        let last = matches!(r.0.last(), Some((Event::StreamEnd, _)));
        got.extend(r.0);
        if let Err(x) = x {
            e = Some(x);
            break;
        }
        if ends > 1 {
            return Err("asking for one document delivers more".into());
        }
        if last {
            break;
        }
        if ends == 0 || got.len() > want.len() {
            return Err(format!("asking for one document at a time does not deliver documents\n{}", show(&got)));
        }
    }
    same("one document at a time", &got, &e)?;
    // peeking 1..=3 times before each pull
    for peeks in 1..=3 {
        let mut p = Parser::new_from_str(s);
        let mut got = vec![];
        let mut e = None;
        loop {
            let mut seen: Option<Result<E, YamlError>> = None;
            for k in 0..peeks {
                let x = p.peek().map(|r| r.cloned());
                if k > 0 && x != seen {
                    return Err(format!("peeking twice gives {seen:?} and then {x:?}"));
                }
                seen = x;
            }
            let n = p.next_event();
            if n != seen {
                return Err(format!("peeking gives {seen:?}, the next pull {n:?}"));
            }
            match n {
                None => break,
                Some(Ok(x)) => got.push(x),
                Some(Err(x)) => {
                    e = Some(x);
                    break;
                }
            }
            if got.len() > want.len() {
                break;
            }
        }
        same("pulling after peeking", &got, &e)?;
        if p.peek().is_some() || p.next_event().is_some() {
            return Err("something is left after the end".into());
        }
    }
    // iterating: the first document
    let first: Vec<YamEvent> = {
        let mut v = vec![];
        for (e, _) in &want {
            v.extend(simple(e));
            if *e == Event::DocumentEnd {
                break;
            }
        }
        v
    };
    let docs = want.iter().filter(|e| matches!(e.0, Event::DocumentStart(_))).count();
    let complete = first.last() == Some(&YamEvent::DocEnd);
    for it in [ParserIter::new(StrSource::new(s)), ParserIter::from_str_ref(&s)] {
        let mut it = it;
        let mut got = vec![];
        for e in it.by_ref() {
            got.push(e);
            if got.len() > first.len() {
                break;
            }
        }
        if got != first {
            return Err(format!("iterating delivers {got:?}\npulling {first:?}"));
        }
        if it.next().is_some() {
            return Err("the iterator goes on after its end".into());
        }
        let after = want.iter().position(|e| e.0 == Event::DocumentEnd).and_then(|i| want.get(i + 1));
        match (it.error(), complete) {
            (None, true) if docs == 1 && matches!(after, Some((Event::StreamEnd, _))) => {}
            // more than one document, or none
            (Some(YamlError::UnExpectedEvent { .. }), true) if docs > 1 => {}
            (Some(YamlError::UnExpectedEvent { .. }), false) if docs == 0 && err.is_none() => {}
            (Some(e), _) if Some(e) == err.as_ref() && after.is_none() => {}
            (e, c) => return Err(format!("the iterator ends with {e:?}, document complete: {c}, documents: {docs}, pulling ends with {err:?}")),
        }
    }
    ctx.add(TRACES, 1);
    Ok(())
}

/// Every sequence of up to `depth` operations after every number of pulls: the parser is a cursor
/// over the pulled events, whatever the operations.
pub fn operations(s: &str, depth: u32, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let (want, err) = pulled(s)?;
    ctx.outcome(&show(&want));
    let mut steps = 0;
    for lead in 0..=want.len() {
        for seq in 0..4u32.pow(depth) {
            let mut p = Parser::new_from_str(s);
            let mut at = 0;
            let mut done = false;
            let mut ops = String::new();
            let mut k = 0;
            loop {
                let op = if k < lead {
                    1
                } else if k < lead + depth as usize {
                    (seq / 4u32.pow((k - lead) as u32)) % 4
                } else {
                    1
                };
                k += 1;
                steps += 1;
                ops.push("pnda"[op as usize..].chars().next().unwrap());
                let want_next = || if done { None } else { want.get(at).map(|e| Ok(e.clone())).or(err.clone().map(Err)) };
                match op {
                    0 => {
                        let w = want_next();
                        let g = p.peek().map(|r| r.cloned());
                        if g != w {
                            return Err(format!("operations {ops}: peeking gives {g:?}, expected {w:?}"));
                        }
                    }
                    1 => {
                        let w = want_next();
                        let g = p.next_event();
                        if g != w {
                            return Err(format!("operations {ops}: pulling gives {g:?}, expected {w:?}"));
                        }
                        match g {
                            None => break,
                            Some(Ok((ev, _))) => {
                                at += 1;
                                done |= ev == Event::StreamEnd;
                            }
                            Some(Err(_)) => done = true,
                        }
                    }
                    _ => {
                        // what a push after the end does is not specified
                        if done {
                            break;
                        }
                        let mut to = at;
                        let mut w_err = None;
                        loop {
                            match want.get(to) {
                                None => {
                                    w_err = err.clone();
                                    break;
                                }
                                Some((ev, _)) => {
                                    to += 1;
                                    if *ev == Event::StreamEnd || (op == 2 && *ev == Event::DocumentEnd) {
                                        break;
                                    }
                                }
                            }
                        }
                        let mut r = Spanned(vec![]);
                        let g = p.load(&mut r, op == 3).err();
                        if r.0 != want[at..to] || g != w_err {
                            return Err(format!("operations {ops}: pushing delivers {g:?}\n{}expected {w_err:?}\n{}", show(&r.0), show(&want[at..to])));
                        }
                        at = to;
                        if w_err.is_some() {
                            // the error may be reported once more by a pull
                            break;
                        }
                        done = matches!(want.get(at.wrapping_sub(1)), Some((Event::StreamEnd, _)));
                    }
                }
            }
        }
    }
    ctx.add(TRANS, steps);
    ctx.add(TRACES, 1);
    Ok(())
}
