//! Conformance of the event stream with the reference model.
use crate::engine::*;
use crate::obs::{self, End};
use crate::refyaml::{Outcome, Ref};

pub fn yam(input: &str) -> Result<String, String> {
    let p = yam_core::parsing::Parser::new_from_str(input);
    events(p, input)
}
fn events(mut p: yam_core::parsing::Parser<yam_core::parsing::StrSource>, input: &str) -> Result<String, String> {
    let mut o = String::new();
    match obs::pull(&mut p, input.len(), &mut o) {
        End::Ok => Ok(o),
        End::Err(e) => Err(e),
        End::Runaway => Ok("RUNAWAY".into()),
    }
}

/// What the model says about a text.
pub enum Verdict {
    /// Exactly these events.
    Events(String),
    /// An error, or exactly these events (documented leniency).
    ErrorOr(String),
    Error,
    Unknown,
}

pub fn model(s: &str) -> Verdict {
    model_with(s, false)
}
pub fn model_with(s: &str, keep: bool) -> Verdict {
    let ch: Vec<char> = s.chars().collect();
    let render = |e: &[_]| {
        let mut o = String::new();
        obs::render_ref(e, &mut o);
        o
    };
    match Ref::parse_with(&ch, false, keep) {
        Outcome::Unknown => Verdict::Unknown,
        Outcome::Ok(e) => Verdict::Events(render(&e)),
        Outcome::Err => match Ref::parse_with(&ch, true, keep) {
            Outcome::Unknown => Verdict::Unknown,
            Outcome::Ok(e) => Verdict::ErrorOr(render(&e)),
            Outcome::Err => Verdict::Error,
        },
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Scope {
    /// Any disagreement is a violation.
    All,
    /// Only accepting what the model rejects is a violation.
    Rejection,
}

fn count(ctx: &Ctx, text: &str) {
    let n = text.bytes().filter(|&b| b == b'\n').count() as u64;
    ctx.add(TRANS, n);
    ctx.add(EVENTS, n);
}

/// What the model says about a text by each reading of its corners.
fn readings(s: &str, keep: bool) -> Vec<Verdict> {
    let ch: Vec<char> = s.chars().collect();
    let render = |e: &[_]| {
        let mut o = String::new();
        obs::render_ref(e, &mut o);
        o
    };
    let mut v = vec![];
    for o in Ref::readings(&ch, false, keep) {
        match o {
            Outcome::Unknown => return vec![Verdict::Unknown],
            Outcome::Ok(e) => v.push(Verdict::Events(render(&e))),
            Outcome::Err => {
                for o in Ref::readings(&ch, true, keep) {
                    match o {
                        Outcome::Unknown => return vec![Verdict::Unknown],
                        Outcome::Ok(e) => v.push(Verdict::ErrorOr(render(&e))),
                        Outcome::Err => v.push(Verdict::Error),
                    }
                }
            }
        }
    }
    v
}
/// One of the readings must hold.
fn judge_any(y: Result<String, String>, mut v: Vec<Verdict>, scope: Scope, ctx: &mut Ctx) -> Result<(), String> {
    let last = v.pop().unwrap_or(Verdict::Unknown);
    let holds = |m: &Verdict| match (m, &y) {
        (Verdict::Error | Verdict::ErrorOr(_), Err(_)) => true,
        (Verdict::Events(o) | Verdict::ErrorOr(o), Ok(y)) if o == y => true,
        (Verdict::Events(_), _) => scope == Scope::Rejection,
        _ => false,
    };
    let m = v.into_iter().find(holds).unwrap_or(last);
    judge(y, m, scope, ctx)
}

pub fn conform(s: &str, scope: Scope, ctx: &mut Ctx) -> Result<(), String> {
    judge_any(yam(s), readings(s, false), scope, ctx)
}

/// The same with tag directives kept across documents.
pub fn conform_keep(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let p = yam_core::parsing::Parser::new_from_str(s).keep_tags(true);
    judge_any(events(p, s), readings(s, true), Scope::All, ctx)
}

pub fn judge(y: Result<String, String>, m: Verdict, scope: Scope, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let m = match m {
        Verdict::Unknown => {
            ctx.add(SKIPPED, 1);
            return Ok(());
        }
        m => m,
    };
    ctx.add(TRACES, 1);
    match (&m, &y) {
        (Verdict::Error, Err(e)) => {
            ctx.add(REJECTED, 1);
            ctx.outcome(e);
            Ok(())
        }
        (Verdict::ErrorOr(_), Err(_)) => {
            ctx.add(REJECTED, 1);
            Ok(())
        }
        (Verdict::Events(o), Ok(y)) | (Verdict::ErrorOr(o), Ok(y)) => {
            if o == y {
                ctx.add(ACCEPTED, 1);
                count(ctx, y);
                ctx.outcome(y);
                Ok(())
            } else if scope == Scope::Rejection && matches!(m, Verdict::Events(_)) {
                Ok(())
            } else {
                Err(format!("events differ\nexpected:\n{o}reported:\n{y}"))
            }
        }
        (Verdict::Error, Ok(y)) => Err(format!("accepts what no reading of the specification accepts\nreported:\n{y}")),
        (Verdict::Events(o), Err(e)) => {
            if scope == Scope::Rejection {
                Ok(())
            } else {
                Err(format!("rejects a well-formed text: {e}\nexpected:\n{o}"))
            }
        }
        (Verdict::Unknown, _) => unreachable!(),
    }
}
