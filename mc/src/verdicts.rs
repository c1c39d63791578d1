//! Verdicts that judge one text.
use std::collections::BTreeMap;
use crate::engine::*;
use crate::obs::event_line;
use crate::refyaml::{Ev, Outcome, Ref};
use std::collections::BTreeSet;
use yam_core::parsing::{Event, Parser, ParserIter, Source, SpannedEventReceiver, StrSource};
use yam_core::prelude::{Span, Yaml, YamlError, YamlLoader};

/// The step bound: no text has more events than this (each byte opens and closes at most a few
/// nodes, each of which may need empty nodes beside it).
pub fn cap(len: usize) -> usize {
    16 * len + 64
}

// ---------------------------------------------------------------------------------------------
// Grammar of the event stream.

enum Open {
    Seq,
    Map(u64),
}

/// Accepts exactly the prefixes of the event grammar.
pub struct Grammar {
    started: bool,
    ended: bool,
    in_doc: bool,
    root_done: bool,
    open: Vec<Open>,
    ids: BTreeSet<usize>,
    doc_ids: BTreeSet<usize>,
}
impl Grammar {
    pub fn new() -> Grammar {
        Grammar { started: false, ended: false, in_doc: false, root_done: false, open: vec![], ids: BTreeSet::new(), doc_ids: BTreeSet::new() }
    }
    fn node(&mut self) -> Result<(), String> {
        if !self.in_doc {
            return Err("node outside a document".into());
        }
        match self.open.last_mut() {
            Some(Open::Map(n)) => *n += 1,
            Some(Open::Seq) => {}
            None => {
                if self.root_done {
                    return Err("second root node in a document".into());
                }
                self.root_done = true;
            }
        }
        Ok(())
    }
    fn anchor(&mut self, id: usize) -> Result<(), String> {
        if id != 0 {
            if !self.ids.insert(id) {
                return Err(format!("anchor id {id} is not new"));
            }
            self.doc_ids.insert(id);
        }
        Ok(())
    }
    pub fn step(&mut self, ev: &Event) -> Result<(), String> {
        if self.ended {
            return Err("event after the stream end".into());
        }
        if !self.started && *ev != Event::StreamStart {
            return Err("first event is not the stream start".into());
        }
        match ev {
            Event::StreamStart => {
                if self.started {
                    return Err("second stream start".into());
                }
                self.started = true;
                Ok(())
            }
            Event::StreamEnd => {
                if self.in_doc {
                    return Err("stream end inside a document".into());
                }
                self.ended = true;
                Ok(())
            }
            Event::DocumentStart(_) => {
                if self.in_doc {
                    return Err("document start inside a document".into());
                }
                self.in_doc = true;
                self.root_done = false;
                self.doc_ids.clear();
                Ok(())
            }
            Event::DocumentEnd => {
                if !self.in_doc || !self.open.is_empty() || !self.root_done {
                    return Err("document end without exactly one complete node".into());
                }
                self.in_doc = false;
                Ok(())
            }
            Event::Scalar(v) => {
                self.node()?;
                self.anchor(v.anchor_id)
            }
            Event::Alias(id) => {
                if !self.doc_ids.contains(id) {
                    return Err(format!("alias to id {id}, which no node of this document has"));
                }
                self.node()
            }
            Event::SequenceStart(a, _) => {
                self.node()?;
                self.anchor(*a)?;
                self.open.push(Open::Seq);
                Ok(())
            }
            Event::MappingStart(a, _) => {
                self.node()?;
                self.anchor(*a)?;
                self.open.push(Open::Map(0));
                Ok(())
            }
            Event::SequenceEnd => match self.open.pop() {
                Some(Open::Seq) => Ok(()),
                _ => Err("sequence end without sequence".into()),
            },
            Event::MappingEnd => match self.open.pop() {
                Some(Open::Map(n)) if n % 2 == 0 => Ok(()),
                Some(Open::Map(_)) => Err("mapping with a key but no value".into()),
                _ => Err("mapping end without mapping".into()),
            },
            Event::Comment(_) => Ok(()),
            Event::Nothing => Err("empty event".into()),
        }
    }
    pub fn complete(&self) -> bool {
        self.ended
    }
}

pub fn grammar(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let mut p = Parser::new_from_str(s);
    let mut g = Grammar::new();
    let mut log = String::new();
    let mut n = 0;
    let err = loop {
        n += 1;
        if n > cap(s.len()) {
            return Err(format!("more events than the text can hold\n{log}"));
        }
        match p.next_event() {
            None => break false,
            Some(Err(_)) => break true,
            Some(Ok((ev, _))) => {
                event_line(&ev, &mut log);
                g.step(&ev).map_err(|m| format!("{m}\n{log}"))?;
            }
        }
    };
    ctx.add(TRANS, n as u64);
    ctx.add(TRACES, 1);
    ctx.add(if err { REJECTED } else { ACCEPTED }, 1);
    ctx.outcome(&log);
    if err && g.complete() {
        return Err(format!("an error after the stream end\n{log}"));
    }
    if !err && !g.complete() {
        return Err(format!("no error, but the stream is not complete\n{log}"));
    }
    // Nothing is delivered after the end or after an error.
    for _ in 0..4 {
        match (err, p.next_event()) {
            (_, None) => {}
            (true, Some(Err(_))) => {}
            (true, Some(Ok((ev, _)))) => return Err(format!("an event after an error: {ev:?}\n{log}")),
            (false, Some(r)) => return Err(format!("something after the end: {r:?}\n{log}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Totality.

pub struct Count(pub usize);
impl<'i> SpannedEventReceiver<'i> for Count {
    fn on_event(&mut self, _: Event<'i>, _: Span) {
        self.0 += 1;
    }
}

/// Memory that ends at an unmapped page, so that reading past a text placed at its end faults.
pub struct Guarded {
    base: *mut u8,
    size: usize,
}
impl Guarded {
    pub fn new(size: usize) -> Guarded {
        let size = size.div_ceil(4096) * 4096;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), size + 8192, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert_ne!(base, libc::MAP_FAILED);
            let base = (base as *mut u8).add(4096);
            assert_eq!(libc::mprotect(base.cast(), size, libc::PROT_READ | libc::PROT_WRITE), 0);
            Guarded { base, size }
        }
    }
    /// The text, placed against the end of the mapping.
    pub fn put(&self, s: &str) -> Option<&str> {
        if s.len() > self.size {
            return None;
        }
        unsafe {
            let at = self.base.add(self.size - s.len());
            std::ptr::copy_nonoverlapping(s.as_ptr(), at, s.len());
            Some(std::str::from_utf8_unchecked(std::slice::from_raw_parts(at, s.len())))
        }
    }
}
thread_local! {
    static GUARD: Guarded = Guarded::new(1 << 16);
}

fn drain_iter<R: Source>(it: ParserIter<'_, R>, cap: usize) -> Result<usize, String> {
    let mut n = 0;
    for _ in it {
        n += 1;
        if n > cap {
            return Err("event iterator does not end".into());
        }
    }
    Ok(n)
}

/// Every entry point returns. Panics, aborts, faults and endless loops are detected by the
/// engine; endless streams of events here.
pub fn totality(s: &str, trees: bool, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    GUARD.with(|g| {
        let s = g.put(s).unwrap_or(s);
        let cap = cap(s.len());
        let mut log = String::new();
        // pull, looking ahead before each event
        let mut p = Parser::new_from_str(s);
        let mut n = 0;
        let ok = loop {
            n += 1;
            if n > cap {
                return Err("pulling events does not end".to_string());
            }
            let _ = p.peek();
            match p.next_event() {
                None => break true,
                Some(Err(e)) => {
                    log.push_str(&e.to_string());
                    break false;
                }
                Some(Ok((ev, _))) => event_line(&ev, &mut log),
            }
        };
        for _ in 0..3 {
            let _ = p.peek();
            if let (true, Some(r)) = (ok, p.next_event()) {
                return Err(format!("after the end of the stream: {r:?}"));
            }
        }
        ctx.add(TRANS, n as u64);
        ctx.add(if ok { ACCEPTED } else { REJECTED }, 1);
        ctx.outcome(&log);
        // push
        let mut c = Count(0);
        let r = Parser::new_from_str(s).load(&mut c, true);
        if c.0 > cap {
            return Err("pushing events does not end".to_string());
        }
        if r.is_ok() != ok {
            return Err(format!("pushing gives {r:?} where pulling {}", if ok { "succeeds" } else { "fails" }));
        }
        let mut p = Parser::new_from_str(s).keep_tags(true);
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > cap {
                return Err("pushing document by document does not end".to_string());
            }
            let mut c = Count(0);
            if p.load(&mut c, false).is_err() || c.0 == 0 {
                break;
            }
            if matches!(p.peek(), None | Some(Err(_))) {
                break;
            }
        }
        drain_iter(ParserIter::new(StrSource::new(s)), cap)?;
        if trees {
            let y: Result<Vec<Yaml>, YamlError> = YamlLoader::load_from(s);
            let _ = y.as_ref().map(|v| v.len());
            let y1: Result<Yaml, YamlError> = YamlLoader::load_single(s);
            drop(y1);
            // Trees of more than 1024 levels are an error.
            if y.is_ok() != ok && (!ok || s.len() < 1024) {
                return Err(format!("loading succeeds: {}, pulling succeeds: {ok}", y.is_ok()));
            }
            drop(y);
            let v: Result<crate::serdeval::Any, _> = yam_serde::from_str(s);
            drop(v);
            let v: Result<serde::de::IgnoredAny, _> = yam_serde::from_str(s);
            drop(v);
        }
        ctx.add(TRACES, 1);
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// Anchors.

/// Conformance plus: looking up the id of a node or alias gives the name written there.
pub fn anchor_names(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    crate::conf::conform(s, crate::conf::Scope::All, ctx)?;
    let ch: Vec<char> = s.chars().collect();
    let Outcome::Ok(evs) = Ref::parse(&ch) else { return Ok(()) };
    let mut p = Parser::new_from_str(s);
    let mut want = evs.iter();
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    // every anchor so far, those given another node since or of an earlier document included
    let mut all: Vec<(usize, String)> = vec![];
    while let Some(Ok((ev, _))) = p.next_event() {
        if matches!(ev, Event::StreamStart | Event::StreamEnd) {
            continue;
        }
        let w = want.next();
        if matches!(ev, Event::DocumentStart(_)) {
            seen.clear();
        }
        let (id, name) = match (&ev, w) {
            (Event::Alias(id), Some(Ev::Alias(n))) => (*id, Some(n)),
            (Event::Scalar(v), Some(Ev::Scalar(_, _, pr))) => (v.anchor_id, pr.anchor.as_ref()),
            (Event::SequenceStart(a, _), Some(Ev::Seq(pr))) | (Event::MappingStart(a, _), Some(Ev::Map(pr))) => (*a, pr.anchor.as_ref()),
            _ => continue,
        };
        if let Some(name) = name {
            if !matches!(ev, Event::Alias(_)) {
                seen.insert(name.clone(), id);
                all.push((id, name.clone()));
            }
            // Looking an anchor up takes longer the more there are: of very many only some are.
            let every = all.len() < 300;
            if !every && all.len() % 500 != 0 {
                continue;
            }
            // and an id no longer in force never stands for another name
            for (i, n) in &all[if every { 0 } else { all.len() - 10 }..] {
                let got = p.get_anchor(*i);
                if got.is_some_and(|x| **x != **n) {
                    return Err(format!("anchor id {i} is looked up as {got:?}, written as {n:?}"));
                }
            }
            // every anchor in force is found under its id
            for (n, i) in seen.iter().filter(|_| every) {
                let got = p.get_anchor(*i);
                if got.map(|x| &**x) != Some(n.as_str()) {
                    return Err(format!("anchor id {i} is looked up as {got:?}, written as {n:?}"));
                }
            }
            let got = p.get_anchor(id);
            if got.map(|x| &**x) != Some(name.as_str()) {
                return Err(format!("anchor id {id} is looked up as {got:?}, written as {name:?}"));
            }
        }
    }
    if p.get_anchor(0).is_some() {
        return Err("id 0 denotes an anchor".into());
    }
    let next = all.iter().map(|x| x.0).max().unwrap_or(0) + 1;
    if let Some(n) = p.get_anchor(next) {
        return Err(format!("id {next} was never given to an anchor and is looked up as {n:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Rejection by every entry point of the core crate.

pub fn rejected_everywhere(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let y = crate::conf::yam(s);
    let e = match &y {
        Err(e) => Some(e.clone()),
        _ => None,
    };
    crate::conf::conform(s, crate::conf::Scope::Rejection, ctx)?;
    if e.is_some() {
        let mut c = Count(0);
        if Parser::new_from_str(s).load(&mut c, true).is_ok() {
            return Err("pushing events accepts a text that pulling rejects".into());
        }
        let y: Result<Vec<Yaml>, YamlError> = YamlLoader::load_from(s);
        if y.is_ok() {
            return Err("loading accepts a text that pulling rejects".into());
        }
        let v: Result<crate::serdeval::Any, _> = yam_serde::from_str(s);
        if v.is_ok() {
            return Err("deserializing accepts a text that pulling rejects".into());
        }
    }
    Ok(())
}
