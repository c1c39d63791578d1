//! Loaded trees against the events they are built from, and scalars against the core schema.
use crate::engine::*;
use crate::verdicts::cap;
use std::collections::BTreeMap;
use std::fmt::Write;
use yam_core::parsing::{Event, Parser, StrSource};
use yam_core::prelude::{ScalarType, Tag, Yaml, YamlData, YamlError, YamlLoader, YamlScalar};

/// The value a tree denotes.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Bad,
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Seq(Vec<T>),
    Map(Vec<(T, T)>),
    Tagged(String, Box<T>),
    Alias(usize),
}
pub fn render(t: &T, out: &mut String) {
    match t {
        T::Bad => out.push_str("BAD"),
        T::Null => out.push_str("null"),
        T::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        T::Int(i) => {
            let _ = write!(out, "{i}");
        }
        T::Float(f) if f.is_nan() => out.push_str("NaN"),
        T::Float(f) => {
            let _ = write!(out, "{f:e}f");
        }
        T::Str(s) => {
            let _ = write!(out, "{s:?}");
        }
        T::Seq(v) => {
            out.push('[');
            for x in v {
                render(x, out);
                out.push(',');
            }
            out.push(']');
        }
        T::Map(v) => {
            out.push('{');
            for (k, x) in v {
                render(k, out);
                out.push_str(" => ");
                render(x, out);
                out.push(',');
            }
            out.push('}');
        }
        T::Tagged(n, x) => {
            let _ = write!(out, "<{n}>");
            render(x, out);
        }
        T::Alias(n) => {
            let _ = write!(out, "*{n}");
        }
    }
}
pub fn text(t: &T) -> String {
    let mut s = String::new();
    render(t, &mut s);
    s
}
pub fn of_yaml(y: &Yaml) -> T {
    match &y.0 {
        YamlData::BadValue => T::Bad,
        YamlData::Scalar(s) => of_scalar(s),
        YamlData::Sequence(v) => T::Seq(v.iter().map(of_yaml).collect()),
        YamlData::Mapping(v) => T::Map(v.iter().map(|e| (of_yaml(&e.key), of_yaml(&e.value))).collect()),
        YamlData::Tagged(t, n) => T::Tagged(full(t), Box::new(of_yaml(n))),
        YamlData::Alias(n) => T::Alias(*n),
    }
}
pub fn of_scalar(s: &YamlScalar) -> T {
    match s {
        YamlScalar::Null(_) => T::Null,
        YamlScalar::String(s) => T::Str(s.to_string()),
        YamlScalar::Bool(b) => T::Bool(*b),
        YamlScalar::FloatingPoint(f) => T::Float(*f),
        YamlScalar::Integer(i) => T::Int(*i),
    }
}
pub fn full(t: &Tag) -> String {
    format!("{}{}", t.handle, t.suffix)
}

// ---------------------------------------------------------------------------------------------
// The core schema of YAML 1.2.2, section 10.3.2, as a hand-written matcher for each expression.

/// An integer of any size: sign and magnitude (`None`: more than 128 bits).
pub fn int(s: &str) -> Option<(bool, Option<u128>)> {
    let b = s.as_bytes();
    let radix = |d: &[u8], r: u128| -> Option<Option<u128>> {
        if d.is_empty() {
            return None;
        }
        let mut v = Some(0u128);
        for c in d {
            let x = match c {
                b'0'..=b'9' => (c - b'0') as u128,
                b'a'..=b'f' => (c - b'a') as u128 + 10,
                b'A'..=b'F' => (c - b'A') as u128 + 10,
                _ => return None,
            };
            if x >= r {
                return None;
            }
            v = v.and_then(|v| v.checked_mul(r)).and_then(|v| v.checked_add(x));
        }
        Some(v)
    };
    if let Some(d) = b.strip_prefix(b"0x") {
        return radix(d, 16).map(|v| (false, v));
    }
    if let Some(d) = b.strip_prefix(b"0o") {
        return radix(d, 8).map(|v| (false, v));
    }
    let neg = b.first() == Some(&b'-');
    let d = if neg || b.first() == Some(&b'+') { &b[1..] } else { b };
    radix(d, 10).map(|v| (neg, v))
}
pub fn float(s: &str) -> Option<f64> {
    let b = s.as_bytes();
    let (neg, r) = match b.first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    match r {
        ".inf" | ".Inf" | ".INF" => return Some(if neg { f64::NEG_INFINITY } else { f64::INFINITY }),
        _ => {}
    }
    if matches!(s, ".nan" | ".NaN" | ".NAN") {
        return Some(f64::NAN);
    }
    let digits = |x: &[u8]| x.iter().take_while(|c| c.is_ascii_digit()).count();
    let b = r.as_bytes();
    let mut i = digits(b);
    let whole = i;
    if b.get(i) == Some(&b'.') {
        i += 1;
        let f = digits(&b[i..]);
        if whole == 0 && f == 0 {
            return None;
        }
        i += f;
    } else if whole == 0 {
        return None;
    }
    if let Some(b'e' | b'E') = b.get(i) {
        i += 1;
        if let Some(b'+' | b'-') = b.get(i) {
            i += 1;
        }
        let e = digits(&b[i..]);
        if e == 0 {
            return None;
        }
        i += e;
    }
    if i != b.len() {
        return None;
    }
    // The nearest double: the library routine on the plainest spelling of the same number.
    let (m, e) = r.split_once(['e', 'E']).unwrap_or((r, "0"));
    let (w, f) = m.split_once('.').unwrap_or((m, ""));
    let v: f64 = format!("0{w}.{f}0e{e}").parse().ok()?;
    Some(if neg { -v } else { v })
}

/// What a scalar may resolve to.
#[derive(Clone, Debug)]
pub enum Want {
    Is(T),
    /// An integer that 64 bits cannot hold: any of these.
    OneOf(Vec<T>),
}
impl Want {
    pub fn holds(&self, t: &T) -> bool {
        let same = |a: &T, b: &T| text(a) == text(b);
        match self {
            Want::Is(w) => same(w, t),
            Want::OneOf(v) => v.iter().any(|w| same(w, t)),
        }
    }
}
pub const CORE: &str = "tag:yaml.org,2002:";

pub fn resolve(plain: bool, s: &str, tag: Option<&str>) -> Want {
    if !plain {
        return Want::Is(T::Str(s.to_string()));
    }
    let null = matches!(s, "" | "~" | "null" | "Null" | "NULL");
    let boolean = match s {
        "true" | "True" | "TRUE" => Some(true),
        "false" | "False" | "FALSE" => Some(false),
        _ => None,
    };
    let i = int(s).map(|(neg, m)| {
        let m = m.filter(|m| *m <= i64::MAX as u128 + neg as u128)?;
        Some(if neg { (m as i128).wrapping_neg() as i64 } else { m as i64 })
    });
    let or_bad = |x: Option<T>| Want::Is(x.unwrap_or(T::Bad));
    match tag.and_then(|t| t.strip_prefix(CORE)) {
        Some("null") => or_bad(null.then_some(T::Null)),
        Some("bool") => or_bad(boolean.map(T::Bool)),
        Some("int") => or_bad(i.flatten().map(T::Int)),
        Some("float") => or_bad(float(s).map(T::Float)),
        Some("str") => Want::Is(T::Str(s.to_string())),
        Some(_) => Want::Is(T::Bad),
        None => {
            if null {
                Want::Is(T::Null)
            } else if let Some(b) = boolean {
                Want::Is(T::Bool(b))
            } else if let Some(i) = i {
                match i {
                    Some(i) => Want::Is(T::Int(i)),
                    None => Want::OneOf([float(s).map(T::Float), Some(T::Str(s.to_string()))].into_iter().flatten().collect()),
                }
            } else if let Some(f) = float(s) {
                Want::Is(T::Float(f))
            } else {
                Want::Is(T::Str(s.to_string()))
            }
        }
    }
}

const CORE_TAGS: &[&str] = &["null", "bool", "int", "float", "str", "seq", "binary", "", "Int"];
const STYLES: &[ScalarType] = &[ScalarType::Plain, ScalarType::SingleQuote, ScalarType::DoubleQuote, ScalarType::Literal, ScalarType::Folded];

/// A string resolved in every style under every core schema tag and some others, by the scalar
/// interface and, where a document holds it, through loading.
pub fn scalar(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let tag = |t: &str| if t.starts_with('!') { Tag::new("!", &t[1..]) } else { Tag::new(CORE, t) };
    let bare = YamlScalar::parse_from_cow(s.into());
    let w = resolve(true, s, None);
    if !w.holds(&of_scalar(&bare)) {
        return Err(format!("{s:?} resolves to {bare:?}, expected {w:?}"));
    }
    ctx.outcome(&text(&of_scalar(&bare)));
    for st in STYLES {
        for t in [None].into_iter().chain(CORE_TAGS.iter().copied().chain(["!x", "!"]).map(Some)) {
            let tg = t.map(tag);
            let plain = *st == ScalarType::Plain;
            let name = tg.as_ref().map(full);
            let w = resolve(plain, s, name.as_deref());
            let got = YamlScalar::parse_from_cow_and_metadata(s.into(), *st, tg.map(std::borrow::Cow::Owned));
            let got = got.as_ref().map_or(T::Bad, of_scalar);
            ctx.add(TRANS, 1);
            if !w.holds(&got) {
                return Err(format!("{s:?} in style {st:?} with tag {name:?} resolves to {}, expected {w:?}", text(&got)));
            }
        }
    }
    ctx.add(TRACES, 1);
    Ok(())
}
/// The same through a document, for strings that can be plain scalars of one line.
pub fn scalar_loaded(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let one = |doc: &str, want: &dyn Fn(bool, &str, Option<&str>) -> T, ctx: &mut Ctx| -> Result<(), String> {
        let mut p = Parser::new_from_str(doc);
        let mut v = None;
        let mut nodes = 0;
        while let Some(r) = p.next_event() {
            match r {
                Err(_) => return Ok(()),
                Ok((Event::Scalar(x), _)) => {
                    nodes += 1;
                    v = Some(x)
                }
                Ok((Event::SequenceStart(..) | Event::MappingStart(..) | Event::Alias(_) | Event::DocumentStart(_), _)) => nodes += 1,
                _ => {}
            }
        }
        // one document holding one scalar
        if nodes != 2 {
            return Ok(());
        }
        let Some(v) = v else { return Ok(()) };
        let plain = v.scalar_type == ScalarType::Plain;
        let w = want(plain, &v.value, v.tag.as_deref().map(full).as_deref());
        let y: Yaml = YamlLoader::load_single(doc).map_err(|e| format!("{doc:?} does not load: {e}"))?;
        let got = of_yaml(&y);
        ctx.add(TRANS, 1);
        let isnull = v.is_null();
        let mut inner = &got;
        while let T::Tagged(_, x) = inner {
            inner = x;
        }
        if isnull != (*inner == T::Null) {
            return Err(format!("{doc:?}: null test says {isnull}, the value is {}", text(&got)));
        }
        if text(&w) == text(&got) || matches!(resolve(plain, &v.value, v.tag.as_deref().map(full).as_deref()), Want::OneOf(_)) {
            return Ok(());
        }
        Err(format!("{doc:?} loads as {}, expected {}", text(&got), text(&w)))
    };
    let want = |plain: bool, s: &str, t: Option<&str>| -> T {
        let r = match resolve(plain, s, t) {
            Want::Is(t) => t,
            Want::OneOf(v) => v[0].clone(),
        };
        match t {
            Some(t) if !t.starts_with(CORE) => T::Tagged(t.to_string(), Box::new(r)),
            _ => r,
        }
    };
    for (a, z) in [("", ""), ("'", "'"), ("\"", "\""), ("|-\n  ", ""), (">-\n  ", "")] {
        for t in ["", "!!null ", "!!bool ", "!!int ", "!!float ", "!!str ", "!x ", "! ", "!<tag:yaml.org,2002:int> ", "!<tag:yaml.org,2002:null> ", "!!foo ", "&a "] {
            one(&format!("{t}{a}{s}{z}"), &want, ctx)?;
        }
        one(&format!("%TAG !e! tag:yaml.org,\n--- !e!2002:int {a}{s}{z}"), &want, ctx)?;
        one(&format!("%TAG !! tag:example,\n--- !!int {a}{s}{z}"), &want, ctx)?;
    }
    ctx.add(TRACES, 1);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Trees.

/// The trees that a sequence of events denotes, built by an independent fold.
pub fn fold(evs: &[Event]) -> Vec<T> {
    enum O {
        Seq(Vec<T>),
        Map(Vec<T>),
    }
    let mut docs = vec![];
    let mut open: Vec<(O, usize, Option<String>)> = vec![];
    let mut root: Option<T> = None;
    let mut anchors: BTreeMap<usize, T> = BTreeMap::new();
    let custom = |t: Option<&Tag>| t.map(full).filter(|t| !t.starts_with(CORE));
    let wrap = |t: Option<String>, x: T| match t {
        Some(t) => T::Tagged(t, Box::new(x)),
        None => x,
    };
    for e in evs {
        let node = match e {
            Event::DocumentEnd => {
                docs.push(root.take().unwrap_or(T::Bad));
                continue;
            }
            Event::SequenceStart(a, t) => {
                open.push((O::Seq(vec![]), *a, custom(t.as_deref())));
                continue;
            }
            Event::MappingStart(a, t) => {
                open.push((O::Map(vec![]), *a, custom(t.as_deref())));
                continue;
            }
            Event::SequenceEnd | Event::MappingEnd => {
                let Some((o, a, t)) = open.pop() else { continue };
                let x = match o {
                    O::Seq(v) => T::Seq(v),
                    O::Map(v) => {
                        let mut it = v.into_iter();
                        let mut m = vec![];
                        while let (Some(k), Some(x)) = (it.next(), it.next()) {
                            m.push((k, x));
                        }
                        T::Map(m)
                    }
                };
                let x = wrap(t, x);
                if a != 0 {
                    anchors.insert(a, x.clone());
                }
                x
            }
            Event::Scalar(v) => {
                let plain = v.scalar_type == ScalarType::Plain;
                let t = v.tag.as_deref().map(full);
                let x = match resolve(plain, &v.value, t.as_deref()) {
                    Want::Is(x) => x,
                    Want::OneOf(mut w) => w.remove(0),
                };
                let x = wrap(custom(v.tag.as_deref()), x);
                if v.anchor_id != 0 {
                    anchors.insert(v.anchor_id, x.clone());
                }
                x
            }
            // a node cannot hold itself: the alias denotes no value yet
            Event::Alias(id) => anchors.get(id).cloned().unwrap_or(T::Bad),
            _ => continue,
        };
        match open.last_mut() {
            Some((O::Seq(v) | O::Map(v), ..)) => v.push(node),
            None => root = Some(node),
        }
    }
    docs
}
fn depth(t: &T) -> usize {
    match t {
        T::Seq(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        T::Map(v) => 1 + v.iter().map(|(k, x)| depth(k).max(depth(x))).max().unwrap_or(0),
        T::Tagged(_, x) => depth(x),
        _ => 0,
    }
}
/// Nodes of the expanded trees, to leave out texts that aliases blow up.
fn weight(evs: &[Event]) -> u64 {
    let mut at: BTreeMap<usize, u64> = BTreeMap::new();
    let mut open: Vec<(usize, u64)> = vec![];
    let mut n = 0u64;
    for e in evs {
        match e {
            Event::SequenceStart(a, _) | Event::MappingStart(a, _) => {
                n += 1;
                open.push((*a, n));
            }
            Event::SequenceEnd | Event::MappingEnd => {
                if let Some((a, s)) = open.pop() {
                    at.insert(a, n - s + 1);
                }
            }
            Event::Scalar(_) => n += 1,
            Event::Alias(i) => n = n.saturating_add(*at.get(i).unwrap_or(&1)),
            _ => {}
        }
    }
    n
}

/// Documented limit of the number of nodes repeated: so many, and so many for each byte.
const REPEATED: u64 = 1_000_000;
const REPEATED_PER_BYTE: u64 = 10;

/// Nodes that are repeated because they have an anchor or are an alias.
fn repeated(evs: &[Event]) -> u64 {
    let mut at: BTreeMap<usize, u64> = BTreeMap::new();
    let mut open: Vec<(usize, u64)> = vec![];
    let (mut n, mut r) = (0u64, 0u64);
    for e in evs {
        let (a, size) = match e {
            Event::SequenceStart(a, _) | Event::MappingStart(a, _) => {
                n = n.saturating_add(1);
                open.push((*a, n));
                continue;
            }
            Event::SequenceEnd | Event::MappingEnd => match open.pop() {
                Some((a, s)) => (a, (n - s).saturating_add(1)),
                None => continue,
            },
            Event::Scalar(v) => {
                n = n.saturating_add(1);
                (v.anchor_id, 1)
            }
            Event::Alias(i) => {
                let size = *at.get(i).unwrap_or(&1);
                n = n.saturating_add(size);
                r = r.saturating_add(size);
                continue;
            }
            _ => continue,
        };
        if a > 0 {
            at.insert(a, size);
            r = r.saturating_add(size);
        }
    }
    r
}

/// Depth of the deepest tree.
fn deepest(evs: &[Event]) -> usize {
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    let mut open: Vec<(usize, usize)> = vec![];
    let mut most = 0;
    for e in evs {
        let d = match e {
            Event::SequenceStart(a, _) | Event::MappingStart(a, _) => {
                open.push((*a, 1));
                most = most.max(open.len());
                continue;
            }
            Event::SequenceEnd | Event::MappingEnd => match open.pop() {
                Some((a, d)) => {
                    if a > 0 {
                        at.insert(a, d);
                    }
                    d
                }
                None => continue,
            },
            Event::Alias(i) => *at.get(i).unwrap_or(&0),
            _ => continue,
        };
        most = most.max(open.len() + d);
        if let Some(o) = open.last_mut() {
            o.1 = o.1.max(d + 1);
        }
    }
    most
}

/// Texts that repeat many nodes: they are loaded up to the limit and refused beyond it.
pub fn bomb(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    crate::verdicts::totality(s, false, ctx)?;
    let evs: Vec<Event> = match Parser::new_from_str(s).map(|r| r.map(|x| x.0)).collect() {
        Ok(v) => v,
        Err(e) => {
            let e: YamlError = e;
            return Err(format!("the text is rejected: {e}"));
        }
    };
    let n = repeated(&evs);
    let long = s.split(|c: char| c.is_ascii_whitespace() || "[]{},".contains(c)).any(|w| w.len() > 64);
    let deep = deepest(&evs) > DEEPEST;
    let mut check = |r: Result<(), YamlError>, what: &str| {
        ctx.add(TRACES, 1);
        match r {
            Err(e) if n <= REPEATED && !long && !deep => Err(format!("{n} nodes are repeated, but {what} is refused: {e}")),
            Ok(()) if n > REPEATED + REPEATED_PER_BYTE * s.len() as u64 => Err(format!("{n} nodes are repeated by {what}, beyond the limit")),
            _ => Ok(()),
        }
    };
    check(YamlLoader::<Yaml>::load_from(s).map(drop), "loading")?;
    check(YamlLoader::<Yaml>::load_from_parser(&mut Parser::new_from_str(s)).map(drop), "loading from a parser")?;
    let v: Result<crate::serdeval::Any, _> = yam_serde::from_str(s);
    drop(v);
    let v: Result<serde::de::IgnoredAny, _> = yam_serde::from_str(s);
    drop(v);
    Ok(())
}

pub const DEEPEST: usize = 1024;

pub fn tree(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let mut p = Parser::new_from_str(s);
    let mut evs = vec![];
    let mut err = None;
    while let Some(r) = p.next_event() {
        match r {
            Ok((e, _)) => evs.push(e),
            Err(e) => {
                err = Some(e);
                break;
            }
        }
        if evs.len() > cap(s.len()) {
            return Err("pulling events does not end".into());
        }
    }
    ctx.add(TRANS, evs.len() as u64);
    ctx.add(if err.is_some() { REJECTED } else { ACCEPTED }, 1);
    if weight(&evs) > 200_000 {
        return Ok(());
    }
    let want = fold(&evs);
    let deep = want.iter().map(depth).max().unwrap_or(0);
    // how many documents end before the error
    let show = |v: &[T]| v.iter().map(text).collect::<Vec<_>>().join("\n");
    let got = YamlLoader::<Yaml>::load_from(s);
    let t = |r: Result<Vec<Yaml>, YamlError>| r.map(|v| v.iter().map(of_yaml).collect::<Vec<T>>());
    let got = t(got);
    if deep > DEEPEST {
        return match got {
            Ok(_) => Err("a tree deeper than the documented limit is loaded".into()),
            Err(_) => Ok(()),
        };
    }
    let check = |what: &str, got: &Result<Vec<T>, YamlError>| -> Result<(), String> {
        match (got, &err) {
            (Ok(g), None) if show(g) == show(&want) => Ok(()),
            (Ok(g), None) => Err(format!("{what}: the trees differ from the events\nexpected:\n{}\nloaded:\n{}", show(&want), show(g))),
            (Err(a), Some(b)) if a == b => Ok(()),
            (g, e) => Err(format!("{what} gives {:?}, pulling ends with {e:?}", g.as_ref().map(|v| show(v)))),
        }
    };
    check("loading", &got)?;
    if let Ok(g) = &got {
        ctx.outcome(&show(g));
    }
    check("loading from a parser", &t(YamlLoader::load_from_parser(&mut Parser::new_from_str(s))))?;
    let single = |what: &str, got: Result<Yaml, YamlError>| -> Result<(), String> {
        let got = got.as_ref().map(of_yaml);
        match (got, want.first()) {
            (Ok(g), Some(w)) if text(&g) == text(w) => Ok(()),
            // an error after the first document may or may not be met
            (Err(e), Some(_)) if Some(e) == err.as_ref() => Ok(()),
            (Err(YamlError::NoDocument), None) if err.is_none() => Ok(()),
            (Err(e), None) if Some(e) == err.as_ref() => Ok(()),
            (g, w) => Err(format!("{what} gives {:?}, the first document is {:?}", g.map(|x| text(&x)), w.map(text))),
        }
    };
    // a node type of one's own
    let own = crate::placed::load(s);
    check("loading another node type", &own.as_ref().map(|v| v.iter().map(crate::placed::of_node).collect()).map_err(|e| e.clone()))?;
    if let Ok(v) = &own {
        crate::placed::places(s, v, ctx)?;
    }
    single("loading one document", YamlLoader::load_single(s))?;
    single("loading one document of a source", YamlLoader::load_single_source(StrSource::new(s)))?;
    // document by document
    let mut p = Parser::new_from_str(s);
    let mut one = vec![];
    let end = loop {
        match YamlLoader::<Yaml>::load_single_from_parser(&mut p) {
            Ok(y) => one.push(of_yaml(&y)),
            Err(YamlError::NoDocument) => break None,
            Err(e) => break Some(e),
        }
        if one.len() > want.len() {
            return Err(format!("loading document by document gives too many: {}", show(&one)));
        }
    };
    check("loading document by document", &match end {
        None => Ok(one),
        Some(e) => Err(e),
    })?;
    ctx.add(TRACES, 1);
    Ok(())
}
