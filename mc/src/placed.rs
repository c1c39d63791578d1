//! A node type that keeps the positions the loader gives it.
use crate::engine::*;
use crate::trees::{T, of_scalar};
use std::borrow::Cow;
use std::marker::PhantomData;
use yam_core::parsing::{Event, Parser, Tag};
use yam_core::prelude::{Marker, NodeType, Span, YamlAccessError, YamlData, YamlDocAccess, YamlEntry, YamlError, YamlLoader, YamlScalar};

#[derive(Clone)]
pub struct Node<'a> {
    start: Option<Marker>,
    end: Option<Marker>,
    yaml: YamlData<'a, Node<'a>>,
}
impl<'a> From<YamlData<'a, Node<'a>>> for Node<'a> {
    fn from(yaml: YamlData<'a, Node<'a>>) -> Self {
        Node { start: None, end: None, yaml }
    }
}
impl<'a> From<YamlScalar<'a>> for Node<'a> {
    fn from(s: YamlScalar<'a>) -> Self {
        YamlData::Scalar(s).into()
    }
}
macro_rules! get {
    ($y:expr, $p:pat => $e:expr) => {
        match $y {
            $p => Some($e),
            _ => None,
        }
    };
}
impl<'a> YamlDocAccess<'a> for Node<'a> {
    type OutNode = Self;
    type SequenceNode = Vec<Self>;
    type MappingNode = Vec<YamlEntry<'a, Self>>;
    fn key_from_usize(i: usize) -> Self {
        YamlScalar::Integer(i as i64).into()
    }
    fn key_from_str(s: &str) -> Self {
        YamlScalar::String(Cow::Owned(s.to_string())).into()
    }
    fn is_non_empty_collection(&self) -> bool {
        match &self.yaml {
            YamlData::Sequence(v) => !v.is_empty(),
            YamlData::Mapping(v) => !v.is_empty(),
            _ => false,
        }
    }
    fn as_bool(&self) -> Option<bool> {
        get!(&self.yaml, YamlData::Scalar(YamlScalar::Bool(b)) => *b)
    }
    fn as_bool_mut(&mut self) -> Option<&mut bool> {
        get!(&mut self.yaml, YamlData::Scalar(YamlScalar::Bool(b)) => b)
    }
    fn as_i64(&self) -> Option<i64> {
        get!(&self.yaml, YamlData::Scalar(YamlScalar::Integer(b)) => *b)
    }
    fn as_i64_mut(&mut self) -> Option<&mut i64> {
        get!(&mut self.yaml, YamlData::Scalar(YamlScalar::Integer(b)) => b)
    }
    fn as_f64(&self) -> Option<f64> {
        get!(&self.yaml, YamlData::Scalar(YamlScalar::FloatingPoint(b)) => *b)
    }
    fn as_f64_mut(&mut self) -> Option<&mut f64> {
        get!(&mut self.yaml, YamlData::Scalar(YamlScalar::FloatingPoint(b)) => b)
    }
    fn as_sequence(&self) -> Result<&Vec<Self>, YamlAccessError> {
        get!(&self.yaml, YamlData::Sequence(v) => v).ok_or(YamlAccessError::ExpectedSequence)
    }
    fn as_sequence_mut(&mut self) -> Result<&mut Vec<Self>, YamlAccessError> {
        get!(&mut self.yaml, YamlData::Sequence(v) => v).ok_or(YamlAccessError::ExpectedSequence)
    }
    fn as_mapping(&self) -> Result<&Self::MappingNode, YamlAccessError> {
        get!(&self.yaml, YamlData::Mapping(v) => v).ok_or(YamlAccessError::ExpectedMapping)
    }
    fn as_mapping_mut(&mut self) -> Result<&mut Self::MappingNode, YamlAccessError> {
        get!(&mut self.yaml, YamlData::Mapping(v) => v).ok_or(YamlAccessError::ExpectedMapping)
    }
    fn as_str(&self) -> Option<&str> {
        get!(&self.yaml, YamlData::Scalar(YamlScalar::String(s)) => s)
    }
    fn as_str_mut(&mut self) -> Option<&mut str> {
        None
    }
    fn sequence_mut(&mut self) -> &mut Vec<Self> {
        self.as_sequence_mut().expect("sequence")
    }
    fn sequence(&self) -> &Vec<Self> {
        self.as_sequence().expect("sequence")
    }
    fn mapping_mut(&mut self) -> &mut Self::MappingNode {
        self.as_mapping_mut().expect("mapping")
    }
    fn mapping(&self) -> &Self::MappingNode {
        self.as_mapping().expect("mapping")
    }
    fn get_tag(&self) -> Option<Tag> {
        get!(&self.yaml, YamlData::Tagged(t, _) => t.clone().into_owned())
    }
    fn get_type(&self) -> NodeType {
        match &self.yaml {
            YamlData::Mapping(_) => NodeType::Mapping,
            YamlData::Sequence(_) => NodeType::Sequence,
            YamlData::Scalar(YamlScalar::Bool(_)) => NodeType::Bool,
            YamlData::Scalar(YamlScalar::Integer(_)) => NodeType::Integer,
            YamlData::Scalar(YamlScalar::FloatingPoint(_)) => NodeType::Floating,
            YamlData::Scalar(YamlScalar::String(_)) => NodeType::String,
            YamlData::Scalar(YamlScalar::Null(_)) => NodeType::Null,
            YamlData::Alias(_) => NodeType::Alias,
            YamlData::Tagged(_, _) => NodeType::Tagged,
            YamlData::BadValue => NodeType::Bad,
        }
    }
    fn into_string(self) -> Option<String> {
        get!(self.yaml, YamlData::Scalar(YamlScalar::String(s)) => s.into_owned())
    }
    fn into_mapping(self) -> Option<Self::MappingNode> {
        get!(self.yaml, YamlData::Mapping(v) => v)
    }
    fn into_sequence(self) -> Option<Vec<Self>> {
        get!(self.yaml, YamlData::Sequence(v) => v)
    }
    fn into_tagged(self, tag: Cow<'a, Tag>) -> Self {
        Node { start: self.start, end: self.end, yaml: YamlData::Tagged(tag, Box::new(self)) }
    }
    fn bad_span_value(span: Span) -> Self {
        Node { start: Some(span.start), end: Some(span.end), yaml: YamlData::BadValue }
    }
    fn null() -> Self {
        YamlScalar::Null(PhantomData).into()
    }
    fn with_start(mut self, m: Marker) -> Self {
        self.start = Some(m);
        self
    }
    fn with_end(mut self, m: Marker) -> Self {
        self.end = Some(m);
        self
    }
    fn with_span(mut self, s: Span) -> Self {
        self.start = Some(s.start);
        self.end = Some(s.end);
        self
    }
}

pub fn of_node(y: &Node) -> T {
    match &y.yaml {
        YamlData::BadValue => T::Bad,
        YamlData::Scalar(s) => of_scalar(s),
        YamlData::Sequence(v) => T::Seq(v.iter().map(of_node).collect()),
        YamlData::Mapping(v) => T::Map(v.iter().map(|e| (of_node(&e.key), of_node(&e.value))).collect()),
        YamlData::Tagged(t, n) => T::Tagged(format!("{}{}", t.handle, t.suffix), Box::new(of_node(n))),
        YamlData::Alias(n) => T::Alias(*n),
    }
}

/// The trees of a text in this type.
pub fn load(s: &str) -> Result<Vec<Node<'_>>, YamlError> {
    YamlLoader::<Node>::load_from_parser(&mut Parser::new_from_str(s))
}

/// The positions given to nodes are those of their events: where a collection starts and ends,
/// where a scalar or an alias is written.
pub fn places(s: &str, docs: &[Node], ctx: &mut Ctx) -> Result<(), String> {
    let evs: Vec<(Event, Span)> = Parser::new_from_str(s).filter_map(|r| r.ok()).collect();
    let mut i = 0;
    let mut docs = docs.iter();
    while i < evs.len() {
        if matches!(evs[i].0, Event::DocumentStart(_)) {
            i += 1;
            let d = docs.next().ok_or("a document is missing")?;
            walk(d, &evs, &mut i, ctx)?;
        }
        i += 1;
    }
    Ok(())
}
/// Compare a node with the events from `i` on, which ends behind them.
fn walk(n: &Node, evs: &[(Event, Span)], i: &mut usize, ctx: &mut Ctx) -> Result<(), String> {
    let Some((e, span)) = evs.get(*i) else { return Ok(()) };
    *i += 1;
    ctx.add(TRANS, 1);
    let mut at = n;
    if let YamlData::Tagged(_, x) = &n.yaml {
        at = x;
    }
    match e {
        Event::Alias(_) => {
            if n.start != Some(span.start) || n.end != Some(span.end) {
                return Err(format!("the copy for the alias at {:?} is placed at {:?} to {:?}", span.start, n.start, n.end));
            }
        }
        Event::Scalar(_) => {
            if n.start != Some(span.start) || n.end != Some(span.end) {
                return Err(format!("the scalar at {:?} is placed at {:?} to {:?}", span.start, n.start, n.end));
            }
        }
        Event::SequenceStart(..) | Event::MappingStart(..) => {
            match &at.yaml {
                YamlData::Sequence(v) => {
                    for x in v {
                        walk(x, evs, i, ctx)?;
                    }
                }
                YamlData::Mapping(v) => {
                    for x in v {
                        walk(&x.key, evs, i, ctx)?;
                        walk(&x.value, evs, i, ctx)?;
                    }
                }
                _ => return Err(format!("the collection at {:?} is a {:?}", span.start, at.get_type())),
            }
            let Some((_, end)) = evs.get(*i) else { return Ok(()) };
            *i += 1;
            for n in [n, at] {
                if n.start != Some(span.start) {
                    return Err(format!("the collection that starts at {:?} is placed at {:?}", span.start, n.start));
                }
                if n.end != Some(end.start) && n.end != Some(end.end) {
                    return Err(format!("the collection that ends at {:?} ends at {:?} in the tree", end.start, n.end));
                }
            }
        }
        _ => {}
    }
    Ok(())
}
