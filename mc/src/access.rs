//! Queries, lookups and changes of tree nodes, against a plain tree.
use crate::engine::*;
use crate::trees::{T, of_scalar, of_yaml, text};
use std::borrow::Cow;
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind};
use yam_core::parsing::Tag;
use yam_core::prelude::{
    IsEmpty, MappingLike, Marker, NodeType, SequenceLike, Span, SpannedYaml, Yaml, YamlAccessError, YamlData, YamlDocAccess, YamlEntry, YamlOwned, YamlScalar,
};

fn tag(n: &str) -> Tag {
    Tag::new("!", &n[1..])
}
fn scalar(t: &T) -> Option<YamlScalar<'static>> {
    Some(match t {
        T::Null => YamlScalar::Null(PhantomData),
        T::Bool(b) => YamlScalar::Bool(*b),
        T::Int(i) => YamlScalar::Integer(*i),
        T::Float(f) => YamlScalar::FloatingPoint(*f),
        T::Str(s) => YamlScalar::String(match s.as_str() {
            "a" => Cow::Borrowed("a"),
            "0" => Cow::Borrowed("0"),
            _ => Cow::Owned(s.clone()),
        }),
        _ => return None,
    })
}
fn yaml(t: &T) -> Yaml<'static> {
    Yaml(match t {
        T::Bad => YamlData::BadValue,
        T::Seq(v) => YamlData::Sequence(v.iter().map(yaml).collect()),
        T::Map(v) => YamlData::Mapping(v.iter().map(|(k, x)| YamlEntry::new(yaml(k), yaml(x))).collect()),
        T::Tagged(n, x) => YamlData::Tagged(Cow::Owned(tag(n)), Box::new(yaml(x))),
        T::Alias(n) => YamlData::Alias(*n),
        s => YamlData::Scalar(scalar(s).unwrap()),
    })
}
const SPAN: Span = Span { start: Marker { pos: 3, col: 4, line: 1 }, end: Marker { pos: 9, col: 2, line: 2 } };
fn spanned(t: &T) -> SpannedYaml<'static> {
    SpannedYaml {
        span: SPAN,
        yaml: match t {
            T::Bad => YamlData::BadValue,
            T::Seq(v) => YamlData::Sequence(v.iter().map(spanned).collect()),
            T::Map(v) => YamlData::Mapping(v.iter().map(|(k, x)| YamlEntry::new(spanned(k), spanned(x))).collect()),
            T::Tagged(n, x) => YamlData::Tagged(Cow::Owned(tag(n)), Box::new(spanned(x))),
            T::Alias(n) => YamlData::Alias(*n),
            s => YamlData::Scalar(scalar(s).unwrap()),
        },
    }
}
fn of_spanned(y: &SpannedYaml) -> T {
    match &y.yaml {
        YamlData::BadValue => T::Bad,
        YamlData::Scalar(s) => of_scalar(s),
        YamlData::Sequence(v) => T::Seq(v.iter().map(of_spanned).collect()),
        YamlData::Mapping(v) => T::Map(v.iter().map(|e| (of_spanned(&e.key), of_spanned(&e.value))).collect()),
        YamlData::Tagged(t, n) => T::Tagged(format!("{}{}", t.handle, t.suffix), Box::new(of_spanned(n))),
        YamlData::Alias(n) => T::Alias(*n),
    }
}
fn owned(t: &T) -> YamlOwned {
    YamlOwned(match t {
        T::Bad => YamlData::BadValue,
        T::Seq(v) => YamlData::Sequence(v.iter().map(owned).collect()),
        T::Map(v) => YamlData::Mapping(v.iter().map(|(k, x)| YamlEntry::new(owned(k), owned(x))).collect()),
        T::Tagged(n, x) => YamlData::Tagged(Cow::Owned(tag(n)), Box::new(owned(x))),
        T::Alias(n) => YamlData::Alias(*n),
        T::Null => YamlData::Scalar(YamlScalar::Null(PhantomData)),
        T::Bool(b) => YamlData::Scalar(YamlScalar::Bool(*b)),
        T::Int(i) => YamlData::Scalar(YamlScalar::Integer(*i)),
        T::Float(f) => YamlData::Scalar(YamlScalar::FloatingPoint(*f)),
        T::Str(s) => YamlData::Scalar(YamlScalar::String(s.clone())),
    })
}

/// Equal for the purpose of comparing contents: NaN is NaN, and zero has a sign.
pub fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Float(x), T::Float(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (T::Seq(x), T::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (T::Map(x), T::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(&a.0, &b.0) && same(&a.1, &b.1)),
        (T::Tagged(n, x), T::Tagged(m, y)) => n == m && same(x, y),
        _ => a == b,
    }
}
fn leaves() -> Vec<T> {
    let s = |x: &str| T::Str(x.into());
    vec![
        T::Null, T::Bool(true), T::Bool(false), T::Int(0), T::Int(1), T::Int(-1), T::Int(i64::MAX), T::Int(i64::MIN),
        T::Float(0.0), T::Float(-0.0), T::Float(1.0), T::Float(f64::NAN), T::Float(f64::INFINITY), T::Float(1.5e300),
        s(""), s("a"), s("0"), s("1"), s("b"), s("null"), s("\u{e9}x"), T::Bad, T::Alias(0), T::Alias(1),
    ]
}
fn pick(v: &[T], ix: &[usize]) -> Vec<T> {
    ix.iter().map(|&i| v[i].clone()).collect()
}
fn collections(elems: &[T], keys: &[T], values: &[T]) -> Vec<T> {
    let mut o = vec![T::Seq(vec![]), T::Map(vec![])];
    for a in elems {
        o.push(T::Seq(vec![a.clone()]));
        for b in elems {
            o.push(T::Seq(vec![a.clone(), b.clone()]));
        }
    }
    for k in keys {
        for v in values {
            o.push(T::Map(vec![(k.clone(), v.clone())]));
            for k2 in keys {
                for v2 in values.iter().take(2) {
                    o.push(T::Map(vec![(k.clone(), v.clone()), (k2.clone(), v2.clone())]));
                }
            }
        }
    }
    o
}
/// All trees over the leaves up to two levels of small collections, and tags around them.
pub fn trees(level: usize) -> Vec<T> {
    let l = leaves();
    let mut v = l.clone();
    let inner = pick(&l, if level > 1 { &[0, 3, 4, 5, 10, 14, 15, 16, 21] } else { &[3, 4, 14, 15, 16, 21] });
    let vals = pick(&l, &[15, 4, 0]);
    let mut keys = pick(&l, &[3, 4, 5, 15, 16, 10, 21]);
    keys.push(T::Tagged("!t".into(), Box::new(T::Int(0))));
    let one = collections(&inner, &keys, &vals);
    v.extend(one.iter().cloned());
    let small: Vec<T> = one.iter().step_by(if level > 1 { 17 } else { 41 }).cloned().chain(pick(&l, &[4, 15])).collect();
    v.extend(collections(&small, &pick(&l, &[3, 15]), &small));
    let n = v.len();
    for i in (0..n).filter(|i| *i < l.len() || i % 7 == 0) {
        v.push(T::Tagged("!t".into(), Box::new(v[i].clone())));
        v.push(T::Tagged("!u".into(), Box::new(T::Tagged("!t".into(), Box::new(v[i].clone())))));
    }
    v
}

fn expect<A: PartialEq + std::fmt::Debug>(what: &str, m: &T, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} of {} is {got:?}, not {want:?}", text(m))) }
}
fn expect_tree(what: &str, m: &T, got: &T, want: &T) -> Result<(), String> {
    if same(got, want) { Ok(()) } else { Err(format!("{what} of {} gives {}, not {}", text(m), text(got), text(want))) }
}
fn panics<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Every query and conversion of one node.
fn queries<'a, N>(n: &N, m: &T, of: fn(&N) -> T, ctx: &mut Ctx) -> Result<(), String>
where
    N: YamlDocAccess<'a, OutNode = N, SequenceNode = Vec<N>, MappingNode = Vec<YamlEntry<'a, N>>>,
{
    let nt = n.get_type();
    let is = |t: NodeType| nt == t;
    ctx.outcome(&format!("{nt:?}{}", text(m)));
    // The type says what the node is ...
    let right = match m {
        T::Bad => is(NodeType::Bad),
        T::Null => is(NodeType::Null),
        T::Bool(_) => is(NodeType::Bool),
        T::Int(_) => is(NodeType::Integer),
        T::Float(_) => is(NodeType::Floating),
        T::Str(_) => is(NodeType::String),
        T::Seq(_) => is(NodeType::Sequence),
        T::Map(_) => is(NodeType::Mapping),
        T::Alias(_) => is(NodeType::Alias),
        // ... and a tagged node is none of the others, for it answers none of their accessors.
        T::Tagged(..) => ![
            NodeType::Bad, NodeType::Null, NodeType::Bool, NodeType::Integer, NodeType::Floating, NodeType::String, NodeType::Sequence, NodeType::Mapping, NodeType::Alias,
        ]
        .contains(&nt),
    };
    if !right {
        return Err(format!("the type of {} is {nt:?}", text(m)));
    }
    let (seq, map) = (matches!(m, T::Seq(_)), matches!(m, T::Map(_)));
    expect("is_bad_value", m, n.is_bad_value(), matches!(m, T::Bad))?;
    expect("is_null", m, n.is_null(), matches!(m, T::Null))?;
    expect("is_string", m, n.is_string(), matches!(m, T::Str(_)))?;
    expect("is_bool", m, n.is_bool(), matches!(m, T::Bool(_)))?;
    expect("is_floating_point", m, n.is_floating_point(), matches!(m, T::Float(_)))?;
    expect("is_integer", m, n.is_integer(), matches!(m, T::Int(_)))?;
    expect("is_alias", m, n.is_alias(), matches!(m, T::Alias(_)))?;
    expect("is_collection", m, n.is_collection(), seq || map)?;
    expect("is_mapping", m, n.is_mapping(), map)?;
    expect("is_sequence", m, n.is_sequence(), seq)?;
    expect("is_non_empty_collection", m, n.is_non_empty_collection(), match m {
        T::Seq(v) => !v.is_empty(),
        T::Map(v) => !v.is_empty(),
        _ => false,
    })?;
    let b = if let T::Bool(b) = m { Some(*b) } else { None };
    let i = if let T::Int(i) = m { Some(*i) } else { None };
    let f = if let T::Float(f) = m { Some(f.to_bits()) } else { None };
    let s = if let T::Str(s) = m { Some(s.clone()) } else { None };
    let t = if let T::Tagged(t, _) = m { Some(tag(t)) } else { None };
    expect("as_bool", m, n.as_bool(), b)?;
    expect("as_i64", m, n.as_i64(), i)?;
    expect("as_f64", m, n.as_f64().map(f64::to_bits), f)?;
    expect("as_str", m, n.as_str().map(str::to_string), s.clone())?;
    expect("get_tag", m, n.get_tag(), t)?;
    expect("into_bool", m, n.clone().into_bool(), b)?;
    expect("into_i64", m, n.clone().into_i64(), i)?;
    expect("into_f64", m, n.clone().into_f64().map(f64::to_bits), f)?;
    expect("into_string", m, n.clone().into_string(), s)?;
    let sq = |v: &Vec<N>| T::Seq(v.iter().map(of).collect());
    let mp = |v: &Vec<YamlEntry<'a, N>>| T::Map(v.iter().map(|e| (of(&e.key), of(&e.value))).collect());
    let mut c = n.clone();
    if seq {
        expect_tree("as_sequence", m, &sq(n.as_sequence().map_err(|e| format!("as_sequence of {}: {e:?}", text(m)))?), m)?;
        expect_tree("sequence", m, &sq(n.sequence()), m)?;
        expect_tree("as_sequence_mut", m, &sq(c.as_sequence_mut().map_err(|e| format!("as_sequence_mut: {e:?}"))?), m)?;
        expect_tree("sequence_mut", m, &sq(c.sequence_mut()), m)?;
        expect_tree("into_sequence", m, &sq(&n.clone().into_sequence().ok_or("into_sequence gives nothing")?), m)?;
        let v = n.sequence();
        expect("vec", m, v.vec().len(), v.len())?;
        expect("is_collection_empty", m, v.is_collection_empty(), v.is_empty())?;
    } else {
        expect("as_sequence", m, n.as_sequence().err(), Some(YamlAccessError::ExpectedSequence))?;
        expect("as_sequence_mut", m, c.as_sequence_mut().err(), Some(YamlAccessError::ExpectedSequence))?;
        expect("into_sequence", m, n.clone().into_sequence().is_some(), false)?;
        expect("sequence", m, panics(|| n.sequence()).is_some(), false)?;
        expect("sequence_mut", m, panics(|| c.sequence_mut().len()).is_some(), false)?;
    }
    if map {
        expect_tree("as_mapping", m, &mp(n.as_mapping().map_err(|e| format!("as_mapping of {}: {e:?}", text(m)))?), m)?;
        expect_tree("mapping", m, &mp(n.mapping()), m)?;
        expect_tree("as_mapping_mut", m, &mp(c.as_mapping_mut().map_err(|e| format!("as_mapping_mut: {e:?}"))?), m)?;
        expect_tree("mapping_mut", m, &mp(c.mapping_mut()), m)?;
        expect_tree("into_mapping", m, &mp(&n.clone().into_mapping().ok_or("into_mapping gives nothing")?), m)?;
        let v = n.mapping();
        expect("entries", m, v.entries().len(), v.len())?;
        expect("is_collection_empty", m, v.is_collection_empty(), v.is_empty())?;
    } else {
        expect("as_mapping", m, n.as_mapping().err(), Some(YamlAccessError::ExpectedMapping))?;
        expect("as_mapping_mut", m, c.as_mapping_mut().err(), Some(YamlAccessError::ExpectedMapping))?;
        expect("into_mapping", m, n.clone().into_mapping().is_some(), false)?;
        expect("mapping", m, panics(|| n.mapping()).is_some(), false)?;
        expect("mapping_mut", m, panics(|| c.mapping_mut().len()).is_some(), false)?;
    }
    // Mutable accessors refer to the value itself.
    expect("as_bool_mut", m, c.as_bool_mut().map(|x| *x), b)?;
    expect("as_i64_mut", m, c.as_i64_mut().map(|x| *x), i)?;
    expect("as_f64_mut", m, c.as_f64_mut().map(|x| x.to_bits()), f)?;
    expect("as_str_mut", m, c.as_str_mut().map(|x| x.to_string()), n.as_str().map(str::to_string))?;
    expect_tree("looking mutably", m, &of(&c), m)?;
    let mut w = m.clone();
    for (k, what) in ["as_bool_mut", "as_i64_mut", "as_f64_mut", "as_str_mut", "as_sequence_mut", "as_mapping_mut"].iter().enumerate() {
        let mut c = n.clone();
        let hit = change(&mut c, k);
        let mut d = m.clone();
        let should = change_t(&mut d, k);
        expect(what, m, hit, should)?;
        expect_tree(&format!("a change through {what}"), m, &of(&c), &d)?;
        expect_tree(&format!("after a change of a copy through {what}, the node"), m, &of(n), m)?;
        if should {
            w = d;
        }
        ctx.add(TRANS, 1);
    }
    let _ = w;
    // The rest.
    expect_tree("clone", m, &of(&n.clone()), m)?;
    let mut c = n.clone();
    expect_tree("take", m, &of(&c.take()), m)?;
    expect_tree("what take leaves", m, &of(&c), &T::Bad)?;
    expect_tree("with_span", m, &of(&n.clone().with_span(SPAN)), m)?;
    expect_tree("with_start", m, &of(&n.clone().with_start(SPAN.start)), m)?;
    expect_tree("with_end", m, &of(&n.clone().with_end(SPAN.end)), m)?;
    let g = n.clone().into_tagged(Cow::Owned(tag("!new")));
    expect_tree("into_tagged", m, &of(&g), &T::Tagged("!new".into(), Box::new(m.clone())))?;
    expect("get_tag after into_tagged", m, g.get_tag(), Some(tag("!new")))?;
    Ok(())
}
fn change<'a, N>(n: &mut N, k: usize) -> bool
where
    N: YamlDocAccess<'a, OutNode = N, SequenceNode = Vec<N>, MappingNode = Vec<YamlEntry<'a, N>>>,
{
    match k {
        0 => n.as_bool_mut().map(|b| *b = !*b).is_some(),
        1 => n.as_i64_mut().map(|i| *i = i.wrapping_add(1)).is_some(),
        2 => n.as_f64_mut().map(|f| *f = f.abs() / 2.0 + 1.0).is_some(),
        3 => n.as_str_mut().map(|s| s.make_ascii_uppercase()).is_some(),
        4 => n.as_sequence_mut().map(|v| v.push_elem(N::null())).is_ok(),
        _ => n.as_mapping_mut().map(|v| v.push_mapping(N::key_from_usize(7), N::key_from_str("new"))).is_ok(),
    }
}
fn change_t(n: &mut T, k: usize) -> bool {
    match (k, n) {
        (0, T::Bool(b)) => *b = !*b,
        (1, T::Int(i)) => *i = i.wrapping_add(1),
        (2, T::Float(f)) => *f = f.abs() / 2.0 + 1.0,
        (3, T::Str(s)) => s.make_ascii_uppercase(),
        (4, T::Seq(v)) => v.push(T::Null),
        (5, T::Map(v)) => v.push((T::Int(7), T::Str("new".into()))),
        _ => return false,
    }
    true
}

pub struct Nodes(pub Vec<T>);
impl Job for Nodes {
    fn name(&self) -> String {
        "every query, conversion and change of every tree".into()
    }
    fn len(&self) -> u64 {
        self.0.len() as u64
    }
    fn input(&self, i: u64) -> String {
        text(&self.0[i as usize])
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let m = &self.0[i as usize];
        ctx.add(EVALS, 1);
        ctx.add(TRACES, 1);
        queries(&yaml(m), m, |n| of_yaml(n), ctx)?;
        queries(&spanned(m), m, |n| of_spanned(n), ctx).map_err(|e| format!("SpannedYaml: {e}"))?;
        if spanned(m).clone().span != SPAN {
            return Err("cloning loses the span".into());
        }
        if let Some(s) = scalar(m) {
            expect_tree("From<YamlScalar>", m, &of_yaml(&Yaml::from(s.clone())), m)?;
            expect_tree("clone of the scalar", m, &of_scalar(&s.clone()), m)?;
        }
        expect_tree("From<YamlData>", m, &of_yaml(&Yaml::from(yaml(m).0)), m)?;
        if let T::Seq(v) = m {
            expect_tree("From<Vec>", m, &of_yaml(&Yaml::from(v.iter().map(yaml).collect::<Vec<_>>())), m)?;
        }
        Ok(())
    }
}

/// Equality of all pairs of trees, of both comparable node types and of their copies.
pub struct Equality(pub Vec<T>);
impl Job for Equality {
    fn name(&self) -> String {
        "equality of all pairs of trees".into()
    }
    fn len(&self) -> u64 {
        self.0.len() as u64
    }
    fn input(&self, i: u64) -> String {
        text(&self.0[i as usize])
    }
    fn chunk(&self) -> u64 {
        4
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let m = &self.0[i as usize];
        let (y, o) = (yaml(m), owned(m));
        if (y.clone() == y) != (m == m) || (o.clone() == o) != (m == m) {
            return Err(format!("a copy of {} is not equal to it", text(m)));
        }
        for n in &self.0 {
            ctx.add(EVALS, 1);
            ctx.add(TRANS, 1);
            let (z, p) = (yaml(n), owned(n));
            if (y == z) != (m == n) || (o == p) != (m == n) || (y != z) == (m == n) {
                return Err(format!("equality of {} and {}", text(m), text(n)));
            }
        }
        Ok(())
    }
}

fn find<'t>(m: &'t T, i: &Ix) -> Option<Vec<&'t T>> {
    match (m, i) {
        (T::Seq(v), Ix::At(i)) => v.get(*i).map(|x| vec![x]),
        (T::Map(v), _) => {
            let k = match i {
                Ix::At(i) => T::Int(i64::try_from(*i).ok()?),
                Ix::Key(k) => T::Str(k.to_string()),
            };
            let hits: Vec<&T> = v.iter().filter(|e| e.0 == k).map(|e| &e.1).collect();
            if hits.is_empty() { None } else { Some(hits) }
        }
        _ => None,
    }
}
#[derive(Clone, Copy, Debug)]
enum Ix {
    At(usize),
    Key(&'static str),
}
const INDICES: &[Ix] = &[
    Ix::At(0), Ix::At(1), Ix::At(2), Ix::At(i64::MAX as usize), Ix::At(i64::MAX as usize + 1), Ix::At(usize::MAX),
    Ix::Key("a"), Ix::Key(""), Ix::Key("0"), Ix::Key("b"), Ix::Key("\u{e9}x"),
];
fn at<'y>(y: &'y Yaml<'static>, i: &Ix) -> &'y Yaml<'static> {
    match i {
        Ix::At(i) => &y[*i],
        Ix::Key(k) => &y[*k],
    }
}
fn at_mut<'y>(y: &'y mut Yaml<'static>, i: &Ix) -> &'y mut Yaml<'static> {
    match i {
        Ix::At(i) => &mut y[*i],
        Ix::Key(k) => &mut y[*k],
    }
}
/// The values held by a collection, in order.
fn values<'y>(y: &'y Yaml<'static>) -> Vec<&'y Yaml<'static>> {
    match &y.0 {
        YamlData::Sequence(v) => v.iter().collect(),
        YamlData::Mapping(v) => v.iter().map(|e| &e.value).collect(),
        _ => vec![],
    }
}
pub struct Lookups(pub Vec<T>);
impl Job for Lookups {
    fn name(&self) -> String {
        format!("looking up {INDICES:?} in every tree")
    }
    fn len(&self) -> u64 {
        self.0.len() as u64
    }
    fn input(&self, i: u64) -> String {
        text(&self.0[i as usize])
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let m = &self.0[i as usize];
        for ix in INDICES {
            ctx.add(EVALS, 1);
            ctx.add(TRANS, 2);
            let want = find(m, ix);
            let mut y = yaml(m);
            let what = format!("{}[{ix:?}]", text(m));
            let mut place = None;
            let got = panics(|| at(&y, ix) as *const Yaml);
            ctx.outcome(&format!("{what}{}", got.is_some()));
            match (&got, &want) {
                (None, None) => {}
                (None, Some(_)) => return Err(format!("{what} is not found")),
                (Some(_), None) => return Err(format!("{what} is found: {}", text(&of_yaml(at(&y, ix))))),
                (Some(p), Some(w)) => {
                    let n = at(&y, ix);
                    if !w.iter().any(|w| same(w, &of_yaml(n))) {
                        return Err(format!("{what} is {}", text(&of_yaml(n))));
                    }
                    place = values(&y).iter().position(|v| std::ptr::eq(*v, *p));
                    if place.is_none() {
                        return Err(format!("{what} is not a value of the collection"));
                    }
                }
            }
            let got = panics(|| *at_mut(&mut y, ix) = Yaml::from("changed"));
            match (got, place) {
                (None, None) => expect_tree("a failed mutable lookup", m, &of_yaml(&y), m)?,
                (Some(()), Some(p)) => {
                    let mut w = m.clone();
                    match &mut w {
                        T::Seq(v) => v[p] = T::Str("changed".into()),
                        T::Map(v) => v[p].1 = T::Str("changed".into()),
                        _ => unreachable!(),
                    }
                    expect_tree(&format!("assigning to [{ix:?}]"), m, &of_yaml(&y), &w)?;
                }
                (g, p) => return Err(format!("{what}: mutable lookup {g:?}, lookup {p:?}")),
            }
        }
        Ok(())
    }
}

/// All sequences of changes of bounded length, made on a node and on a plain tree.
pub struct Changes {
    start: Vec<T>,
    len: usize,
}
const PATHS: &[&[Ix]] = &[&[], &[Ix::At(0)], &[Ix::Key("a")], &[Ix::At(1)], &[Ix::At(0), Ix::Key("a")], &[Ix::Key("a"), Ix::At(0)]];
const CHANGES: usize = 11;
impl Changes {
    pub fn new(len: usize) -> Changes {
        let s = |x: &str| T::Str(x.into());
        let start = vec![
            T::Int(1),
            s("a"),
            T::Seq(vec![T::Int(0), s("x"), T::Bool(true)]),
            T::Map(vec![(s("a"), T::Seq(vec![T::Float(1.0)])), (T::Int(0), T::Null), (s("a"), s("second"))]),
            T::Seq(vec![T::Map(vec![(s("a"), T::Map(vec![])), (T::Int(1), s("y"))]), T::Seq(vec![])]),
            T::Map(vec![(T::Int(0), T::Map(vec![(s("a"), T::Bool(false))])), (T::Tagged("!t".into(), Box::new(s("a"))), T::Int(5))]),
            T::Tagged("!t".into(), Box::new(T::Seq(vec![T::Int(1)]))),
        ];
        Changes { start, len }
    }
    fn ops(&self, i: u64) -> (usize, Vec<(usize, usize)>) {
        let n = (PATHS.len() * CHANGES) as u64;
        let mut k = i / self.start.len() as u64;
        let mut v = vec![];
        for _ in 0..self.len {
            let o = (k % n) as usize;
            v.push((o / CHANGES, o % CHANGES));
            k /= n;
        }
        ((i % self.start.len() as u64) as usize, v)
    }
}
fn locate<'t>(m: &'t mut T, path: &[Ix]) -> Option<&'t mut T> {
    let Some((ix, rest)) = path.split_first() else { return Some(m) };
    let c = match (m, ix) {
        (T::Seq(v), Ix::At(i)) => v.get_mut(*i)?,
        (T::Map(v), _) => {
            let k = match ix {
                Ix::At(i) => T::Int(*i as i64),
                Ix::Key(k) => T::Str(k.to_string()),
            };
            &mut v.iter_mut().find(|e| e.0 == k)?.1
        }
        _ => return None,
    };
    locate(c, rest)
}
impl Job for Changes {
    fn name(&self) -> String {
        format!("all sequences of {} changes ({} kinds at {} places) of {} trees", self.len, CHANGES, PATHS.len(), self.start.len())
    }
    fn len(&self) -> u64 {
        self.start.len() as u64 * ((PATHS.len() * CHANGES) as u64).pow(self.len as u32)
    }
    fn input(&self, i: u64) -> String {
        let (s, ops) = self.ops(i);
        format!("{} then (place, change) {ops:?}", text(&self.start[s]))
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let (s, ops) = self.ops(i);
        let mut m = self.start[s].clone();
        let mut y = yaml(&m);
        ctx.add(EVALS, 1);
        ctx.add(TRACES, 1);
        for (p, k) in ops {
            ctx.add(TRANS, 1);
            let path = PATHS[p];
            let before = m.clone();
            let target = locate(&mut m, path);
            let exists = target.is_some();
            let mut want = false;
            if let Some(t) = target {
                want = true;
                match k {
                    0..6 => want = change_t(t, k),
                    6 => *t = T::Bad,
                    7 => *t = T::Seq(vec![T::Int(3), T::Bool(true)]),
                    8 => *t = T::Map(vec![(T::Str("a".into()), T::Int(9)), (T::Int(0), T::Str("z".into()))]),
                    9 => *t = T::Tagged("!w".into(), Box::new(t.clone())),
                    _ => match t {
                        T::Seq(v) => drop(v.pop()),
                        T::Map(v) => drop(v.pop()),
                        _ => want = false,
                    },
                }
            }
            let got = if exists {
                panics(|| {
                    let mut n = &mut y;
                    for ix in path {
                        n = at_mut(n, ix);
                    }
                    match k {
                        0..6 => change(n, k),
                        6 => {
                            let _ = n.take();
                            true
                        }
                        7 => {
                            *n = Yaml::from(vec![Yaml::from(3), Yaml::from(true)]);
                            true
                        }
                        8 => {
                            *n = yaml(&T::Map(vec![(T::Str("a".into()), T::Int(9)), (T::Int(0), T::Str("z".into()))]));
                            true
                        }
                        9 => {
                            let x = n.take();
                            *n = x.into_tagged(Cow::Owned(tag("!w")));
                            true
                        }
                        _ => {
                            if n.is_sequence() {
                                n.sequence_mut().pop();
                                true
                            } else if n.is_mapping() {
                                n.mapping_mut().pop();
                                true
                            } else {
                                false
                            }
                        }
                    }
                })
            } else {
                let r = panics(|| {
                    let mut n = &mut y;
                    for ix in path {
                        n = at_mut(n, ix);
                    }
                    let _ = n.take();
                });
                if r.is_some() {
                    return Err(format!("{path:?} exists in {}", text(&before)));
                }
                Some(false)
            };
            if got != Some(want) {
                return Err(format!("change {k} at {path:?} of {}: {got:?}, not {want}", text(&before)));
            }
            let now = of_yaml(&y);
            if !same(&now, &m) {
                return Err(format!("change {k} at {path:?} of {} gives {}, not {}", text(&before), text(&now), text(&m)));
            }
        }
        ctx.outcome(&text(&m));
        Ok(())
    }
}

/// Conversions from the primitive types: all 8 and 16 bit integers, boundaries of the others.
pub struct Conversions;
impl Job for Conversions {
    fn name(&self) -> String {
        "conversions of all 8 and 16 bit integers, and around every power of two of the wider types".into()
    }
    fn len(&self) -> u64 {
        65536
    }
    fn input(&self, i: u64) -> String {
        format!("{}", i as u16 as i16)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        ctx.add(EVALS, 1);
        ctx.add(TRANS, 4);
        let v = i as u16 as i16;
        let check = |y: Yaml, w: T| expect_tree("the conversion", &w, &of_yaml(&y), &w);
        check(Yaml::from(v), T::Int(v.into()))?;
        ctx.outcome(&text(&T::Int(v.into())));
        if let Ok(b) = i8::try_from(v) {
            check(Yaml::from(b), T::Int(b.into()))?;
        }
        // Four low bits: offset; others: the power and the sign.
        let (off, p, neg) = ((i % 16) as i128 - 8, (i / 16 % 64) as u32, i / 1024 % 2 == 1);
        if i < 2048 {
            let x = ((1i128 << p) + off) * if neg { -1 } else { 1 };
            if let Ok(x) = i64::try_from(x) {
                check(Yaml::from(x), T::Int(x))?;
                check(Yaml::from(x as f64), T::Float(x as f64))?;
                check(Yaml::from(x as f32), T::Float(f64::from(x as f32)))?;
                check(Yaml::from(f64::from_bits(x as u64)), T::Float(f64::from_bits(x as u64)))?;
                check(Yaml::from(f32::from_bits(x as u32)), T::Float(f64::from(f32::from_bits(x as u32))))?;
            }
            if let Ok(x) = i32::try_from(x) {
                check(Yaml::from(x), T::Int(x.into()))?;
            }
        }
        check(Yaml::from(i % 2 == 0), T::Bool(i % 2 == 0))?;
        if let Some(c) = char::from_u32(i as u32) {
            let s = format!("{c}a");
            check(Yaml::from(s.as_str()), T::Str(s.clone()))?;
            check(Yaml::key_from_str(&s), T::Str(s.clone()))?;
            expect_tree("key_from_str", &T::Null, &of_spanned(&SpannedYaml::key_from_str(&s)), &T::Str(s.clone()))?;
        }
        check(Yaml::key_from_usize(i as usize), T::Int(i as i64))?;
        expect_tree("key_from_usize", &T::Null, &of_spanned(&SpannedYaml::key_from_usize(i as usize)), &T::Int(i as i64))?;
        check(Yaml::null(), T::Null)?;
        check(Yaml::bad_value(), T::Bad)?;
        expect_tree("null", &T::Null, &of_spanned(&SpannedYaml::null()), &T::Null)?;
        let b: SpannedYaml = SpannedYaml::bad_span_value(SPAN);
        expect_tree("bad_span_value", &T::Bad, &of_spanned(&b), &T::Bad)?;
        if b.span != SPAN {
            return Err("bad_span_value loses the span".into());
        }
        check(Yaml::bad_span_value(SPAN), T::Bad)
    }
}
