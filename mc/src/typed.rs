//! Deserialized values of many target types against the tree that the events of the text denote.
use crate::agree::pulled;
use crate::engine::*;
use crate::serdeval::Any;
use crate::space::Inputs;
use crate::trees::{T, Want, float, full, int, resolve};
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::{Deserialize, Deserializer};
use std::collections::BTreeMap;
use std::fmt::Debug;
use yam_core::parsing::Event;
use yam_core::prelude::ScalarType;

/// Deepest nesting that is deserialized, as documented.
pub const DEEPEST: usize = 128;

/// A node of a document.
#[derive(Clone, Debug)]
pub enum N {
    Scalar { plain: bool, value: String, tag: Option<String> },
    Seq(Vec<N>),
    Map(Vec<(N, N)>),
    /// An alias and the node it stands for, unless that is not complete yet.
    Alias(Option<Box<N>>),
}

/// What deserializing may give.
#[derive(Debug)]
pub enum Exp<V> {
    Is(V),
    /// This value or an error.
    May(V),
    Err,
    Free,
}
use Exp::{Free, Is, May};
impl<V> Exp<V> {
    fn map<U>(self, f: impl FnOnce(V) -> U) -> Exp<U> {
        match self {
            Is(v) => Is(f(v)),
            May(v) => May(f(v)),
            Exp::Err => Exp::Err,
            Free => Free,
        }
    }
    fn weak(self) -> Exp<V> {
        match self {
            Is(v) => May(v),
            e => e,
        }
    }
    fn weak_if(self, c: bool) -> Exp<V> {
        if c { self.weak() } else { self }
    }
    fn and<U>(self, o: Exp<U>) -> Exp<(V, U)> {
        match (self, o) {
            (Exp::Err, _) | (_, Exp::Err) => Exp::Err,
            (Free, _) | (_, Free) => Free,
            (Is(a), Is(b)) => Is((a, b)),
            (Is(a) | May(a), Is(b) | May(b)) => May((a, b)),
        }
    }
    fn all(it: impl Iterator<Item = Exp<V>>) -> Exp<Vec<V>> {
        let mut r = Is(vec![]);
        for x in it {
            r = r.and(x).map(|(mut v, x)| {
                v.push(x);
                v
            });
        }
        r
    }
}

pub trait Typed: DeserializeOwned + Debug {
    fn want(n: &N) -> Exp<Self>;
    /// The value of a field that is left out.
    fn missing() -> Exp<Self> {
        Exp::Err
    }
}

fn value(n: &N) -> Option<Want> {
    match n {
        N::Scalar { plain, value, tag } => Some(resolve(*plain, value, tag.as_deref())),
        _ => None,
    }
}
/// The type of an alias is that of what it stands for, if aliases are supported at all.
fn via_alias<V>(n: &N, f: impl Fn(&N) -> Exp<V>) -> Exp<V> {
    match n {
        N::Alias(Some(t)) => via_alias(t, f).weak(),
        N::Alias(None) => Exp::Err,
        _ => f(n),
    }
}
macro_rules! ints {
    ($($t:ident)*) => {$(
        impl Typed for $t {
            fn want(n: &N) -> Exp<$t> {
                via_alias(n, |n| match value(n) {
                    Some(Want::Is(T::Int(i))) => $t::try_from(i).map_or(Exp::Err, Is),
                    // Integers that 64 bits with a sign cannot hold.
                    Some(Want::Is(T::Bad) | Want::OneOf(_)) => {
                        let N::Scalar { plain: true, value, tag } = n else { return Exp::Err };
                        if tag.as_deref().is_some_and(|t| t.starts_with(crate::trees::CORE) && !t.ends_with(":int")) {
                            return Exp::Err;
                        }
                        let Some((neg, Some(m))) = int(value) else { return Exp::Err };
                        if neg && m > i128::MAX as u128 {
                            return Exp::Err;
                        }
                        let v = if neg { $t::try_from((m as i128).wrapping_neg()).ok() } else { $t::try_from(m).ok() };
                        let decimal = value.bytes().all(|c| c.is_ascii_digit());
                        let must = stringify!($t) == "u64" && decimal && tag.is_none();
                        v.map_or(Exp::Err, |v: $t| if must { Is(v) } else { May(v) })
                    }
                    _ => Exp::Err,
                })
            }
        }
    )*};
}
ints!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
impl Typed for f64 {
    fn want(n: &N) -> Exp<f64> {
        via_alias(n, |n| match (value(n), n) {
            (Some(Want::Is(T::Int(i))), _) => Is(i as f64),
            (Some(Want::Is(T::Float(f))), _) => Is(f),
            (Some(Want::OneOf(_)), N::Scalar { value, .. }) => float(value).map_or(Free, May),
            _ => Exp::Err,
        })
    }
}
impl Typed for f32 {
    fn want(n: &N) -> Exp<f32> {
        via_alias(n, |n| match (value(n), n) {
            (Some(Want::Is(T::Int(i))), _) => Is(i as f32),
            (Some(Want::Is(T::Float(f))), N::Scalar { value, .. }) => {
                // rounded once: not to 64 bits first
                Is(value.parse::<f32>().unwrap_or(f as f32))
            }
            (Some(Want::OneOf(_)), N::Scalar { value, .. }) => float(value).map_or(Free, |f| May(f as f32)),
            _ => Exp::Err,
        })
    }
}
impl Typed for bool {
    fn want(n: &N) -> Exp<bool> {
        via_alias(n, |n| match value(n) {
            Some(Want::Is(T::Bool(b))) => Is(b),
            _ => Exp::Err,
        })
    }
}
impl Typed for String {
    fn want(n: &N) -> Exp<String> {
        via_alias(n, |n| match (value(n), n) {
            (Some(Want::Is(T::Str(s))), _) => Is(s),
            (Some(Want::OneOf(_)), N::Scalar { value, .. }) => May(value.clone()),
            _ => Exp::Err,
        })
    }
}
impl Typed for char {
    fn want(n: &N) -> Exp<char> {
        via_alias(n, |n| match value(n) {
            Some(Want::Is(T::Str(s))) if s.chars().count() == 1 => s.chars().next().map_or(Exp::Err, Is),
            _ => Exp::Err,
        })
    }
}
fn null<V>(n: &N, v: V) -> Exp<V> {
    let mut weak = false;
    let mut n = n;
    while let N::Alias(Some(t)) = n {
        weak = true;
        n = t;
    }
    match value(n) {
        Some(Want::Is(T::Null)) => Is(v).weak_if(weak),
        _ => Exp::Err,
    }
}
impl Typed for () {
    fn want(n: &N) -> Exp<()> {
        null(n, ())
    }
}
#[derive(Deserialize, Debug)]
pub struct UnitStruct;
impl Typed for UnitStruct {
    fn want(n: &N) -> Exp<UnitStruct> {
        null(n, UnitStruct)
    }
}
impl<V: Typed> Typed for Option<V> {
    fn want(n: &N) -> Exp<Option<V>> {
        match null(n, None) {
            Exp::Err => V::want(n).map(Some),
            e => e,
        }
    }
    fn missing() -> Exp<Option<V>> {
        Is(None)
    }
}
impl<V: Typed> Typed for Box<V> {
    fn want(n: &N) -> Exp<Box<V>> {
        V::want(n).map(Box::new)
    }
}
impl<V: Typed> Typed for Vec<V> {
    fn want(n: &N) -> Exp<Vec<V>> {
        via_alias(n, |n| match n {
            N::Seq(v) => Exp::all(v.iter().map(V::want)),
            _ => Exp::Err,
        })
    }
}
impl<A: Typed, B: Typed> Typed for (A, B) {
    fn want(n: &N) -> Exp<(A, B)> {
        via_alias(n, |n| match n {
            N::Seq(v) if v.len() == 2 => A::want(&v[0]).and(B::want(&v[1])),
            _ => Exp::Err,
        })
    }
}
impl<A: Typed, B: Typed, C: Typed> Typed for (A, B, C) {
    fn want(n: &N) -> Exp<(A, B, C)> {
        via_alias(n, |n| match n {
            N::Seq(v) if v.len() == 3 => A::want(&v[0]).and(B::want(&v[1])).and(C::want(&v[2])).map(|((a, b), c)| (a, b, c)),
            _ => Exp::Err,
        })
    }
}
impl<A: Typed> Typed for [A; 1] {
    fn want(n: &N) -> Exp<[A; 1]> {
        via_alias(n, |n| match n {
            N::Seq(v) if v.len() == 1 => A::want(&v[0]).map(|a| [a]),
            _ => Exp::Err,
        })
    }
}
#[derive(Deserialize, Debug)]
pub struct TupleStruct(i64, String);
impl Typed for TupleStruct {
    fn want(n: &N) -> Exp<TupleStruct> {
        <(i64, String)>::want(n).map(|(a, b)| TupleStruct(a, b))
    }
}
#[derive(Deserialize, Debug)]
pub struct Newtype<V>(V);
impl<V: Typed> Typed for Newtype<V> {
    fn want(n: &N) -> Exp<Newtype<V>> {
        V::want(n).map(Newtype)
    }
}

/// The entries of a mapping in order, repeated keys included.
#[derive(Debug)]
pub struct Pairs<K, V>(Vec<(K, V)>);
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(std::marker::PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> serde::de::Visitor<'de> for Vis<K, V> {
            type Value = Pairs<K, V>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a mapping")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(Vis(std::marker::PhantomData))
    }
}
fn entries<K: Typed, V: Typed>(n: &N) -> Exp<Vec<(K, V)>> {
    via_alias(n, |n| match n {
        N::Map(v) => Exp::all(v.iter().map(|(k, x)| K::want(k).and(V::want(x)))),
        _ => Exp::Err,
    })
}
impl<K: Typed, V: Typed> Typed for Pairs<K, V> {
    fn want(n: &N) -> Exp<Self> {
        entries(n).map(Pairs)
    }
}
impl<K: Typed + Ord, V: Typed> Typed for BTreeMap<K, V> {
    fn want(n: &N) -> Exp<Self> {
        entries(n).map(|v| v.into_iter().collect())
    }
}

/// Whether a node that is passed over may be a reason for an error.
fn shaky(n: &N) -> bool {
    match n {
        N::Alias(_) => true,
        N::Seq(v) => v.iter().any(shaky),
        N::Map(v) => v.iter().any(|(k, x)| shaky(k) || shaky(x)),
        N::Scalar { .. } => !matches!(value(n), Some(Want::Is(ref t)) if *t != T::Bad),
    }
}
impl Typed for IgnoredAny {
    fn want(n: &N) -> Exp<IgnoredAny> {
        Is(IgnoredAny).weak_if(shaky(n))
    }
}
impl Typed for Any {
    fn want(n: &N) -> Exp<Any> {
        match n {
            N::Alias(Some(t)) => Any::want(t).weak(),
            N::Alias(None) => Exp::Err,
            N::Seq(v) => Exp::all(v.iter().map(Any::want)).map(Any::Seq),
            N::Map(v) => Exp::all(v.iter().map(|(k, x)| Any::want(k).and(Any::want(x)))).map(Any::Map),
            N::Scalar { .. } => match value(n) {
                Some(Want::Is(t)) => match t {
                    T::Null => Is(Any::Null),
                    T::Bool(b) => Is(Any::Bool(b)),
                    T::Int(i) => Is(Any::Int(i)),
                    T::Float(f) => Is(Any::Float(f)),
                    T::Str(s) => Is(Any::Str(s)),
                    _ => Exp::Err,
                },
                _ => Free,
            },
        }
    }
}

/// The entries of a structure: every field's node, and whether something may be an error.
struct Fields<'n> {
    at: Vec<Option<&'n N>>,
    weak: bool,
    rest: Vec<(String, &'n N)>,
}
fn fields<'n>(v: &'n [(N, N)], names: &[&str]) -> Option<Fields<'n>> {
    let mut f = Fields { at: vec![None; names.len()], weak: false, rest: vec![] };
    for (k, x) in v {
        let mut k = k;
        while let N::Alias(Some(t)) = k {
            f.weak = true;
            k = t;
        }
        match value(k) {
            Some(Want::Is(T::Str(s))) => match names.iter().position(|n| *n == s) {
                Some(i) => {
                    if f.at[i].replace(x).is_some() {
                        return None;
                    }
                }
                None => f.rest.push((s, x)),
            },
            _ => f.weak = true,
        }
    }
    Some(f)
}
fn field<V: Typed>(n: Option<&N>) -> Exp<V> {
    n.map_or_else(V::missing, V::want)
}
fn two<A: Typed, B: Typed>(n: &N, names: [&str; 2], deny: bool) -> Exp<(A, B)> {
    via_alias(n, |n| match n {
        N::Map(v) => {
            let Some(f) = fields(v, &names) else { return Exp::Err };
            if deny && !f.rest.is_empty() {
                return Exp::Err;
            }
            let weak = f.weak || f.rest.iter().any(|r| shaky(r.1));
            field(f.at[0]).and(field(f.at[1])).weak_if(weak)
        }
        // Structures may be written without the names.
        N::Seq(v) if v.len() == 2 => A::want(&v[0]).and(B::want(&v[1])).weak(),
        _ => Exp::Err,
    })
}
#[derive(Deserialize, Debug)]
pub struct S<A, B> {
    a: A,
    b: B,
}
impl<A: Typed, B: Typed> Typed for S<A, B> {
    fn want(n: &N) -> Exp<Self> {
        two(n, ["a", "b"], false).map(|(a, b)| S { a, b })
    }
}
#[derive(Deserialize, Debug)]
#[serde(deny_unknown_fields)]
pub struct Strict<A, B> {
    a: A,
    #[serde(rename = "Unit")]
    b: B,
}
impl<A: Typed, B: Typed> Typed for Strict<A, B> {
    fn want(n: &N) -> Exp<Self> {
        two(n, ["a", "Unit"], true).map(|(a, b)| Strict { a, b })
    }
}
#[derive(Deserialize, Debug)]
pub struct Chain {
    a: i64,
    b: Option<Box<Chain>>,
}
impl Typed for Chain {
    fn want(n: &N) -> Exp<Self> {
        two(n, ["a", "b"], false).map(|(a, b)| Chain { a, b })
    }
}
#[derive(Deserialize, Debug)]
pub struct Flat {
    a: i64,
    #[serde(flatten)]
    rest: Pairs<String, Any>,
}
impl Typed for Flat {
    fn want(n: &N) -> Exp<Self> {
        via_alias(n, |n| match n {
            N::Map(v) => {
                let Some(f) = fields(v, &["a"]) else { return Exp::Err };
                let rest = Exp::all(f.rest.iter().map(|(k, x)| Any::want(x).map(|x| (k.clone(), x))));
                field(f.at[0]).and(rest).map(|(a, rest)| Flat { a, rest: Pairs(rest) }).weak_if(f.weak)
            }
            _ => Exp::Err,
        })
    }
}
#[derive(Deserialize, Debug)]
pub enum E {
    Unit,
    Newtype(f32),
    Tuple(u32, u32),
    Struct { a: u32 },
    #[serde(rename = "a")]
    Other(Vec<i64>),
    #[serde(rename = "b")]
    Maybe(Option<Box<E>>),
}
/// The name of a variant and what it holds.
fn variant<'n, V>(n: &'n N, f: impl Fn(&str, Option<&'n N>) -> Exp<V>) -> Exp<V> {
    let mut weak = false;
    let mut n = n;
    while let N::Alias(Some(t)) = n {
        weak = true;
        n = t;
    }
    let (k, x) = match n {
        N::Scalar { .. } => (n, None),
        N::Map(v) if v.len() == 1 => (&v[0].0, Some(&v[0].1)),
        _ => return Exp::Err,
    };
    let mut k = k;
    while let N::Alias(Some(t)) = k {
        weak = true;
        k = t;
    }
    match (value(k), k) {
        (Some(Want::Is(T::Str(s))), _) => f(&s, x).weak_if(weak),
        // The text of what is not a string may be taken for a name.
        (Some(_), N::Scalar { value, .. }) => f(value, x).weak(),
        _ => Exp::Err,
    }
}
impl Typed for E {
    fn want(n: &N) -> Exp<E> {
        variant(n, |name, x| match (name, x) {
            ("Unit", None) => Is(E::Unit),
            ("Unit", Some(x)) => null(x, E::Unit),
            ("Newtype", Some(x)) => f32::want(x).map(E::Newtype),
            ("Tuple", Some(x)) => <(u32, u32)>::want(x).map(|(a, b)| E::Tuple(a, b)),
            ("Struct", Some(x)) => via_alias(x, |x| match x {
                N::Map(v) => match fields(v, &["a"]) {
                    Some(f) => field(f.at[0]).map(|a| E::Struct { a }).weak_if(f.weak || f.rest.iter().any(|r| shaky(r.1))),
                    None => Exp::Err,
                },
                N::Seq(v) if v.len() == 1 => u32::want(&v[0]).map(|a| E::Struct { a }).weak(),
                _ => Exp::Err,
            }),
            ("a", Some(x)) => Vec::want(x).map(E::Other),
            ("b", Some(x)) => Option::want(x).map(E::Maybe),
            _ => Exp::Err,
        })
    }
}
#[derive(Deserialize, Debug)]
#[serde(untagged)]
pub enum U {
    I(i64),
    F(f64),
    B(bool),
    S(String),
    L(Vec<U>),
    N,
}
impl Typed for U {
    fn want(n: &N) -> Exp<U> {
        via_alias(n, |n| match n {
            N::Seq(v) => Exp::all(v.iter().map(U::want)).map(U::L),
            N::Scalar { .. } => match value(n) {
                Some(Want::Is(t)) => match t {
                    T::Null => Is(U::N),
                    T::Bool(b) => Is(U::B(b)),
                    T::Int(i) => Is(U::I(i)),
                    T::Float(f) => Is(U::F(f)),
                    T::Str(s) => Is(U::S(s)),
                    _ => Exp::Err,
                },
                _ => Free,
            },
            _ => Exp::Err,
        })
    }
}
#[derive(Deserialize, Debug)]
#[serde(tag = "a")]
pub enum In {
    Unit,
    Struct { b: i64 },
}
impl Typed for In {
    fn want(n: &N) -> Exp<In> {
        via_alias(n, |n| match n {
            N::Map(v) => {
                let Some(f) = fields(v, &["a"]) else { return Exp::Err };
                let Some(mut k) = f.at[0] else { return Exp::Err };
                let mut weak = f.weak || v.iter().any(|(k, x)| shaky(k) || shaky(x));
                while let N::Alias(Some(t)) = k {
                    weak = true;
                    k = t;
                }
                let r = match value(k) {
                    Some(Want::Is(T::Str(s))) if s == "Unit" => Is(In::Unit),
                    Some(Want::Is(T::Str(s))) if s == "Struct" => match fields(v, &["b"]) {
                        Some(f) => field(f.at[0]).map(|b| In::Struct { b }),
                        None => Exp::Err,
                    },
                    Some(Want::OneOf(_)) => Free,
                    _ => Exp::Err,
                };
                r.weak_if(weak)
            }
            N::Seq(_) => Free,
            _ => Exp::Err,
        })
    }
}

// ---------------------------------------------------------------------------------------------

/// What a text holds: malformed, several documents or too deep nesting; or one root.
enum Doc {
    Unreadable(&'static str),
    Root(N),
}
fn doc(evs: &[Event], bad: bool) -> Doc {
    if bad {
        return Doc::Unreadable("malformed text");
    }
    match evs.iter().filter(|e| matches!(e, Event::DocumentStart(_))).count() {
        0 => return Doc::Root(N::Scalar { plain: true, value: String::new(), tag: None }),
        1 => {}
        _ => return Doc::Unreadable("several documents"),
    }
    let mut depth = 0;
    for e in evs {
        match e {
            Event::SequenceStart(..) | Event::MappingStart(..) => depth += 1,
            Event::SequenceEnd | Event::MappingEnd => depth -= 1,
            _ => {}
        }
        if depth > DEEPEST {
            return Doc::Unreadable("nesting beyond the limit");
        }
    }
    let mut open: Vec<(Vec<N>, usize, bool)> = vec![];
    let mut root = None;
    let mut at: BTreeMap<usize, N> = BTreeMap::new();
    for e in evs {
        let (n, id) = match e {
            Event::SequenceStart(a, _) => {
                open.push((vec![], *a, false));
                continue;
            }
            Event::MappingStart(a, _) => {
                open.push((vec![], *a, true));
                continue;
            }
            Event::SequenceEnd | Event::MappingEnd => {
                let Some((v, a, map)) = open.pop() else { continue };
                if map {
                    let mut m = vec![];
                    let mut it = v.into_iter();
                    while let (Some(k), Some(x)) = (it.next(), it.next()) {
                        m.push((k, x));
                    }
                    (N::Map(m), a)
                } else {
                    (N::Seq(v), a)
                }
            }
            Event::Scalar(v) => (
                N::Scalar { plain: v.scalar_type == ScalarType::Plain, value: v.value.to_string(), tag: v.tag.as_deref().map(full) },
                v.anchor_id,
            ),
            Event::Alias(i) => (N::Alias(at.get(i).cloned().map(Box::new)), 0),
            _ => continue,
        };
        if id != 0 {
            at.insert(id, n.clone());
        }
        match open.last_mut() {
            Some((v, ..)) => v.push(n),
            None => root = Some(n),
        }
    }
    root.map_or(Doc::Unreadable("no root"), Doc::Root)
}

fn check<V: Typed>(s: &str, d: &Doc, ctx: &Ctx) -> Result<(), String> {
    ctx.add(TRANS, 1);
    let got = yam_serde::from_str::<V>(s);
    let fail = |why: String| Err(format!("as {}: {why}", std::any::type_name::<V>().replace("yam_mc::typed::", "").replace("alloc::", "").replace("core::", "")));
    let n = match d {
        Doc::Unreadable(why) => {
            return match got {
                Ok(v) => fail(format!("{why} is read as {v:?}")),
                Err(_) => Ok(()),
            };
        }
        Doc::Root(n) => n,
    };
    let same = |a: &V, b: &V| format!("{a:?}") == format!("{b:?}");
    match (V::want(n), got) {
        (Exp::Err | May(_), Err(_)) | (Free, _) => Ok(()),
        (Is(w) | May(w), Ok(g)) if same(&w, &g) => {
            ctx.add(NONTRIVIAL, 1);
            Ok(())
        }
        (Is(w) | May(w), Ok(g)) => fail(format!("{g:?}, expected {w:?}")),
        (Is(w), Err(e)) => fail(format!("the error {e:?}, expected {w:?}")),
        (Exp::Err, Ok(g)) => fail(format!("{g:?}, but the tree does not fit the type")),
    }
}
macro_rules! types {
    ($s:expr, $d:expr, $c:expr, $($t:ty;)*) => {$( check::<$t>($s, $d, $c)?; )*};
}

fn read(s: &str, ctx: &Ctx) -> Result<Option<Doc>, String> {
    ctx.add(EVALS, 1);
    let (evs, err) = pulled(s)?;
    let evs: Vec<Event> = evs.into_iter().map(|e| e.0).collect();
    // Aliases blow the tree up.
    if evs.iter().filter(|e| matches!(e, Event::Alias(_))).count() > 8 {
        ctx.add(SKIPPED, 1);
        return Ok(None);
    }
    let d = doc(&evs, err.is_some());
    ctx.add(if matches!(d, Doc::Root(_)) { ACCEPTED } else { REJECTED }, 1);
    if let Doc::Root(n) = &d {
        ctx.outcome(&format!("{n:?}"));
    }
    Ok(Some(d))
}

/// The scalar types.
pub fn scalars(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let Some(d) = read(s, ctx)? else { return Ok(()) };
    types! { s, &d, ctx,
        i8; i16; i32; i64; i128; u8; u16; u32; u64; u128; f32; f64; bool; String; char; (); UnitStruct; IgnoredAny; Any;
        Option<u64>; Option<f64>; Option<bool>; Option<String>; Option<char>; Option<()>; Newtype<i64>; Newtype<Option<String>>; E; U;
    }
    ctx.add(TRACES, 1);
    Ok(())
}
/// Few types that hold everything.
pub fn wide(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let Some(d) = read(s, ctx)? else { return Ok(()) };
    types! { s, &d, ctx,
        Any; IgnoredAny; Vec<Any>; Pairs<Any, Any>; Vec<Option<Any>>; Pairs<Option<Any>, Vec<Any>>; S<Any, Option<Any>>; U; String; Option<f64>;
        Vec<IgnoredAny>; Pairs<IgnoredAny, Any>;
    }
    ctx.add(TRACES, 1);
    Ok(())
}
/// Types of every shape nested in each other.
pub fn shapes(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let Some(d) = read(s, ctx)? else { return Ok(()) };
    types! { s, &d, ctx,
        i64; u8; f64; bool; String; char; (); UnitStruct; IgnoredAny; Any; E; U; In; Chain; Flat; TupleStruct;
        Option<i64>; Option<String>; Option<()>; Newtype<u64>; Newtype<Vec<i64>>; Newtype<Option<E>>;
        Vec<i64>; Vec<u8>; Vec<f32>; Vec<String>; Vec<bool>; Vec<()>; Vec<Any>; Vec<E>; Vec<U>; Vec<IgnoredAny>;
        Vec<Vec<i64>>; Vec<Vec<Vec<Any>>>; Vec<Option<i64>>; Vec<Option<Vec<i64>>>; Vec<(i64, String)>; Vec<Newtype<i64>>; Vec<S<i64, String>>;
        Vec<Pairs<String, i64>>; Vec<Chain>; Vec<UnitStruct>; Vec<[i64; 1]>;
        (i64, i64); (i64, String, Option<i64>); (Any, Any); (Vec<i64>, i64); (i64, Vec<i64>); ((i64, i64), i64); (E, E); (Pairs<String, i64>, i64); [Any; 1];
        [Vec<i64>; 1]; (IgnoredAny, i64); (Option<i64>, Option<String>);
        Pairs<String, i64>; Pairs<Any, Any>; Pairs<String, Any>; Pairs<String, Vec<i64>>; Pairs<String, Pairs<String, i64>>; Pairs<i64, Any>;
        Pairs<Option<String>, Option<i64>>; Pairs<String, E>; Pairs<E, Any>; Pairs<String, ()>; Pairs<String, (i64, i64)>; Pairs<String, IgnoredAny>;
        Pairs<Vec<i64>, Any>; Pairs<Pairs<Any, Any>, Any>; Pairs<String, Option<Vec<Any>>>; Pairs<IgnoredAny, i64>; Pairs<Newtype<String>, U>;
        BTreeMap<String, i64>; BTreeMap<i64, Any>; BTreeMap<Option<String>, Any>; BTreeMap<String, Vec<Any>>;
        S<i64, i64>; S<i64, Option<i64>>; S<Option<Any>, Option<Any>>; S<Vec<i64>, Option<i64>>; S<Any, Any>; S<i64, E>; S<E, Option<E>>; S<IgnoredAny, i64>;
        S<Option<i64>, S<i64, Option<i64>>>; S<Pairs<String, Any>, Option<Any>>; S<Option<()>, Option<Vec<E>>>; S<(i64, i64), Option<i64>>; S<U, Option<In>>;
        Strict<i64, i64>; Strict<Any, Option<Any>>; Strict<Option<i64>, Option<S<i64, Option<i64>>>>; Vec<Strict<Option<i64>, Option<i64>>>;
        Option<Vec<i64>>; Option<S<i64, Option<i64>>>; Option<E>; Option<(i64, i64)>; Box<Option<Any>>; Option<Pairs<String, Option<i64>>>;
    }
    ctx.add(TRACES, 1);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// All trees of so many nodes (keys not counted) over given leaves and keys, written in a flow
/// and in a block style.
pub struct Trees {
    pub leaves: Vec<String>,
    pub keys: Vec<String>,
    pub max: usize,
    /// `node[n]`, `seq[n]` (lists of n nodes in all) and `map[n]`.
    node: Vec<u64>,
    seq: Vec<u64>,
    map: Vec<u64>,
}
enum W {
    Leaf(usize),
    Seq(Vec<W>),
    Map(Vec<(usize, W)>),
}
impl Trees {
    pub fn new(leaves: &[&str], keys: &[&str], max: usize) -> Trees {
        let mut t = Trees {
            leaves: leaves.iter().map(|s| s.to_string()).collect(),
            keys: keys.iter().map(|s| s.to_string()).collect(),
            max,
            node: vec![0],
            seq: vec![1],
            map: vec![1],
        };
        for n in 1..=max {
            let leaf = if n == 1 { leaves.len() as u64 } else { 0 };
            t.node.push(leaf + t.seq[n - 1] + t.map[n - 1]);
            let s = (1..=n).map(|m| t.node[m] * t.seq[n - m]).sum();
            t.seq.push(s);
            let s = (1..=n).map(|m| keys.len() as u64 * t.node[m] * t.map[n - m]).sum();
            t.map.push(s);
        }
        t
    }
    fn unrank(&self, n: usize, mut i: u64) -> W {
        if n == 1 {
            if i < self.leaves.len() as u64 {
                return W::Leaf(i as usize);
            }
            i -= self.leaves.len() as u64;
        }
        let mut left = n - 1;
        if i < self.seq[left] {
            let mut v = vec![];
            while left > 0 {
                for m in 1..=left {
                    let c = self.node[m] * self.seq[left - m];
                    if i < c {
                        v.push(self.unrank(m, i % self.node[m]));
                        i /= self.node[m];
                        left -= m;
                        break;
                    }
                    i -= c;
                }
            }
            return W::Seq(v);
        }
        i -= self.seq[left];
        let mut v = vec![];
        let k = self.keys.len() as u64;
        while left > 0 {
            for m in 1..=left {
                let c = k * self.node[m] * self.map[left - m];
                if i < c {
                    let key = (i % k) as usize;
                    i /= k;
                    v.push((key, self.unrank(m, i % self.node[m])));
                    i /= self.node[m];
                    left -= m;
                    break;
                }
                i -= c;
            }
        }
        W::Map(v)
    }
    fn flow(&self, w: &W, out: &mut String) {
        match w {
            W::Leaf(i) => out.push_str(&self.leaves[*i]),
            W::Seq(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    out.push_str(if i > 0 { ", " } else { "" });
                    self.flow(x, out);
                }
                out.push(']');
            }
            W::Map(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    out.push_str(if i > 0 { ", " } else { "" });
                    out.push_str(&self.keys[*k]);
                    out.push_str(": ");
                    self.flow(x, out);
                }
                out.push('}');
            }
        }
    }
    /// After a `- ` or `k:`; `col` is where nested lines start.
    fn block(&self, w: &W, col: usize, inline: bool, out: &mut String) {
        let pad = |out: &mut String| out.extend(std::iter::repeat_n(' ', col));
        match w {
            W::Seq(v) if !v.is_empty() => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 || !inline {
                        pad(out);
                    }
                    out.push_str("- ");
                    self.block(x, col + 2, true, out);
                }
            }
            W::Map(v) if !v.is_empty() => {
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 || !inline {
                        pad(out);
                    }
                    out.push_str(&self.keys[*k]);
                    out.push(':');
                    if matches!(x, W::Seq(v) if !v.is_empty()) || matches!(x, W::Map(v) if !v.is_empty()) {
                        out.push('\n');
                        self.block(x, col + 2, false, out);
                    } else {
                        out.push(' ');
                        self.block(x, col, true, out);
                    }
                }
            }
            _ => {
                self.flow(w, out);
                out.push('\n');
            }
        }
    }
}
impl Inputs for Trees {
    fn len(&self) -> u64 {
        2 * self.node.iter().sum::<u64>()
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        out.clear();
        let (block, mut i) = (i % 2 == 1, i / 2);
        let mut n = 1;
        while i >= self.node[n] {
            i -= self.node[n];
            n += 1;
        }
        let w = self.unrank(n, i);
        if block {
            self.block(&w, 0, false, out);
        } else {
            self.flow(&w, out);
        }
        true
    }
    fn describe(&self) -> String {
        format!("all trees of 1 to {} nodes with leaves {:?} and keys {:?}, in flow and in block style", self.max, self.leaves, self.keys)
    }
}
