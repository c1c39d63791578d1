//! What the serializer writes, read back.
use crate::engine::*;
use crate::refyaml::{Ev, Outcome, Ref, Style};
use crate::serdeval::Any;
use crate::space::Inputs;
use serde::Serialize;
use serde::de::DeserializeOwned;
use std::fmt::{Debug, Write};
use yam_serde::ser::{PrettyFormatter, YamSerializer};
use yam_serde::{from_str, to_pretty_string};

/// Preferred line lengths, and the default formatter.
const LENGTHS: &[usize] = &[0, 1, 2, 3, 5, 8, 13, 80, usize::MAX];
fn formatter(k: usize) -> PrettyFormatter {
    match LENGTHS.get(k) {
        Some(l) => {
            let mut f = PrettyFormatter::pretty();
            f.pref_string_length = *l;
            f
        }
        None => PrettyFormatter::default(),
    }
}
const FORMATTERS: usize = LENGTHS.len() + 1;

/// A writer that takes so many bytes and then fails.
struct Limited {
    text: String,
    left: usize,
}
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

fn same<V: Debug>(a: &V, b: &V) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
/// Written by formatter `k`, read back as the same type, as an option of it and as anything.
fn back<V: Serialize + DeserializeOwned + Debug>(v: &V, any: &Any, k: usize, ctx: &Ctx) -> Result<String, String> {
    ctx.add(TRANS, 1);
    let t = to_pretty_string(v, formatter(k)).map_err(|e| format!("{v:?} is not written: {e:?}"))?;
    let fail = |what: &str, got: String| Err(format!("{v:?} is written as {t:?}, which {what} gives {got}"));
    match from_str::<V>(&t) {
        Ok(r) if same(&r, v) => {}
        r => return fail("read back", format!("{r:?}")),
    }
    match from_str::<Any>(&t) {
        Ok(r) if same(&r, any) => {}
        r => return fail("read as a value of any type", format!("{r:?}")),
    }
    if *any != Any::Null {
        let some = Some(v);
        let u = to_pretty_string(&some, formatter(k)).map_err(|e| format!("Some({v:?}) is not written: {e:?}"))?;
        match from_str::<Option<V>>(&u) {
            Ok(Some(r)) if same(&r, v) => {}
            r => return fail("read as an option", format!("{r:?}")),
        }
    }
    let mut w = String::new();
    v.serialize(&mut YamSerializer::new_pretty(&mut w, formatter(k))).map_err(|e| format!("{v:?} is not written: {e:?}"))?;
    if w != t {
        return Err(format!("{v:?} is written as {t:?} to a string and as {w:?} to a writer"));
    }
    Ok(t)
}
/// The same, with a writer that fails after every number of bytes.
fn faults<V: Serialize + Debug>(v: &V, t: &str, k: usize, ctx: &Ctx) -> Result<(), String> {
    for left in 0..t.len() {
        ctx.add(TRANS, 1);
        let mut l = Limited { text: String::new(), left };
        let r = v.serialize(&mut YamSerializer::new_pretty(&mut l, formatter(k)));
        if r.is_ok() {
            return Err(format!("{v:?} is written without an error to a writer that fails after {left} of {} bytes", t.len()));
        }
        if !t.starts_with(&l.text) {
            return Err(format!("a writer that fails after {left} bytes is given {:?}, not the start of {t:?}", l.text));
        }
    }
    Ok(())
}
/// The text is one document holding one quoted scalar of this value, says the reference model.
fn by_model(t: &str, want: &str) -> Result<(), String> {
    let ch: Vec<char> = t.chars().collect();
    match Ref::parse(&ch) {
        Outcome::Ok(evs) => {
            let v: Vec<&Ev> = evs.iter().filter(|e| !matches!(e, Ev::DocStart(..) | Ev::DocEnd)).collect();
            match v[..] {
                [Ev::Scalar(Style::Double | Style::Single, x, _)] if x == want => Ok(()),
                _ => Err(format!("{want:?} is written as {t:?}, which is {evs:?} by the reference model")),
            }
        }
        Outcome::Unknown => Ok(()),
        Outcome::Err => Err(format!("{want:?} is written as {t:?}, which is malformed by the reference model")),
    }
}
pub fn string(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.add(EVALS, 1);
    let v = s.to_string();
    let any = Any::Str(v.clone());
    let mut last = String::new();
    for k in 0..FORMATTERS {
        let t = back(&v, &any, k, ctx)?;
        if t != last {
            ctx.outcome(&t);
            by_model(&t, s)?;
            if s.len() < 24 {
                faults(&v, &t, k, ctx)?;
            }
            last = t;
        }
    }
    let mut w = String::new();
    v.serialize(&mut YamSerializer::new_simple(&mut w)).map_err(|e| format!("{v:?} is not written: {e:?}"))?;
    if from_str::<String>(&w).ok().as_ref() != Some(&v) {
        return Err(format!("{v:?} is written as {w:?} in the simple form"));
    }
    ctx.add(TRACES, 1);
    Ok(())
}

/// Every character, alone, as a string and among others.
pub struct Chars;
impl Job for Chars {
    fn name(&self) -> String {
        "every character, as a character and in strings next to others".into()
    }
    fn len(&self) -> u64 {
        0x110000
    }
    fn input(&self, i: u64) -> String {
        format!("U+{i:04X}")
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        ctx.add(EVALS, 1);
        for k in [4, LENGTHS.len()] {
            let t = back(&c, &Any::Str(c.to_string()), k, ctx)?;
            by_model(&t, &c.to_string())?;
            ctx.outcome(&t);
            if i < 0x3000 {
                faults(&c, &t, k, ctx)?;
            }
            for (a, z) in [("", ""), ("a", "b"), ("aaaa ", " bbbb"), ("aaaa", " bbbb ")] {
                let s = format!("{a}{c}{z}");
                let t = back(&s, &Any::Str(s.clone()), k, ctx)?;
                by_model(&t, &s)?;
            }
        }
        ctx.add(TRACES, 1);
        Ok(())
    }
}

/// Integers of all types: every one of 8 and 16 bits, and around every power of two.
pub struct Integers;
impl Job for Integers {
    fn name(&self) -> String {
        "all integers of 8 and 16 bits, integers of the other types around every power of two, booleans and absent values".into()
    }
    fn len(&self) -> u64 {
        65536 + 64 * 33
    }
    fn input(&self, i: u64) -> String {
        if i < 65536 { format!("{}", i as i64 - 32768) } else { format!("2^{} + {}", (i - 65536) / 33, ((i - 65536) % 33) as i64 - 16) }
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        ctx.add(EVALS, 1);
        let x: i128 = if i < 65536 { i128::from(i) - 32768 } else { (1i128 << ((i - 65536) / 33)) + i128::from((i - 65536) % 33) - 16 };
        for x in [x, -x] {
            for k in [0, FORMATTERS - 1] {
                macro_rules! each {
                    ($($t:ty)*) => {$(
                        if let Ok(v) = <$t>::try_from(x) {
                            if let Ok(w) = i64::try_from(x) {
                                let t = back(&v, &Any::Int(w), k, ctx)?;
                                faults(&v, &t, k, ctx)?;
                                ctx.outcome(&t);
                            } else {
                                // Not a value that every type can hold.
                                let t = to_pretty_string(&v, formatter(k)).map_err(|e| format!("{v} is not written: {e:?}"))?;
                                if from_str::<$t>(&t).ok() != Some(v) {
                                    return Err(format!("{v} is written as {t:?}, which reads back as {:?}", from_str::<$t>(&t)));
                                }
                            }
                        }
                    )*};
                }
                each!(i8 i16 i32 i64 u8 u16 u32 u64);
            }
        }
        if i < FORMATTERS as u64 {
            let k = i as usize;
            for b in [true, false] {
                let t = back(&b, &Any::Bool(b), k, ctx)?;
                faults(&b, &t, k, ctx)?;
            }
            let t = back(&(), &Any::Null, k, ctx)?;
            faults(&(), &t, k, ctx)?;
            let t = back(&None::<i64>, &Any::Null, k, ctx)?;
            faults(&None::<i64>, &t, k, ctx)?;
            back(&None::<String>, &Any::Null, k, ctx)?;
        }
        ctx.add(TRACES, 1);
        Ok(())
    }
}

/// The floats of 32 bits whose low bits are zero, and those next to them.
pub struct Singles {
    /// how many low bits are left out
    pub skip: u32,
    pub positive: bool,
}
impl Job for Singles {
    fn name(&self) -> String {
        if self.skip == 0 {
            "all floats of 32 bits without the sign".into()
        } else {
            format!("all floats of 32 bits within 2 of a multiple of 2^{}", self.skip)
        }
    }
    fn len(&self) -> u64 {
        1 << (32 - self.skip - u32::from(self.positive))
    }
    fn chunk(&self) -> u64 {
        4096
    }
    fn input(&self, i: u64) -> String {
        format!("{:?}", f32::from_bits((i << self.skip) as u32))
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let near = if self.skip == 0 { 0..=0 } else { -2..=2i64 };
        for d in near {
            let v = f32::from_bits(((i << self.skip) as i64 + d) as u32);
            ctx.add(TRANS, 1);
            let t = to_pretty_string(&v, PrettyFormatter::pretty()).map_err(|e| format!("{v:?} is not written: {e:?}"))?;
            match from_str::<f32>(&t) {
                Ok(r) if r.to_bits() == v.to_bits() || r.is_nan() && v.is_nan() => {}
                r => return Err(format!("{v:?} is written as {t:?}, which reads back as {r:?}")),
            }
            if i % 64 == 0 {
                if self.skip > 0 {
                    ctx.outcome(&t);
                }
                match from_str::<Any>(&t) {
                    Ok(Any::Float(f)) if f as f32 == v || f.is_nan() && v.is_nan() => {}
                    r => return Err(format!("{v:?} is written as {t:?}, which as a value of any type is {r:?}")),
                }
            }
        }
        ctx.add(EVALS, 1);
        ctx.add(TRACES, 1);
        Ok(())
    }
}
/// Floats of 64 bits: every exponent with patterns of the fraction, and around powers of ten.
pub struct Doubles {
    pub bits: u32,
}
impl Doubles {
    fn value(&self, i: u64) -> f64 {
        let n = 4096 << self.bits;
        if i < n {
            // sign and exponent, then the top bits of the fraction, spread over its low end too
            let (head, f) = (i >> self.bits, i & ((1 << self.bits) - 1));
            let frac = (f << (52 - self.bits)) ^ (f.reverse_bits() >> (64 - self.bits));
            f64::from_bits(head << 52 | frac & ((1 << 52) - 1))
        } else {
            let j = i - n;
            let p: f64 = format!("{}e{}", j % 9 + 1, (j / 9) as i64 / 5 - 330).parse().unwrap_or(0.0);
            let d = (j / 9 % 5) as i64 - 2;
            f64::from_bits((p.to_bits() as i64).saturating_add(d).max(0) as u64)
        }
    }
}
impl Job for Doubles {
    fn name(&self) -> String {
        format!("floats of 64 bits: every sign and exponent with 2^{} fractions, and those within 2 of d*10^k", self.bits)
    }
    fn len(&self) -> u64 {
        (4096 << self.bits) + 9 * 5 * 645
    }
    fn input(&self, i: u64) -> String {
        format!("{:?}", self.value(i))
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        ctx.add(EVALS, 1);
        let v = self.value(i);
        for k in [0, FORMATTERS - 1] {
            let t = back(&v, &Any::Float(v), k, ctx)?;
            ctx.outcome(&t);
            if i % 16 == 0 {
                faults(&v, &t, k, ctx)?;
            }
        }
        // as the narrower type
        let s = v as f32;
        let t = single_text(s, ctx)?;
        ctx.outcome(&t);
        ctx.add(TRACES, 1);
        Ok(())
    }
}
fn single_text(v: f32, ctx: &Ctx) -> Result<String, String> {
    ctx.add(TRANS, 1);
    let t = to_pretty_string(&v, PrettyFormatter::default()).map_err(|e| format!("{v:?} is not written: {e:?}"))?;
    match from_str::<f32>(&t) {
        Ok(r) if r.to_bits() == v.to_bits() || r.is_nan() && v.is_nan() => Ok(t),
        r => Err(format!("{v:?} is written as {t:?}, which reads back as {r:?}")),
    }
}

/// Strings of words of all lengths, separated by every run of white space.
pub struct Words {
    pub words: Vec<String>,
    pub gaps: Vec<String>,
    pub max: u32,
}
impl Inputs for Words {
    fn len(&self) -> u64 {
        let n = (self.words.len() * self.gaps.len()) as u64;
        (1..=self.max).map(|k| n.pow(k)).sum()
    }
    fn get(&self, mut i: u64, out: &mut String) -> bool {
        out.clear();
        let n = (self.words.len() * self.gaps.len()) as u64;
        let mut k = 1;
        while i >= n.pow(k) {
            i -= n.pow(k);
            k += 1;
        }
        for _ in 0..k {
            let x = (i % n) as usize;
            i /= n;
            out.push_str(&self.words[x % self.words.len()]);
            out.push_str(&self.gaps[x / self.words.len()]);
        }
        true
    }
    fn describe(&self) -> String {
        format!("all strings of 1 to {} words of {:?}, each followed by one of {:?}", self.max, self.words, self.gaps)
    }
}
