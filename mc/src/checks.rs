//! Which spaces and verdicts decide which property.
use crate::access;
use crate::agree;
use crate::conf::{self, Scope};
#[cfg(feature = "comment")]
use crate::comments;
use crate::docs::Pairs;
use crate::engine::*;
use crate::space::*;
use crate::spaces::{self as sp, Sp};
use crate::textjob::{Check, TextJob};
use crate::meta;
use crate::source;
use crate::spans;
use crate::trees;
use crate::typed;
use crate::verdicts;
use crate::work;
use crate::written;

pub type Plan = Vec<Box<dyn Job>>;

fn jobs(spaces: Vec<Sp>, f: impl Fn(&str, &mut Ctx) -> Result<(), String> + Copy + 'static) -> Plan {
    spaces
        .into_iter()
        .map(|sp| {
            let chunk = (sp.len() / 100).clamp(1, 1024);
            Box::new(TextJob { sp, f: Box::new(f) as Check, chunk }) as Box<dyn Job>
        })
        .collect()
}
fn conform(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    conf::conform(s, Scope::All, ctx)
}
/// The spaces of one subject plus everything one edit away from the corpus; `two` are the tokens
/// of the two-edit neighbourhood.
fn subject(mut v: Vec<Sp>, t: bool, two: &[&str]) -> Vec<Sp> {
    v.push(sp::corpus(1));
    v.extend(sp::ladders(t));
    v.push(sp::corpus2(if t { two } else { &two[..2] }));
    if t {
        v.push(sp::corpus2(&["a", "\t", "'", ","]));
        v.push(sp::corpus2(&[" ", "?", "&a ", "é"]));
    }
    v
}

fn positioned(l: sp::Lv) -> Vec<Sp> {
    let mut v = sp::mixed(l);
    v.extend(sp::positions(l));
    v.push(Box::new(List { name: "malformed texts".into(), items: sp::malformed() }));
    v
}

pub fn plan(id: &str, t: bool) -> Option<Plan> {
    let l = sp::Lv(if t { 2 } else { 1 });
    Some(match id {
        "P01" => {
            let mut p = jobs(sp::mixed(l), |s, c| verdicts::totality(s, true, c));
            p.extend(jobs(vec![sp::deep(l)], |s, c| verdicts::totality(s, true, c)));
            let mut v = sp::repeated(l);
            if !t {
                v.pop();
            }
            p.extend(jobs(v, |s, c| verdicts::totality(s, true, c)));
            p.extend(jobs(vec![sp::bombs(l)], trees::bomb));
            p
        }
        "P02" => jobs(sp::mixed(l), verdicts::grammar),
        "P03" => {
            let mut v = subject(sp::block(l), t, &[" ", "\n", "- ", "a: "]);
            v.extend(sp::corpus_amid(sp::AMID_BLOCKS));
            jobs(v, conform)
        }
        "P04" => {
            let mut v = subject(sp::flow(l), t, &["[", "}", ",", ": "]);
            v.extend(sp::corpus_amid(sp::AMID_FLOWS));
            jobs(v, conform)
        }
        "P05" => jobs(subject(sp::scalars(l), t, &["'", "\"", "\n", "#"]), conform),
        "P06" => jobs(subject(sp::block_scalars(l), t, &["|", "\n", " ", "\t"]), conform),
        "P07" => jobs(subject(sp::escapes(l), t, &["\\", "\"", "n", "x"]), conform),
        "P08" => jobs(subject(sp::anchors(l), t, &["&a ", "*a", "- ", ": "]), verdicts::anchor_names),
        "P09" => {
            let mut p = jobs(subject(sp::tags(l), t, &["!t ", "%", "!", "---\n"]), conform);
            p.extend(jobs(vec![sp::tag_lines(l), sp::document_tags(l)], conf::conform_keep));
            p
        }
        "P10" => {
            let mut p = jobs(subject(sp::documents(l), t, &["---", "\n", "...\n", "%"]), conform);
            p.push(Box::new(Pairs::new("pairs of corpus texts", &crate::corpus())));
            let lines = sp::documents(l);
            let mut short = vec![];
            let mut s = String::new();
            let small = &lines[1];
            for i in 0..if t { 31 + 31 * 31 } else { 31 } {
                if small.get(i, &mut s) {
                    short.push(s.clone());
                }
            }
            p.push(Box::new(Pairs::new("pairs of short texts", &short)));
            p.extend(jobs(sp::corpus_amid(sp::AMID_DOCUMENTS), conform));
            p
        }
        "P11" => {
            let mut v = sp::mixed(l);
            v.push(Box::new(List { name: "malformed texts".into(), items: sp::malformed() }));
            v.push(sp::corpus2(&["\t", "\n", ":", "]"]));
            if t {
                v.push(sp::corpus2(&[" ", "-", "'", "&a "]));
                v.push(sp::corpus2(&["#", "?", "[", "!t "]));
                v.push(sp::corpus2(&["|", ",", "\"", "*a"]));
            }
            for amid in [sp::AMID_DOCUMENTS, sp::AMID_BLOCKS, sp::AMID_FLOWS] {
                v.extend(sp::corpus_amid(if t { amid } else { &amid[1..3] }));
            }
            jobs(v, verdicts::rejected_everywhere)
        }
        "P12" => jobs(positioned(l), spans::positions),
        "P13" => {
            let mut v = sp::mixed(l);
            v.extend(sp::block_scalars(l));
            v.extend(sp::documents(sp::Lv(if t { 1 } else { 0 })));
            jobs(v, meta::breaks)
        }
        "P14" => {
            let mut p = jobs(sp::mixed(l), agree::agree);
            if t {
                p.extend(jobs(sp::operated(l), |s: &str, c: &mut Ctx| agree::operations(s, 4, c)));
            } else {
                p.extend(jobs(sp::operated(l), |s: &str, c: &mut Ctx| agree::operations(s, 3, c)));
            }
            p
        }
        "P15" => {
            let mut p = jobs(sp::source_texts(l), source::answers);
            p.push(Box::new(source::Bytes));
            p.extend(jobs(positioned(l), source::sources));
            p
        }
        "P16" => {
            let mut v = sp::mixed(l);
            v.push(sp::deep(sp::Lv(1)));
            v.extend(sp::anchors(l));
            v.extend(sp::documents(sp::Lv(0)));
            jobs(v, trees::tree)
        }
        "P17" => {
            let mut p = jobs(sp::scalar_strings(l), trees::scalar);
            p.extend(jobs(sp::scalar_strings(sp::Lv(if t { 1 } else { 0 })), trees::scalar_loaded));
            p
        }
        "P18" => vec![
            Box::new(access::Nodes(access::trees(l.0))) as Box<dyn Job>,
            Box::new(access::Lookups(access::trees(l.0))),
            Box::new(access::Equality(access::trees(l.0))),
            Box::new(access::Conversions),
            Box::new(access::Changes::new(2)),
            Box::new(access::Changes::new(if t { 4 } else { 3 })),
        ],
        "P19" => {
            let mut p = jobs(sp::typed(l), typed::shapes);
            p.extend(jobs(vec![sp::limit(typed::DEEPEST)], typed::shapes));
            p.extend(jobs(sp::numbers(l), typed::scalars));
            let styles = |inner: Sp| -> Sp {
                Box::new(InContexts {
                    name: "in every style and with tags".into(),
                    contexts: [("", ""), ("'", "'"), ("\"", "\""), ("|-\n  ", "\n"), (">-\n  ", "\n"), ("!!str ", ""), ("!!int ", ""), ("!!float ", ""), ("!!null ", ""), ("!!bool ", ""), ("!t ", "")]
                        .map(|(a, z)| (a.to_string(), z.to_string()))
                        .to_vec(),
                    inner,
                })
            };
            p.extend(jobs(sp::scalar_strings(sp::Lv(if t { 1 } else { 0 })).into_iter().map(styles).collect(), typed::scalars));
            p.extend(jobs(sp::mixed(l), typed::wide));
            p
        }
        "P20" => {
            let mut p: Plan = vec![
                Box::new(written::Integers),
                Box::new(written::Chars),
                Box::new(written::Doubles { bits: if t { 9 } else { 4 } }),
            ];
            p.extend(jobs(sp::written(l), written::string));
            if t {
                p.push(Box::new(written::Singles { skip: 8, positive: false }));
                p.push(Box::new(written::Singles { skip: 0, positive: true }));
            } else {
                p.push(Box::new(written::Singles { skip: 10, positive: false }));
            }
            p
        }
        "P21" => jobs(sp::mixed(l), meta::comments),
        "P22" => {
            let mut v = vec![];
            v.extend(sp::block(sp::Lv(if t { 1 } else { 0 })));
            v.extend(sp::block_scalars(l));
            for f in [sp::flow, sp::scalars, sp::anchors, sp::tags] {
                v.extend(f(sp::Lv(if t { 1 } else { 0 })));
            }
            v.push(sp::corpus(1));
            v.extend(sp::ladders(t));
            jobs(v, meta::indentation)
        }
        #[cfg(feature = "comment")]
        "P23" => {
            let mut v = sp::mixed(l);
            v.extend(sp::commented(l));
            jobs(v, comments::reporting)
        }
        "P24" => {
            let mut v = sp::mixed(sp::Lv(if t { 1 } else { 0 }));
            v.extend(sp::repeated(l));
            v.push(sp::deep(l));
            let mut p = jobs(v, work::proportional);
            let (one, two) = sp::patterns();
            if t {
                p.extend(jobs(vec![one, two], |s, c| work::growth(s, 128, true, c)));
            } else {
                p.extend(jobs(vec![one], |s, c| work::growth(s, 128, true, c)));
                p.extend(jobs(vec![two], |s, c| work::growth(s, 64, false, c)));
            }
            p
        }
        _ => return None,
    })
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "texts outside the enumerated spaces are not explored",
        "built with the installed stable toolchain with debug assertions and overflow checks enabled",
    ];
    const MODEL: &str = "the reference model embodies the YAML 1.2 productions and the documented leniencies listed in DESIGN.md";
    let more: &[&str] = match id {
        "P01" => &[
            "workers have 2 GiB of memory and the stack of a main thread; a longer run than the watchdog's is taken for an endless one",
            "reads outside the text are seen when they cross the end of a page",
        ],
        "P02" | "P13" | "P14" => &["the property relates runs of the implementation to each other or to a grammar; the meaning of a text is not judged here"],
        "P10" => &[MODEL, "that concatenated documents are independent is checked on pairs of texts of which each ends its last document"],
        "P11" => &[MODEL, "a text on which strict and lenient model differ may be accepted or rejected"],
        "P12" => &[MODEL, "spans are compared with the model where the model accepts the text; lines and columns are recounted everywhere"],
        "P15" => &["the naive source implements the documented meaning of each query"],
        "P16" => &["the events are right (P03 to P10); trees are compared with a fold of them"],
        "P17" => &["the core schema of YAML 1.2.2, chapter 10.3, is the intended one, with numbers outside the types' ranges falling back as documented"],
        "P18" => &["trees larger or sequences of operations longer than the bounds behave like the explored ones"],
        "P19" => &[MODEL, "the target types stand for the shapes of serde's data model"],
        "P20" => &[MODEL, "collections cannot be written (not implemented in the subject)"],
        "P21" | "P22" => &["the model decides which changes are changes of layout only; changes on whose meaning it is undecided are skipped"],
        "P23" => &[MODEL, "the build with the feature is a renamed copy of the current sources"],
        "P24" => &["work is questions to the source, bytes passed over and bytes allocated; the constants are about four times the largest seen", "computing time is compared between two lengths with a wide margin, not counted"],
        _ => &[MODEL],
    };
    v.extend(more);
    v
}
