//! Independence of the documents of a stream: a text followed by another one yields the events of
//! the first followed by those of the second.
use crate::conf::{Verdict, model, yam};
use crate::engine::*;
use std::fmt::Write;

pub struct Pairs {
    pub name: String,
    pub first: Vec<(String, String)>,
    pub second: Vec<Vec<(String, String)>>,
    pub seps: Vec<&'static str>,
}

/// The texts the model accepts, with the events reported for them.
fn accepted(texts: impl Iterator<Item = String>) -> Vec<(String, String)> {
    texts
        .filter(|t| matches!(model(t), Verdict::Events(_)))
        .filter_map(|t| yam(&t).ok().map(|e| (t, e)))
        .collect()
}
impl Pairs {
    pub fn new(name: &str, pool: &[String]) -> Pairs {
        let seps = vec!["...\n", "---\n", "... # c\n", "...\n---\n"];
        // the first text ends its last line before the separator
        let first = accepted(pool.iter().map(|t| if t.is_empty() || t.ends_with('\n') { t.clone() } else { format!("{t}\n") }));
        let second = seps
            .iter()
            .map(|s| {
                let own = s.strip_prefix("...\n").or(s.strip_prefix("... # c\n")).unwrap_or(s);
                accepted(pool.iter().map(|t| format!("{own}{t}")))
                    .into_iter()
                    .map(|(t, e)| (t[own.len()..].to_string(), e))
                    .collect()
            })
            .collect();
        Pairs { name: name.into(), first, second, seps }
    }
    fn at(&self, mut i: u64) -> (usize, usize, usize) {
        for (k, s) in self.second.iter().enumerate() {
            let n = s.len() as u64 * self.first.len() as u64;
            if i < n {
                return ((i % self.first.len() as u64) as usize, k, (i / self.first.len() as u64) as usize);
            }
            i -= n;
        }
        unreachable!()
    }
}

/// Shift the anchor ids of rendered events by `by`, and count the anchors.
pub fn shift(events: &str, by: usize, out: &mut String) -> usize {
    let mut n = 0;
    for l in events.lines() {
        if let Some(id) = l.strip_prefix("=ALI *") {
            let id: usize = id.parse().unwrap_or(0);
            let _ = writeln!(out, "=ALI *{}", id + by);
            continue;
        }
        let body = l.get(4..).filter(|b| b.starts_with(" &") && !l.starts_with("#"));
        if let Some(b) = body {
            let e = b[2..].find(|c: char| !c.is_ascii_digit()).map_or(b.len(), |x| x + 2);
            if let Ok(id) = b[2..e].parse::<usize>() {
                n += 1;
                let _ = writeln!(out, "{} &{}{}", &l[..4], id + by, &b[e..]);
                continue;
            }
        }
        out.push_str(l);
        out.push('\n');
    }
    n
}

impl Job for Pairs {
    fn name(&self) -> String {
        format!("{}: {} texts followed by {:?} and {} texts", self.name, self.first.len(), self.seps, self.second[0].len())
    }
    fn len(&self) -> u64 {
        self.second.iter().map(|s| s.len() as u64 * self.first.len() as u64).sum()
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let (a, k, b) = self.at(i);
        let (t1, e1) = &self.first[a];
        let (t2, e2) = &self.second[k][b];
        let text = format!("{t1}{}{t2}", self.seps[k]);
        ctx.add(EVALS, 1);
        ctx.add(TRACES, 1);
        let mut want = String::new();
        let n = shift(e1, 0, &mut want);
        shift(e2, n, &mut want);
        let got = yam(&text).map_err(|e| format!("rejects two documents it accepts one by one: {e}"))?;
        ctx.add(TRANS, got.bytes().filter(|&b| b == b'\n').count() as u64);
        ctx.outcome(&got);
        if got != want {
            return Err(format!("documents depend on each other\nexpected:\n{want}reported:\n{got}"));
        }
        Ok(())
    }
    fn input(&self, i: u64) -> String {
        let (a, k, b) = self.at(i);
        format!("{}{}{}", self.first[a].0, self.seps[k], self.second[k][b].0)
    }
}
