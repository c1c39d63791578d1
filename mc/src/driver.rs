//! The `check` and `replay` commands: run a plan, write evidence, report violations.
use crate::checks;
use crate::engine::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || matches!(c as u32, 0x2028 | 0x2029 | 0xFEFF | 0xFFFE | 0xFFFF) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn brief(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { format!("{}... ({} bytes)", s.chars().take(n).collect::<String>(), s.len()) }
}

/// `known: property=<id> input=<json string> | what`
fn known(dir: &str, id: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(format!("{dir}/known-findings.txt")) else { return vec![] };
    let pre = format!("known: property={id} input=");
    t.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.rsplit_once(" | ").map(|(a, b)| (a.trim().to_string(), b.to_string())))
        .collect()
}

pub fn check(id: &str, tier: &str, dir: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let Some(plan) = checks::plan(id, thorough) else {
        eprintln!("no check for {id}");
        return 2;
    };
    let secs = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 720 } else { 240 });
    let deadline = t0 + Duration::from_secs(secs);
    let known = known(dir, id);
    let mut rep = Report::new();
    let mut found: Vec<(usize, Violation)> = vec![];
    let mut hits: Vec<usize> = vec![];
    let mut samples = vec![];
    let mut spaces = vec![];
    let mut complete = true;
    for (n, job) in plan.iter().enumerate() {
        // MC_HANG: to find the slowest inputs while developing.
        let hang = std::env::var("MC_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 40 } else { 20 });
        let o = Opts { deadline: Some(deadline), max_violations: 8 + known.len(), hang_cpu_s: hang, ..Default::default() };
        let before = rep.violations.len();
        let t = Instant::now();
        explore(job.as_ref(), &o, &mut rep);
        let done = Instant::now() <= deadline;
        complete &= done;
        spaces.push(format!(
            "{{\"space\": {}, \"size\": {}, \"explored_completely\": {}, \"wall_s\": {:.1}}}",
            json(&brief(&job.name(), 600)),
            job.len(),
            done,
            t.elapsed().as_secs_f64()
        ));
        if std::env::var_os("MC_TIMES").is_some() {
            eprintln!("{:8.1}s {:12} {}", t.elapsed().as_secs_f64(), job.len(), brief(&job.name(), 100));
        }
        for k in [job.len() / 3, job.len() * 4 / 5] {
            if k < job.len() && samples.len() < 24 {
                let i = job.input(k);
                let mut ctx = Ctx::detached();
                let what = match guarded(job.as_ref(), k, &mut ctx) {
                    Ok(()) => "holds".to_string(),
                    Err(e) => brief(&e, 200),
                };
                samples.push(format!("{{\"space\": {n}, \"index\": {k}, \"input\": {}, \"verdict\": {}}}", json(&brief(&i, 300)), json(&what)));
            }
        }
        for v in &rep.violations[before..] {
            match known.iter().position(|k| k.0 == json(&v.input)) {
                Some(k) => {
                    if !hits.contains(&k) {
                        hits.push(k)
                    }
                }
                None => found.push((n, v.clone())),
            }
        }
        if !found.is_empty() || !done {
            break;
        }
    }
    for k in &hits {
        println!("KNOWN-FINDING: property={id} {}", known[*k].1);
    }
    let ev = format!("{dir}/evidence");
    let _ = std::fs::create_dir_all(&ev);
    found.sort_by_key(|f| f.1.input.len());
    for (k, (n, v)) in found.iter().take(5).enumerate() {
        let path = format!("{ev}/{id}.violation{k}.replay");
        let body = format!("property {id}\ntier {tier}\nspace {n}\nindex {}\ninput {}\n\n{}\n", v.index, json(&v.input), v.msg);
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={id} replay={path}");
        println!("  input: {}", brief(&json(&v.input), 400));
        for l in brief(&v.msg, 1500).lines() {
            println!("  {l}");
        }
    }
    let c = |n: usize| rep.counters.get(COUNTERS[n]).copied().unwrap_or(0);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let planned: u64 = plan.iter().map(|j| j.len()).sum();
    let text = format!(
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"inputs_executed\": {},\n  \"planned_inputs\": {planned},\n  \"accepted\": {},\n  \"rejected\": {},\n  \"undecided_by_the_model\": {},\n  \"exhaustive\": {},\n  \"counting\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        rep.outcomes.count(),
        c(TRANS),
        c(TRACES),
        c(EVALS),
        c(ACCEPTED),
        c(REJECTED),
        c(SKIPPED),
        complete && found.is_empty(),
        json("states: distinct observed outcomes (event streams, trees, values or errors), counted in a hash bitmap, so a lower bound; transitions: events or steps compared; traces: inputs whose model prediction was compared with the implementation"),
        spaces.join(",\n   "),
        samples.join(",\n   "),
        checks::assumptions(id).iter().map(|a| json(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        found.len(),
    );
    if let Err(e) = std::fs::write(format!("{ev}/{id}.json"), text) {
        eprintln!("cannot write the evidence: {e}");
        return 2;
    }
    println!(
        "{id} {tier}: {} inputs, {} distinct outcomes, {} steps compared, {} spaces{}, {:.1} s",
        c(EVALS),
        rep.outcomes.count(),
        c(TRANS),
        rep.jobs.len(),
        if complete { "" } else { " (stopped at the time limit)" },
        t0.elapsed().as_secs_f64()
    );
    if c(EVALS) == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    i32::from(!found.is_empty())
}

/// Re-evaluate the input a replay file names.
pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let field = |n: &str| t.lines().find_map(|l| l.strip_prefix(n)).map(str::trim).unwrap_or("").to_string();
    let Some(plan) = checks::plan(&field("property "), field("tier ") == "thorough") else {
        eprintln!("unknown property");
        return 2;
    };
    let (Ok(n), Ok(i)) = (field("space ").parse::<usize>(), field("index ").parse::<u64>()) else {
        eprintln!("malformed replay file");
        return 2;
    };
    struct One<'a>(&'a dyn Job, u64);
    impl Job for One<'_> {
        fn name(&self) -> String {
            self.0.name()
        }
        fn len(&self) -> u64 {
            1
        }
        fn run(&self, _: u64, ctx: &mut Ctx) -> Result<(), String> {
            self.0.run(self.1, ctx)
        }
        fn input(&self, _: u64) -> String {
            self.0.input(self.1)
        }
    }
    let one = One(plan[n].as_ref(), i);
    println!("input: {}", json(&one.input(0)));
    let mut rep = Report::new();
    explore(&one, &Opts::default(), &mut rep);
    match rep.violations.first() {
        Some(v) => {
            println!("VIOLATION property={} replay={path}\n{}", field("property "), v.msg);
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}
