mod access;
mod agree;
mod checks;
#[cfg(feature = "comment")]
mod comments;
mod conf;
mod docs;
mod driver;
mod engine;
mod ladders;
mod meta;
mod obs;
mod placed;
mod refyaml;
mod serdeval;
mod source;
mod space;
mod spaces;
mod spans;
mod textjob;
mod trees;
mod typed;
mod verdicts;
mod work;
mod written;

#[global_allocator]
static ACCOUNT: work::Account = work::Account;
use engine::*;
use space::*;
use std::collections::BTreeMap;
use textjob::TextJob;

pub fn corpus() -> Vec<String> {
    include_str!("../corpus.txt")
        .split('\u{1e}')
        .map(|x| x.split_once('\u{1f}').unwrap().1.to_string())
        .collect()
}
fn unesc(s: &str) -> String {
    s.replace("PIPE", "|").replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r")
}
fn show(rep: &Report, show: usize, total: u64, t: std::time::Instant) {
    let mut cls: BTreeMap<String, Vec<&Violation>> = Default::default();
    for v in &rep.violations {
        let mut k = v.msg.lines().next().unwrap_or("").to_string();
        k.retain(|c| !c.is_ascii_digit());
        k.truncate((0..=60.min(k.len())).rev().find(|&i| k.is_char_boundary(i)).unwrap());
        cls.entry(k).or_default().push(v);
    }
    for (k, vs) in &mut cls {
        vs.sort_by_key(|v| v.input.len());
        println!("##### {k}: {}", vs.len());
        let mut shown: Vec<&str> = vec![];
        for v in vs {
            let sub = shown.iter().any(|s| {
                let mut it = v.input.chars();
                s.chars().all(|c| it.any(|d| d == c))
            });
            if sub {
                continue;
            }
            shown.push(&v.input);
            println!("{:?}", v.input);
            if std::env::var_os("FULL").is_some() {
                println!("{}", v.msg);
            }
            if shown.len() >= show {
                break;
            }
        }
    }
    println!("{:?} {:?} outcomes {} total {}", t.elapsed(), rep.counters, rep.outcomes.count(), total);
}

fn dev_job(what: &str, sp: Box<dyn Inputs>) -> TextJob {
    let f: textjob::Check = match what {
        "conf" => Box::new(|s, c| conf::conform(s, conf::Scope::All, c)),
        "grammar" => Box::new(verdicts::grammar),
        "total" => Box::new(|s, c| verdicts::totality(s, true, c)),
        "anchors" => Box::new(verdicts::anchor_names),
        "tree" => Box::new(trees::tree),
        "scalar" => Box::new(trees::scalar),
        "loaded" => Box::new(trees::scalar_loaded),
        "agree" => Box::new(agree::agree),
        "sources" => Box::new(source::sources),
        "answers" => Box::new(source::answers),
        "spans" => Box::new(spans::positions),
        "breaks" => Box::new(meta::breaks),
        "comments" => Box::new(meta::comments),
        "indent" => Box::new(meta::indentation),
        "ops" => Box::new(|s, c| agree::operations(s, 3, c)),
        "keep" => Box::new(conf::conform_keep),
        "typed" => Box::new(typed::shapes),
        "typedscalars" => Box::new(typed::scalars),
        "written" => Box::new(written::string),
        "wide" => Box::new(typed::wide),
        "reject" => Box::new(verdicts::rejected_everywhere),
        _ => panic!("unknown verdict {what}"),
    };
    let chunk = (sp.len() / 100).clamp(1, 1024);
    TextJob { sp, f, chunk }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match args[1].as_str() {
        // dev VERDICT 'tok|tok' MAXLEN SHOW [prefix suffix]
        "dev" => {
            let alpha: Vec<String> = args[3].split('|').map(unesc).collect();
            let a: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
            let mut sp = Seq::new("dev", &a, 0, args[4].parse().unwrap());
            if args.len() > 6 {
                sp = sp.wrap(&unesc(&args[6]), &unesc(&args[7]));
            }
            let job = dev_job(&args[2], Box::new(sp));
            let mut rep = Report::new();
            let o = Opts { max_violations: 200000, hang_cpu_s: 2, ..Default::default() };
            let t = std::time::Instant::now();
            explore(&job, &o, &mut rep);
            show(&rep, args[5].parse().unwrap(), job.len(), t);
        }
        // edits VERDICT 'tok|tok' DEPTH SHOW
        "edits" => {
            let alpha: Vec<String> = args[3].split('|').map(unesc).collect();
            let a: Vec<&str> = alpha.iter().map(|s| s.as_str()).collect();
            let job = dev_job(&args[2], Box::new(Edits::new("corpus", corpus(), &a, args[4].parse().unwrap())));
            let mut rep = Report::new();
            let o = Opts { max_violations: 200000, hang_cpu_s: 2, ..Default::default() };
            let t = std::time::Instant::now();
            explore(&job, &o, &mut rep);
            show(&rep, args[5].parse().unwrap(), job.len(), t);
        }
        // list VERDICT FAMILY SHOW
        "list" => {
            let items = match args[3].as_str() {
                "keys" => ladders::keys(),
                "lengths" => ladders::lengths(),
                "widths" => ladders::widths(),
                "headers" => ladders::headers(),
                "depths" => ladders::depths(args[5].parse().unwrap()),
                "counts" => ladders::counts(),
                "large" => ladders::large(args.get(5).is_some()),
                _ => panic!(),
            };
            let job = dev_job(&args[2], Box::new(List { name: args[3].clone(), items }));
            let mut rep = Report::new();
            let o = Opts { max_violations: 200000, hang_cpu_s: 60, ..Default::default() };
            let t = std::time::Instant::now();
            explore(&job, &o, &mut rep);
            show(&rep, args[4].parse().unwrap(), job.len(), t);
        }
        "check" => {
            let dir = std::env::var("MC_DIR").unwrap_or_else(|_| "/verif".into());
            std::process::exit(driver::check(&args[2], args.get(3).map_or("quick", |s| s.as_str()), &dir));
        }
        "replay" => std::process::exit(driver::replay(&args[2])),
        "crash" => {
            let n: usize = args[3].parse().unwrap();
            let s = format!("{}{}", args[4].repeat(n), args[5].repeat(n));
            match args[2].as_str() {
                "load" => drop(yam_core::prelude::YamlLoader::<yam_core::prelude::Yaml>::load_from(&s)),
                "serde" => drop(yam_serde::from_str::<serde::de::IgnoredAny>(&s)),
                "any" => drop(yam_serde::from_str::<serdeval::Any>(&s)),
                _ => drop(conf::yam(&s)),
            }
        }
        _ => {}
    }
}
