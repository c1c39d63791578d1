//! The amount of work: questions asked of the source, bytes passed over and memory taken.
use crate::engine::*;
use crate::verdicts::cap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use yam_core::parsing::{Parser, SkipTabs, Source, StrSource};
use yam_core::prelude::{Yaml, YamlLoader};

/// The allocator of this program, which keeps account.
pub struct Account;
static TAKEN: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
fn took(n: usize) {
    TAKEN.store(TAKEN.load(Relaxed) + n as u64, Relaxed);
    let l = LIVE.load(Relaxed).wrapping_add(n as u64);
    LIVE.store(l, Relaxed);
    if l as i64 > PEAK.load(Relaxed) as i64 {
        PEAK.store(l, Relaxed);
    }
}
fn gave(n: usize) {
    LIVE.store(LIVE.load(Relaxed).wrapping_sub(n as u64), Relaxed);
}
unsafe impl GlobalAlloc for Account {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gave(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n);
        gave(l.size());
        unsafe { System.realloc(p, l, n) }
    }
}
/// What a computation allocates: all of it, and the most at a time.
fn account<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let (t, l) = (TAKEN.load(Relaxed), LIVE.load(Relaxed));
    PEAK.store(l, Relaxed);
    let r = f();
    (r, TAKEN.load(Relaxed) - t, PEAK.load(Relaxed).wrapping_sub(l))
}

/// A source that counts what it is asked.
struct Counted<'a> {
    src: StrSource<'a>,
    n: Rc<Cell<u64>>,
}
impl Counted<'_> {
    fn add(&self, n: usize) {
        self.n.set(self.n.get() + 1 + n as u64);
    }
}
unsafe impl Source for Counted<'_> {
    fn peekz(&self, n: usize) -> u8 {
        self.add(0);
        self.src.peekz(n)
    }
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        self.add(0);
        unsafe { self.src.peek_unsafe(n) }
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.add(0);
        self.src.peek_checked(n)
    }
    fn peek_char(&self) -> char {
        self.add(0);
        self.src.peek_char()
    }
    fn buf_max_len(&self) -> usize {
        self.add(0);
        self.src.buf_max_len()
    }
    fn buf_is_empty(&self) -> bool {
        self.add(0);
        self.src.buf_is_empty()
    }
    fn fetch_while_is_alpha(&mut self, out: &mut Vec<u8>) -> usize {
        let n = self.src.fetch_while_is_alpha(out);
        self.add(n);
        n
    }
    fn push_non_breakz_chr(&mut self, v: &mut Vec<u8>) {
        let n = v.len();
        self.src.push_non_breakz_chr(v);
        self.add(v.len() - n);
    }
    fn skip(&mut self, n: usize) {
        self.add(n);
        self.src.skip(n);
    }
    fn skip_while_blank(&mut self) -> usize {
        let n = self.src.skip_while_blank();
        self.add(n);
        n
    }
    fn skip_ws_to_eol(&mut self, tabs: bool, separated: bool) -> (u32, Result<SkipTabs, &'static str>) {
        let r = self.src.skip_ws_to_eol(tabs, separated);
        self.add(r.0 as usize);
        r
    }
    fn skip_while_non_breakz(&mut self) -> usize {
        let n = self.src.skip_while_non_breakz();
        self.add(n);
        n
    }
    fn skip_and_accumulate_to_eol(&mut self, v: &mut Vec<u8>) {
        let n = v.len();
        self.src.skip_and_accumulate_to_eol(v);
        self.add(v.len() - n);
    }
    fn next_next_byte_is(&self, c: u8) -> bool {
        self.add(0);
        self.src.next_next_byte_is(c)
    }
    fn next_is_three(&self, c: u8) -> bool {
        self.add(0);
        self.src.next_is_three(c)
    }
    fn next_can_be_plain_scalar(&self, flow: bool) -> bool {
        self.add(0);
        self.src.next_can_be_plain_scalar(flow)
    }
    fn next_is_document_indicator(&self) -> bool {
        self.add(0);
        self.src.next_is_document_indicator()
    }
}

/// Reads all events; how many there are.
fn read<S: Source>(mut p: Parser<'_, S>, len: usize) -> u64 {
    let mut k = 0;
    while let Some(r) = p.next_event() {
        k += 1;
        if r.is_err() || k > cap(len) as u64 {
            break;
        }
    }
    k
}

/// Per byte of text, and for the empty text.
const QUERIES: (u64, u64) = (24, 128);
const TAKE: (u64, u64) = (1024, 1 << 14);
const HOLD: (u64, u64) = (1024, 1 << 14);

/// The work grows no faster than the text.
pub fn proportional(s: &str, ctx: &mut Ctx) -> Result<(), String> {
    let len = s.len() as u64;
    let n = Rc::new(Cell::new(0));
    let events = read(Parser::new(Counted { src: StrSource::new(s), n: n.clone() }), s.len());
    let (_, taken, held) = account(|| read(Parser::new_from_str(s), s.len()));
    ctx.add(EVALS, 2);
    ctx.add(TRANS, n.get());
    ctx.add(EVENTS, events);
    let within = |what: &str, x: u64, (a, b): (u64, u64)| {
        // MC_WORK=a,b tries other bounds
        let (a, b) = match std::env::var("MC_WORK").ok().and_then(|v| v.split_once(',').map(|(x, y)| (x.parse::<f64>(), y.parse::<f64>()))) {
            Some((Ok(x), Ok(y))) => ((a as f64 * x) as u64, (b as f64 * y) as u64),
            _ => (a, b),
        };
        if x > a * len + b { Err(format!("{what}: {x} for a text of {len} bytes; more than {a} a byte and {b}")) } else { Ok(()) }
    };
    within("questions and bytes passed over", n.get(), QUERIES)?;
    within("bytes allocated by the parser", taken, TAKE)?;
    within("bytes held by the parser", held, HOLD)?;
    ctx.outcome(&format!("{} {events} {}", n.get(), taken / 64));
    // copies of anchored nodes are P01's
    if !s.contains('&') {
        let (_, taken, held) = account(|| drop(YamlLoader::<Yaml>::load_from(s)));
        ctx.add(EVALS, 1);
        within("bytes allocated by the loader", taken, TAKE)?;
        within("bytes held by the loader", held, HOLD)?;
    }
    Ok(())
}

/// Stands for the number of the repetition in a pattern.
pub const NUMBER: char = '\u{1}';
/// Stands between the beginning and what is repeated.
pub const START: char = '\u{2}';
const SMALL: usize = 1 << 13;
/// How many times as much time a text so many times as long may take, for each of these times.
const SLACK: f64 = 12.0;

fn unrolled(pattern: &str, bytes: usize) -> String {
    let (start, unit) = pattern.split_once(START).unwrap_or(("", pattern));
    let mut out = String::with_capacity(bytes + 64);
    out.push_str(start);
    let mut i = 0;
    while out.len() < bytes {
        let mut parts = unit.split(NUMBER);
        out.push_str(parts.next().unwrap_or(""));
        for p in parts {
            out.push_str(&i.to_string());
            out.push_str(p);
        }
        i += 1;
    }
    out
}
fn seconds<R>(f: impl FnOnce() -> R) -> f64 {
    let now = || unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    };
    let t = now();
    drop(f());
    now() - t
}
/// A text of the pattern that is `times` as long takes not much more than `times` as long to read.
/// Times are the least of several, and compared again before they count.
pub fn growth(pattern: &str, times: usize, all: bool, ctx: &mut Ctx) -> Result<(), String> {
    let (small, large) = (unrolled(pattern, SMALL), unrolled(pattern, SMALL * times));
    type Reader = fn(&str) -> u64;
    let readers: &[(&str, Reader)] = &[
        ("pulling the events of", |s| read(Parser::new_from_str(s), s.len())),
        ("loading the trees of", |s| YamlLoader::<Yaml>::load_from(s).map_or(0, |v| v.len() as u64)),
        ("deserializing", |s| yam_serde::from_str::<serde::de::IgnoredAny>(s).is_ok() as u64),
    ];
    for (what, f) in readers.iter().take(if all { 3 } else { 1 }) {
        let (mut a, mut b) = (f64::MAX, f64::MAX);
        for round in 0..12 {
            for _ in 0..4 {
                a = a.min(seconds(|| f(&small)));
            }
            b = b.min(seconds(|| f(&large)));
            ctx.add(EVALS, 5);
            // what takes less than this is not measured well
            let base = a.max(1e-4);
            if b <= base * times as f64 * SLACK {
                break;
            }
            if round == 11 {
                return Err(format!(
                    "{what} {} bytes of this pattern takes {:.1} ms, of {} bytes {:.3} ms: {:.0} times as long",
                    large.len(), b * 1e3, small.len(), a * 1e3, b / a
                ));
            }
        }
    }
    ctx.add(TRANS, 1);
    ctx.outcome(pattern);
    Ok(())
}
