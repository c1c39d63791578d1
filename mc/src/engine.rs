//! Exhaustive-exploration engine.
//!
//! A *job* is a finite, indexable space of inputs with a deterministic verdict per index. The
//! engine evaluates every index, in forked worker processes that pull chunks from a shared
//! counter. Because each worker is a process, a crash (abort, stack overflow, out of memory) or
//! a hang of the code under test is itself an observation: the parent sees which index was
//! being evaluated, records a violation for it and restarts the worker behind it.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const NCOUNT: usize = 64;

pub trait Job {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// Evaluate index `i`. `Err` is a violation message.
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String>;
    /// The concrete input of index `i`, for replay files and known findings.
    fn input(&self, i: u64) -> String;
    fn chunk(&self) -> u64 {
        1024
    }
}

/// Bits of the shared map that counts distinct observed outcomes.
pub const OUTCOME_BITS: u64 = 1 << 24;

pub struct Ctx {
    counters: *const AtomicU64,
    outcomes: *const AtomicU64,
}
/// Counter names; the index in this list is the slot.
pub const COUNTERS: &[&str] = &[
    "evaluations",      // inputs executed on the implementation
    "states",           // model states / productions visited, job specific
    "transitions",      // steps compared
    "traces",           // model traces replayed against the implementation
    "accepted",         // inputs both sides accept
    "rejected",         // inputs both sides reject
    "skipped",          // inputs outside the property's scope
    "events",           // events compared
    "nontrivial",       // job specific
    "aux0",
    "aux1",
    "aux2",
    "aux3",
];
pub const EVALS: usize = 0;
pub const STATES: usize = 1;
pub const TRANS: usize = 2;
pub const TRACES: usize = 3;
pub const ACCEPTED: usize = 4;
pub const REJECTED: usize = 5;
pub const SKIPPED: usize = 6;
pub const EVENTS: usize = 7;
pub const NONTRIVIAL: usize = 8;

impl Ctx {
    pub fn add(&self, c: usize, n: u64) {
        unsafe { (*self.counters.add(c)).fetch_add(n, Ordering::Relaxed) };
    }
    /// Note an observed outcome; the number of distinct ones is reported (a lower bound, since
    /// two outcomes may share a bit).
    pub fn outcome(&self, text: &str) {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for b in text.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let bit = (h >> 17) % OUTCOME_BITS;
        let w = unsafe { &*self.outcomes.add((bit / 64) as usize) };
        let m = 1u64 << (bit % 64);
        if w.load(Ordering::Relaxed) & m == 0 {
            w.fetch_or(m, Ordering::Relaxed);
        }
    }
    /// A context whose counters go nowhere (replay).
    pub fn detached() -> Ctx {
        let b: Box<[AtomicU64; NCOUNT]> = Box::new(std::array::from_fn(|_| AtomicU64::new(0)));
        let o: Vec<AtomicU64> = (0..OUTCOME_BITS / 64).map(|_| AtomicU64::new(0)).collect();
        Ctx { counters: Box::leak(b).as_ptr(), outcomes: o.leak().as_ptr() }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: String,
    pub index: u64,
    pub input: String,
    pub msg: String,
}

pub struct Outcomes(Shared);
impl Outcomes {
    pub fn new() -> Outcomes {
        Outcomes(Shared::new((OUTCOME_BITS / 8) as usize))
    }
    pub fn count(&self) -> u64 {
        (0..(OUTCOME_BITS / 64) as usize).map(|i| u64::from(self.0.at(i).load(Ordering::Relaxed).count_ones())).sum()
    }
}

pub struct Report {
    pub counters: BTreeMap<&'static str, u64>,
    pub violations: Vec<Violation>,
    pub capped: bool,
    pub jobs: Vec<(String, u64)>,
    pub outcomes: Outcomes,
}
impl Report {
    pub fn new() -> Report {
        Report {
            counters: BTreeMap::new(),
            violations: Vec::new(),
            capped: false,
            jobs: Vec::new(),
            outcomes: Outcomes::new(),
        }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}").replace('\n', " ");
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn guarded(job: &dyn Job, i: u64, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| job.run(i, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
    }
}

struct Shared {
    base: *mut u8,
    size: usize,
}
impl Shared {
    fn new(size: usize) -> Shared {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                size,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { base: p as *mut u8, size }
    }
    fn at(&self, slot: usize) -> &AtomicU64 {
        unsafe { &*(self.base as *const AtomicU64).add(slot) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut libc::c_void, self.size) };
    }
}

pub struct Opts {
    pub procs: usize,
    /// CPU seconds one index may take.
    pub hang_cpu_s: u64,
    pub mem_bytes: u64,
    /// Stop after this many violations in one job.
    pub max_violations: usize,
    /// Stop exploring at this moment; the report is then marked as capped.
    pub deadline: Option<Instant>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            procs: std::thread::available_parallelism().map_or(4, |n| n.get()).min(8),
            hang_cpu_s: 20,
            mem_bytes: 2 << 30,
            max_violations: 5,
            deadline: None,
        }
    }
}

fn cpu_ms(pid: i32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t * 10)
}

// layout: [0] next chunk, [1] stop flag, [2] violations, [8..8+NCOUNT] counters,
// then per worker 4 words: cur index + 1 (0 = idle), end of chunk, beat
const W0: usize = 8 + NCOUNT;

pub fn explore(job: &dyn Job, o: &Opts, rep: &mut Report) {
    let total = job.len();
    let procs = o.procs.min((total / 8 + 1) as usize).max(1);
    let sh = Shared::new(8 * (W0 + 4 * procs) + 4096);
    let chunk = job.chunk().min(total / (procs as u64 * 8) + 1).max(1);
    let mut viols: Vec<Violation> = Vec::new();
    let outcomes = rep.outcomes.0.at(0) as *const AtomicU64;

    struct Worker {
        pid: i32,
        out: std::fs::File,
        last_beat: u64,
        cpu_at_beat: u64,
    }
    let spawn = |w: usize, from: u64, to: u64| -> Worker {
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: o.mem_bytes, rlim_max: o.mem_bytes };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                // Silence the runtime's own abort messages.
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if null >= 0 && std::env::var_os("MC_STDERR").is_none() {
                    libc::dup2(null, 2);
                }
            }
            let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
            let mut ctx = Ctx { counters: sh.at(8) as *const AtomicU64, outcomes };
            let (mut a, mut b) = (from, to);
            loop {
                if a >= b {
                    if sh.at(1).load(Ordering::Relaxed) != 0 {
                        break;
                    }
                    let c = sh.at(0).fetch_add(1, Ordering::Relaxed);
                    a = c * chunk;
                    if a >= total {
                        break;
                    }
                    b = (a + chunk).min(total);
                    sh.at(W0 + 4 * w + 1).store(b, Ordering::Relaxed);
                }
                sh.at(W0 + 4 * w).store(a + 1, Ordering::Relaxed);
                sh.at(W0 + 4 * w + 2).fetch_add(1, Ordering::Relaxed);
                if let Err(m) = guarded(job, a, &mut ctx) {
                    let n = sh.at(2).fetch_add(1, Ordering::Relaxed);
                    if n as usize <= o.max_violations {
                        let m = m.as_bytes();
                        let m = &m[..m.len().min(4000)];
                        let mut rec = Vec::new();
                        rec.extend_from_slice(&a.to_le_bytes());
                        rec.extend_from_slice(&(m.len() as u64).to_le_bytes());
                        rec.extend_from_slice(m);
                        let _ = out.write_all(&rec);
                    }
                    if n as usize + 1 >= o.max_violations {
                        sh.at(1).store(1, Ordering::Relaxed);
                        break;
                    }
                }
                a += 1;
            }
            sh.at(W0 + 4 * w).store(0, Ordering::Relaxed);
            drop(out);
            unsafe { libc::_exit(0) };
        }
        unsafe {
            libc::close(fds[1]);
            // non-blocking read end, large pipe
            libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
            libc::fcntl(fds[0], libc::F_SETPIPE_SZ, 1 << 20);
        }
        Worker {
            pid,
            out: unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]) },
            last_beat: u64::MAX,
            cpu_at_beat: 0,
        }
    };
    let drain = |w: &mut Worker, buf: &mut Vec<u8>| {
        let mut t = [0u8; 65536];
        while let Ok(n) = w.out.read(&mut t) {
            if n == 0 {
                break;
            }
            buf.extend_from_slice(&t[..n]);
        }
    };
    let take = |buf: &mut Vec<u8>, viols: &mut Vec<Violation>| {
        let mut i = 0;
        while buf.len() >= i + 16 {
            let idx = u64::from_le_bytes(buf[i..i + 8].try_into().unwrap());
            let l = u64::from_le_bytes(buf[i + 8..i + 16].try_into().unwrap()) as usize;
            if buf.len() < i + 16 + l {
                break;
            }
            viols.push(Violation {
                job: job.name(),
                index: idx,
                input: job.input(idx),
                msg: String::from_utf8_lossy(&buf[i + 16..i + 16 + l]).into_owned(),
            });
            i += 16 + l;
        }
        buf.drain(..i);
    };

    let mut bufs: Vec<Vec<u8>> = vec![Vec::new(); procs];
    let mut workers: Vec<Option<Worker>> = (0..procs).map(|w| Some(spawn(w, 0, 0))).collect();
    let mut crashes = 0usize;
    let mut delay = 1u64;
    loop {
        let mut alive = 0;
        for w in 0..procs {
            let Some(wk) = workers[w].as_mut() else { continue };
            drain(wk, &mut bufs[w]);
            take(&mut bufs[w], &mut viols);
            let mut st = 0i32;
            let r = unsafe { libc::waitpid(wk.pid, &mut st, libc::WNOHANG) };
            let cur = sh.at(W0 + 4 * w).load(Ordering::Relaxed);
            let mut dead: Option<String> = None;
            if r == wk.pid {
                drain(wk, &mut bufs[w]);
                take(&mut bufs[w], &mut viols);
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                    workers[w] = None;
                    continue;
                }
                dead = Some(if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    let n = match s {
                        libc::SIGABRT => "abort (unsafe precondition violated, double panic or allocation failure)",
                        libc::SIGSEGV => "segmentation fault or stack overflow",
                        libc::SIGBUS => "bus error",
                        libc::SIGKILL => "killed",
                        _ => "signal",
                    };
                    format!("process died: signal {s}: {n}")
                } else {
                    format!("process died: status {st}")
                });
            } else {
                let beat = sh.at(W0 + 4 * w + 2).load(Ordering::Relaxed);
                if beat != wk.last_beat {
                    wk.last_beat = beat;
                    wk.cpu_at_beat = cpu_ms(wk.pid).unwrap_or(0);
                } else if cur != 0 {
                    let now = cpu_ms(wk.pid).unwrap_or(wk.cpu_at_beat);
                    if now.saturating_sub(wk.cpu_at_beat) > o.hang_cpu_s * 1000 {
                        unsafe {
                            libc::kill(wk.pid, libc::SIGKILL);
                            libc::waitpid(wk.pid, &mut st, 0);
                        }
                        dead = Some(format!("hang: no result within {} s of CPU time", o.hang_cpu_s));
                    }
                }
            }
            if let Some(msg) = dead {
                crashes += 1;
                if cur != 0 {
                    viols.push(Violation { job: job.name(), index: cur - 1, input: job.input(cur - 1), msg });
                    sh.at(2).fetch_add(1, Ordering::Relaxed);
                }
                if crashes >= o.max_violations || viols.len() >= o.max_violations {
                    sh.at(1).store(1, Ordering::Relaxed);
                    workers[w] = None;
                } else {
                    let end = sh.at(W0 + 4 * w + 1).load(Ordering::Relaxed);
                    workers[w] = Some(spawn(w, cur, end.max(cur)));
                    alive += 1;
                }
                continue;
            }
            alive += 1;
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(delay));
        delay = (delay * 2).min(20);
        if o.deadline.is_some_and(|d| Instant::now() > d) {
            sh.at(1).store(1, Ordering::Relaxed);
        }
        if sh.at(1).load(Ordering::Relaxed) != 0 {
            // Enough violations: give running indices a moment, then stop.
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(300) {
                std::thread::sleep(Duration::from_millis(10));
            }
            for w in 0..procs {
                if let Some(wk) = workers[w].as_mut() {
                    drain(wk, &mut bufs[w]);
                    take(&mut bufs[w], &mut viols);
                    let mut st = 0i32;
                    unsafe {
                        libc::kill(wk.pid, libc::SIGKILL);
                        libc::waitpid(wk.pid, &mut st, 0);
                    }
                    drain(wk, &mut bufs[w]);
                    take(&mut bufs[w], &mut viols);
                    workers[w] = None;
                }
            }
            rep.capped = true;
            break;
        }
    }
    for (i, n) in COUNTERS.iter().enumerate() {
        *rep.counters.entry(n).or_default() += sh.at(8 + i).load(Ordering::Relaxed);
    }
    viols.sort_by_key(|v| v.index);
    rep.jobs.push((job.name(), total));
    rep.violations.extend(viols);
}
