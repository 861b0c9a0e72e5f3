//! Bounded exhaustive explorer: see DESIGN.md.

pub mod api;
pub mod builds;
pub mod dense;
pub mod images;
mod supervise;
pub mod types;
pub use images::*;
pub use types::*;

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub const MAX_CHOICES: usize = 4000;
pub const MAX_SLOTS: usize = 16;

/// Per-thread breadcrumb in memory shared with the supervising parent.
#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64,
    pub tid: AtomicU32,
    pub active: AtomicU32,
    pub section: AtomicU32,
    pub len: AtomicU32,
    pub choices: [AtomicU32; MAX_CHOICES],
}

#[repr(C)]
pub struct Shm {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub slots: [Slot; MAX_SLOTS],
}

/// A failed expectation. `key` names a known-finding class computed from the failing case.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: Option<String>,
    pub msg: String,
}
pub type R = Result<(), Fail>;

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: None, msg: msg.to_string() }
    }
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Fail::from(format!($($a)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { $crate::fail!($($a)*) } };
}
/// A failure that belongs to the known-finding class `$k` (if that class is listed).
#[macro_export]
macro_rules! known {
    ($k:expr, $($a:tt)*) => { return Err($crate::Fail { key: Some($k.to_string()), msg: format!($($a)*) }) };
}

#[derive(Clone, Copy, Debug)]
struct Node {
    c: u32,
    n: u32,
    limit: u32,
}

/// The source of all nondeterminism of a harness body.
pub struct Ch {
    stack: Vec<Node>,
    pos: usize,
    slot: *const Slot,
    pub thorough: bool,
    verbose: bool,
    tolerant: bool,
    diverged: bool,
    log: Vec<String>,
    ops: u64,
    extra_states: u64,
    extra_traces: u64,
    outcomes: *const AtomicU64,
    rejected: bool,
}
// SAFETY: the pointers refer to process-lifetime shared atomics.
unsafe impl Send for Ch {}

struct Diverged;

impl Ch {
    /// A decision with `n` alternatives, 0..n.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        let n = n as u32;
        assert!(n > 0, "choice without alternatives");
        let c = if self.pos < self.stack.len() {
            let nd = &mut self.stack[self.pos];
            if nd.n != n {
                if self.tolerant {
                    nd.n = n;
                    nd.c = nd.c.min(n - 1);
                    nd.limit = nd.c + 1;
                } else {
                    self.diverged = true;
                    std::panic::panic_any(Diverged);
                }
            }
            nd.c
        } else {
            self.stack.push(Node { c: 0, n, limit: n });
            0
        };
        if self.pos < MAX_CHOICES {
            let s = unsafe { &*self.slot };
            s.choices[self.pos].store(c, Relaxed);
            s.len.store(self.pos as u32 + 1, Relaxed);
        }
        self.pos += 1;
        c as usize
    }
    #[inline]
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// An integer in lo..=hi.
    #[inline]
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.choose((hi - lo + 1) as usize) as i64
    }
    #[inline]
    pub fn u(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.choose((hi - lo + 1) as usize) as u32
    }
    #[inline]
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len())].clone()
    }
    /// Records an application of an implementation operation.
    #[inline]
    pub fn op(&mut self) {
        self.ops += 1;
    }
    #[inline]
    pub fn ops(&mut self, n: u64) {
        self.ops += n;
    }
    /// States visited by an exploration nested in the body (e.g. a breadth-first search).
    pub fn add_states(&mut self, n: u64) {
        self.extra_states += n;
    }
    pub fn add_traces(&mut self, n: u64) {
        self.extra_traces += n;
    }
    /// Describes the case (only evaluated when replaying).
    #[inline]
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    /// This combination of choices is outside the space: not counted as an execution.
    pub fn reject(&mut self) -> R {
        self.rejected = true;
        Ok(())
    }
    /// Registers an observed result, for the count of distinct outcomes.
    #[inline]
    pub fn observe(&mut self, h: u64) {
        let h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let h = h ^ (h >> 29);
        let idx = (h >> 8) as usize % (OUTCOME_WORDS * 64);
        let w = unsafe { &*self.outcomes.add(idx / 64) };
        let bit = 1u64 << (idx % 64);
        if w.load(Relaxed) & bit == 0 {
            w.fetch_or(bit, Relaxed);
        }
    }
    pub fn observe_bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
        for &x in b {
            h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.observe(h);
    }
    pub fn replaying(&self) -> bool {
        self.verbose
    }
}

const OUTCOME_WORDS: usize = 1 << 14; // 2^20 bits

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}

fn payload_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no message)".to_string()
    }
}

/// Runs `f`, turning a panic into its message.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Diverged>() {
                std::panic::resume_unwind(p);
            }
            let loc = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
            Err(format!("{} {}", payload_msg(&*p), loc))
        }
    }
}

pub type Body<'a> = dyn Fn(&mut Ch) -> R + Sync + 'a;

#[derive(Default, Clone)]
struct SectionStats {
    name: String,
    bounds: String,
    executions: u64,
    states: u64,
    transitions: u64,
    outcomes: u64,
    complete: bool,
    wall: f64,
    max_depth: u64,
}

struct Violation {
    section: String,
    section_idx: u32,
    choices: Vec<u32>,
    msg: String,
    log: Vec<String>,
}

pub enum Mode {
    Explore,
    Replay { section: Option<String>, section_idx: Option<u32>, choices: Vec<u32> },
}

pub struct Runner {
    pub property: String,
    pub thorough: bool,
    threads: usize,
    mode: Mode,
    shm: &'static Shm,
    idx: u32,
    stats: Vec<SectionStats>,
    samples: Vec<String>,
    known: BTreeMap<String, String>,
    known_seen: BTreeMap<String, (u64, String)>,
    violations: Vec<Violation>,
    engine_error: Option<String>,
    deadline: Instant,
    start: Instant,
    only: Option<String>,
    replayed: bool,
}

struct Shared {
    queue: Mutex<Vec<Vec<Node>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    states: AtomicU64,
    transitions: AtomicU64,
    execs: AtomicU64,
    max_depth: AtomicU64,
    first: Mutex<Vec<Vec<u32>>>,
    viol: Mutex<Vec<(Vec<u32>, Fail)>>,
    known_seen: Mutex<BTreeMap<String, (u64, Vec<u32>)>>,
    error: Mutex<Option<String>>,
    outcomes: Vec<AtomicU64>,
}

impl Runner {
    fn run_once(&self, ch: &mut Ch, body: &Body) -> Result<R, String> {
        // Ok(result) or Err(engine error)
        let r = catch_unwind(AssertUnwindSafe(|| body(ch)));
        match r {
            Ok(r) => {
                if ch.pos < ch.stack.len() && !ch.tolerant {
                    return Err("the replay of a prefix made fewer choices than recorded".into());
                }
                Ok(r)
            }
            Err(p) => {
                if ch.diverged || p.is::<Diverged>() {
                    return Err("the replay of a prefix diverged".into());
                }
                let loc = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
                Ok(Err(Fail::from(format!("panicked: {} {}", payload_msg(&*p), loc))))
            }
        }
    }

    fn new_ch(&self, slot: usize, outcomes: *const AtomicU64) -> Ch {
        Ch {
            stack: Vec::with_capacity(64),
            pos: 0,
            slot: &self.shm.slots[slot],
            thorough: self.thorough,
            verbose: false,
            tolerant: false,
            diverged: false,
            log: Vec::new(),
            ops: 0,
            extra_states: 0,
            extra_traces: 0,
            outcomes,
            rejected: false,
        }
    }

    /// Replays one choice vector verbosely; missing choices are 0.
    fn replay(&self, choices: &[u32], body: &Body, verbose: bool) -> (Result<R, String>, Vec<u32>, Vec<String>) {
        let out: Vec<AtomicU64> = (0..OUTCOME_WORDS).map(|_| AtomicU64::new(0)).collect();
        let slot = MAX_SLOTS - 1;
        let mut ch = self.new_ch(slot, out.as_ptr());
        ch.verbose = verbose;
        ch.tolerant = true;
        ch.stack = choices.iter().map(|&c| Node { c, n: u32::MAX, limit: c + 1 }).collect();
        let s = &self.shm.slots[slot];
        s.tid.store(unsafe { libc::gettid() } as u32, Relaxed);
        s.section.store(self.idx, Relaxed);
        s.len.store(0, Relaxed);
        s.active.store(1, Relaxed);
        s.seq.fetch_add(1, Relaxed);
        let r = self.run_once(&mut ch, body);
        s.active.store(0, Relaxed);
        let used: Vec<u32> = ch.stack.iter().take(ch.pos).map(|n| n.c).collect();
        (r, used, ch.log)
    }

    /// Explores a harness body completely.
    pub fn section(&mut self, name: &str, bounds: &str, body: impl Fn(&mut Ch) -> R + Sync) {
        let idx = self.idx;
        self.section_inner(name, bounds, &body);
        self.idx = idx + 1;
    }

    fn section_inner(&mut self, name: &str, bounds: &str, body: &Body) {
        if let Mode::Replay { section, section_idx, choices } = &self.mode {
            let hit = section.as_deref() == Some(name) || *section_idx == Some(self.idx);
            if hit {
                let choices = choices.clone();
                let (r, used, log) = self.replay(&choices, body, true);
                self.replayed = true;
                println!("section {name}  choices {used:?}");
                for l in log {
                    println!("  {l}");
                }
                match r {
                    Ok(Ok(())) => println!("replay: property holds on this case"),
                    Ok(Err(f)) => {
                        println!("replay: {}{}", f.key.clone().map(|k| format!("[{k}] ")).unwrap_or_default(), f.msg);
                        self.violations.push(Violation {
                            section: name.into(),
                            section_idx: self.idx,
                            choices: used,
                            msg: f.msg,
                            log: vec![],
                        });
                    }
                    Err(e) => self.engine_error = Some(e),
                }
            }
            return;
        }
        if !self.violations.is_empty() || self.engine_error.is_some() {
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        let sh = Shared {
            queue: Mutex::new(vec![Vec::new()]),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            states: AtomicU64::new(1),
            transitions: AtomicU64::new(0),
            execs: AtomicU64::new(0),
            max_depth: AtomicU64::new(0),
            first: Mutex::new(Vec::new()),
            viol: Mutex::new(Vec::new()),
            known_seen: Mutex::new(BTreeMap::new()),
            error: Mutex::new(None),
            outcomes: (0..OUTCOME_WORDS).map(|_| AtomicU64::new(0)).collect(),
        };
        let this: &Runner = self;
        std::thread::scope(|sc| {
            for t in 0..this.threads {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || this.work(t, sh, body))
                    .unwrap();
            }
        });
        let st = SectionStats {
            name: name.into(),
            bounds: bounds.into(),
            executions: sh.execs.load(Relaxed),
            states: sh.states.load(Relaxed),
            transitions: sh.transitions.load(Relaxed),
            outcomes: sh.outcomes.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum(),
            complete: !sh.capped.load(Relaxed),
            wall: t0.elapsed().as_secs_f64(),
            max_depth: sh.max_depth.load(Relaxed),
        };
        println!(
            "section {:<34} {:>10} executions {:>11} states {:>11} transitions {:>8} outcomes  depth<={:<3} {:.1}s{}",
            st.name,
            st.executions,
            st.states,
            st.transitions,
            st.outcomes,
            st.max_depth,
            st.wall,
            if st.complete { "" } else { "  CAPPED" }
        );
        self.shm.states.fetch_add(st.states, Relaxed);
        self.shm.transitions.fetch_add(st.transitions, Relaxed);
        self.shm.traces.fetch_add(st.executions, Relaxed);
        self.stats.push(st);
        if let Some(e) = sh.error.into_inner().unwrap() {
            self.engine_error = Some(format!("section {name}: {e}"));
            return;
        }
        for c in sh.first.into_inner().unwrap() {
            let (_, _, log) = self.replay(&c, body, true);
            let mut s = format!("{name}: choices {:?}", &c[..c.len().min(60)]);
            for l in log {
                s.push_str(" | ");
                s.push_str(&l);
            }
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            self.samples.push(s);
        }
        for (k, (n, c)) in sh.known_seen.into_inner().unwrap() {
            let e = self.known_seen.entry(k).or_insert((0, format!("{name} {c:?}")));
            e.0 += n;
        }
        let mut v = sh.viol.into_inner().unwrap();
        v.sort_by_key(|(c, _)| (c.len(), c.clone()));
        if let Some((choices, _f)) = v.into_iter().next() {
            // shrink greedily: lower single choices while the failure stays unlisted
            let shrink_until = Instant::now() + Duration::from_secs(5);
            let mut best = choices;
            let fails = |c: &[u32]| -> Option<(Vec<u32>, Fail)> {
                match self.replay(c, body, false) {
                    (Ok(Err(f)), used, _) => {
                        let listed = f.key.as_ref().map(|k| self.known.contains_key(k)).unwrap_or(false);
                        (!listed).then_some((used, f))
                    }
                    _ => None,
                }
            };
            'outer: loop {
                for i in 0..best.len() {
                    for c in 0..best[i] {
                        if Instant::now() > shrink_until {
                            break 'outer;
                        }
                        let mut t = best.clone();
                        t[i] = c;
                        if let Some((u, _)) = fails(&t) {
                            if (u.len(), &u) < (best.len(), &best) {
                                best = u;
                                continue 'outer;
                            }
                        }
                    }
                }
                break;
            }
            let (r1, used, log) = self.replay(&best, body, true);
            let (r2, _, _) = self.replay(&best, body, true);
            let msg = |r: &Result<R, String>| match r {
                Ok(Err(f)) => f.msg.clone(),
                Ok(Ok(())) => "held".into(),
                Err(e) => format!("engine: {e}"),
            };
            let (m1, m2) = (msg(&r1), msg(&r2));
            let m = if m1 == m2 { m1 } else { format!("{m1}\n(second replay of the same case: {m2})") };
            self.violations.push(Violation { section: name.into(), section_idx: self.idx, choices: used, msg: m, log });
        }
    }

    fn work(&self, t: usize, sh: &Shared, body: &Body) {
        let slot = &self.shm.slots[t];
        slot.tid.store(unsafe { libc::gettid() } as u32, Relaxed);
        slot.section.store(self.idx, Relaxed);
        let mut ch = self.new_ch(t, sh.outcomes.as_ptr());
        let mut leaves = 0u64;
        loop {
            // get a job
            let job = {
                let mut q = sh.queue.lock().unwrap();
                loop {
                    if sh.stop.load(Relaxed) {
                        q.clear();
                        sh.cv.notify_all();
                        return;
                    }
                    if let Some(j) = q.pop() {
                        break j;
                    }
                    let idle = sh.idle.fetch_add(1, SeqCst) + 1;
                    if idle == self.threads {
                        sh.cv.notify_all();
                        // leave idle count at threads: everybody exits
                        return;
                    }
                    q = sh.cv.wait(q).unwrap();
                    if q.is_empty() && sh.idle.load(SeqCst) == self.threads {
                        return;
                    }
                    sh.idle.fetch_sub(1, SeqCst);
                }
            };
            let floor = job.len();
            ch.stack = job;
            let mut fresh_from = floor; // nodes from here on are newly visited
            let mut local_states = 0u64;
            let mut local_ops = 0u64;
            let mut local_execs = 0u64;
            loop {
                ch.pos = 0;
                ch.ops = 0;
                ch.extra_states = 0;
                ch.extra_traces = 0;
                ch.rejected = false;
                slot.len.store(0, Relaxed);
                slot.active.store(1, Relaxed);
                slot.seq.fetch_add(1, Relaxed);
                let r = self.run_once(&mut ch, body);
                slot.active.store(0, Relaxed);
                local_states += (ch.stack.len() - fresh_from.min(ch.stack.len())) as u64 + ch.extra_states;
                local_ops += ch.ops;
                if !ch.rejected {
                    local_execs += 1 + ch.extra_traces;
                    leaves += 1;
                    sh.max_depth.fetch_max(ch.stack.len() as u64, Relaxed);
                }
                match r {
                    Ok(Ok(())) => {
                        if !ch.rejected && (leaves == 1 || leaves == 500) && t == 0 {
                            let mut f = sh.first.lock().unwrap();
                            if f.len() < 2 {
                                f.push(ch.stack.iter().map(|n| n.c).collect());
                            }
                        }
                    }
                    Ok(Err(f)) => {
                        let cs: Vec<u32> = ch.stack.iter().map(|n| n.c).collect();
                        let listed = f.key.as_ref().map(|k| self.known.contains_key(k)).unwrap_or(false);
                        if listed {
                            let mut ks = sh.known_seen.lock().unwrap();
                            let e = ks.entry(f.key.clone().unwrap()).or_insert((0, cs));
                            e.0 += 1;
                        } else {
                            sh.viol.lock().unwrap().push((cs, f));
                            sh.stop.store(true, SeqCst);
                        }
                    }
                    Err(e) => {
                        *sh.error.lock().unwrap() = Some(format!("{e}; choices {:?}", ch.stack.iter().map(|n| n.c).collect::<Vec<_>>()));
                        sh.stop.store(true, SeqCst);
                    }
                }
                if sh.stop.load(Relaxed) {
                    break;
                }
                if local_execs & 63 == 0 && Instant::now() > self.deadline {
                    sh.capped.store(true, Relaxed);
                    sh.stop.store(true, SeqCst);
                    break;
                }
                // share work
                if sh.idle.load(Relaxed) > 0 {
                    if let Some(i) = (floor..ch.stack.len()).find(|&i| ch.stack[i].c + 1 < ch.stack[i].limit) {
                        let nd = ch.stack[i];
                        let from = nd.c + 1 + (nd.limit - nd.c - 1) / 2;
                        let mut q = sh.queue.lock().unwrap();
                        for c in (from..nd.limit).rev() {
                            let mut p: Vec<Node> = ch.stack[..i].to_vec();
                            p.push(Node { c, n: nd.n, limit: c + 1 });
                            q.push(p);
                        }
                        drop(q);
                        // the donated children themselves are counted here
                        local_states += (nd.limit - from) as u64;
                        ch.stack[i].limit = from;
                        sh.cv.notify_all();
                    }
                }
                // backtrack
                while ch.stack.len() > floor {
                    let l = ch.stack.last().unwrap();
                    if l.c + 1 >= l.limit {
                        ch.stack.pop();
                    } else {
                        break;
                    }
                }
                if ch.stack.len() <= floor {
                    break;
                }
                ch.stack.last_mut().unwrap().c += 1;
                fresh_from = ch.stack.len() - 1;
            }
            sh.states.fetch_add(local_states, Relaxed);
            sh.transitions.fetch_add(local_ops, Relaxed);
            sh.execs.fetch_add(local_execs, Relaxed);
        }
    }

    fn finish(mut self) -> i32 {
        if let Mode::Replay { .. } = self.mode {
            if let Some(e) = &self.engine_error {
                println!("ENGINE ERROR: {e}");
                return 2;
            }
            if !self.replayed {
                println!("no such section");
                return 2;
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        for (k, (n, at)) in &self.known_seen {
            println!(
                "KNOWN-FINDING: property={} [{}] {} ({} cases of this run, e.g. {})",
                self.property, k, self.known[k], n, at
            );
        }
        let mut code = 0;
        let mut vtext = Vec::new();
        for v in std::mem::take(&mut self.violations) {
            let path = supervise::write_replay(&self.property, &v.section, v.section_idx, &v.choices, &v.msg, &v.log);
            println!("{}: {}", v.section, v.msg);
            for l in &v.log {
                println!("  {l}");
            }
            println!("VIOLATION property={} replay={}", self.property, path);
            vtext.push(v.msg);
            code = 1;
        }
        if let Some(e) = &self.engine_error {
            println!("ENGINE ERROR: {e}");
            if code == 0 {
                code = 2;
            }
        }
        let known: u64 = self.known_seen.values().map(|v| v.0).sum();
        self.write_evidence(vtext.len(), known);
        code
    }

    fn write_evidence(&self, violations: usize, known_cases: u64) {
        let mut secs = String::new();
        for (i, s) in self.stats.iter().enumerate() {
            if i > 0 {
                secs.push(',');
            }
            secs.push_str(&format!(
                "{{\"section\":{},\"bounds\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"distinct_outcomes_at_least\":{},\"max_depth\":{},\"complete\":{},\"wall_s\":{:.2}}}",
                supervise::js(&s.name), supervise::js(&s.bounds), s.executions, s.states, s.transitions, s.outcomes, s.max_depth, s.complete, s.wall
            ));
        }
        let samples: Vec<String> = self.samples.iter().take(12).map(|s| supervise::js(s)).collect();
        let tot = |f: fn(&SectionStats) -> u64| self.stats.iter().map(f).sum::<u64>();
        let cov = format!(
            "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"known_finding_cases\":{},\"sections\":[{}],\"samples\":[{}]}}",
            tot(|s| s.states),
            tot(|s| s.transitions),
            tot(|s| s.executions),
            self.stats.iter().all(|s| s.complete) && violations == 0 && self.engine_error.is_none(),
            known_cases,
            secs,
            samples.join(",")
        );
        supervise::write_evidence(&self.property, self.thorough, &cov, self.start.elapsed().as_secs_f64(), violations);
    }
}

/// Entry point of every check binary.
pub fn run(property: &str, f: impl FnOnce(&mut Runner)) -> ! {
    supervise::entry(property, f)
}

#[doc(hidden)]
pub fn child_main(property: &str, shm: &'static Shm, mode: Mode, f: impl FnOnce(&mut Runner)) -> i32 {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc);
    }));
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let secs: u64 = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 4 * 3600 } else { 600 });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 8);
    let mut r = Runner {
        property: property.to_string(),
        thorough,
        threads,
        mode,
        shm,
        idx: 0,
        stats: Vec::new(),
        samples: Vec::new(),
        known: supervise::load_known(property),
        known_seen: BTreeMap::new(),
        violations: Vec::new(),
        engine_error: None,
        deadline: Instant::now() + Duration::from_secs(secs),
        start: Instant::now(),
        only: std::env::var("MC_ONLY").ok(),
        replayed: false,
    };
    f(&mut r);
    r.finish()
}
