//! The controlled scheduler.

use crate::FnContext;
use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

/// What the oracle is asked.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ask {
    /// Is the second closure of this join stolen (1) or run by the joining thread (0)?
    Steal,
    /// Which enabled worker continues (0 = the one that was running, if still enabled)?
    Switch,
    /// Some other scheduling decision.
    Other,
}

type Oracle = dyn FnMut(Ask, usize) -> usize + Send;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Idle,
    Runnable,
    /// Waits for the task with this number.
    Waiting(u64),
}

struct Task(Box<dyn FnOnce() + Send>);

struct State {
    oracle: &'static mut Oracle,
    running: usize,
    status: Vec<Status>,
    inbox: Vec<Option<(u64, Task)>>,
    next_task: u64,
    done: Vec<u64>,
    preemptions_left: usize,
    in_task: usize,
    shutdown: bool,
    stuck: bool,
    steals: u64,
    switches: u64,
}

struct Ctl {
    n: usize,
    state: Mutex<State>,
    cv: Vec<Condvar>,
    handles: Mutex<Vec<std::thread::JoinHandle<()>>>,
}

thread_local! {
    static CTL: RefCell<Option<(Arc<Ctl>, usize)>> = const { RefCell::new(None) };
}

pub fn controlled() -> bool {
    CTL.with(|c| c.borrow().is_some())
}
pub fn num_threads() -> Option<usize> {
    CTL.with(|c| c.borrow().as_ref().map(|(c, _)| c.n))
}
pub fn thread_index() -> Option<usize> {
    CTL.with(|c| c.borrow().as_ref().map(|(_, i)| *i))
}
fn ctl() -> Option<(Arc<Ctl>, usize)> {
    CTL.with(|c| c.borrow().clone())
}

fn lock(c: &Ctl) -> MutexGuard<'_, State> {
    c.state.lock().unwrap_or_else(|e| e.into_inner())
}

/// Asks the oracle for a decision among `n` alternatives.
pub fn decide(n: usize) -> usize {
    let (c, _) = ctl().expect("decide outside a controlled run");
    let mut s = lock(&c);
    if n <= 1 {
        0
    } else {
        (s.oracle)(Ask::Other, n)
    }
}

/// Picks who runs next; `me` gives up the baton unless chosen. Returns once `me` is running again.
fn schedule(c: &Ctl, mut s: MutexGuard<'_, State>, me: usize) {
    let me_enabled = s.status[me] == Status::Runnable;
    let mut enabled: Vec<usize> = Vec::new();
    if me_enabled {
        enabled.push(me);
    }
    for i in 0..c.n {
        if i != me && s.status[i] == Status::Runnable {
            enabled.push(i);
        }
    }
    if enabled.is_empty() {
        s.stuck = true;
        s.shutdown = true;
        for cv in &c.cv {
            cv.notify_all();
        }
        drop(s);
        panic!("mc: deadlock, no enabled worker");
    }
    let next = if enabled.len() == 1 {
        enabled[0]
    } else if me_enabled && s.preemptions_left == 0 {
        me
    } else {
        let k = (s.oracle)(Ask::Switch, enabled.len());
        if me_enabled && k != 0 {
            s.preemptions_left -= 1;
        }
        enabled[k]
    };
    if next == me {
        return;
    }
    s.switches += 1;
    s.running = next;
    c.cv[next].notify_all();
    wait_for_baton(c, s, me);
}

fn wait_for_baton(c: &Ctl, mut s: MutexGuard<'_, State>, me: usize) {
    while s.running != me && !s.shutdown {
        let (g, t) = c.cv[me]
            .wait_timeout(s, Duration::from_secs(120))
            .unwrap_or_else(|e| e.into_inner());
        s = g;
        if t.timed_out() && s.running != me {
            s.stuck = true;
            s.shutdown = true;
            for cv in &c.cv {
                cv.notify_all();
            }
            drop(s);
            panic!("mc: no progress for 120 s, the running worker is blocked");
        }
    }
}

/// A scheduling point; does nothing outside controlled runs.
pub fn point() {
    if let Some((c, me)) = ctl() {
        let s = lock(&c);
        if s.running == me {
            schedule(&c, s, me);
        }
    }
}

fn worker(c: Arc<Ctl>, me: usize) {
    CTL.with(|x| *x.borrow_mut() = Some((c.clone(), me)));
    loop {
        let mut s = lock(&c);
        while !(s.running == me && s.inbox[me].is_some()) {
            if s.shutdown {
                return;
            }
            s = c.cv[me]
                .wait_timeout(s, Duration::from_secs(150))
                .unwrap_or_else(|e| e.into_inner())
                .0;
        }
        let (id, task) = s.inbox[me].take().unwrap();
        drop(s);
        (task.0)(); // never unwinds: the closure catches
        let mut s = lock(&c);
        s.done.push(id);
        for i in 0..c.n {
            if s.status[i] == Status::Waiting(id) {
                s.status[i] = Status::Runnable;
            }
        }
        s.status[me] = Status::Idle;
        // pass the baton on; somebody is always enabled here (the joiner at least)
        let enabled: Vec<usize> = (0..c.n).filter(|&i| s.status[i] == Status::Runnable).collect();
        if enabled.is_empty() {
            s.stuck = true;
            s.shutdown = true;
            for cv in &c.cv {
                cv.notify_all();
            }
            return;
        }
        let next = if enabled.len() == 1 {
            enabled[0]
        } else {
            let k = (s.oracle)(Ask::Switch, enabled.len());
            enabled[k]
        };
        s.switches += 1;
        s.running = next;
        c.cv[next].notify_all();
        drop(s);
    }
}

pub(crate) fn join_controlled<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (c, me) = ctl().unwrap();
    let mut s = lock(&c);
    let idle = (0..c.n).find(|&i| s.status[i] == Status::Idle && s.inbox[i].is_none());
    let stolen_by = match idle {
        Some(w) => {
            if (s.oracle)(Ask::Steal, 2) == 1 {
                Some(w)
            } else {
                None
            }
        }
        None => None,
    };
    let Some(w) = stolen_by else {
        drop(s);
        let ra = oper_a(FnContext::new(false));
        let rb = oper_b(FnContext::new(false));
        return (ra, rb);
    };
    s.steals += 1;
    let id = s.next_task;
    s.next_task += 1;
    let mut slot: Option<std::thread::Result<RB>> = None;
    {
        let slot_ptr = SendPtr(&mut slot as *mut _);
        let job = move || {
            let slot_ptr = slot_ptr;
            let r = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(true))));
            // SAFETY: the joiner waits for this task before `slot` goes out of scope.
            unsafe { *slot_ptr.get() = Some(r) };
        };
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(job);
        // SAFETY: the joiner does not return (or unwind) before the task has finished.
        let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
        s.inbox[w] = Some((id, Task(job)));
    }
    s.status[w] = Status::Runnable;
    {
        let mut h = c.handles.lock().unwrap();
        while h.len() < w {
            let c2 = c.clone();
            let i = h.len() + 1;
            h.push(
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || worker(c2, i))
                    .expect("spawn worker"),
            );
        }
    }
    schedule(&c, s, me); // the thief may run first
    let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
    let mut s = lock(&c);
    if !s.done.contains(&id) {
        s.status[me] = Status::Waiting(id);
        schedule(&c, s, me);
        let s2 = lock(&c);
        if s2.stuck {
            drop(s2);
            // memory may still be referenced by the blocked worker: give up on this process
            eprintln!("mc: blocked schedule");
            std::process::abort();
        }
    } else {
        // both are done; a scheduling point all the same
        schedule(&c, s, me);
    }
    match (ra, slot.take()) {
        (Ok(ra), Some(Ok(rb))) => (ra, rb),
        (Err(p), _) => resume_unwind(p),
        (_, Some(Err(p))) => resume_unwind(p),
        (_, None) => unreachable!("stolen task did not run"),
    }
}

struct SendPtr<T>(*mut T);
impl<T> SendPtr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}
unsafe impl<T> Send for SendPtr<T> {}

#[derive(Debug, Clone, Copy, Default)]
pub struct Stats {
    pub steals: u64,
    pub switches: u64,
}

/// Runs `f` on a fresh OS thread as worker 0 of `n` workers with at most `preemptions`
/// preemptions; `oracle` makes every scheduling decision.
pub fn run_controlled<R: Send>(
    n: usize,
    preemptions: usize,
    oracle: &mut (dyn FnMut(Ask, usize) -> usize + Send),
    f: impl FnOnce() -> R + Send,
) -> (Result<R, Box<dyn Any + Send>>, Stats) {
    assert!(n >= 1);
    // SAFETY: all threads that can reach the oracle are joined before this function returns.
    let oracle: &'static mut Oracle = unsafe {
        std::mem::transmute::<&mut Oracle, &'static mut Oracle>(std::mem::transmute::<
            &mut (dyn FnMut(Ask, usize) -> usize + Send),
            &mut Oracle,
        >(oracle))
    };
    let mut status = vec![Status::Idle; n];
    status[0] = Status::Runnable;
    let c = Arc::new(Ctl {
        n,
        state: Mutex::new(State {
            oracle,
            running: 0,
            status,
            inbox: (0..n).map(|_| None).collect(),
            next_task: 1,
            done: Vec::new(),
            preemptions_left: preemptions,
            in_task: 0,
            shutdown: false,
            stuck: false,
            steals: 0,
            switches: 0,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        handles: Mutex::new(Vec::new()),
    });
    let c0 = c.clone();
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(sc, move || {
                CTL.with(|x| *x.borrow_mut() = Some((c0.clone(), 0)));
                let r = catch_unwind(AssertUnwindSafe(f));
                CTL.with(|x| *x.borrow_mut() = None);
                r
            })
            .expect("spawn")
            .join()
            .unwrap()
    });
    let stats = {
        let mut s = lock(&c);
        s.shutdown = true;
        let _ = s.in_task;
        for cv in &c.cv {
            cv.notify_all();
        }
        Stats { steals: s.steals, switches: s.switches }
    };
    for h in std::mem::take(&mut *c.handles.lock().unwrap()) {
        let _ = h.join();
    }
    (r, stats)
}
