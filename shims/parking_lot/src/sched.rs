//! Deterministic scheduler. The threads given to [`run`] run one at a time; which one goes on is decided
//! at each scheduling point (before and after each lock operation, and wherever [`point`] is called) by a
//! [`Plan`], so that the interleaving is a pure function of the plan and of the code. When no thread can
//! go on the run is reported as a deadlock and the threads are unwound.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub enum Plan {
    /// a thread runs until it blocks or ends, except at the given steps, where the given one is preferred
    Preempt(Vec<(u32, u8)>),
    /// at each point switch with probability p/256, or nested/256 where a thread holding a lock asks for another one
    Random { seed: u64, p: u8, nested: u8 },
    /// random priorities, lowered at d random points of the first `span` steps
    Priority { seed: u64, d: u8, span: u32 },
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub switches: u64,
    /// threads that had to wait for a lock
    pub waits: u64,
    pub deadlock: Option<String>,
    pub panics: Vec<(usize, String)>,
    /// the step limit was reached: nothing can be said
    pub overrun: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    /// has the token, but waits for something that is not driven (a lock of the standard library held by a
    /// thread that has not the token): goes on by itself, and waits for the token at its next scheduling point
    Stalled,
    Done,
}
enum Policy {
    Preempt(BTreeMap<u32, u8>),
    Random { p: u8, nested: u8 },
    Priority { prio: Vec<i64>, at: Vec<u32>, low: i64 },
}
struct Inner {
    running: usize,
    status: Vec<Status>,
    what: Vec<&'static str>,
    policy: Policy,
    rng: u64,
    since: u64,
    nested: bool,
    abort: bool,
    done: usize,
    tid: Vec<i32>,
    rep: Report,
}
struct Sched {
    m: Mutex<Inner>,
    ended: Condvar,
    cvs: Vec<Condvar>,
}
struct Abort;

thread_local! {
    /// locks held by the thread
    pub(crate) static HELD: Cell<i32> = const { Cell::new(0) };
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
/// a thread not reaching a scheduling point for so long, with nothing else going on, may wait for another one
const STALL: Duration = Duration::from_millis(400);
/// looked at more often once such waits were seen
static STALLS: AtomicU32 = AtomicU32::new(0);
/// called when the threads wait for each other and cannot be unwound; should end the process
pub static STUCK: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();
const STALL_AGAIN: Duration = Duration::from_micros(200);
extern "C" {
    fn gettid() -> i32;
}
const MAX_STEPS: u64 = 3_000_000;
/// a thread going on for so long lets another one go on (a thread waiting for others without blocking)
const FAIR: u64 = 4_000;

fn rnd(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Inner {
    fn next(&mut self, me: usize) -> Option<usize> {
        let ready: Vec<usize> = (0..self.status.len()).filter(|i| self.status[*i] == Status::Ready).collect();
        if ready.is_empty() {
            return self.status.iter().position(|s| *s == Status::Stalled);
        }
        let here = self.status[me] == Status::Ready;
        let step = self.rep.steps as u32;
        // the ready thread following me
        let after = *ready.iter().find(|i| **i > me).unwrap_or(&ready[0]);
        if here && self.since > FAIR {
            self.since = 0;
            return Some(after);
        }
        let (policy, rng) = (&mut self.policy, &mut self.rng);
        Some(match policy {
            Policy::Preempt(m) => match m.get(&step) {
                Some(x) => ready[*x as usize % ready.len()],
                None if here => me,
                None => after,
            },
            Policy::Random { p, nested } => {
                let p = if self.nested { nested } else { p };
                if here && (rnd(rng) & 255) >= *p as u64 {
                    me
                } else {
                    ready[(rnd(rng) >> 8) as usize % ready.len()]
                }
            }
            Policy::Priority { prio, at, low } => {
                if at.contains(&step) {
                    *low -= 1;
                    prio[me] = *low;
                }
                *ready.iter().max_by_key(|i| prio[**i]).unwrap()
            }
        })
    }
}
impl Sched {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn abort(&self, g: &mut Inner) {
        g.abort = true;
        self.cvs.iter().for_each(|c| c.notify_all());
    }
    /// gives the token to the next thread and waits for it to come back
    fn pass(&self, me: usize, mut g: MutexGuard<'_, Inner>) {
        if g.status[me] == Status::Stalled {
            g.status[me] = Status::Ready;
        }
        if g.running != me {
            // the token went to another thread meanwhile
            return self.wait_token(me, g);
        }
        g.rep.steps += 1;
        g.since += 1;
        if g.rep.steps > MAX_STEPS {
            g.rep.overrun = true;
            self.abort(&mut g);
        }
        if !g.abort {
            match g.next(me) {
                Some(n) if n == me => return,
                Some(n) => {
                    g.running = n;
                    g.since = 0;
                    g.rep.switches += 1;
                    self.cvs[n].notify_one();
                }
                None => {
                    let all: Vec<String> = g
                        .status
                        .iter()
                        .enumerate()
                        .map(|(i, s)| format!("thread {} {}", i, if *s == Status::Done { "ended" } else { g.what[i] }))
                        .collect();
                    g.rep.deadlock = Some(all.join(", "));
                    self.abort(&mut g);
                }
            }
        }
        self.wait_token(me, g)
    }
    fn wait_token(&self, me: usize, mut g: MutexGuard<'_, Inner>) {
        // waiting for the token, or having it, is not being stalled
        while g.running != me && !g.abort {
            if g.status[me] == Status::Stalled {
                g.status[me] = Status::Ready;
            }
            g = self.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if g.status[me] == Status::Stalled {
            g.status[me] = Status::Ready;
        }
        if g.abort {
            drop(g);
            resume_unwind(Box::new(Abort));
        }
    }
}
fn current() -> Option<(Arc<Sched>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}
/// true when the calling thread is driven by a scheduler (and not being unwound)
pub fn driven() -> bool {
    !std::thread::panicking() && CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}
/// a point where another thread can be chosen
pub fn point() {
    point_at(false)
}
/// the point before taking a lock
pub(crate) fn before_lock() {
    point_at(HELD.with(|h| h.get()) > 0)
}
fn point_at(nested: bool) {
    if std::thread::panicking() {
        return;
    }
    if let Some((s, me)) = current() {
        let mut g = s.lock();
        g.nested = nested;
        s.pass(me, g);
    }
}
/// a thread that went on without the token waits for it
pub(crate) fn regain() {
    if std::thread::panicking() {
        return;
    }
    if let Some((s, me)) = current() {
        s.wait_token(me, s.lock());
    }
}
/// the calling thread cannot go on before `addr` is released
pub(crate) fn block(addr: usize, what: &'static str) {
    if let Some((s, me)) = current() {
        let mut g = s.lock();
        if g.running != me {
            // the token went to another thread since the lock was found taken: to be looked at again
            return s.wait_token(me, g);
        }
        g.rep.waits += 1;
        g.nested = false;
        g.status[me] = Status::Blocked(addr);
        g.what[me] = what;
        s.pass(me, g);
    }
}
pub(crate) fn unblock(addr: usize) {
    if let Some((s, _)) = current() {
        let mut g = s.lock();
        for st in g.status.iter_mut() {
            if *st == Status::Blocked(addr) {
                *st = Status::Ready;
            }
        }
    }
}

/// whether the kernel has the thread waiting
fn asleep(tid: i32) -> bool {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    stat.rsplit(')').next().is_some_and(|s| s.trim_start().starts_with('S'))
}
/// runs the threads under the plan until all have ended
pub fn run<'a>(plan: &Plan, threads: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Report {
    let n = threads.len();
    let mut rng = match plan {
        Plan::Preempt(_) => 0,
        Plan::Random { seed, .. } | Plan::Priority { seed, .. } => *seed,
    };
    let policy = match plan {
        Plan::Preempt(v) => Policy::Preempt(v.iter().copied().collect()),
        Plan::Random { p, nested, .. } => Policy::Random { p: *p, nested: *nested },
        Plan::Priority { d, span, .. } => Policy::Priority {
            prio: (0..n).map(|_| (rnd(&mut rng) >> 40) as i64).collect(),
            at: (0..*d).map(|_| (rnd(&mut rng) >> 16) as u32 % (*span).max(1)).collect(),
            low: 0,
        },
    };
    let s = Arc::new(Sched {
        m: Mutex::new(Inner {
            running: usize::MAX,
            status: vec![Status::Ready; n],
            what: vec![""; n],
            policy,
            rng,
            since: 0,
            nested: false,
            abort: false,
            done: 0,
            tid: vec![0; n],
            rep: Report::default(),
        }),
        ended: Condvar::new(),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
    });
    std::thread::scope(|sc| {
        for (me, f) in threads.into_iter().enumerate() {
            let s = Arc::clone(&s);
            sc.spawn(move || {
                CUR.with(|c| *c.borrow_mut() = Some((Arc::clone(&s), me)));
                s.lock().tid[me] = unsafe { gettid() };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    s.wait_token(me, s.lock());
                    f()
                }));
                CUR.with(|c| *c.borrow_mut() = None);
                let mut g = s.lock();
                g.status[me] = Status::Done;
                if let Err(p) = r {
                    if !p.is::<Abort>() {
                        let m = if let Some(t) = p.downcast_ref::<String>() {
                            t.clone()
                        } else {
                            p.downcast_ref::<&str>().map(|t| t.to_string()).unwrap_or_default()
                        };
                        g.rep.panics.push((me, m));
                    }
                }
                g.done += 1;
                s.ended.notify_all();
                if !g.abort && g.running == me {
                    match g.next(me) {
                        Some(n) => {
                            g.running = n;
                            g.since = 0;
                            s.cvs[n].notify_one();
                        }
                        None if g.status.iter().all(|s| *s == Status::Done) => {}
                        None => {
                            let all: Vec<String> = g
                                .status
                                .iter()
                                .enumerate()
                                .map(|(i, s)| format!("thread {} {}", i, if *s == Status::Done { "ended" } else { g.what[i] }))
                                .collect();
                            g.rep.deadlock = Some(all.join(", "));
                            s.abort(&mut g);
                        }
                    }
                }
            });
        }
        let mut g = s.lock();
        match g.next(0) {
            Some(f) => {
                g.running = f;
                s.cvs[f].notify_one();
            }
            None => {}
        }
        let mut seen = (u64::MAX, usize::MAX, 0);
        let mut since = Instant::now();
        while g.done < n {
            let known = STALLS.load(Ordering::Relaxed) >= 3;
            let (back, late) =
                s.ended.wait_timeout(g, if known { STALL_AGAIN } else { STALL }).unwrap_or_else(|e| e.into_inner());
            g = back;
            let now = (g.rep.steps, g.running, g.done);
            if now != seen || !late.timed_out() {
                seen = now;
                since = Instant::now();
                continue;
            }
            let r = g.running;
            if g.abort || g.done == n || (known && !asleep(g.tid[r])) {
                continue;
            }
            // the thread that should run does not get to a scheduling point
            if g.status[r] == Status::Ready {
                g.status[r] = Status::Stalled;
                STALLS.fetch_add(1, Ordering::Relaxed);
            }
            if let Some(other) = (0..n).find(|i| g.status[*i] == Status::Ready) {
                g.running = other;
                s.cvs[other].notify_one();
            } else if (0..n).any(|i| g.status[i] == Status::Stalled && !asleep(g.tid[i])) {
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(8) {
                // every thread waits for another, some for locks that are not driven: they cannot be unwound
                let m = "deadlock: every thread waits for another one, some for locks of the standard library";
                if let Some(f) = STUCK.get() {
                    f(m);
                }
                panic!("{}", m);
            }
        }
        drop(g);
    });
    let g = s.lock();
    g.rep.clone()
}
