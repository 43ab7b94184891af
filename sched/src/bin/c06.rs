//! C06: concurrent insertions lose nothing and never deadlock, under generated schedules
use harness::fw::*;
use harness::idx::*;
use harness::{ensure, ensure_eq};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use parking_lot::sched::{self, Plan};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};

/// the usual distance, with a scheduling point at each evaluation
#[derive(Default, Clone)]
struct SDist;
/// whether a distance evaluation is a scheduling point in the case being run
static FINE: AtomicBool = AtomicBool::new(true);
impl Distance<f32> for SDist {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        if FINE.load(Ordering::Relaxed) {
            sched::point();
        }
        a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f32>().sqrt()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sched {
    Preempt(Vec<(u16, u8)>),
    Random(u64, u8, u8),
    Priority(u64, u8, u16),
    /// threads left to the operating system, so many times over
    Real(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    data: DataSpec,
    m: usize,
    efc: usize,
    max_layer: usize,
    extend: bool,
    keep: bool,
    scale: Vec<i32>,
    level_seed: u64,
    /// points inserted beforehand; then dumped and reloaded (1: plain, 2: mapped)
    pre: usize,
    reload: u8,
    /// distance evaluations are scheduling points too
    fine: bool,
    /// each thread: how it inserts each of its points
    threads: Vec<Vec<u8>>,
    sched: Sched,
}
struct C06;

fn insert(h: &Hnsw<'_, f32, SDist>, p: &(usize, Vec<f32>), how: u8) {
    match how % 3 {
        0 => h.insert((p.1.as_slice(), p.0)),
        1 => h.insert_slice((p.1.as_slice(), p.0)),
        _ => h.parallel_insert_slice(&vec![(p.1.as_slice(), p.0)]),
    }
}

fn concurrent(c: &Case, h: &Hnsw<'_, f32, SDist>, cov: &mut Cov) -> Outcome {
    let mut next = c.pre;
    let work: Vec<Vec<((usize, Vec<f32>), u8)>> = c
        .threads
        .iter()
        .map(|t| {
            t.iter()
                .map(|how| {
                    next += 1;
                    ((c.data.id(next - 1), c.data.vec::<F32L2>(next - 1)), *how)
                })
                .collect()
        })
        .collect();
    let total = next;
    let plan = match &c.sched {
        Sched::Preempt(v) => Some(Plan::Preempt(v.iter().map(|(s, t)| (*s as u32, *t)).collect())),
        Sched::Random(seed, p, nested) => Some(Plan::Random { seed: *seed, p: *p, nested: *nested }),
        Sched::Priority(seed, d, span) => Some(Plan::Priority { seed: *seed, d: *d, span: *span as u32 }),
        Sched::Real(_) => None,
    };
    match plan {
        Some(plan) => {
            // rayon's own threads are not driven: only the direct calls here
            let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = work
                .iter()
                .map(|w| Box::new(move || w.iter().for_each(|(p, how)| insert(h, p, *how % 2))) as Box<dyn FnOnce() + Send + '_>)
                .collect();
            let rep = sched::run(&plan, jobs);
            if rep.overrun {
                // no conclusion can be drawn
                unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
            }
            if let Some((t, m)) = rep.panics.first() {
                return Err(format!("thread {} panicked: {}", t, m));
            }
            if let Some(d) = rep.deadlock {
                return Err(format!("deadlock after {} steps: {}", rep.steps, d));
            }
            cov.add("scheduling points", rep.steps);
            cov.add("switches", rep.switches);
            cov.add("waits for a lock", rep.waits);
            cov.class_if(rep.waits > 0, "a thread had to wait");
            cov.nontrivial = work.iter().filter(|w| !w.is_empty()).count() > 1 && rep.switches as usize > c.threads.len();
        }
        None => {
            let start = &std::sync::Barrier::new(work.len());
            std::thread::scope(|s| {
                for w in &work {
                    s.spawn(move || {
                        start.wait();
                        w.iter().for_each(|(p, how)| insert(h, p, *how))
                    });
                }
            });
            cov.nontrivial = work.len() > 1;
        }
    }
    judge(c, h, total, cov)
}
fn judge(c: &Case, h: &Hnsw<'_, f32, SDist>, total: usize, cov: &mut Cov) -> Outcome {
    let model: Vec<(usize, Vec<f32>)> = (0..total).map(|i| (c.data.id(i), c.data.vec::<F32L2>(i))).collect();
    check_content(h, &model, c.max_layer)?;
    check_links(h, c.m, &SDist, true, cov)?;
    check_reciprocal(&view(h), c.m, cov)?;
    let single = h.get_max_level_observed() == 0;
    let pts = by_pid(h);
    for q in 0..4u64 {
        let qv = c.data.query::<F32L2>(mix2(c.level_seed, q), total);
        let k = 1 + (mix2(q, 5) ^ c.level_seed) as usize % total.max(1);
        let r = h.search(&qv, k, total + q as usize);
        check_answer(&r, &qv, k, &SDist, &pts)?;
        if single && total <= 2 * c.m + 1 {
            let want = brute(&qv, model.iter(), k, &SDist);
            ensure_eq!(dists(&r), want, "k = {}, {} points: distances of the answers", k, total);
            cov.class("exact searches");
        }
    }
    cov.class_if(!single, "several layers");
    cov.class_if(total <= 2 * c.m + 1, "at most 2M+1 points");
    cov.class_if(c.pre == 0, "from the empty index");
    Ok(())
}
fn run(c: &Case, cov: &mut Cov) -> Outcome {
    FINE.store(c.fine, Ordering::Relaxed);
    sched::STUCK.get_or_init(|| |m| harness::fw::fail_now(m));
    let rounds = if let Sched::Real(n) = c.sched { n as u64 } else { 1 };
    for round in 0..rounds {
        getrandom::set_seed(mix2(c.level_seed, round));
        // a failed run can leave threads' locks in any state: the index is then not dropped
        let mut h: Box<Hnsw<'static, f32, SDist>> = Box::new(Hnsw::new(c.m, 10, c.max_layer, c.efc, SDist));
        h.set_extend_candidates(c.extend);
        h.set_keeping_pruned(c.keep);
        for f in &c.scale {
            h.modify_level_scale(*f as f64 / 100.);
        }
        for i in 0..c.pre {
            h.insert((&c.data.vec::<F32L2>(i), c.data.id(i)));
        }
        if c.reload > 0 && c.pre > 0 && c.max_layer == 16 {
            let dir = scratch("c06");
            let name = h.file_dump(&dir, "d").map_err(|e| format!("dump: {}", e))?;
            let mut io = HnswIo::new_with_options(&dir, &name, ReloadOptions::default().set_mmap(c.reload == 2));
            let mut r: Hnsw<f32, SDist> = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
            r.set_extend_candidates(c.extend);
            r.set_keeping_pruned(c.keep);
            cov.class("after a reload");
            let res = concurrent(c, &r, cov);
            if res.is_err() {
                std::mem::forget(r);
            }
            res?;
        } else {
            let res = concurrent(c, &h, cov);
            if res.is_err() {
                std::mem::forget(h);
            }
            res?;
        }
    }
    cov.class(match c.sched {
        Sched::Preempt(_) => "preemption list",
        Sched::Random(..) => "random switches",
        Sched::Priority(..) => "random priorities",
        Sched::Real(_) => "operating system threads",
    });
    ensure!(rounds > 0, "harness: no round");
    Ok(())
}
impl Prop for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "2 to 4 threads inserting generated points into an empty, filled or reloaded index under a generated schedule (preemption list, random switches, random priorities; scheduling points at each lock operation and distance evaluation), plus threads left to the operating system; non-trivial: at least two threads insert and the schedule switches more often than there are threads";
    fn cases(t: Tier) -> u64 {
        t.pick(200_000, 5_000_000)
    }
    fn rayon_threads() -> usize {
        2
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let sched = prop_oneof![
            6 => prop::collection::vec((prop_oneof![2 => 0u16..40, 3 => 0u16..300, 1 => 0u16..3000], 0u8..4), 1..10).prop_map(Sched::Preempt),
            6 => (any::<u64>(), prop_oneof![4 => 1u8..16, 2 => 16u8..60, 1 => 60u8..255], prop_oneof![1 => Just(0u8), 4 => 60u8..255]).prop_map(|(s, p, n)| Sched::Random(s, p, p.max(n))),
            3 => (any::<u64>(), 1u8..6, prop_oneof![Just(60u16), Just(300), Just(1500)]).prop_map(|(s, d, n)| Sched::Priority(s, d, n)),
            1 => (1u8..3).prop_map(Sched::Real),
        ];
        (
            (data_strategy(), prop_oneof![3 => Just(2usize), 3 => 3usize..6, 1 => 6usize..17], efc_strategy(), prop_oneof![2 => Just(1usize), 4 => Just(16usize), 1 => 2usize..6]),
            (any::<bool>(), any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => scale_strategy()], any::<u64>(), prop_oneof![3 => Just(0usize), 2 => 1usize..4, 2 => 4usize..14], 0u8..6),
            (prop_oneof![
                1 => prop::collection::vec(prop::collection::vec(0u8..3, 1..6), 2..5),
                2 => prop::collection::vec(prop::collection::vec(0u8..3, 1..4), 2..4)
            ], sched, any::<bool>()),
        )
            .prop_map(|((mut data, m, efc, max_layer), (extend, keep, scale, level_seed, pre, reload), (mut threads, sched, fine))| {
                data.dim = 1 + data.dim % 4;
                if let Sched::Real(_) = sched {
                    // longer histories, so that the threads really overlap
                    let more = 1 + (level_seed % 12) as usize;
                    threads.iter_mut().for_each(|t| *t = t.repeat(more));
                }
                Case { data, m, efc, max_layer, extend, keep, scale, level_seed, pre, reload: reload.saturating_sub(3), threads, sched, fine }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        run(c, cov)
    }
    fn assumptions() -> Vec<String> {
        vec!["parking_lot is replaced by a stand-in with the same types whose locks can be driven by the scheduler: a waiting writer holds new readers back, nothing else of its fairness is modelled".into()]
    }
}
fn main() {
    harness::fw::main::<C06>()
}
