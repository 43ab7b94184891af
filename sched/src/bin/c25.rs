//! C25: operations that only read, on one index or several, can run together, under generated schedules
use harness::fw::*;
use harness::idx::*;
use harness::ensure;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use parking_lot::sched::{self, Plan};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};

/// the usual distance, with a scheduling point at each evaluation
#[derive(Default, Clone)]
struct SDist;
static FINE: AtomicBool = AtomicBool::new(true);
impl Distance<f32> for SDist {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        if FINE.load(Ordering::Relaxed) {
            sched::point();
        }
        a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f32>().sqrt()
    }
}
type Ix<'a> = Hnsw<'a, f32, SDist>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sched {
    Preempt(Vec<(u16, u8)>),
    Random(u64, u8, u8),
    Priority(u64, u8, u16),
    /// threads left to the operating system
    Real,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Search(u64, u8, u8),
    /// accepts the ids of even rank of what `u64` tells
    Filter(u64, u8, u8),
    /// the filter searches the index
    FilterThatReads(u64, u8),
    Ids(u64, u8),
    /// batch, in the pool of rayon: searches one by one when the schedule is generated
    Batch(u64, u8),
    Iterate,
    IterateLayer(u8),
    /// a search for each point met, or another reading (told by the second number) for the first ones
    InLoop(u8, u8),
    Lookups,
    Flatten,
    Dump,
    /// a reload of the dump (0 plain, 1 mapped, 2 graph only), then a search
    Reload(u8),
    Map,
    /// builds another index
    Build(u8, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    data: DataSpec,
    m: usize,
    efc: usize,
    n: usize,
    level_seed: u64,
    /// 0: as built, 1: reloaded, 2: reloaded mapped
    reload: u8,
    fine: bool,
    mode: bool,
    threads: Vec<Vec<Op>>,
    sched: Sched,
}
struct C25;

fn answer(a: &[Neighbour]) -> String {
    a.iter().map(|n| format!("{}@{:?}:{:x} ", n.d_id, n.p_id, n.distance.to_bits())).collect()
}
fn digest(v: impl Hash) -> String {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    format!("{:016x}", h.finish())
}
struct Ctx<'a, 'b> {
    c: &'a Case,
    h: &'a Ix<'b>,
    base: &'a Path,
    /// where the operations write
    out: &'a Path,
}
fn op(x: &Ctx<'_, '_>, o: Op, place: usize, other: Option<&Ix>, real: bool) -> Result<String, String> {
    let (c, h) = (x.c, x.h);
    let q = |s: u64| c.data.query::<F32L2>(s, c.n);
    Ok(match o {
        Op::Search(s, k, ef) => answer(&h.search(&q(s), k as usize, ef as usize)),
        Op::Filter(s, k, ef) => {
            let f = |id: &usize| mix2(*id as u64, s) % 3 > 0;
            answer(&h.search_filter(&q(s), k as usize, ef as usize, Some(&f)))
        }
        Op::FilterThatReads(s, k) => {
            let f = |id: &usize| {
                let inner = |id: &usize| mix2(*id as u64, s ^ 1) % 4 > 0;
                let a = match s % 3 {
                    0 => h.search_filter(&q(*id as u64), 1, 3, Some(&inner)),
                    _ => h.search(&q(*id as u64), 1, 3),
                };
                a.len() <= h.get_nb_point().min(1) && (mix2(*id as u64, s) % 4 > 0 || a.is_empty())
            };
            answer(&h.search_filter(&q(s), k as usize, k as usize, Some(&f)))
        }
        Op::Ids(s, k) => {
            let mut ids: Vec<usize> = (0..c.n).filter(|i| mix2(*i as u64, s) % 2 > 0).map(|i| c.data.id(i)).collect();
            ids.sort_unstable();
            answer(&h.search_filter(&q(s), k as usize, 20, Some(&ids)))
        }
        Op::Batch(s, k) => {
            let qs: Vec<Vec<f32>> = (0..6).map(|i| q(s.wrapping_add(i))).collect();
            let a = if real { h.parallel_search(&qs, k as usize, 20) } else { qs.iter().map(|q| h.search(q, k as usize, 20)).collect() };
            a.iter().map(|a| answer(a) + "| ").collect()
        }
        Op::Iterate => h.get_point_indexation().into_iter().map(|p| format!("{}@{:?} ", p.get_origin_id(), p.get_point_id())).collect(),
        Op::IterateLayer(l) => {
            h.get_point_indexation().get_layer_iterator(l as usize % 4).map(|p| format!("{}:{:?} ", p.get_origin_id(), p.get_v().first())).collect()
        }
        Op::InLoop(k, what) => {
            let mut s = String::new();
            for (i, p) in h.get_point_indexation().into_iter().take(if what < 5 { 8 } else { 2 }).enumerate() {
                s += &match what {
                    0..5 => answer(&h.search(p.get_v(), k as usize, 8)),
                    _ if i > 0 => format!("{:?}", p.get_neighborhood_id().first().map(|l| answer(l))),
                    5 => op(x, Op::Lookups, place, None, real)?,
                    6 => op(x, Op::Flatten, place, None, real)?,
                    7 => op(x, Op::Dump, place, None, real)?,
                    _ => op(x, Op::IterateLayer(k), place, None, real)?,
                };
                s += "| ";
            }
            s
        }
        Op::Lookups => {
            let pi = h.get_point_indexation();
            let mut s = format!("{} {} {} {:?} ", h.get_nb_point(), h.get_max_level_observed(), pi.get_data_dimension(), pi.get_level_scale());
            for l in 0..3u8 {
                s += &format!("{} ", pi.get_layer_nb_point(l as usize));
                for r in 0..4 {
                    s += &format!("{:?} ", pi.get_point_data(&PointId(l, r)));
                }
            }
            s
        }
        Op::Flatten => {
            let f = FlatNeighborhood::from(h);
            (0..c.n)
                .map(|i| match f.get_neighbours(c.data.id(i)) {
                    Some(mut v) => {
                        v.sort_by_key(|n| (n.distance.to_bits(), n.d_id, n.p_id.0));
                        answer(&v) + "| "
                    }
                    None => "none| ".into(),
                })
                .collect()
        }
        Op::Dump => {
            // dumps of several threads go to the same directory, under names of their own
            let (dir, base) = (x.out, format!("o{}", place));
            let name = h.file_dump(dir, &base).map_err(|e| format!("dump: {}", e))?;
            ensure!(name == base, "dumped under the name {} instead of {}", name, base);
            let g = std::fs::read(dir.join(format!("{}.hnsw.graph", name))).map_err(|e| format!("graph file: {}", e))?;
            let d = std::fs::read(dir.join(format!("{}.hnsw.data", name))).map_err(|e| format!("data file: {}", e))?;
            for f in ["graph", "data"] {
                std::fs::remove_file(dir.join(format!("{}.hnsw.{}", name, f))).map_err(|e| format!("harness: {}", e))?;
            }
            format!("{} {} {}", g.len(), digest(g), digest(d))
        }
        Op::Reload(2) => {
            let mut io = HnswIo::new(x.base, "d");
            let g: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
            digest(format!("{:?}", snap(&g, false)))
        }
        Op::Reload(r) => {
            let mut io = HnswIo::new_with_options(x.base, "d", ReloadOptions::default().set_mmap(r == 1));
            let g: Ix = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
            answer(&g.search(&q(7), 4, 10)) + &digest(format!("{:?}", snap(&g, true)))
        }
        Op::Map => {
            let m: DataMap = DataMap::from_hnswdump::<f32>(x.base, "d").map_err(|e| format!("data map: {}", e))?;
            (0..c.n).map(|i| format!("{:?} ", m.get_data::<f32>(&c.data.id(i)))).collect()
        }
        Op::Build(n, s) => {
            let o = other.ok_or("harness: no other index")?;
            for i in 0..n as usize {
                o.insert((&c.data.vec::<F32L2>(i + s as usize % 50), i));
            }
            answer(&o.search(&q(s), 4, 10)) + &digest(format!("{:?}", snap(o, true)))
        }
    })
}
/// the indexes that `Build` operations fill, created in the same order each time
fn others(c: &Case) -> Vec<Vec<Option<Box<Ix<'static>>>>> {
    c.threads
        .iter()
        .map(|t| {
            t.iter()
                .map(|o| match o {
                    Op::Build(_, s) => {
                        getrandom::set_seed(*s);
                        // one layer: what is built does not depend on a draw
                        Some(Box::new(Hnsw::new(c.m, 10, 1, c.efc, SDist)))
                    }
                    _ => None,
                })
                .collect()
        })
        .collect()
}
fn concurrent(c: &Case, h: &Ix, base: &Path, cov: &mut Cov) -> Outcome {
    let out = base.join("out");
    std::fs::create_dir_all(&out).map_err(|e| format!("harness: {}", e))?;
    let x = Ctx { c, h, base, out: &out };
    let real = matches!(c.sched, Sched::Real);
    let before = snap(h, true);
    // alone, in a driven thread also: a thread can be blocked by itself
    let mut alone = others(c);
    let mut want: Vec<Vec<String>> = vec![];
    let mut err = Ok(());
    let rep = {
        let (x, alone, want, err) = (&x, &alone, &mut want, &mut err);
        sched::run(
            &Plan::Preempt(vec![]),
            vec![Box::new(move || {
                for (t, os) in c.threads.iter().zip(alone) {
                    let mut w = vec![];
                    for (o, ix) in t.iter().zip(os) {
                        match op(x, *o, 0, ix.as_deref(), false) {
                            Ok(r) => w.push(r),
                            Err(e) => {
                                *err = Err(format!("{:?} alone: {}", o, e));
                                return;
                            }
                        }
                    }
                    want.push(w);
                }
            })],
        )
    };
    let first = match (rep.panics.first(), rep.deadlock) {
        (Some((_, m)), _) => Err(format!("alone: panic: {}", m)),
        (_, Some(_)) => Err("alone: the thread is blocked by itself".to_string()),
        _ if rep.overrun => {
            unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
            err
        }
        _ => err,
    };
    if first.is_err() {
        alone.drain(..).flatten().flatten().for_each(|o| std::mem::forget(o));
        return first;
    }
    drop(alone);
    // together
    let mut together = others(c);
    let mut got: Vec<Vec<Result<String, String>>> = vec![vec![]; c.threads.len()];
    let plan = match &c.sched {
        Sched::Preempt(v) => Some(Plan::Preempt(v.iter().map(|(s, t)| (*s as u32, *t)).collect())),
        Sched::Random(seed, p, nested) => Some(Plan::Random { seed: *seed, p: *p, nested: *nested }),
        Sched::Priority(seed, d, span) => Some(Plan::Priority { seed: *seed, d: *d, span: *span as u32 }),
        Sched::Real => None,
    };
    let mut failed = None;
    {
        let start = &std::sync::Barrier::new(c.threads.len());
        let (x, together) = (&x, &together);
        let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = got
            .iter_mut()
            .enumerate()
            .map(|(t, g)| {
                Box::new(move || {
                    if real {
                        start.wait();
                    }
                    for (i, o) in c.threads[t].iter().enumerate() {
                        g.push(op(x, *o, 1 + t * 100 + i, together[t][i].as_deref(), real));
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        match plan {
            Some(plan) => {
                let rep = sched::run(&plan, jobs);
                if rep.overrun {
                    // no conclusion can be drawn
                    unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
                }
                if let Some((t, m)) = rep.panics.first() {
                    failed = Some(format!("thread {} panicked: {}", t, m));
                } else if let Some(d) = rep.deadlock {
                    failed = Some(format!("deadlock after {} steps: {}", rep.steps, d));
                }
                cov.add("scheduling points", rep.steps);
                cov.add("switches", rep.switches);
                cov.nontrivial = c.n > 1 && c.threads.iter().filter(|w| !w.is_empty()).count() > 1 && rep.switches as usize > c.threads.len();
            }
            None => {
                std::thread::scope(|s| {
                    let t: Vec<_> = jobs.into_iter().map(|j| s.spawn(move || catch(j))).collect();
                    for (i, t) in t.into_iter().enumerate() {
                        if let Ok(Err(m)) = t.join() {
                            failed = Some(format!("thread {} panicked: {}", i, m));
                        }
                    }
                });
                cov.nontrivial = c.n > 1 && c.threads.len() > 1;
            }
        }
    }
    if let Some(m) = failed {
        // locks can be in any state
        for o in together.drain(..).flatten().flatten() {
            std::mem::forget(o);
        }
        return Err(m);
    }
    drop(together);
    for (t, (g, w)) in got.iter().zip(&want).enumerate() {
        for (i, (g, w)) in g.iter().zip(w).enumerate() {
            match g {
                Ok(g) => ensure!(g == w, "thread {} {:?}: {} instead of {}", t, c.threads[t][i], g, w),
                Err(e) => return Err(format!("thread {} {:?}: {}", t, c.threads[t][i], e)),
            }
        }
        ensure!(g.len() == w.len(), "thread {} did not end", t);
    }
    diff_snap(&before, &snap(h, true)).map_err(|e| format!("the index changed: {}", e))?;
    for o in c.threads.iter().flatten() {
        let d = format!("{:?}", o);
        cov.class(d.split('(').next().unwrap_or(""));
    }
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    Ok(())
}
fn run(c: &Case, cov: &mut Cov) -> Outcome {
    FINE.store(c.fine, Ordering::Relaxed);
    sched::STUCK.get_or_init(|| |m| harness::fw::fail_now(m));
    getrandom::set_seed(c.level_seed);
    // a failed run can leave threads' locks in any state: the index is then not dropped
    let mut h: Box<Ix<'static>> = Box::new(Hnsw::new(c.m, 10, 16, c.efc, SDist));
    for i in 0..c.n {
        h.insert((&c.data.vec::<F32L2>(i), c.data.id(i)));
    }
    let dir = scratch("c25");
    h.file_dump(&dir, "d").map_err(|e| format!("dump: {}", e))?;
    if c.reload == 0 {
        h.set_searching_mode(c.mode);
        let res = concurrent(c, &h, &dir, cov);
        if res.is_err() {
            std::mem::forget(h);
        }
        res?;
    } else {
        let mut io = HnswIo::new_with_options(&dir, "d", ReloadOptions::default().set_mmap(c.reload == 2));
        let mut r: Ix = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
        r.set_searching_mode(c.mode);
        let res = concurrent(c, &r, &dir, cov);
        if res.is_err() {
            std::mem::forget(r);
        }
        res?;
        cov.class(if c.reload == 2 { "mapped index" } else { "reloaded index" });
    }
    cov.class(match c.sched {
        Sched::Preempt(_) => "preemption list",
        Sched::Random(..) => "random switches",
        Sched::Priority(..) => "random priorities",
        Sched::Real => "operating system threads",
    });
    Ok(())
}
impl Prop for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "2 to 4 threads reading one index (searches with and without filters, from within filters and loops, iterations, lookups, flattening, dumps, reloads and data maps of its dump), or building indexes of their own, under a generated schedule or left to the operating system; each result is compared with that of the operation alone; non-trivial: at least two threads work on at least two points and the schedule switches more often than there are threads";
    fn cases(t: Tier) -> u64 {
        t.pick(24_000, 500_000)
    }
    fn rayon_threads() -> usize {
        2
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let sched = prop_oneof![
            5 => prop::collection::vec((prop_oneof![2 => 0u16..40, 3 => 0u16..300, 2 => 0u16..3000], 0u8..4), 1..12).prop_map(Sched::Preempt),
            8 => (any::<u64>(), prop_oneof![2 => 1u8..16, 2 => 16u8..60, 2 => 60u8..255], prop_oneof![1 => Just(0u8), 4 => 60u8..255]).prop_map(|(s, p, n)| Sched::Random(s, p, p.max(n))),
            2 => (any::<u64>(), 1u8..6, prop_oneof![Just(60u16), Just(300), Just(1500)]).prop_map(|(s, d, n)| Sched::Priority(s, d, n)),
            2 => Just(Sched::Real),
        ];
        let op = prop_oneof![
            8 => (any::<u64>(), 0u8..12, 0u8..30).prop_map(|(s, k, e)| Op::Search(s, k, e)),
            4 => (any::<u64>(), 1u8..12, 0u8..30).prop_map(|(s, k, e)| Op::Filter(s, k, e)),
            2 => (any::<u64>(), 1u8..6).prop_map(|(s, k)| Op::FilterThatReads(s, k)),
            2 => (any::<u64>(), 1u8..6).prop_map(|(s, k)| Op::Ids(s, k)),
            2 => (any::<u64>(), 1u8..6).prop_map(|(s, k)| Op::Batch(s, k)),
            2 => Just(Op::Iterate),
            2 => (0u8..4).prop_map(Op::IterateLayer),
            3 => (1u8..4, 0u8..9).prop_map(|(k, w)| Op::InLoop(k, w)),
            2 => Just(Op::Lookups),
            2 => Just(Op::Flatten),
            2 => Just(Op::Dump),
            2 => (0u8..3).prop_map(Op::Reload),
            1 => Just(Op::Map),
            2 => (1u8..12, any::<u64>()).prop_map(|(n, s)| Op::Build(n, s)),
        ];
        (
            (data_strategy(), prop_oneof![2 => 2usize..6, 1 => 6usize..17], efc_strategy(), prop_oneof![1 => 1usize..3, 4 => 3usize..30, 1 => 30usize..90]),
            (any::<u64>(), prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2)], any::<bool>(), any::<bool>()),
            (prop_oneof![1 => prop::collection::vec(prop::collection::vec(op.clone(), 1..5), 2..5), 2 => prop::collection::vec(prop::collection::vec(op, 1..3), 2..4)], sched),
        )
            .prop_map(|((mut data, m, efc, n), (level_seed, reload, fine, mode), (threads, sched))| {
                data.dim = 1 + data.dim % 4;
                Case { data, m, efc, n, level_seed, reload, fine, mode, threads, sched }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        run(c, cov)
    }
    fn assumptions() -> Vec<String> {
        vec!["parking_lot is replaced by a stand-in with the same types whose locks can be driven by the scheduler: a waiting writer holds new readers back, nothing else of its fairness is modelled".into()]
    }
}
fn main() {
    harness::fw::main::<C25>()
}
