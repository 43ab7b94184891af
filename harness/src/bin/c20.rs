//! C20: dropping an index releases every stored point
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch_few, ensure, ensure_eq};
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Weak};

struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Count = Count;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Form {
    Fresh,
    Plain,
    Mapped,
    Threshold(usize),
    WithDist,
    GraphOnly,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    /// further insertions after the first or the reload
    more: Vec<(How, usize)>,
    form: Form,
    searches: usize,
    flatten: bool,
    /// points the user keeps beyond the index
    kept: Vec<u64>,
    /// when not 0: repetitions over which the allocated memory is watched
    cycles: usize,
    /// dropped in another thread
    elsewhere: bool,
}
struct C20;

/// weak references to all points, which the user does not keep; and those it keeps
#[allow(clippy::type_complexity)]
fn watch<T, D>(h: Hnsw<'_, T, D>, c: &Case, expect: usize, cov: &mut Cov) -> Outcome
where
    T: Clone + Send + Sync + std::fmt::Debug + PartialEq,
    D: Distance<T> + Send + Sync,
{
    let all: Vec<Arc<Point<T>>> = h.get_point_indexation().into_iter().collect();
    ensure_eq!(all.len(), expect, "points");
    let mut by_layer: Vec<Weak<Point<T>>> = Vec::new();
    for l in 0..16.min(c.ix.max_layer) {
        by_layer.extend(h.get_point_indexation().get_layer_iterator(l).map(|p| Arc::downgrade(&p)));
    }
    let weak: Vec<Weak<Point<T>>> = all.iter().map(Arc::downgrade).collect();
    let links: usize = all.iter().map(|p| p.get_neighborhood_id().iter().map(|l| l.len()).sum::<usize>()).sum();
    let levels = all.iter().map(|p| p.get_point_id().0).max().unwrap_or(0);
    let kept: Vec<Arc<Point<T>>> =
        if all.is_empty() { vec![] } else { c.kept.iter().map(|k| all[*k as usize % all.len()].clone()).collect() };
    let content: Vec<(usize, Vec<T>)> = kept.iter().map(|p| (p.get_origin_id(), p.get_v().to_vec())).collect();
    let kept_ids: std::collections::HashSet<usize> = content.iter().map(|x| x.0).collect();
    drop(all);
    if c.elsewhere {
        std::thread::scope(|s| {
            s.spawn(move || drop(h));
        });
    } else {
        drop(h);
    }
    let mut gone = 0;
    for w in weak.iter().chain(&by_layer) {
        match w.upgrade() {
            None => gone += 1,
            Some(p) => ensure!(
                kept_ids.contains(&p.get_origin_id()),
                "point {} ({:?}) of {} ({} links in all, top level {}) outlives its index ({} references)",
                p.get_origin_id(), p.get_point_id(), expect, links, levels, Arc::strong_count(&p) - 1
            ),
        }
    }
    let _ = gone;
    // what the user keeps stays whole, and goes with the user
    for (p, (id, v)) in kept.iter().zip(&content) {
        ensure_eq!(p.get_origin_id(), *id, "id of a kept point");
        ensure!(p.get_v() == v.as_slice(), "vector of a kept point");
    }
    let wk: Vec<Weak<Point<T>>> = kept.iter().map(Arc::downgrade).collect();
    cov.class_if(!kept.is_empty(), "user keeps points");
    drop(kept);
    ensure!(wk.iter().all(|w| w.upgrade().is_none()), "a point kept by the user outlives the user's reference");
    cov.class_if(levels > 0, "several levels");
    cov.class_if(links > 0, "points linked");
    cov.nontrivial |= links > 2;
    cov.add("points watched", expect as u64);
    Ok(())
}
fn mapped_files() -> usize {
    std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines().filter(|l| l.contains(".hnsw.")).count()
}
fn once<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (mut h, model) = c.ix.build::<C>();
    let mut form = c.form;
    if !C::ALIGN_OK_MMAP && matches!(form, Form::Mapped | Form::Threshold(_)) {
        form = Form::Plain;
    }
    if model.is_empty() || c.ix.max_layer < 16 {
        form = Form::Fresh;
    }
    let mut n = model.len();
    let finish = |h: &mut Hnsw<'_, C::T, C::D>, n: &mut usize| {
        for (how, k) in &c.more {
            insert_range::<C>(h, &c.ix.data, *n..*n + k, *how);
            *n += k;
        }
        for i in 0..c.searches {
            h.search(&c.ix.data.query::<C>(mix(i as u64), *n), 5, 10);
        }
        if c.flatten {
            let _ = FlatNeighborhood::from(&*h);
        }
    };
    cov.class_if(n > 66_000, "more than 65536 points in layer 0");
    cov.class(format!("{:?}", form).split('(').next().unwrap());
    if form == Form::Fresh {
        finish(&mut h, &mut n);
        return watch(h, c, n, cov);
    }
    let dir = scratch("c20");
    let name = h.file_dump(&dir, "d").map_err(|e| format!("dump: {}", e))?;
    watch(h, c, n, cov).map_err(|e| format!("after a dump: {}", e))?;
    let opt = match form {
        Form::Mapped => ReloadOptions::default().set_mmap(true),
        Form::Threshold(t) => ReloadOptions::default().set_mmap_threshold(t),
        _ => ReloadOptions::default(),
    };
    {
        let mut io = HnswIo::new_with_options(&dir, &name, opt);
        if form == Form::GraphOnly {
            let r: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
            if c.flatten {
                let _ = FlatNeighborhood::from(&r);
            }
            // no vector to compare
            let all: Vec<_> = r.get_point_indexation().into_iter().map(|p| Arc::downgrade(&p)).collect();
            ensure_eq!(all.len(), n, "points");
            drop(r);
            ensure!(all.iter().all(|w| w.upgrade().is_none()), "points of a graph only reload outlive it");
        } else {
            let mut r: Hnsw<C::T, C::D> = if form == Form::WithDist { io.load_hnsw_with_dist(C::D::default()) } else { io.load_hnsw() }.map_err(|e| format!("reload: {}", e))?;
            finish(&mut r, &mut n);
            watch(r, c, n, cov).map_err(|e| format!("reloaded {:?}: {}", form, e))?;
        }
    }
    ensure_eq!(mapped_files(), 0, "files still mapped after the index and its reloader are gone ({:?})", form);
    Ok(())
}
fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    if c.cycles == 0 {
        return once::<C>(c, cov);
    }
    let mut at = Vec::new();
    for _ in 0..c.cycles + 2 {
        let mut cov = Cov::default();
        once::<C>(c, &mut cov)?;
        drop(cov);
        at.push(LIVE.load(Ordering::Relaxed));
    }
    cov.class("allocated memory watched");
    let vectors = (0..c.ix.n).map(|i| std::mem::size_of_val(c.ix.data.vec::<C>(i).as_slice())).sum::<usize>() as i64;
    let grown = at[c.cycles + 1] - at[1];
    let bound = c.cycles as i64 * vectors / 8;
    if bound > 100_000 {
        cov.class("allocated memory judged");
        cov.nontrivial = true;
        ensure!(grown < bound, "{} bytes more are allocated after {} repetitions of an index with {} bytes of vectors: {:?}", grown, c.cycles, vectors, at);
    }
    Ok(())
}
impl Prop for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "generated indexes (fresh, reloaded in each form, grown in any way, searched, flattened), dropped in the same or another thread while the user keeps some points: weak references to every point are dead afterwards except for kept ones, which stay whole; some cases repeat the whole and watch the allocated memory (bound: an eighth of the vectors per repetition), and no dump file stays mapped. Non-trivial: more than 2 links, or memory judged";
    fn cases(t: Tier) -> u64 {
        t.pick(8_000, 200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 100 } else { 400 };
        let how = prop_oneof![3 => Just(How::Insert), 1 => Just(How::Trait), 1 => Just(How::Par), 1 => Just(How::ParSlice)];
        let form = prop_oneof![3 => Just(Form::Fresh), 2 => Just(Form::Plain), 2 => Just(Form::Mapped), 1 => (0usize..100).prop_map(Form::Threshold), 1 => Just(Form::WithDist), 1 => Just(Form::GraphOnly)];
        (
            index_strategy(max), prop::collection::vec((how, 0usize..30), 0..3), form, 0usize..3, any::<bool>(),
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u64>(), 1..4)],
            prop_oneof![12 => Just(0usize), 1 => 4usize..9], any::<bool>(),
        )
            .prop_map(|(mut ix, more, form, searches, flatten, kept, cycles, elsewhere)| {
                if cycles > 0 {
                    // vectors large enough to see a leak beside the noise of the thread pool
                    ix.data.dim = 1500;
                    if ix.kind == Kind::U16Lev {
                        ix.kind = Kind::F32L2;
                    }
                    ix.n = ix.n.max(50);
                    ix.efc = ix.efc.min(20);
                }
                if cycles == 0 {
                    huge(&mut ix, 2500);
                }
                Case { ix, more, form, searches, flatten, kept, cycles, elsewhere }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch_few!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C20>()
}
