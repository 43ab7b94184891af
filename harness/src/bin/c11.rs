//! C11: graph-only reload and flattening keep ids, links and distances
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    base: usize,
    dir: u8,
    map: bool,
    /// points inserted after the dump in the original, then flattened again
    more: usize,
}
struct C11;

type Flat = HashMap<usize, Vec<(u32, usize, PidKey)>>;

fn expected<T: Clone + Send + Sync>(pts: &[PointView<T>]) -> Flat {
    pts.iter()
        .map(|p| {
            let mut v: Vec<(u32, usize, PidKey)> = p.links.iter().flatten().map(|(id, pid, d)| (d.to_bits(), *id, *pid)).collect();
            v.sort();
            (p.id, v)
        })
        .collect()
}
fn check_flat<T, D>(h: &Hnsw<'_, T, D>, want: &Flat, absent: &[usize]) -> Outcome
where
    T: Clone + Send + Sync,
    D: anndists::dist::distances::Distance<T> + Send + Sync,
{
    let f = FlatNeighborhood::from(h);
    for (id, w) in want {
        let Some(n) = f.get_neighbours(*id) else { return Err(format!("id {} is not in the flat map", id)) };
        ensure!(n.windows(2).all(|w| w[0].distance <= w[1].distance), "neighbours of {} not sorted: {:?}", id, n);
        let mut got: Vec<(u32, usize, PidKey)> = n.iter().map(|n| (n.distance.to_bits(), n.d_id, key(&n.p_id))).collect();
        got.sort();
        ensure!(got == *w, "neighbours of {}: {:?} instead of {:?}", id, got, w);
    }
    for a in absent {
        if !want.contains_key(a) {
            ensure!(f.get_neighbours(*a).is_none(), "neighbours of {}, which is not stored", a);
        }
    }
    Ok(())
}
fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (mut h, model) = c.ix.build::<C>();
    let n = model.len();
    let absent: Vec<usize> = [0, 1, usize::MAX, n, n + 1]
        .into_iter()
        .chain((0..5).map(|i| c.ix.data.absent_id(i)))
        .chain(model.iter().map(|m| m.0.wrapping_add(1)))
        .collect();
    let want = expected(&view(&h));
    ensure_eq!(want.len(), n, "points seen");
    check_flat(&h, &want, &absent).map_err(|e| format!("flattened index: {}", e))?;
    if n > 0 && c.ix.max_layer >= 16 {
        let dir = dump_dir("c11", c.dir);
        let name = h.file_dump(&dir, BASES[c.base % BASES.len()]).map_err(|e| format!("dump failed: {}", e))?;
        let opts = if c.map { ReloadOptions::new(true) } else { ReloadOptions::default() };
        let mut io = HnswIo::new_with_options(&dir, &name, opts);
        let g: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("graph-only reload: {}", e))?;
        harness::dump::check_params(&h, &g).map_err(|e| format!("graph-only reload: {}", e))?;
        diff_snap(&snap(&h, false), &snap(&g, false)).map_err(|e| format!("graph-only reload: {}", e))?;
        for p in g.get_point_indexation() {
            ensure!(p.get_v().is_empty(), "point {} of the graph-only reload has a vector", p.get_origin_id());
        }
        for l in 0..16 {
            ensure_eq!(g.get_point_indexation().get_layer_nb_point(l), h.get_point_indexation().get_layer_nb_point(l), "points in layer {}", l);
            let a: Vec<_> = g.get_point_indexation().get_layer_iterator(l).map(|p| (p.get_origin_id(), key(&p.get_point_id()))).collect();
            let b: Vec<_> = h.get_point_indexation().get_layer_iterator(l).map(|p| (p.get_origin_id(), key(&p.get_point_id()))).collect();
            ensure!(a == b, "points of layer {}", l);
        }
        check_flat(&g, &want, &absent).map_err(|e| format!("flattened graph-only reload: {}", e))?;
        let io2 = HnswIo::new(&dir, &name);
        let g2: Hnsw<NoData, NoDist> = io2.load_hnsw_with_dist(NoDist).map_err(|e| format!("graph-only reload with NoDist: {}", e))?;
        diff_snap(&snap(&h, false), &snap(&g2, false)).map_err(|e| format!("graph-only reload with NoDist: {}", e))?;
        let mut io3 = HnswIo::new(&dir, &name);
        let r: Hnsw<C::T, C::D> = io3.load_hnsw().map_err(|e| format!("reload: {}", e))?;
        check_flat(&r, &want, &absent).map_err(|e| format!("flattened reload: {}", e))?;
        cov.class("reloaded");
        cov.nontrivial = n > 2 && h.get_max_level_observed() > 0;
    }
    insert_range::<C>(&mut h, &c.ix.data, n..n + c.more, c.ix.how);
    check_flat(&h, &expected(&view(&h)), &absent).map_err(|e| format!("flattened after insertions: {}", e))?;
    cov.class(C::NAME);
    cov.class_if(c.ix.n > 66_000, "more than 65536 points in layer 0");
    cov.class_if(n == 0, "empty");
    Ok(())
}
impl Prop for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "a generated index (empty ones included) flattened as built, as reloaded, as reloaded graph-only (with and without mapping asked) and after more insertions, compared with the neighbour lists of its points; non-trivial: a graph-only reload of several layers";
    fn cases(t: Tier) -> u64 {
        t.pick(8_000, 200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 140 } else { 500 };
        (index_strategy(max), 0usize..BASES.len(), any::<u8>(), prop_oneof![3 => Just(false), 1 => Just(true)], prop_oneof![2 => Just(0usize), 1 => 1usize..30])
            .prop_map(|(mut ix, base, dir, map, more)| {
                huge(&mut ix, 2500);
                Case { ix, base, dir, map, more }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C11>()
}
