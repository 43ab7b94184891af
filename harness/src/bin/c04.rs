//! C04: the index stores exactly the points inserted, whatever the history
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure};
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// insert that many new points
    Add(usize, How),
    Search(u64, usize, usize),
    BatchSearch(u64, usize, usize, usize),
    Filtered(u64, usize, usize),
    Check,
    Mode(bool),
    Flags(bool, bool),
    Scale(i32),
    Flatten,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    ops: Vec<Op>,
}
struct C04;

/// the iterations read by pieces, and asked for more when they are at their end
fn piecewise<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'_, T, D>, n: usize, piece: usize) -> Outcome {
    let pi = h.get_point_indexation();
    let mut whole = pi.into_iter();
    let mut got = std::collections::HashSet::new();
    loop {
        let part: Vec<usize> = whole.by_ref().take(piece).map(|p| p.get_origin_id()).collect();
        if part.is_empty() {
            break;
        }
        let k = part.len();
        let was = got.len();
        got.extend(part);
        ensure!(got.len() == was + k, "points given twice by an iteration read by {}", piece);
    }
    ensure!(got.len() == n, "{} points of {} given by an iteration read by {}", got.len(), n, piece);
    for i in 0..20 {
        ensure!(whole.next().is_none(), "the iteration starts again {} calls after its end", i);
    }
    drop(whole);
    for l in 0..h.get_max_level() {
        let mut it = pi.get_layer_iterator(l);
        let c = it.by_ref().count();
        ensure!(c == pi.get_layer_nb_point(l), "{} points given in layer {}", c, l);
        ensure!((0..3).all(|_| it.next().is_none()), "the iteration of layer {} starts again after its end", l);
    }
    Ok(())
}
fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let mut h = c.ix.empty::<C>();
    let mut model: Model<C> = Vec::new();
    check_content(&h, &model, c.ix.max_layer)?;
    piecewise(&h, 0, 1)?;
    let mut dim_first = None;
    for op in &c.ops {
        match op {
            Op::Add(k, how) => {
                let start = model.len();
                let new: Model<C> = (start..start + k).map(|i| (c.ix.data.id(i), c.ix.data.vec::<C>(i))).collect();
                if let (None, Some(f)) = (dim_first, new.first()) {
                    dim_first = Some(f.1.len());
                }
                insert_all::<C>(&mut h, &new, *how);
                model.extend(new);
                cov.class(&format!("{:?}", how));
            }
            Op::Search(q, k, ef) => {
                h.search(&c.ix.data.query::<C>(*q, model.len()), *k, *ef);
            }
            Op::BatchSearch(q, nq, k, ef) => {
                let qs: Vec<Vec<C::T>> = (0..*nq).map(|i| c.ix.data.query::<C>(q.wrapping_add(i as u64), model.len())).collect();
                h.parallel_search(&qs, *k, *ef);
                h.parallel_search_neighbours(&qs, *k, *ef);
            }
            Op::Filtered(q, k, ef) => {
                let f = |id: &usize| id % 3 != 0;
                h.search_filter(&c.ix.data.query::<C>(*q, model.len()), *k, *ef, Some(&f));
            }
            Op::Check => check_content(&h, &model, c.ix.max_layer)?,
            Op::Mode(b) => h.set_searching_mode(*b),
            Op::Flags(a, b) => {
                h.set_extend_candidates(*a);
                h.set_keeping_pruned(*b);
            }
            Op::Scale(f) => h.modify_level_scale(*f as f64 / 100.),
            Op::Flatten => {
                let f = FlatNeighborhood::from(&h);
                for (id, _) in &model {
                    ensure!(f.get_neighbours(*id).is_some(), "id {} unknown to the flattened index", id);
                }
                ensure!(f.get_neighbours(c.ix.data.absent_id(1)).is_none(), "unknown id in the flattened index");
            }
        }
        ensure!(h.get_nb_point() == model.len(), "{} points counted after {:?}, {} inserted", h.get_nb_point(), op, model.len());
    }
    check_content(&h, &model, c.ix.max_layer)?;
    piecewise(&h, model.len(), 1 + c.ix.hint % 9)?;
    if !C::VARLEN && !model.is_empty() {
        ensure!(
            h.get_point_indexation().get_data_dimension() == dim_first.unwrap(),
            "dimension reported {} instead of {}", h.get_point_indexation().get_data_dimension(), dim_first.unwrap()
        );
    }
    ensure!(h.get_max_nb_connection() as usize == c.ix.m, "M reported {}", h.get_max_nb_connection());
    ensure!(h.get_ef_construction() == c.ix.efc, "ef_construction reported {}", h.get_ef_construction());
    ensure!(h.get_distance_name() == std::any::type_name::<C::D>(), "distance name {}", h.get_distance_name());
    cov.nontrivial = model.len() >= 2;
    cov.class(C::NAME);
    cov.class_if(model.is_empty(), "empty index");
    cov.class_if(h.get_point_indexation().get_layer_nb_point(0) > 65_536, "more than 65536 points in layer 0");
    cov.class_if(model.len() > 4096, "more than 4096 points");
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    cov.class_if(
        (0..h.get_max_level_observed() as usize).any(|l| h.get_point_indexation().get_layer_nb_point(l) == 0),
        "an empty layer below the top",
    );
    Ok(())
}
pub fn how() -> BoxedStrategy<How> {
    prop_oneof![
        6 => Just(How::Insert), 2 => Just(How::Slice), 2 => Just(How::Trait),
        1 => Just(How::Par), 1 => Just(How::ParSlice), 1 => Just(How::ParTrait)
    ]
    .boxed()
}
impl Prop for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "a history of insertions (single, slice, trait, the three parallel batches), searches, setters and flattenings, all counts, iterations, lookups and reports compared with the model at the start, at generated points and at the end; non-trivial: two points or more";
    fn cases(t: Tier) -> u64 {
        t.pick(16_000, 300_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = if t == Tier::Quick { 60usize } else { 300 };
        let op = prop_oneof![
            2 => (0usize..3, how()).prop_map(|(k, h)| Op::Add(k, h)),
            4 => (1usize..big, how()).prop_map(|(k, h)| Op::Add(k, h)),
            2 => (any::<u64>(), 0usize..10, 0usize..40).prop_map(|(a, b, c)| Op::Search(a, b, c)),
            1 => (any::<u64>(), 0usize..6, 0usize..10, 0usize..40).prop_map(|(a, b, c, d)| Op::BatchSearch(a, b, c, d)),
            1 => (any::<u64>(), 0usize..10, 0usize..40).prop_map(|(a, b, c)| Op::Filtered(a, b, c)),
            2 => Just(Op::Check),
            1 => any::<bool>().prop_map(Op::Mode),
            1 => any::<(bool, bool)>().prop_map(|(a, b)| Op::Flags(a, b)),
            1 => (20i32..=100).prop_map(Op::Scale),
            1 => Just(Op::Flatten),
        ];
        (index_strategy(10), prop::collection::vec(op, 0..10)).prop_map(|(mut ix, mut ops)| {
            if ix.level_seed % 4000 == 7 {
                // more points in a layer than 16 bits can count
                (ix.m, ix.efc, ix.extend) = (40, 1 + ix.efc % 4, false);
                (ix.data.dim, ix.data.palette, ix.data.clusters, ix.data.dup16) = (2, Palette::Wide, 0, 0);
                ix.scale.clear();
                ops.retain(|o| !matches!(o, Op::Flags(..) | Op::Scale(_)));
                ops.insert(ops.len() / 2, Op::Add(70_000 + ix.hint * 20, How::ParSlice));
            }
            if ix.level_seed % 160 == 3 {
                // batches as large as recommended for the parallel insertions
                (ix.m, ix.efc, ix.extend) = (ix.m.clamp(4, 40), 1 + ix.efc % 16, false);
                ix.data.dim = ix.data.dim.min(3);
                ops.retain(|o| !matches!(o, Op::Flags(..)));
                let r = mix2(ix.level_seed, 5);
                let how = [How::Par, How::ParSlice, How::ParTrait][(r % 3) as usize];
                ops.insert(ops.len() / 2, Op::Add(500 + (r >> 8) as usize % 7500, how));
            }
            Case { ix, ops }
        }).boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C04>()
}
