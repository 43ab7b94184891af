//! C01: search answers are well formed and truthful
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure};
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    queries: Vec<(u64, usize, usize)>,
}
struct C01;

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let pts = by_pid(&h);
    ensure!(pts.len() == model.len(), "{} points iterated, {} inserted", pts.len(), model.len());
    let dist = C::D::default();
    let ids: std::collections::HashSet<usize> = model.iter().map(|m| m.0).collect();
    for (q, k, ef) in &c.queries {
        let qv = c.ix.data.query::<C>(*q, model.len());
        let r = h.search(&qv, *k, *ef);
        let ctx = |e: String| format!("k {} ef {} query {:?}: {}", k, ef, qv, e);
        check_answer(&r, &qv, *k, &dist, &pts).map_err(ctx)?;
        for n in &r {
            ensure!(ids.contains(&n.d_id), "answer names id {} never inserted", n.d_id);
        }
        for (name, o) in [
            ("search_filter(None)", h.search_filter(&qv, *k, *ef, None)),
            ("search_possible_filter(None)", h.search_possible_filter(&qv, *k, *ef, None)),
            ("search_neighbours", h.search_neighbours(&qv, *k, *ef)),
        ] {
            ensure!(same_answer(&r, &o), "k {} ef {}: search gives {:?}, {} gives {:?}", k, ef, r, name, o);
        }
        cov.class_if(*k > model.len(), "k > n");
        cov.class_if(*ef < *k, "ef < k");
        cov.class_if(r.len() >= 2, "two answers or more");
        cov.class_if(r.windows(2).any(|w| w[0].distance == w[1].distance), "ties");
        if r.len() >= 2 {
            cov.nontrivial = true;
        }
    }
    cov.class(C::NAME);
    cov.class_if(c.ix.n > 66_000, "more than 65536 points in layer 0");
    cov.class_if(model.is_empty(), "empty index");
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    cov.class_if(h.get_point_indexation().get_layer_nb_point(0) == 0 && !model.is_empty(), "nothing in layer 0");
    Ok(())
}
impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "a generated index (element type, distance, data with duplicates and ties, ids, M, ef_construction, layer limit, flags, scale, levels, insertion route) and 1..8 searches with generated k and ef; non-trivial: some answer has at least two points";
    fn cases(t: Tier) -> u64 {
        t.pick(8000, 200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let kq = prop_oneof![3 => Just(0usize), 20 => 1usize..12, 6 => 12usize..80, 3 => 80usize..2000, 1 => 2000usize..200_000];
        let ef = prop_oneof![1 => Just(0usize), 3 => 1usize..10, 4 => 10usize..120, 1 => 120usize..3000];
        (index_strategy(if t == Tier::Quick { 250 } else { 500 }), prop::collection::vec((any::<u64>(), kq, ef), 1..8))
            .prop_map(|(mut ix, queries)| {
                huge(&mut ix, 2500);
                Case { ix, queries }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C01>()
}
