//! C02: exhaustive search on a fully connected (single layer, at most 2M+1 points) index is exact
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    /// query selector, k, ef above n
    queries: Vec<(u64, usize, usize)>,
    /// search again after each of these numbers of insertions
    stops: Vec<usize>,
}
struct C02;

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let mut h = c.ix.empty::<C>();
    let model = c.ix.model::<C>();
    let dist = C::D::default();
    let mut stops: Vec<usize> = c.stops.iter().map(|s| s % (model.len() + 1)).collect();
    stops.push(model.len());
    stops.sort();
    let mut done = 0;
    let mut exact = 0;
    for s in stops {
        insert_all::<C>(&mut h, &model[done..s], c.ix.how);
        done = s;
        if h.get_max_level_observed() > 0 {
            cov.class("not a single layer");
            break;
        }
        ensure!(done <= 2 * c.ix.m + 1, "harness: too many points");
        for (q, k, more) in &c.queries {
            let qv = c.ix.data.query::<C>(*q, model.len());
            let ef = done + more;
            let r = h.search(&qv, *k, ef);
            let want = brute(&qv, model[..done].iter(), *k, &dist);
            let got = dists(&r);
            ensure_eq!(got.len(), want.len(), "answers to k = {} ef = {} on {} points", k, ef, done);
            // the distance may be evaluated in either direction
            let alt = {
                let mut d: Vec<f32> = model[..done].iter().map(|(_, v)| dist.eval(v, &qv)).collect();
                d.sort_by(|a, b| a.partial_cmp(b).unwrap());
                d.truncate(*k);
                d
            };
            ensure!(got == want || got == alt, "k = {} ef = {} n = {}: distances {:?} instead of {:?}", k, ef, done, got, want);
            if *k > 1 && done > 2 && *k < done {
                cov.nontrivial = true;
                exact += 1;
            }
        }
    }
    cov.class(C::NAME);
    cov.add("exact searches with 1 < k < n", exact);
    cov.class_if(model.len() == 2 * c.ix.m + 1, "n = 2M+1");
    cov.class_if(c.ix.max_layer == 1, "one layer by construction");
    cov.class_if(c.ix.efc < c.ix.m, "ef_construction < M");
    Ok(())
}
use anndists::dist::distances::Distance;
impl Prop for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "an index limited to level 0 (layer limit 1, or levels that all came out 0) of at most 2M+1 points, checked after several numbers of insertions against a brute force scan with ef >= n; non-trivial: some exact search with 1 < k < n";
    fn cases(t: Tier) -> u64 {
        t.pick(16_000, 400_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            index_strategy(60),
            prop_oneof![4 => Just(1usize), 1 => 2usize..20],
            any::<u32>(),
            prop_oneof![1 => Just(true), 1 => Just(false)],
            prop_oneof![3 => Just(How::Insert), 1 => Just(How::Slice), 1 => Just(How::Trait), 1 => Just(How::Par), 1 => Just(How::ParSlice), 1 => Just(How::ParTrait)],
            prop::collection::vec((any::<u64>(), prop_oneof![4 => 1usize..12, 1 => 12usize..120], prop_oneof![Just(0usize), 0usize..100]), 1..6),
            prop::collection::vec(any::<usize>(), 0..3),
        )
            .prop_map(|(mut ix, max_layer, r, full, how, queries, stops)| {
                ix.max_layer = max_layer;
                ix.how = how;
                let lim = 2 * ix.m + 1;
                let lim = if ix.m > 40 && (r >> 8) % 4 != 0 { lim.min(150) } else { lim };
                ix.n = if full { lim } else { r as usize % (lim + 1) };
                Case { ix, queries, stops }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C02>()
}
