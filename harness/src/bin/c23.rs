//! C23: a search leaves nothing better next to its answers
use anndists::dist::distances::Distance;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure};
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    /// points inserted in a second step, flags changed in between
    more: usize,
    /// (query, k, ef, share of 16 of the accepted points; 16: no filter)
    queries: Vec<(u64, usize, usize, u8)>,
}
struct C23;

#[allow(clippy::too_many_arguments)]
fn judge<T: Clone + Send + Sync, D: Distance<T>>(
    r: &[Neighbour], q: &[T], k: usize, pts: &HashMap<PidKey, PointView<T>>, layer: usize, dist: &D,
    accepted: &dyn Fn(usize) -> bool, cov: &mut Cov,
) -> Outcome {
    let Some(last) = r.last().map(|n| n.distance) else { return Ok(()) };
    let here: HashSet<PidKey> = r.iter().map(|n| key(&n.p_id)).collect();
    let short = r.len() < k;
    cov.class_if(short, "fewer answers than asked");
    for n in r {
        let Some(p) = pts.get(&key(&n.p_id)) else { continue };
        for (id, pid, _) in &p.links[layer] {
            if here.contains(pid) || !accepted(*id) {
                continue;
            }
            let v = &pts[pid].v;
            let d = dist.eval(q, v).max(dist.eval(v, q));
            ensure!(
                !short,
                "{} answers for k = {}, but the answer {} is linked to {} which is not among them", r.len(), k, n.d_id, id
            );
            ensure!(
                d >= last,
                "{} answers up to distance {}: the answer {} is linked to {}, at distance {}, which is not among them",
                r.len(), last, n.d_id, id, d
            );
            cov.nontrivial = true;
        }
    }
    Ok(())
}

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (mut h, mut model) = c.ix.build::<C>();
    if c.more > 0 {
        h.set_extend_candidates(!c.ix.extend);
        h.set_keeping_pruned(!c.ix.keep);
        let n = c.ix.n;
        model.extend(insert_range::<C>(&mut h, &c.ix.data, n..n + c.more, c.ix.how));
    }
    let pts: HashMap<PidKey, PointView<C::T>> = view(&h).into_iter().map(|p| (p.pid, p)).collect();
    let dist = C::D::default();
    // the layer where answers are looked for: the lowest one holding points
    let layer = (0..16).find(|l| h.get_point_indexation().get_layer_nb_point(*l) > 0).unwrap_or(0);
    let top = h.get_max_level_observed();
    let entry = pts.values().filter(|p| p.pid.0 == top).collect::<Vec<_>>();
    for (q, k, ef, part) in &c.queries {
        let qv = c.ix.data.query::<C>(*q, model.len());
        let accepted = |id: usize| *part >= 16 || mix2(*q, id as u64) % 16 < *part as u64;
        let closure = |id: &usize| accepted(*id);
        let filter: Option<&dyn hnsw_rs::filter::FilterT> = if *part >= 16 { None } else { Some(&closure) };
        let ask = |k: usize, ef: usize| match filter {
            None => h.search(&qv, k, ef),
            f => h.search_filter(&qv, k, ef, f),
        };
        let ctx = |e: String| format!("n {} M {} k {} ef {} accepted {}/16 layer {} query {:?}: {}", model.len(), c.ix.m, k, ef, part, layer, qv, e);
        let r = ask(*k, *ef);
        judge(&r, &qv, *k, &pts, layer, &dist, &accepted, cov).map_err(ctx)?;
        // a search asking for as many answers as it explores gives all of what it found
        let width = (*ef).max(*k).max(1);
        let all = ask(width, width);
        judge(&all, &qv, width, &pts, layer, &dist, &accepted, cov).map_err(ctx)?;
        ensure!(
            same_answer(&r, &all[..(*k).min(all.len())]),
            "{}", ctx(format!("{:?} is not the beginning of {:?}, got with k = ef = {}", r, all, width))
        );
        // not farther than where the search starts from
        if let ([e], Some(best), None) = (entry.as_slice(), r.first(), filter) {
            let d = dist.eval(&qv, &e.v).max(dist.eval(&e.v, &qv));
            ensure!(best.distance <= d, "{}", ctx(format!("nearest answer at {}, the entry point {} is at {}", best.distance, e.id, d)));
            cov.class("a single point in the highest layer");
        }
        cov.class_if(filter.is_some() && !r.is_empty(), "filtered");
        cov.class_if(*ef < *k, "ef < k");
        cov.class_if(all.len() > 255, "more than 255 points explored");
    }
    cov.class(C::NAME);
    cov.class_if(top > 0, "several layers");
    cov.class_if(layer > 0, "nothing in layer 0");
    Ok(())
}
impl Prop for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a generated index and 1..8 searches, filtered or not, with generated k and ef, each also asked with k = ef; every link of every answer is judged; non-trivial: an answer has a link to an accepted point that is not among the answers";
    fn cases(t: Tier) -> u64 {
        t.pick(8000, 200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let kq = prop_oneof![1 => Just(0usize), 20 => 1usize..12, 6 => 12usize..80, 1 => 80usize..600];
        let ef = prop_oneof![1 => Just(0usize), 5 => 1usize..10, 4 => 10usize..120, 1 => 120usize..600];
        let part = prop_oneof![3 => Just(16u8), 2 => 0u8..16];
        (
            index_strategy(if t == Tier::Quick { 300 } else { 600 }),
            prop_oneof![2 => Just(0usize), 1 => 1usize..60],
            prop::collection::vec((any::<u64>(), kq, ef, part), 1..8),
        )
            .prop_map(|(ix, more, queries)| Case { ix, more, queries })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C23>()
}
