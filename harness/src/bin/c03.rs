//! C03: filtered search returns only, and finds, accepted points
use anndists::dist::distances::Distance;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sel {
    All,
    Nothing,
    /// about p of 16 points
    Some(u8, u64),
    /// exactly these ranks
    Ranks(Vec<usize>),
    /// all but these ranks
    Without(Vec<usize>),
    /// the points nearest to the query are rejected, p of 16
    Far(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    small: bool,
    queries: Vec<(u64, usize, usize, Sel)>,
}
struct C03;

/// the points found by following layer 0 links from wherever a search can start there: the entry point, or any point linked
/// in an upper layer
fn always_reached<T: Clone>(pts: &[PointView<T>], top: u8) -> HashSet<PidKey> {
    let rank: HashMap<PidKey, usize> = pts.iter().enumerate().map(|(i, p)| (p.pid, i)).collect();
    let links: Vec<Vec<usize>> = pts.iter().map(|p| p.links[0].iter().map(|n| rank[&n.1]).collect()).collect();
    let mut starts: HashSet<usize> = (0..pts.len()).filter(|i| pts[*i].pid.0 == top).collect();
    for p in pts {
        starts.extend(p.links.iter().skip(1).flatten().map(|n| rank[&n.1]));
    }
    let mut common = vec![true; pts.len()];
    for s in starts {
        let mut seen = vec![false; pts.len()];
        seen[s] = true;
        let mut todo = vec![s];
        while let Some(p) = todo.pop() {
            for q in &links[p] {
                if !seen[*q] {
                    seen[*q] = true;
                    todo.push(*q);
                }
            }
        }
        common.iter_mut().zip(seen).for_each(|(c, s)| *c &= s);
    }
    pts.iter().zip(common).filter(|(_, c)| *c).map(|(p, _)| p.pid).collect()
}
fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let n = model.len();
    let pts = by_pid(&h);
    let dist = C::D::default();
    let single = h.get_max_level_observed() == 0 && n <= 2 * c.ix.m + 1;
    let reached = if h.get_point_indexation().get_layer_nb_point(0) > 0 {
        always_reached(&view(&h), h.get_max_level_observed())
    } else {
        HashSet::new()
    };
    for (q, k, ef, sel) in &c.queries {
        let qv = c.ix.data.query::<C>(*q, n);
        let accepted: HashSet<usize> = match sel {
            Sel::All => model.iter().map(|m| m.0).collect(),
            Sel::Nothing => HashSet::new(),
            Sel::Some(p, s) => {
                model.iter().enumerate().filter(|(i, _)| mix2(*s, *i as u64) % 16 < *p as u64).map(|(_, m)| m.0).collect()
            }
            Sel::Ranks(r) => r.iter().filter(|_| n > 0).map(|r| model[r % n].0).collect(),
            Sel::Without(r) => {
                let out: HashSet<usize> = r.iter().filter(|_| n > 0).map(|r| r % n).collect();
                (0..n).filter(|i| !out.contains(i)).map(|i| model[i].0).collect()
            }
            Sel::Far(p) => {
                let mut o: Vec<usize> = (0..n).collect();
                o.sort_by(|a, b| dist.eval(&qv, &model[*a].1).partial_cmp(&dist.eval(&qv, &model[*b].1)).unwrap());
                o[(n * *p as usize / 16).min(n)..].iter().map(|i| model[*i].0).collect()
            }
        };
        let closure = |id: &usize| accepted.contains(id);
        let mut list: Vec<usize> = accepted.iter().copied().collect();
        // ids that no point has, and ids listed twice, are harmless in a list
        let how = mix(*q ^ 0x115);
        if how % 3 == 0 {
            list.push(c.ix.data.absent_id(3));
        }
        if how % 2 == 0 {
            for j in 0..list.len() {
                if mix2(how, j as u64) % 4 == 0 {
                    let rep = 1 + mix2(how, j as u64) / 4 % 3;
                    for _ in 0..rep {
                        list.push(list[j]);
                    }
                }
            }
            cov.class("list with repeated ids");
        }
        list.sort();
        let ctx = format!("n {} k {} ef {} accepted {} of {}", n, k, ef, accepted.len(), n);
        let r = h.search_filter(&qv, *k, *ef, Some(&closure));
        let rl = h.search_filter(&qv, *k, *ef, Some(&list));
        ensure!(same_answer(&r, &rl), "{}: closure gives {:?}, id list {:?}", ctx, r, rl);
        let rp = h.search_possible_filter(&qv, *k, *ef, Some(&closure));
        ensure!(same_answer(&r, &rp), "{}: search_filter gives {:?}, search_possible_filter {:?}", ctx, r, rp);
        for a in &r {
            ensure!(accepted.contains(&a.d_id), "{}: rejected id {} returned", ctx, a.d_id);
        }
        // well formed (an empty answer is allowed here)
        if !r.is_empty() {
            check_answer(&r, &qv, *k, &dist, &pts).map_err(|e| format!("{}: {}", ctx, e))?;
        }
        if accepted.len() == n {
            let u = h.search(&qv, *k, *ef);
            ensure!(same_answer(&r, &u), "{}: filter accepting all gives {:?}, no filter {:?}", ctx, r, u);
            let yes = |_: &usize| true;
            let r2 = h.search_filter(&qv, *k, *ef, Some(&yes));
            ensure!(same_answer(&r2, &u), "{}: constant filter gives {:?}, no filter {:?}", ctx, r2, u);
            cov.class("accepts all");
        }
        cov.class_if(accepted.is_empty() && n > 0, "accepts nothing");
        if single && *ef >= n {
            let want = brute(&qv, model.iter().filter(|m| accepted.contains(&m.0)), *k, &dist);
            let got = dists(&r);
            ensure_eq!(got.len(), want.len(), "{}: number of answers", ctx);
            ensure!(
                got.iter().zip(&want).all(|(a, b)| a == b || (a - b).abs() <= 1e-5 * b.abs()),
                "{}: distances {:?} instead of {:?}", ctx, got, want
            );
            cov.class("exact regime");
            if !accepted.is_empty() && accepted.len() < n {
                cov.nontrivial = true;
                cov.class("exact regime, partial filter");
            }
        }
        // with fewer accepted points than ef nothing stops the search before it has seen all it can reach
        if accepted.len() < (*ef).max(*k) {
            let here: HashSet<PidKey> = r.iter().map(|a| key(&a.p_id)).collect();
            for (pid, (id, v)) in &pts {
                if !accepted.contains(id) || !reached.contains(pid) {
                    continue;
                }
                cov.add("accepted points that must be found or be too far", 1);
                let d = dist.eval(&qv, v).max(dist.eval(v, &qv));
                ensure!(
                    here.contains(pid) || (r.len() == *k && r.last().is_none_or(|a| d >= a.distance)),
                    "{}: {} answers up to {:?}, the accepted point {} at distance {} is missing",
                    ctx, r.len(), r.last().map(|a| a.distance), id, d
                );
                cov.nontrivial = true;
            }
            cov.class_if(!single && accepted.len() < n, "fewer accepted points than ef");
        }
        if !accepted.is_empty() && accepted.len() < n && !r.is_empty() {
            cov.nontrivial = true;
        }
        cov.class_if(!accepted.is_empty() && r.is_empty() && *k > 0, "accepted points, none found");
    }
    cov.class(C::NAME);
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    Ok(())
}
fn sel() -> BoxedStrategy<Sel> {
    prop_oneof![
        2 => Just(Sel::All),
        2 => Just(Sel::Nothing),
        6 => (1u8..16, any::<u64>()).prop_map(|(p, s)| Sel::Some(p, s)),
        5 => prop::collection::vec(any::<usize>(), 1..4).prop_map(Sel::Ranks),
        2 => prop::collection::vec(any::<usize>(), 1..4).prop_map(Sel::Without),
        3 => (1u8..16).prop_map(Sel::Far),
    ]
    .boxed()
}
impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "a generated index, and filtered searches (accepting all, none, random fractions, chosen points, all but chosen points, only far points) through closures and id lists, half of them in the exact regime (one layer, n <= 2M+1, ef >= n) against a filtered brute force scan; non-trivial: a filter accepting some but not all points with an answer or an exact judgement";
    fn cases(t: Tier) -> u64 {
        t.pick(16_000, 400_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 200 } else { 600 };
        let kq = prop_oneof![1 => Just(0usize), 6 => 1usize..12, 2 => 12usize..60];
        let ef = prop_oneof![1 => Just(0usize), 2 => 1usize..10, 4 => 10usize..120, 2 => 120usize..600];
        (
            index_strategy(max),
            any::<bool>(),
            any::<u32>(),
            prop::collection::vec((any::<u64>(), kq, ef, sel()), 1..8),
        )
            .prop_map(|(mut ix, small, r, queries)| {
                if small {
                    let lim = (2 * ix.m + 1).min(150);
                    ix.max_layer = 1;
                    ix.n = r as usize % (lim + 1);
                } else if ix.level_seed % 40 == 3 {
                    // few accepted points in a larger index
                    ix.n = 300 + r as usize % 1500;
                    ix.data.dim = 1 + ix.data.dim % 8;
                    ix.efc = ix.efc.min(80);
                    ix.m = ix.m.min(24);
                }
                Case { ix, small, queries }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C03>()
}
