//! C24: an insertion links the new point as documented, and changes nothing else
use anndists::dist::distances::Distance;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    how: u8,
    /// new values of extend_candidates and keep_pruned
    flags: Option<(bool, bool)>,
    /// a search between insertions
    search: Option<(u64, usize, usize)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    steps: Vec<Step>,
    /// the judged insertions are made in the reloaded index (1 plain, 2 mapped, 3 explicit distance)
    reload: u8,
}
struct C24;

type Pts<T> = HashMap<PidKey, PointView<T>>;
type Found = Vec<(PidKey, f32)>;

/// the points a search of the given width keeps, nearest first (no two points at the same distance of q)
fn search_layer<T: Clone + Send + Sync, D: Distance<T>>(pts: &Pts<T>, q: &[T], entry: PidKey, width: usize, layer: usize, dist: &D) -> Found {
    if (entry.0 as usize) < layer {
        return vec![];
    }
    let d0 = dist.eval(q, &pts[&entry].v);
    let mut kept: Found = vec![(entry, d0)];
    let mut todo: Found = vec![(entry, d0)];
    let mut seen = HashSet::from([entry]);
    let put = |list: &mut Found, x: (PidKey, f32)| {
        let at = list.partition_point(|y| y.1 <= x.1);
        list.insert(at, x)
    };
    while !todo.is_empty() {
        let c = todo.remove(0);
        if c.1 > kept.last().unwrap().1 {
            break;
        }
        for (_, e, _) in &pts[&c.0].links[layer] {
            if seen.insert(*e) {
                let d = dist.eval(q, &pts[e].v);
                if d < kept.last().unwrap().1 || kept.len() < width {
                    put(&mut todo, (*e, d));
                    put(&mut kept, (*e, d));
                    kept.truncate(width.max(1));
                }
            }
        }
    }
    kept
}
/// the links documented for a new point with the given candidates (nearest first)
#[allow(clippy::too_many_arguments)]
fn select<T: Clone + Send + Sync, D: Distance<T>>(
    pts: &Pts<T>, q: &[T], mut cands: Found, most: usize, extend: bool, keep: bool, layer: usize, dist: &D, cov: &mut Cov,
) -> Found {
    if cands.len() <= most {
        if !extend {
            return cands;
        }
        let mut all: BTreeSet<PidKey> = cands.iter().map(|c| c.0).collect();
        for (p, _) in cands.clone() {
            for (_, e, _) in &pts[&p].links[layer] {
                if all.insert(*e) {
                    cov.class("extended candidates");
                    cands.push((*e, dist.eval(q, &pts[e].v)));
                }
            }
        }
        cands.sort_by(|a, b| a.1.total_cmp(&b.1));
    }
    let (mut chosen, mut left): (Found, Found) = (vec![], vec![]);
    for c in cands {
        if chosen.len() == most {
            break;
        }
        let v = &pts[&c.0].v;
        if chosen.iter().any(|s| dist.eval(v, &pts[&s.0].v) <= c.1) {
            left.push(c);
        } else {
            chosen.push(c);
        }
    }
    cov.class_if(!left.is_empty(), "candidates pruned");
    if keep {
        left.truncate(most - chosen.len());
        chosen.extend(left);
        chosen.sort_by(|a, b| a.1.total_cmp(&b.1));
    }
    chosen
}

fn frame<T: Clone>(before: &Pts<T>, after: &Pts<T>, new: &PointView<T>, m: usize) -> Outcome {
    let linked: HashSet<PidKey> = new.links.iter().flatten().map(|n| n.1).collect();
    for (pid, b) in before {
        let Some(a) = after.get(pid) else { return Err(format!("the point {} {:?} is gone", b.id, pid)) };
        ensure_eq!(a.id, b.id, "id of {:?}", pid);
        let mut gained = 0;
        for (l, (lb, la)) in b.links.iter().zip(&a.links).enumerate() {
            if lb == la {
                continue;
            }
            let (sb, sa): (HashSet<_>, HashSet<_>) =
                (lb.iter().map(|n| (n.1, n.2.to_bits())).collect(), la.iter().map(|n| (n.1, n.2.to_bits())).collect());
            let added: Vec<_> = sa.difference(&sb).collect();
            let removed: Vec<_> = sb.difference(&sa).collect();
            let what = || format!("list of {} {:?} at layer {} from {:?} to {:?}, inserting {} {:?}", b.id, pid, l, lb, la, new.id, new.pid);
            ensure!(added.len() <= 1 && added.iter().all(|x| x.0 == new.pid), "links to older points appear: {}", what());
            ensure!(removed.len() <= added.len(), "links are lost: {}", what());
            ensure!(added.is_empty() || linked.contains(pid), "a point the new one is not linked to links to it: {}", what());
            let most = if l == 0 { 2 * m } else { m };
            if let Some(r) = removed.first() {
                let far = la.iter().map(|n| n.2).fold(0f32, f32::max);
                ensure!(lb.len() >= most && f32::from_bits(r.1) >= far, "a link is lost from a list with room, or not the farthest: {}", what());
            }
            gained += added.len();
        }
        ensure!(gained <= 1, "{} {:?} links to the new point {} at several layers", b.id, pid, new.id);
    }
    Ok(())
}

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let mut h = c.ix.empty::<C>();
    // searches start from the first point of the highest level
    let mut entry: Option<PidKey> = None;
    let start = c.ix.n - c.steps.len();
    for i in 0..start {
        h.insert((c.ix.data.vec::<C>(i).as_slice(), c.ix.data.id(i)));
        // levels only increase the entry point
        let top = h.get_max_level_observed();
        if entry.is_none_or(|e| e.0 < top) {
            entry = Some((top, 0));
        }
    }
    if c.reload > 0 && start > 0 && c.ix.max_layer >= 16 && (c.reload != 2 || C::ALIGN_OK_MMAP) {
        let dir = scratch("c24");
        let name = h.file_dump(&dir, "d").map_err(|e| format!("dump: {}", e))?;
        let mut io = HnswIo::new_with_options(&dir, &name, ReloadOptions::default().set_mmap(c.reload == 2));
        let mut r: Hnsw<C::T, C::D> =
            if c.reload == 3 { io.load_hnsw_with_dist(C::D::default()) } else { io.load_hnsw() }.map_err(|e| format!("reload: {}", e))?;
        r.set_extend_candidates(c.ix.extend);
        r.set_keeping_pruned(c.ix.keep);
        cov.class("insertions after a reload");
        return steps::<C>(c, &mut r, entry, cov).map_err(|e| format!("reloaded: {}", e));
    }
    steps::<C>(c, &mut h, entry, cov)
}
fn steps<C: Cfg>(c: &Case, h: &mut Hnsw<'_, C::T, C::D>, mut entry: Option<PidKey>, cov: &mut Cov) -> Outcome {
    let dist = C::D::default();
    let look = |h: &Hnsw<'_, C::T, C::D>| -> Pts<C::T> { view(h).into_iter().map(|p| (p.pid, p)).collect() };
    let (mut extend, mut keep) = (c.ix.extend, c.ix.keep);
    let mut before = look(h);
    for (s, i) in c.steps.iter().zip(c.ix.n - c.steps.len()..) {
        let (id, v) = (c.ix.data.id(i), c.ix.data.vec::<C>(i));
        if let Some((e, k)) = s.flags {
            (extend, keep) = (e, k);
            h.set_extend_candidates(e);
            h.set_keeping_pruned(k);
        }
        if let Some((q, k, ef)) = s.search {
            h.search(&c.ix.data.query::<C>(q, i), k, ef);
        }
        match s.how % 5 {
            0 => h.insert((v.as_slice(), id)),
            1 => h.insert_slice((v.as_slice(), id)),
            2 => h.insert_data(&v, id),
            3 => h.parallel_insert(&[(&v, id)]),
            _ => h.parallel_insert_slice(&vec![(v.as_slice(), id)]),
        }
        let after = look(h);
        let fresh: Vec<&PointView<C::T>> = after.values().filter(|p| !before.contains_key(&p.pid)).collect();
        ensure!(fresh.len() == 1 && fresh[0].id == id, "inserting {} gave {} new points", id, fresh.len());
        let new = fresh[0];
        let level = new.pid.0 as usize;
        frame(&before, &after, new, c.ix.m)?;
        let ds: HashSet<u32> = before.values().map(|p| dist.eval(&v, &p.v).to_bits()).collect();
        if let (Some(e), true) = (entry, ds.len() == before.len()) {
            let mut at = e;
            for l in (level + 1..=e.0 as usize).rev() {
                if let Some(x) = search_layer(&before, &v, at, 1, l, &dist).first() {
                    if x.1 < dist.eval(&v, &before[&at].v) {
                        at = x.0;
                    }
                }
            }
            for l in (0..=level).rev() {
                let cands = search_layer(&before, &v, at, c.ix.efc, l, &dist);
                let most = if l == 0 { 2 * c.ix.m } else { c.ix.m };
                let n = cands.len();
                let want = select(&before, &v, cands, most, extend && l == 0, keep, l, &dist, cov);
                let got: Found = new.links[l].iter().map(|n| (n.1, n.2)).collect();
                ensure!(
                    got == want,
                    "point {} {:?}, {} candidates at layer {}, limit {}, extend {} keep {}: links {:?} instead of {:?}",
                    id, new.pid, n, l, most, extend && l == 0, keep, got, want
                );
                if let Some(x) = want.first() {
                    at = x.0;
                    cov.nontrivial |= n > 1;
                }
                cov.class_if(l > 0 && n > 0, "links of an upper layer judged");
            }
            cov.add("insertions judged exactly", 1);
        } else {
            cov.add("insertions judged by what may change", 1);
        }
        // the points it is linked to know it
        for (l, list) in new.links.iter().enumerate().take(level + 1) {
            for (qid, pid, d) in list {
                let q = &after[pid];
                let full = |k: usize| q.links[k].len() >= if k == 0 { 2 * c.ix.m } else { c.ix.m } && q.links[k].iter().all(|n| n.2 <= *d);
                ensure!(
                    q.links.iter().flatten().any(|n| n.1 == new.pid) || full(level) || (0..=pid.0 as usize).any(full),
                    "the new point {} {:?} is linked at layer {} to {} {:?}, whose lists have room but do not name it", id, new.pid, l, qid, pid
                );
            }
        }
        if entry.is_none_or(|e| e.0 < new.pid.0) {
            entry = Some(new.pid);
        }
        before = after;
    }
    cov.class(C::NAME);
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    Ok(())
}
impl Prop for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "points inserted one by one; around each of the last 1..12 insertions all lists are compared: what may change, and, when no two distances tie, the new point's lists against those computed from the lists before by the documented search and selection; non-trivial: an insertion with two candidates or more judged exactly";
    fn cases(t: Tier) -> u64 {
        t.pick(8_000, 200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let step = (
            any::<u8>(),
            prop_oneof![3 => Just(None), 1 => any::<(bool, bool)>().prop_map(Some)],
            prop_oneof![4 => Just(None), 1 => (any::<u64>(), 0usize..8, 0usize..20).prop_map(Some)],
        )
            .prop_map(|(how, flags, search)| Step { how, flags, search });
        (index_strategy(if t == Tier::Quick { 200 } else { 500 }), prop::collection::vec(step, 1..12), 0u8..4, 0u8..12)
            .prop_map(|(mut ix, mut steps, plain, reload)| {
                if plain > 0 {
                    // distances seldom tie
                    ix.data.palette = Palette::Wide;
                    ix.data.dup16 = 0;
                }
                ix.how = How::Insert;
                steps.truncate(ix.n);
                Case { ix, steps, reload: if reload < 4 { reload } else { 0 } }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C24>()
}
