//! C18: a reloaded index keeps working as the original would
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Reload {
    Plain,
    Mapped,
    Threshold(usize),
    WithDist,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(How, usize),
    Search(Vec<(u64, usize, usize)>),
    /// batch search, and what it leaves behind
    Batch(Vec<u64>, usize, usize),
    Filter(u64, usize, usize, u8),
    /// dump under one of a few names, the index goes on
    Dump(u8),
    /// dump and go on with the reloaded index
    Reload(u8, Reload),
    Flags(bool, bool),
    Mode(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    dir: u8,
    ops: Vec<Op>,
}
struct C18;

struct St<'a> {
    c: &'a Case,
    dir: &'a Path,
    /// points inserted since the last reload, reloads so far
    fresh: usize,
    reloads: usize,
    searched_mixed: bool,
}

fn verify<C: Cfg>(h: &Hnsw<'_, C::T, C::D>, model: &Model<C>, st: &mut St, cov: &mut Cov) -> Outcome {
    check_content(h, model, 16)?;
    check_links(h, st.c.ix.m, &C::D::default(), true, cov)?;
    check_reciprocal(&view(h), st.c.ix.m, cov)
}
fn answer<C: Cfg>(h: &Hnsw<'_, C::T, C::D>, model: &Model<C>, q: &[C::T], k: usize, ef: usize, got: &[Neighbour], st: &mut St, cov: &mut Cov) -> Outcome {
    let d = C::D::default();
    check_answer(got, q, k, &d, &by_pid(h))?;
    // all points in layer 0 and in reach of each other
    if h.get_max_level_observed() == 0 && model.len() <= 2 * st.c.ix.m + 1 && ef >= model.len() {
        let want = brute(q, model.iter(), k, &d);
        let g = dists(got);
        ensure!(g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-5 * b.abs().max(1e-3)), "k {} ef {}: distances {:?} instead of {:?}", k, ef, g, want);
        cov.class_if(st.reloads > 0, "exact answer after a reload");
        cov.class_if(st.reloads > 0 && st.fresh > 0, "exact answer, reloaded and new points");
    }
    if st.reloads > 0 && st.fresh > 0 && k > 0 {
        st.searched_mixed = true;
    }
    Ok(())
}
fn step<C: Cfg>(h: &mut Hnsw<'_, C::T, C::D>, mut model: Model<C>, ops: &[Op], mut st: St, cov: &mut Cov) -> Outcome {
    for (i, op) in ops.iter().enumerate() {
        let data = &st.c.ix.data;
        let at = |e: String| format!("{:?} after {} reloads: {}", op, st.reloads, e);
        match op {
            Op::Insert(how, n) => {
                let new = insert_range::<C>(h, data, model.len()..model.len() + n, *how);
                model.extend(new);
                st.fresh += n;
                cov.class_if(st.reloads > 0, "insertion after a reload");
                verify::<C>(h, &model, &mut st, cov).map_err(|e| format!("{:?}: {}", op, e))?;
            }
            Op::Search(qs) => {
                for (q, k, ef) in qs {
                    let v = data.query::<C>(*q, model.len());
                    let r = h.search(&v, *k, *ef);
                    answer::<C>(h, &model, &v, *k, *ef, &r, &mut st, cov).map_err(|e| format!("{:?}: {}", op, e))?;
                }
            }
            Op::Batch(qs, k, ef) => {
                let vs: Vec<Vec<C::T>> = qs.iter().map(|q| data.query::<C>(*q, model.len())).collect();
                let r = h.parallel_search(&vs, *k, *ef);
                ensure_eq!(r.len(), vs.len(), "answers of a batch");
                for (v, r) in vs.iter().zip(&r) {
                    answer::<C>(h, &model, v, *k, *ef, r, &mut st, cov).map_err(|e| format!("{:?}: {}", op, e))?;
                }
            }
            Op::Filter(q, k, ef, r) => {
                let v = data.query::<C>(*q, model.len());
                let keep = |id: &usize| mix(*id as u64) % 8 < *r as u64 % 9;
                let got = h.search_filter(&v, *k, *ef, Some(&keep));
                ensure!(got.iter().all(|n| keep(&n.d_id)), "filtered search returns a rejected point");
                ensure!(got.len() <= *k, "filtered search returns too many");
                for n in &got {
                    let Some((_, w)) = model.iter().find(|p| p.0 == n.d_id) else { return Err(format!("unknown id {}", n.d_id)) };
                    let d = C::D::default();
                    ensure!(same_dist(n.distance, d.eval(&v, w), d.eval(w, &v)), "distance of a filtered answer");
                }
            }
            Op::Flags(a, b) => {
                h.set_extend_candidates(*a);
                h.set_keeping_pruned(*b);
            }
            Op::Mode(m) => h.set_searching_mode(*m),
            Op::Dump(b) | Op::Reload(b, _) => {
                let base = BASES[*b as usize % 3];
                if model.is_empty() {
                    ensure!(h.file_dump(st.dir, base).is_err(), "dump of an empty index reports success");
                    continue;
                }
                let before = snap(h, true);
                let name = h.file_dump(st.dir, base).map_err(|e| at(format!("dump: {}", e)))?;
                diff_snap(&before, &snap(h, true)).map_err(|e| at(format!("a dump changed the index: {}", e)))?;
                cov.class_if(st.reloads > 0 && st.fresh > 0, "dump of reloaded and new points");
                let mut how = if let Op::Reload(_, r) = op { *r } else { Reload::Plain };
                if !C::ALIGN_OK_MMAP && matches!(how, Reload::Mapped | Reload::Threshold(_)) {
                    how = Reload::Plain;
                }
                let opt = match how {
                    Reload::Mapped => ReloadOptions::default().set_mmap(true),
                    Reload::Threshold(t) => ReloadOptions::default().set_mmap_threshold(t),
                    _ => ReloadOptions::default(),
                };
                let mut io = HnswIo::new_with_options(st.dir, &name, opt);
                let mut r: Hnsw<C::T, C::D> = if how == Reload::WithDist { io.load_hnsw_with_dist(C::D::default()) } else { io.load_hnsw() }
                    .map_err(|e| at(format!("reload of a dump that reported success: {}", e)))?;
                check_same(h, &r, &[]).map_err(|e| at(format!("reloaded index differs: {}", e)))?;
                if let Op::Reload(..) = op {
                    cov.class(&format!("reload {}", format!("{:?}", how).split('(').next().unwrap()));
                    let st2 = St { c: st.c, dir: st.dir, fresh: 0, reloads: st.reloads + 1, searched_mixed: st.searched_mixed };
                    return step::<C>(&mut r, model, &ops[i + 1..], st2, cov);
                }
            }
        }
    }
    verify::<C>(h, &model, &mut st, cov).map_err(|e| format!("at the end: {}", e))?;
    cov.nontrivial = st.searched_mixed;
    cov.class_if(st.reloads >= 2, "two reloads or more");
    cov.class(C::NAME);
    cov.class_if(model.len() > 66_000, "more than 65536 points in layer 0");
    Ok(())
}
fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (mut h, model) = c.ix.build::<C>();
    let dir = dump_dir("c18", c.dir);
    let st = St { c, dir: &dir, fresh: 0, reloads: 0, searched_mixed: false };
    step::<C>(&mut h, model, &c.ops, st, cov)
}
impl Prop for C18 {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "a generated index followed by a generated history of insertions (all forms), searches, filtered and batch searches, flag changes, dumps under three names, and reloads (plain, mapped, mapped above a threshold, with explicit distance) that the history goes on with; content, links and answers checked against the model of all inserted points, exactness when all points are at layer 0 and at most 2M+1. Non-trivial: a search on an index holding both reloaded and newly inserted points";
    fn cases(t: Tier) -> u64 {
        t.pick(14_000, 300_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let (max, ops) = if t == Tier::Quick { (60, 14) } else { (200, 30) };
        let how = prop_oneof![3 => Just(How::Insert), 1 => Just(How::Slice), 1 => Just(How::Trait), 1 => Just(How::Par), 1 => Just(How::ParSlice), 1 => Just(How::ParTrait)];
        let k = || prop_oneof![1 => Just(0usize), 4 => 1usize..15];
        let ef = || prop_oneof![2 => 1usize..20, 2 => 20usize..120];
        let rel = prop_oneof![2 => Just(Reload::Plain), 3 => Just(Reload::Mapped), 2 => (0usize..80).prop_map(Reload::Threshold), 1 => Just(Reload::WithDist)];
        let op = prop_oneof![
            5 => (how, prop_oneof![1 => 0usize..2, 3 => 1usize..20]).prop_map(|(h, n)| Op::Insert(h, n)),
            6 => prop::collection::vec((any::<u64>(), k(), ef()), 1..4).prop_map(Op::Search),
            1 => (prop::collection::vec(any::<u64>(), 0..6), k(), ef()).prop_map(|(q, k, e)| Op::Batch(q, k, e)),
            1 => (any::<u64>(), k(), ef(), any::<u8>()).prop_map(|(q, k, e, r)| Op::Filter(q, k, e, r)),
            2 => any::<u8>().prop_map(Op::Dump),
            4 => (any::<u8>(), rel).prop_map(|(b, r)| Op::Reload(b, r)),
            1 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Op::Flags(a, b)),
            1 => any::<bool>().prop_map(Op::Mode),
        ];
        (dumpable_strategy(max), any::<bool>(), any::<u8>(), prop::collection::vec(op, 1..ops))
            .prop_map(|(mut ix, flat, dir, ops)| {
                if flat && ix.m >= 8 {
                    // nearly all points at layer 0
                    ix.scale = vec![20, 20];
                    ix.m = ix.m.max(20);
                }
                huge(&mut ix, 4500);
                Case { ix, dir, ops }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C18>()
}
