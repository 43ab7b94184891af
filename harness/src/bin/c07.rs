//! C07: searching is read-only, repeatable, and batch equals single
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    batches: Vec<(Vec<u64>, usize, usize)>,
    threads: usize,
    mode: bool,
    /// short searches between two times the same query is asked
    between: usize,
}
struct C07;

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (mut h, model) = c.ix.build::<C>();
    h.set_searching_mode(c.mode);
    let before = snap(&h, true);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().unwrap();
    for (qs, k, ef) in &c.batches {
        let qv: Vec<Vec<C::T>> = qs.iter().map(|q| c.ix.data.query::<C>(*q, model.len())).collect();
        let single: Vec<Vec<Neighbour>> = qv.iter().map(|q| h.search(q, *k, *ef)).collect();
        for (name, batch) in [
            ("parallel_search", h.parallel_search(&qv, *k, *ef)),
            ("parallel_search_neighbours", h.parallel_search_neighbours(&qv, *k, *ef)),
            ("parallel_search in another pool", pool.install(|| h.parallel_search(&qv, *k, *ef))),
        ] {
            ensure_eq!(batch.len(), qv.len(), "{}: number of answers", name);
            for (i, (a, b)) in batch.iter().zip(&single).enumerate() {
                ensure!(same_answer(a, b), "{} k {} ef {} query {} of {}: {:?} instead of {:?}", name, k, ef, i, qv.len(), a, b);
            }
        }
        if c.between > 0 {
            let other = c.ix.data.query::<C>(mix(c.ix.level_seed), model.len());
            for q in qv.iter().take(3) {
                let first = h.search(q, *k, *ef);
                for _ in 0..c.between {
                    h.search(&other, 1, 1);
                }
                let again = h.search(q, *k, *ef);
                ensure!(same_answer(&first, &again), "search answers {:?}, and after {} others {:?}", first, c.between, again);
            }
            cov.class_if(c.between > 30_000, "tens of thousands of searches in between");
        }
        // again, in reverse order
        for (i, q) in qv.iter().enumerate().rev() {
            let again = h.search(q, *k, *ef);
            ensure!(same_answer(&again, &single[i]), "repeated search differs: {:?} then {:?}", single[i], again);
        }
        cov.class_if(qv.is_empty(), "empty batch");
        cov.class_if(qv.len() > 1000, "more than 1000 queries");
        cov.class_if(qv.len() > 1 && qs.windows(2).any(|w| w[0] == w[1]), "repeated query");
        if qv.len() > 1 && single.iter().any(|s| !s.is_empty()) && single.windows(2).any(|w| !same_answer(&w[0], &w[1])) {
            cov.nontrivial = true;
        }
    }
    diff_snap(&before, &snap(&h, true)).map_err(|e| format!("searching changed the index: {}", e))?;
    check_content(&h, &model, c.ix.max_layer)?;
    cov.class(C::NAME);
    Ok(())
}
impl Prop for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "a generated index and batches of 0..400 queries, few of thousands, (repeats included) run one by one, in two batch forms and in pools of other sizes, with a snapshot of points and links before and after; non-trivial: a batch with different non-empty answers";
    fn cases(t: Tier) -> u64 {
        t.pick(5_000, 120_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 150 } else { 400 };
        let qs = prop_oneof![
            3 => Just(vec![]),
            18 => prop::collection::vec(any::<u64>(), 1..12),
            6 => prop::collection::vec(0u64..4, 1..12),
            3 => prop::collection::vec(any::<u64>(), 12..40),
            1 => prop::collection::vec(any::<u64>(), 40..400),
        ];
        (
            index_strategy(max),
            prop::collection::vec((qs, 0usize..15, prop_oneof![0usize..10, 10usize..80]), 1..4),
            1usize..8,
            any::<bool>(),
        )
            .prop_map(|(ix, mut batches, threads, mode)| {
                if ix.level_seed % 200 == 3 {
                    // a batch of thousands of short searches
                    let n = 400 + mix2(ix.level_seed, 9) % 6000;
                    batches.truncate(1);
                    batches[0] = ((0..n).collect(), 1 + batches[0].1 % 4, batches[0].2 % 10);
                }
                let mut ix = ix;
                let mut between = 0;
                if ix.level_seed % 16 == 5 {
                    between = [127, 255, 256, 511][(ix.level_seed >> 8) as usize % 4];
                }
                if ix.level_seed % 600 == 4 {
                    // a number of searches that 16 bits cannot count, or just can
                    between = [65_535, 65_535, 65_536, 32_767][(ix.level_seed >> 8) as usize % 4];
                    if ix.level_seed & 128 == 0 {
                        ix.max_layer = 1;
                    }
                    ix.n = ix.n.clamp(20, 60);
                    ix.data.dim = 1 + ix.data.dim % 4;
                    if ix.kind == Kind::U16Lev {
                        ix.kind = Kind::F32L2;
                    }
                    ix.m = ix.m.min(12);
                    batches.truncate(1);
                    if batches[0].0.len() > 10 || batches[0].0.is_empty() {
                        batches[0].0 = vec![1, 2, 9];
                    }
                    batches[0].1 = batches[0].1.max(3);
                }
                Case { ix, batches, threads, mode, between }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C07>()
}
