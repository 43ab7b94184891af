//! C05: neighbour lists are bounded, sorted, truthful, without self or double links, nobody isolated
use harness::fw::*;
use harness::idx::*;
use harness::dispatch;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    /// batches: (number, route, flags set before it)
    batches: Vec<(usize, How, bool, bool)>,
}
struct C05;

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let mut h = c.ix.empty::<C>();
    let dist = C::D::default();
    let mut done = 0;
    let sequential = c.batches.iter().all(|b| matches!(b.1, How::Insert | How::Slice | How::Trait));
    for (n, how, ext, keep) in &c.batches {
        h.set_extend_candidates(*ext);
        h.set_keeping_pruned(*keep);
        let new: Model<C> = (done..done + n).map(|i| (c.ix.data.id(i), c.ix.data.vec::<C>(i))).collect();
        insert_all::<C>(&mut h, &new, *how);
        done += n;
        check_links(&h, c.ix.m, &dist, true, cov).map_err(|e| format!("after {} insertions: {}", done, e))?;
        if sequential {
            check_reciprocal(&view(&h), c.ix.m, cov).map_err(|e| format!("after {} insertions: {}", done, e))?;
        }
    }
    cov.nontrivial = done > 2 * c.ix.m;
    cov.class(C::NAME);
    cov.class_if(done > 66_000, "more than 65536 points in layer 0");
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    cov.class_if(done > 2 * c.ix.m + 1, "more than 2M+1 points");
    Ok(())
}
fn how() -> BoxedStrategy<How> {
    prop_oneof![
        6 => Just(How::Insert), 1 => Just(How::Slice), 1 => Just(How::Trait),
        1 => Just(How::Par), 1 => Just(How::ParSlice), 1 => Just(How::ParTrait)
    ]
    .boxed()
}
impl Prop for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "an index grown in batches of generated sizes and routes, every list of every point judged after each batch; non-trivial: more than 2M points, so that lists overflow";
    fn cases(t: Tier) -> u64 {
        t.pick(10_000, 200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = if t == Tier::Quick { 120usize } else { 400 };
        let b = (prop_oneof![2 => 1usize..4, 5 => 4usize..big], how(), any::<bool>(), any::<bool>());
        (index_strategy(10), prop::collection::vec(b, 1..6), prop_oneof![2 => Just(true), 1 => Just(false)])
            .prop_map(|(mut ix, mut batches, small_m)| {
                if small_m && ix.m > 12 {
                    ix.m = 2 + ix.m % 11;
                }
                if ix.level_seed % 5000 == 7 {
                    huge(&mut ix, 5000);
                    batches.insert(0, (69_000, How::ParSlice, false, false));
                    batches.iter_mut().for_each(|b| b.2 = false);
                }
                Case { ix, batches }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C05>()
}
