//! C17: levels follow the documented exponential law within bounds
use harness::fw::*;
use harness::{ensure, ensure_eq};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    m: usize,
    max_layer: usize,
    /// modifications of the scale before the first insertion, in 1/100
    scale: Vec<i32>,
    seed: u64,
    n: usize,
    /// modifications of the scale of an index that holds points, or is reloaded, in 1/100
    #[serde(default)]
    later: Vec<i32>,
    /// thread-parallel batches
    par: bool,
    /// reloaded (1 plain, 2 mapped, 3 explicit distance) and grown, this many times
    reloads: Vec<u8>,
}
struct C17;
type H<'a> = Hnsw<'a, f32, DistL2>;

fn counts<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'_, T, D>) -> Result<Vec<u64>, String> {
    let mut v = vec![0u64; 16];
    for p in h.get_point_indexation() {
        let l = p.get_point_id().0 as usize;
        ensure!(l < h.get_max_level(), "a point at level {} with {} layers", l, h.get_max_level());
        v[l] += 1;
    }
    Ok(v)
}
fn grow(h: &H, from: usize, n: usize, par: bool) {
    let pts: Vec<(Vec<f32>, usize)> = (from..from + n).map(|i| (vec![(mix(i as u64) >> 40) as f32], i)).collect();
    if par {
        let r: Vec<(&Vec<f32>, usize)> = pts.iter().map(|(v, i)| (v, *i)).collect();
        h.parallel_insert(&r);
    } else {
        for (v, i) in &pts {
            h.insert((v, *i));
        }
    }
}
/// upper bound (Chernoff) of the probability that a binomial is as far from its mean
fn tail(n: f64, p: f64, k: f64) -> f64 {
    let x = k / n;
    let t = |a: f64, b: f64| if a <= 0. { 0. } else { a * (a / b).ln() };
    (-(n * (t(x, p) + t(1. - x, 1. - p)))).exp()
}
/// P(level >= l)
fn law(l: usize, s: f64, limit: usize) -> f64 {
    let over = (-(limit as f64) / s).exp();
    (-(l as f64) / s).exp() - over + over * (limit - l) as f64 / limit as f64
}
fn judge(c: &[u64], s: f64, limit: usize, what: &str, group: &str, cov: &mut Cov) -> Outcome {
    let n: u64 = c.iter().sum();
    for l in 1..limit.min(16) {
        let above: u64 = c[l..].iter().sum();
        let p = law(l, s, limit);
        let t = tail(n as f64, p, above as f64);
        ensure!(t > 1e-11, "{}: {} of {} points at level {} or above, expected {:.2} (scale {:.4}, {} layers)", what, above, n, l, n as f64 * p, s, limit);
        let sd = (n as f64 * p * (1. - p)).sqrt();
        if l <= 3 && sd > 0.01 {
            cov.add(&format!("law {} level {}: observed", group, l), above);
            cov.add(&format!("law {} level {}: expected e6", group, l), (n as f64 * p * 1e6) as u64);
            cov.add(&format!("law {} level {}: variance e6", group, l), (sd * sd * 1e6) as u64);
        }
    }
    Ok(())
}

fn run(c: &Case, cov: &mut Cov) -> Outcome {
    getrandom::set_seed(c.seed);
    let limit = c.max_layer.min(16);
    let mut h = H::new(c.m, c.n, c.max_layer, 2, DistL2 {});
    let mut s = 1. / (c.m as f64).ln();
    let scale = |h: &H| h.get_point_indexation().get_level_scale();
    ensure!((scale(&h) / s - 1.).abs() < 1e-12, "default scale {} for M = {}", scale(&h), c.m);
    for f in &c.scale {
        let f = *f as f64 / 100.;
        h.modify_level_scale(f);
        s *= f.clamp(0.2, 1.);
        ensure!((scale(&h) / s - 1.).abs() < 1e-12, "scale {} instead of {} after a modification by {}", scale(&h), s, f);
    }
    grow(&h, 0, c.n, c.par);
    ensure_eq!(h.get_nb_point(), c.n, "points");
    let group = if limit < 16 && law(1, s, limit) - (-1. / s).exp() < -1e-3 {
        "few layers"
    } else if c.scale.is_empty() {
        "default scale"
    } else {
        "modified scale"
    };
    let mut before = counts(&h)?;
    judge(&before, s, limit, "fresh index", group, cov)?;
    ensure!((scale(&h) / s - 1.).abs() < 1e-12, "insertion changed the scale");
    cov.class(group);
    cov.nontrivial = law(1, s, limit) * c.n as f64 > 20.;
    let mut total = c.n;
    for f in &c.later {
        // of an index that holds points: the following ones have the new scale
        let f = *f as f64 / 100.;
        h.modify_level_scale(f);
        s *= f.clamp(0.2, 1.);
        ensure!((scale(&h) / s - 1.).abs() < 1e-12, "scale {} instead of {} after a modification by {} of an index with {} points", scale(&h), s, f, total);
        grow(&h, total, c.n, c.par);
        total += c.n;
        let after = counts(&h)?;
        let new: Vec<u64> = after.iter().zip(&before).map(|(a, b)| a - b).collect();
        judge(&new, s, limit, "points added after a modification of the scale", if limit < 16 { "later, limited" } else { "later" }, cov)?;
        before = after;
        cov.class("scale modified between insertions");
    }
    if limit < 16 || c.reloads.is_empty() {
        return Ok(());
    }
    let dir = scratch("c17");
    let mut name = h.file_dump(&dir, "a").map_err(|e| format!("dump: {}", e))?;
    for (i, how) in c.reloads.iter().enumerate() {
        let opt = if *how == 2 { ReloadOptions::default().set_mmap(true) } else { ReloadOptions::default() };
        let mut io = HnswIo::new_with_options(&dir, &name, opt);
        let mut r: H = if *how == 3 { io.load_hnsw_with_dist(DistL2 {}) } else { io.load_hnsw() }.map_err(|e| format!("reload: {}", e))?;
        ensure!((scale(&r) / s - 1.).abs() < 1e-12, "scale {} instead of {} after {} reloads", scale(&r), s, i + 1);
        if let Some(f) = c.later.get(i) {
            let f = *f as f64 / 100.;
            r.modify_level_scale(f);
            s *= f.clamp(0.2, 1.);
            ensure!((scale(&r) / s - 1.).abs() < 1e-12, "scale {} instead of {} after a modification by {} of a reloaded index", scale(&r), s, f);
            cov.class("scale of a reloaded index modified");
        }
        grow(&r, total, c.n, c.par);
        total += c.n;
        let after = counts(&r)?;
        let new: Vec<u64> = after.iter().zip(&before).map(|(a, b)| a - b).collect();
        ensure_eq!(new.iter().sum::<u64>(), c.n as u64, "points added after a reload");
        judge(&new, s, 16, "points added after a reload", &format!("reloaded, {}", group), cov)?;
        before = after;
        name = r.file_dump(&dir, &format!("b{}", i)).map_err(|e| format!("dump: {}", e))?;
        cov.class("grown after a reload");
    }
    Ok(())
}
impl Prop for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "indexes of some hundred to some thousand one-dimensional points (M, layer limit, scale modifications before, between and after reloads, sequential or parallel insertion, growth after reloads generated), the reported scale compared with the documented one and the counts of points at each level with the documented law: per index by a Chernoff bound at 1e-11, over the whole run per group of indexes at 7 standard deviations. Non-trivial: more than 20 points expected above level 0";
    fn cases(t: Tier) -> u64 {
        t.pick(2_000, 40_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![3 => 2usize..6, 3 => 6usize..20, 2 => 20usize..70, 1 => 70usize..256],
            prop_oneof![4 => Just(16usize), 3 => 1usize..16, 1 => 17usize..30],
            prop_oneof![4 => Just(vec![]), 4 => prop::collection::vec(20i32..=100, 1..4), 3 => prop::collection::vec(prop_oneof![-100i32..400, Just(100), Just(20), Just(19), Just(101), Just(0)], 1..4)],
            any::<u64>(),
            prop_oneof![1 => 50usize..500, 2 => 500usize..2500],
            any::<bool>(),
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(1u8..4, 1..3)],
            prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![3 => 20i32..=100, 1 => -50i32..300], 1..3)],
        )
            .prop_map(|(m, max_layer, scale, seed, n, par, reloads, later)| Case { m, max_layer, scale, later, seed, n, par, reloads })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        run(c, cov)
    }
    fn finish(classes: &BTreeMap<String, u64>, _tier: Tier) -> Outcome {
        for (k, obs) in classes.iter().filter(|(k, _)| k.ends_with(": observed")) {
            let stem = k.trim_end_matches(": observed");
            let get = |s: &str| *classes.get(&format!("{}: {}", stem, s)).unwrap_or(&0) as f64 / 1e6;
            let (exp, var) = (get("expected e6"), get("variance e6"));
            if var < 100. {
                continue;
            }
            let z = (*obs as f64 - exp) / var.sqrt();
            ensure!(z.abs() < 7., "{}: {} points over the run, expected {:.0} (z = {:.1})", stem, obs, exp, z);
        }
        Ok(())
    }
}
fn main() {
    harness::fw::main::<C17>()
}
