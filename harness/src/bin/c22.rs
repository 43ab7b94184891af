//! C22: approximate search has high recall at documented settings
use harness::fw::*;
use harness::idx::*;
use harness::{ensure, ensure_eq};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Build {
    Seq,
    Par,
    /// a part, then dump, reload (mapped or not), the other part (parallel or not)
    Grown(bool, bool),
    /// several parallel batches
    Batches,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    seed: u64,
    dim: usize,
    n: usize,
    clusters: usize,
    m: usize,
    efc: usize,
    extend: bool,
    keep: bool,
    scale: Vec<i32>,
    build: Build,
    k: usize,
    /// ef as a multiple of k, in tenths
    ef10: usize,
    /// the first two points have a level above 0
    high_start: bool,
}
struct C22;

fn unif(h: u64) -> f32 {
    (mix(h) >> 40) as f32 / (1u64 << 24) as f32
}
fn vector(c: &Case, i: usize) -> Vec<f32> {
    let base = mix2(c.seed, i as u64);
    let mut v: Vec<f32> = if c.clusters == 0 {
        (0..c.dim).map(|j| unif(mix2(base, j as u64))).collect()
    } else {
        let k = mix2(c.seed ^ 0xC1, base % c.clusters as u64);
        // a sum of uniforms around the centre
        (0..c.dim).map(|j| unif(mix2(k, j as u64)) + 0.1 * (0..4u64).map(|r| unif(mix2(base ^ r << 50, j as u64)) - 0.5).sum::<f32>()).collect()
    };
    match c.kind {
        Kind::F32Dot => {
            let n = v.iter().map(|x| x * x).sum::<f32>().sqrt();
            v.iter_mut().for_each(|x| *x *= 0.999 / n);
        }
        Kind::F32Cos => v.iter_mut().for_each(|x| *x -= 0.5),
        _ => {}
    }
    v
}
fn group(c: &Case) -> String {
    format!(
        "{} {}",
        if c.clusters == 0 { "uniform" } else { "clustered" },
        match c.build {
            Build::Seq => "sequential",
            Build::Par | Build::Batches => "parallel",
            Build::Grown(..) => "grown after reload",
        }
    )
}

/// average recall over the queries, at ef, 2 ef and 4 ef, and part of the points found when searched for
fn measure<D: Distance<f32> + Default + Send + Sync>(h: &Hnsw<'_, f32, D>, c: &Case, pts: &[(usize, Vec<f32>)]) -> Result<([f64; 3], f64), String> {
    let d = D::default();
    let ef = (c.k * c.ef10 / 10).max(c.m);
    let nq = 60;
    let mut rec = [0f64; 3];
    for q in 0..nq {
        let v = vector(c, 1_000_000 + q);
        let truth = brute(&v, pts.iter(), c.k, &d);
        let limit = *truth.last().unwrap();
        for (r, f) in rec.iter_mut().zip([1, 2, 4]) {
            let got = h.search(&v, c.k, ef * f);
            ensure_eq!(got.len(), c.k, "number of answers, ef {}", ef * f);
            *r += got.iter().filter(|n| n.distance <= limit).count() as f64 / c.k as f64;
        }
    }
    rec.iter_mut().for_each(|r| *r /= nq as f64);
    let step = (pts.len() / 400).max(1);
    let (mut found, mut asked) = (0, 0);
    for (_, v) in pts.iter().step_by(step) {
        let own = d.eval(v, v);
        asked += 1;
        found += h.search(v, 1, ef.max(24)).iter().any(|n| n.distance <= own) as usize;
    }
    Ok((rec, found as f64 / asked as f64))
}
fn run<D: Distance<f32> + Default + Send + Sync>(c: &Case, cov: &mut Cov) -> Outcome {
    let pts: Vec<(usize, Vec<f32>)> = (0..c.n).map(|i| (i * 7 + 1, vector(c, i))).collect();
    let fresh = |seed: u64, n: usize| {
        getrandom::set_seed(seed);
        let mut h: Hnsw<f32, D> = Hnsw::new(c.m, n, 16, c.efc, D::default());
        h.set_extend_candidates(c.extend);
        h.set_keeping_pruned(c.keep);
        for f in &c.scale {
            h.modify_level_scale(*f as f64 / 100.);
        }
        h
    };
    let mut seed = c.seed;
    if c.high_start {
        let found = (0..100_000u64).map(|i| c.seed ^ mix(i)).find(|s| {
            let h = fresh(*s, 2);
            pts[..2].iter().for_each(|(i, v)| h.insert((v, *i)));
            h.get_point_indexation().get_layer_nb_point(0) == 0
        });
        cov.class_if(found.is_some(), "the first two points above level 0");
        seed = found.unwrap_or(seed);
    }
    let h = fresh(seed, c.n);
    let par = |h: &Hnsw<'_, f32, D>, p: &[(usize, Vec<f32>)]| h.parallel_insert(&p.iter().map(|(i, v)| (v, *i)).collect::<Vec<_>>());
    let seq = |h: &Hnsw<'_, f32, D>, p: &[(usize, Vec<f32>)]| p.iter().for_each(|(i, v)| h.insert((v, *i)));
    let (rec, own) = match c.build {
        Build::Seq => {
            seq(&h, &pts);
            measure(&h, c, &pts)?
        }
        Build::Par => {
            par(&h, &pts);
            measure(&h, c, &pts)?
        }
        Build::Batches => {
            pts.chunks(c.n / 6 + 1).for_each(|p| par(&h, p));
            measure(&h, c, &pts)?
        }
        Build::Grown(map, p) => {
            let (a, b) = pts.split_at(c.n / 2);
            seq(&h, a);
            let dir = scratch("c22");
            let name = h.file_dump(&dir, "d").map_err(|e| format!("dump: {}", e))?;
            let mut io = HnswIo::new_with_options(&dir, &name, ReloadOptions::default().set_mmap(map));
            let r: Hnsw<f32, D> = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
            if p {
                par(&r, b)
            } else {
                seq(&r, b)
            }
            measure(&r, c, &pts)?
        }
    };
    let g = group(c);
    cov.add(&format!("{}: cases", g), 1);
    for (i, r) in rec.iter().enumerate() {
        cov.add(&format!("{}: recall e6, ef x{}", g, 1 << i), (r * 1e6) as u64);
    }
    cov.add(&format!("{}: own e6", g), (own * 1e6) as u64);
    if std::env::var("C22_PRINT").is_ok() {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/c22.log").unwrap();
        writeln!(f, "{:.4} {:.4} {:.4} own {:.4} {} {:?}", rec[0], rec[1], rec[2], own, g, c).unwrap();
    }
    let what = format!("recall {:.3} {:.3} {:.3} at ef x1 x2 x4, {:.3} of the points found", rec[0], rec[1], rec[2], own);
    ensure!(rec[0] >= MIN_REC, "{}", what);
    ensure!(own >= MIN_OWN, "{}", what);
    ensure!(rec[1] >= rec[0] - 0.02 && rec[2] >= rec[1] - 0.02, "recall falls when ef grows: {}", what);
    cov.nontrivial = true;
    Ok(())
}
/// in any single index
const MIN_REC: f64 = 0.88;
const MIN_OWN: f64 = 0.92;
/// on average over a group of indexes
const AVG_REC: f64 = 0.985;
const AVG_OWN: f64 = 0.985;

impl Prop for C22 {
    type Case = Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "indexes of 300 to 3000 points built at documented settings from uniform or clustered data of dimension 3 to 32, sequentially, in parallel or partly after a reload; recall of 60 queries at three values of ef against brute force, and the part of the points found when searched for, judged for each index and on average over groups of indexes";
    fn cases(t: Tier) -> u64 {
        t.pick(240, 6_000)
    }
    fn rayon_threads() -> usize {
        3
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 2000 } else { 6000 };
        let kind = prop_oneof![4 => Just(Kind::F32L2), 2 => Just(Kind::F32L1), 2 => Just(Kind::F32Cos), 1 => Just(Kind::F32Dot)];
        let build = prop_oneof![3 => Just(Build::Seq), 2 => Just(Build::Par), 1 => Just(Build::Batches), 3 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Build::Grown(a, b))];
        (
            (kind, any::<u64>(), 3usize..33, prop_oneof![1 => 300usize..800, 3 => 800usize..max], prop_oneof![3 => Just(0usize), 2 => 2usize..30]),
            (16usize..49, 200usize..401, any::<bool>(), any::<(bool, bool, bool)>(), prop_oneof![3 => Just(vec![]), 1 => (20i32..100).prop_map(|x| vec![x])], build, prop_oneof![Just(1usize), 5usize..11, Just(10), 20usize..51], 30usize..60),
        )
            .prop_map(|((kind, seed, dim, n, clusters), (m, efc, extend, (keep, h1, h2), scale, build, k, ef10))| Case {
                kind, seed, dim, n, clusters, m, efc, extend,
                // keeping pruned neighbours is not the default and separates clusters
                keep: keep && clusters == 0,
                scale, build, k, ef10,
                high_start: h1 && h2,
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        match c.kind {
            Kind::F32L1 => run::<DistL1>(c, cov),
            Kind::F32Cos => run::<DistCosine>(c, cov),
            Kind::F32Dot => run::<DistDot>(c, cov),
            _ => run::<DistL2>(c, cov),
        }
    }
    fn finish(classes: &BTreeMap<String, u64>, _tier: Tier) -> Outcome {
        for (g, n) in classes.iter().filter_map(|(k, v)| k.strip_suffix(": cases").map(|g| (g, *v as f64))) {
            let avg = |s: &str| *classes.get(&format!("{}: {}", g, s)).unwrap_or(&0) as f64 / 1e6 / n;
            let (r, own) = (["1", "2", "4"].map(|x| avg(&format!("recall e6, ef x{}", x))), avg("own e6"));
            if std::env::var("C22_PRINT").is_ok() {
                println!("{}: {} {:.4?} own {:.4}", g, n, r, own);
            }
            if n >= 10. {
                ensure!(r[0] >= AVG_REC && r[2] >= r[0], "{} indexes, {}: average recall {:.4} {:.4} {:.4} at ef x1 x2 x4", n, g, r[0], r[1], r[2]);
                ensure!(own >= AVG_OWN, "{} indexes, {}: {:.4} of the points found when searched for", n, g, own);
            }
        }
        Ok(())
    }
}
fn main() {
    harness::fw::main::<C22>()
}
