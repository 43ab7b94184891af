//! C13: a dump is never reloaded as something it is not
#![allow(non_camel_case_types)]
use anndists::dist::distances::*;
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch_few, ensure};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Mix {
    No,
    /// the data file of a dump where these ids are missing
    Missing(u64),
    /// the data file of a dump of other ids
    OtherIds,
    /// the data file of the dump of the same points under ids with one bit changed: of all points, or of one
    NearIds(u8, Option<u64>),
    /// the data file of a dump of another dimension
    OtherDim(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    base: usize,
    dir: u8,
    mix: Mix,
    other_n: usize,
    map: bool,
    /// format version given to the files
    version: u8,
    /// generic user distances are used instead of the kind's
    generic: bool,
}
struct C13;

mod elsewhere {
    use serde::{Deserialize, Serialize};
    /// an element type of the same name as another
    #[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
    #[repr(C)]
    pub struct Rgb(pub u8, pub u8, pub u8);
}
// the same distances over both types of that name
impl Distance<elsewhere::Rgb> for XDistRgb {
    fn eval(&self, a: &[elsewhere::Rgb], b: &[elsewhere::Rgb]) -> f32 {
        a.iter().zip(b).map(|(x, y)| x.0.abs_diff(y.0) as f32).sum()
    }
}
impl Distance<elsewhere::Rgb> for DistRgb {
    fn eval(&self, a: &[elsewhere::Rgb], b: &[elsewhere::Rgb]) -> f32 {
        a.iter().zip(b).map(|(x, y)| x.0.abs_diff(y.0) as f32).sum()
    }
}
#[derive(Default, Clone, Copy)]
struct Alpha<T>(std::marker::PhantomData<T>);
#[derive(Default, Clone, Copy)]
struct Beta<T>(std::marker::PhantomData<T>);
macro_rules! first {
    ($d:ident) => {
        impl Distance<Rgb> for $d<Rgb> {
            fn eval(&self, a: &[Rgb], b: &[Rgb]) -> f32 {
                DistRgb.eval(a, b)
            }
        }
        impl Distance<f32> for $d<f32> {
            fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
                a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum()
            }
        }
    };
}
first!(Alpha);
first!(Beta);
// distances whose names contain, or are contained in, the names of others
macro_rules! near {
    ($($d:ident),*) => { $(
        #[derive(Default, Clone, Copy)]
        struct $d;
        impl Distance<f32> for $d {
            fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
                a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum()
            }
        }
        impl Distance<i32> for $d {
            fn eval(&self, a: &[i32], b: &[i32]) -> f32 {
                a.iter().zip(b).map(|(x, y)| x.abs_diff(*y) as f32).sum()
            }
        }
        impl Distance<u8> for $d {
            fn eval(&self, a: &[u8], b: &[u8]) -> f32 {
                a.iter().zip(b).map(|(x, y)| x.abs_diff(*y) as f32).sum()
            }
        }
        impl Distance<Rgb> for $d {
            fn eval(&self, a: &[Rgb], b: &[Rgb]) -> f32 {
                DistRgb.eval(a, b)
            }
        }
    )* };
}
near!(AntiDistL2, DistL22, L2, Dist, MyDistHamming, Hamming, DistCosineX, Cosine, XDistRgb, DistRgb3, stL2, DISTL2);
#[derive(Default, Clone, Copy)]
struct DistElse;
impl Distance<elsewhere::Rgb> for DistElse {
    fn eval(&self, _: &[elsewhere::Rgb], _: &[elsewhere::Rgb]) -> f32 {
        0.
    }
}
impl Distance<elsewhere::Rgb> for DistRgb2 {
    fn eval(&self, _: &[elsewhere::Rgb], _: &[elsewhere::Rgb]) -> f32 {
        0.
    }
}
#[derive(Default, Clone, Copy)]
struct DistRgb2;

struct Try {
    t: &'static str,
    d: &'static str,
    /// message when some reload gave an index
    got: Option<String>,
    /// every reload gave an index
    all: bool,
}
fn try_load<T, D>(dir: &Path, base: &str, opts: ReloadOptions) -> Try
where
    T: 'static + Serialize + DeserializeOwned + Clone + Send + Sync + std::fmt::Debug,
    D: Distance<T> + Default + Send + Sync,
{
    let mut io = HnswIo::new_with_options(dir, base, opts);
    let mut got = Vec::new();
    // no index at all is what counts: a panic gives none
    if let Ok(Ok(h)) = catch(|| io.load_hnsw::<T, D>().map(|h| h.get_nb_point())) {
        got.push(format!("load_hnsw gave an index of {} points", h));
    }
    let io = HnswIo::new_with_options(dir, base, opts);
    if let Ok(Ok(h)) = catch(|| io.load_hnsw_with_dist::<T, D>(D::default()).map(|h| h.get_nb_point())) {
        got.push(format!("load_hnsw_with_dist gave an index of {} points", h));
    }
    let all = got.len() == 2;
    Try { t: std::any::type_name::<T>(), d: std::any::type_name::<D>(), got: (!got.is_empty()).then(|| got.join(", ")), all }
}
fn try_all(dir: &Path, base: &str, opts: ReloadOptions) -> Vec<Try> {
    macro_rules! t { ($($t:ty, $d:ty;)*) => { vec![$(try_load::<$t, $d>(dir, base, opts)),*] } }
    t! {
        f32, DistL1; f32, DistL2; f32, DistCosine; f32, DistDot; f32, DistHellinger; f32, DistJensenShannon;
        f32, Alpha<f32>; f32, Beta<f32>; f64, DistL2; f64, DistL1; i32, DistL2; i32, DistL1; u32, DistL2; u32, DistHamming; u32, DistJaccard;
        u16, DistLevenshtein; u16, DistHamming; u16, DistL1; u8, DistHamming; u8, DistL1; u8, DistJaccard;
        Rgb, DistRgb; Rgb, Alpha<Rgb>; Rgb, Beta<Rgb>; elsewhere::Rgb, DistElse; elsewhere::Rgb, DistRgb2; Pix, DistPix;
        f32, AntiDistL2; f32, DistL22; f32, L2; f32, Dist; i32, AntiDistL2; i32, DistL22; i32, L2; i32, stL2; f32, stL2; f32, DISTL2;
        elsewhere::Rgb, DistRgb; elsewhere::Rgb, XDistRgb;
        u8, MyDistHamming; u8, Hamming; u8, Dist; f32, DistCosineX; f32, Cosine; Rgb, XDistRgb; Rgb, DistRgb3;
    }
}

fn check<T, D>(c: &Case, h: &Hnsw<'_, T, D>, other: Option<&Hnsw<'_, T, D>>, cov: &mut Cov) -> Outcome
where
    T: 'static + Serialize + DeserializeOwned + Clone + Send + Sync + std::fmt::Debug,
    D: Distance<T> + Default + Send + Sync,
{
    let base = BASES[c.base % BASES.len()];
    let dir = dump_dir("c13", c.dir);
    let name = h.file_dump(&dir, base).map_err(|e| format!("dump failed: {}", e))?;
    let opts = if c.map { ReloadOptions::new(true) } else { ReloadOptions::default() };
    if c.version < 4 {
        let entry = entry_of(&std::fs::read(graph_path(&dir, &name)).unwrap())?;
        let (g, d) = files_of(h, entry, c.version);
        std::fs::write(graph_path(&dir, &name), g).unwrap();
        std::fs::write(data_path(&dir, &name), d).unwrap();
    }
    if let Some(o) = other {
        o.file_dump(&dir, "mixed").map_err(|e| format!("dump failed: {}", e))?;
        if c.version < 4 {
            let (_, d) = files_of(o, (0, 0, 0), c.version);
            std::fs::write(data_path(&dir, "mixed"), d).unwrap();
        }
        std::fs::copy(graph_path(&dir, &name), graph_path(&dir, "mixed")).unwrap();
        let own = try_load::<T, D>(&dir, "mixed", opts);
        ensure!(own.got.is_none(), "graph of {} points, data of {} other points ({:?}): {}", h.get_nb_point(), o.get_nb_point(), c.mix, own.got.unwrap());
        let graph = try_load::<NoData, NoDist>(&dir, "mixed", opts);
        ensure!(graph.got.is_none(), "graph-only, mixed files ({:?}): {}", c.mix, graph.got.unwrap());
        cov.class(&format!("mixed: {:?}", c.mix).split('(').next().unwrap().to_string());
        cov.nontrivial = h.get_nb_point() > 1;
    }
    let (t, d) = (std::any::type_name::<T>(), std::any::type_name::<D>());
    for r in try_all(&dir, &name, opts) {
        if r.t == t && r.d == d {
            ensure!(r.all, "not reloaded as what it is: {} {}", t, d);
        } else {
            ensure!(r.got.is_none(), "a dump of ({}, {}) reloaded as ({}, {}): {}", t, d, r.t, r.d, r.got.unwrap());
            cov.add("refused pairs", 1);
        }
    }
    let graph = try_load::<NoData, NoDist>(&dir, &name, opts);
    ensure!(graph.all, "graph-only reload of ({}, {}) refused", t, d);
    cov.nontrivial |= h.get_nb_point() > 1;
    Ok(())
}

fn other_spec(c: &Case) -> Option<IndexSpec> {
    let d = c.ix.data;
    Some(match c.mix {
        Mix::No => return None,
        Mix::Missing(_) | Mix::NearIds(..) => c.ix.clone(),
        Mix::OtherIds => IndexSpec { n: c.other_n.max(1), data: DataSpec { ids: IdMode::Hash, seed: d.seed ^ 77, ..d }, ..c.ix.clone() },
        Mix::OtherDim(k) => IndexSpec { data: DataSpec { dim: d.dim + 1 + k, ..d }, ..c.ix.clone() },
    })
}
/// the points of the other index, some removed for Missing
fn other_points<C: Cfg>(c: &Case, o: &IndexSpec) -> Model<C> {
    let m = o.model::<C>();
    let n = m.len();
    match c.mix {
        Mix::Missing(bits) => {
            let sure = bits as usize % n;
            let mut kept: Model<C> = m
                .into_iter()
                .enumerate()
                .filter(|(i, _)| *i != sure && mix2(bits, *i as u64) % 8 != 0)
                .map(|(_, p)| p)
                .collect();
            if kept.is_empty() {
                kept.push((c.ix.data.absent_id(3), c.ix.data.vec::<C>(0)));
            }
            kept
        }
        Mix::NearIds(bit, one) => {
            let flip = |id: usize| id ^ (1usize << (bit % 64));
            let one = one.map(|o| o as usize % n).filter(|o| m.iter().all(|(id, _)| *id != flip(m[*o].0)));
            m.into_iter().enumerate().map(|(i, (id, v))| (if one.is_none() || one == Some(i) { flip(id) } else { id }, v)).collect()
        }
        _ => m,
    }
}
fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, _) = c.ix.build::<C>();
    let other = other_spec(c).map(|o| {
        let mut x = o.empty::<C>();
        insert_all::<C>(&mut x, &other_points::<C>(c, &o), How::Insert);
        x
    });
    cov.class(C::NAME);
    cov.class(&format!("version {}", c.version));
    check(c, &h, other.as_ref(), cov)
}
fn run_generic(c: &Case, cov: &mut Cov) -> Outcome {
    getrandom::set_seed(c.ix.level_seed);
    cov.class("generic distance");
    macro_rules! built {
        ($t:ty, $d:ty, $as:ty) => {{
            let h: Hnsw<$t, $d> = Hnsw::new(c.ix.m, c.ix.hint, 16, c.ix.efc, <$d>::default());
            for (id, v) in c.ix.model::<$as>() {
                h.insert((&v, id));
            }
            check(c, &h, None, cov)
        }};
    }
    match c.ix.level_seed % 8 {
        0 => built!(Rgb, Alpha<Rgb>, RgbU),
        1 => built!(f32, Beta<f32>, F32L1),
        2 => built!(f32, AntiDistL2, F32L2),
        3 => built!(f32, L2, F32L2),
        4 => built!(f32, DistL22, F32L2),
        5 => built!(u8, MyDistHamming, U8Ham),
        6 => built!(Rgb, XDistRgb, RgbU),
        _ => built!(i32, stL2, I32L2),
    }
}
impl Prop for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "a generated dump (current or earlier format) reloaded, plain or with mapping asked, as each of 46 (type, distance) pairs (distances whose names extend or end one another included), and with the data file of a dump missing some of its ids, of other ids, of ids with one bit changed or of another dimension; non-trivial: at least 2 points";
    fn cases(t: Tier) -> u64 {
        t.pick(12_000, 200_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let mix = prop_oneof![2 => Just(Mix::No), 3 => any::<u64>().prop_map(Mix::Missing), 1 => Just(Mix::OtherIds), 2 => (0u8..64, any::<Option<u64>>()).prop_map(|(b, o)| Mix::NearIds(b, o)), 2 => (0usize..9).prop_map(Mix::OtherDim)];
        (
            (dumpable_strategy(40), 0usize..BASES.len(), any::<u8>(), mix, 1usize..40),
            any::<bool>(),
            prop_oneof![2 => Just(4u8), 1 => 2u8..4],
            prop_oneof![3 => Just(false), 1 => Just(true)],
        )
            .prop_map(|((mut ix, base, dir, mix, other_n), map, version, generic)| {
                let mut mix = mix;
                if matches!(mix, Mix::OtherDim(_)) && ix.kind == Kind::U16Lev {
                    mix = Mix::OtherIds; // vectors of any length: no dimension to compare
                }
                ix.m = ix.m.min(40);
                let mut map = map;
                if ix.kind == Kind::F64L2 {
                    map = false; // listed finding of C09
                }
                Case { ix, base, dir, mix, other_n, map, version, generic }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        if c.generic {
            return run_generic(c, cov);
        }
        dispatch_few!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C13>()
}
