//! C16: the foreign-language interface agrees with the library
use anndists::dist::distances::*;
use harness::fw::*;
use harness::idx::*;
use harness::{ensure, ensure_eq};
use hnsw_rs::libext::*;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::c_ulonglong;
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ty {
    F32,
    I32,
    U32,
    U16,
    U8,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Init {
    Init,
    /// new_hnsw: layer limit, expected number of elements
    New(usize, usize),
    /// distance given by a function
    Ptr,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty,
    dist: usize,
    init: Init,
    m: usize,
    efc: usize,
    data: DataSpec,
    /// numbers of points inserted one by one (true) or in a batch
    adds: Vec<(usize, bool)>,
    level_seed: u64,
    queries: Vec<(u64, usize, usize)>,
    base: usize,
}
struct C16;

/// layouts of the answers, as a C caller sees them
#[repr(C)]
struct CNeighbour {
    id: usize,
    d: f32,
}
#[repr(C)]
struct CNeighbourhood {
    nb: i64,
    list: *const CNeighbour,
}
#[repr(C)]
struct CVec {
    len: i64,
    ptr: *const CNeighbourhood,
}
type Answer = Vec<(usize, u32)>;
unsafe fn read(p: *const CNeighbourhood) -> Result<Answer, String> {
    ensure!(!p.is_null(), "null answer");
    ensure!((*p).nb >= 0, "negative number of neighbours");
    Ok((0..(*p).nb as usize).map(|i| { let n = &*(*p).list.add(i); (n.id, n.d.to_bits()) }).collect())
}
fn native(r: &[Neighbour]) -> Answer {
    r.iter().map(|n| (n.d_id, n.distance.to_bits())).collect()
}

macro_rules! cdist {
    ($f:ident, $t:ty) => {
        extern "C" fn $f(a: *const $t, b: *const $t, n: c_ulonglong) -> f32 {
            let (a, b) = unsafe { (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize)) };
            // not one of the named distances
            a.iter().zip(b).enumerate().map(|(i, (x, y))| ((*x as f64 - *y as f64).abs() * (1 + i % 3) as f64)).fold(0f64, f64::max) as f32
        }
    };
}
cdist!(cd_f32, f32);
cdist!(cd_i32, i32);
cdist!(cd_u32, u32);
cdist!(cd_u16, u16);
cdist!(cd_u8, u8);

fn vec_of<T: Elem>(c: &Case, i: usize, prob: bool) -> Vec<T> {
    let base = mix2(c.data.seed, if c.data.dup16 > 0 && i % 5 == 4 { i as u64 / 2 } else { i as u64 });
    let _ = prob;
    (0..c.data.dim).map(|j| T::make(mix2(base, j as u64), &c.data.palette)).collect()
}
trait FixVec: Sized {
    fn fix(_v: &mut [Self], _d: &str) {}
}
impl FixVec for i32 {}
impl FixVec for u32 {}
impl FixVec for u16 {}
impl FixVec for u8 {}
impl FixVec for f32 {
    fn fix(v: &mut [f32], d: &str) {
        match d {
            "DistHellinger" | "DistJeffreys" | "DistJensenShannon" => {
                // positive, sum below 1 (square roots stay real), on a grid coarse enough that the rounding of
                // a divergence between different vectors cannot reach below 0
                let n = v.len() as f32;
                v.iter_mut().for_each(|x| *x = ((x.abs() * 8.) as u64 % 64 + 1) as f32 / 64. / n * 0.9);
            }
            "DistDot" => {
                let n = v.iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
                v.iter_mut().for_each(|x| *x = if n > 0. { (*x as f64 / n * 0.999) as f32 } else { 0. });
            }
            _ => {}
        }
    }
}

struct Fns<T: 'static, A> {
    insert: unsafe extern "C" fn(*mut A, usize, *const T, usize),
    par_insert: unsafe extern "C" fn(*mut A, usize, usize, *mut *const T, *const usize),
    search: unsafe extern "C" fn(*const A, usize, *const T, usize, usize) -> *const Neighbourhood_api,
    par_search: unsafe extern "C" fn(*const A, usize, i64, *mut *const T, usize, usize) -> *const Vec_api<Neighbourhood_api>,
    dump: unsafe extern "C" fn(*const A, usize, *const u8) -> i64,
}

/// whether two indexes made under the same seed draw the same levels (they need not: the source of the draws is free)
fn levels_follow_seed() -> bool {
    static FOLLOW: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *FOLLOW.get_or_init(|| {
        let levels = || {
            getrandom::set_seed(7);
            let h = Hnsw::<f32, DistL1>::new(3, 300, 16, 3, DistL1 {});
            (0..300).for_each(|i| h.insert((&[i as f32], i)));
            let mut l: Vec<(usize, u8)> = h.get_point_indexation().into_iter().map(|p| (p.get_origin_id(), p.get_point_id().0)).collect();
            l.sort_unstable();
            l
        };
        levels() == levels()
    })
}
/// `load`: the foreign reload for the distance, when there is one
fn run<T, D, A, M: Fn() -> D>(c: &Case, api: *const A, f: &Fns<T, A>, twin: Hnsw<'_, T, D>, mk: M, dname: &str,
    loads: &[(&str, unsafe extern "C" fn(*mut HnswIo) -> *const A)], max_layer: usize, cov: &mut Cov) -> Outcome
where
    T: Elem + FixVec,
    D: Distance<T> + Send + Sync,
{
    ensure!(!api.is_null(), "no index for the distance {}", dname);
    let api = api as *mut A;
    let make = |i: usize| { let mut v = vec_of::<T>(c, i, false); T::fix(&mut v, dname); v };
    let mut model: Vec<(usize, Vec<T>)> = Vec::new();
    let mut sequential = true;
    for (n, single) in &c.adds {
        let new: Vec<(usize, Vec<T>)> = (model.len()..model.len() + n).map(|i| (c.data.id(i), make(i))).collect();
        if *single {
            for (id, v) in &new {
                unsafe { (f.insert)(api, v.len(), v.as_ptr(), *id) };
                twin.insert((v, *id));
            }
        } else {
            let mut ptrs: Vec<*const T> = new.iter().map(|x| x.1.as_ptr()).collect();
            let ids: Vec<usize> = new.iter().map(|x| x.0).collect();
            unsafe { (f.par_insert)(api, ids.len(), c.data.dim, ptrs.as_mut_ptr(), ids.as_ptr()) };
            // the order of a batch is not fixed
            sequential &= new.is_empty();
        }
        model.extend(new);
        cov.class(if *single { "single insertions" } else { "batch insertions" });
    }
    let qs: Vec<(Vec<T>, usize, usize)> = c
        .queries
        .iter()
        .map(|(q, k, ef)| {
            let i = if q % 3 == 0 && !model.is_empty() { *q as usize % model.len() } else { 100_000 + *q as usize % 1000 };
            (make(i), *k, *ef)
        })
        .collect();
    let ask = |api: *const A| -> Result<Vec<Answer>, String> {
        let mut out = Vec::new();
        for (v, k, ef) in &qs {
            let a = unsafe { read((f.search)(api, v.len(), v.as_ptr(), *k, *ef) as *const CNeighbourhood)? };
            ensure!(a.len() <= *k, "{} answers for k = {}", a.len(), k);
            out.push(a);
        }
        // the same as a batch, once for each k and ef
        for (_, k, ef) in &qs {
            let mut ptrs: Vec<*const T> = qs.iter().map(|q| q.0.as_ptr()).collect();
            let p = unsafe { (f.par_search)(api, ptrs.len(), c.data.dim as i64, ptrs.as_mut_ptr(), *k, *ef) } as *const CVec;
            ensure!(!p.is_null(), "null batch answer");
            unsafe {
                ensure_eq!((*p).len, qs.len() as i64, "answers of a batch");
                for (i, (v, k1, ef1)) in qs.iter().enumerate() {
                    let b = read((*p).ptr.add(i))?;
                    let s = if (k1, ef1) == (k, ef) { out[i].clone() } else { read((f.search)(api, v.len(), v.as_ptr(), *k, *ef) as *const CNeighbourhood)? };
                    ensure!(b == s, "query {} of a batch, k {} ef {}: {:?}, alone {:?}", i, k, ef, b, s);
                }
            }
        }
        Ok(out)
    };
    let answers = ask(api)?;
    cov.class(&format!("{} {}", c_name(c.ty), dname));
    if sequential && (max_layer == 1 || levels_follow_seed()) {
        // the library, given the same things in the same order
        for ((v, k, ef), a) in qs.iter().zip(&answers) {
            let t = native(&twin.search(v, *k, *ef));
            ensure!(*a == t, "k {} ef {}: foreign answer {:?}, library {:?}", k, ef, a, t);
        }
        cov.class("compared with a library twin");
    }
    // dump it
    let base = BASES[c.base % BASES.len()];
    let dumped = unsafe { (f.dump)(api, base.len(), base.as_ptr()) };
    let possible = !model.is_empty() && max_layer >= 16;
    ensure!(dumped == if possible { 1 } else { -1 }, "file_dump answers {} for {} points, {} layers", dumped, model.len(), max_layer);
    cov.nontrivial = model.len() > 2 && answers.iter().any(|a| a.len() > 1);
    if !possible {
        cov.class("dump refused");
        return Ok(());
    }
    let here = Path::new(".");
    let io = HnswIo::new(here, base);
    let back: Hnsw<T, D> = io.load_hnsw_with_dist(mk()).map_err(|e| format!("reload in the library: {}", e))?;
    check_content(&back, &model, 16).map_err(|e| format!("reload in the library: {}", e))?;
    check_links(&back, c.m, &mk(), true, cov).map_err(|e| format!("reload in the library: {}", e))?;
    ensure_eq!(back.get_max_nb_connection() as usize, c.m, "M");
    ensure_eq!(back.get_ef_construction(), c.efc, "ef_construction");
    for ((v, k, ef), a) in qs.iter().zip(&answers) {
        let t = native(&back.search(v, *k, *ef));
        ensure!(*a == t, "k {} ef {}: foreign answer {:?}, library on the dump {:?}", k, ef, a, t);
    }
    // description
    let gname = format!("{}.hnsw.graph", base);
    unsafe {
        let d = load_hnsw_description(gname.len(), gname.as_ptr());
        ensure!(!d.is_null(), "no description");
        let s = |p: *const u8, n: usize| String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string();
        ensure_eq!((*d).max_nb_connection as usize, c.m, "M in the description");
        ensure_eq!((*d).ef, c.efc, "ef in the description");
        ensure_eq!((*d).nb_layer, 16, "layers in the description");
        ensure_eq!((*d).nb_point, model.len(), "number of points in the description");
        ensure_eq!((*d).data_dimension, c.data.dim, "dimension in the description");
        ensure_eq!((*d).dumpmode, 1, "dump mode in the description");
        ensure_eq!(s((*d).distname, (*d).distname_len), std::any::type_name::<D>(), "distance in the description");
        ensure_eq!(s((*d).t_name, (*d).t_name_len), std::any::type_name::<T>(), "type in the description");
        ensure!(load_hnsw_description(base.len(), base.as_ptr()).is_null(), "description of a file that does not exist");
        // the library's own dump of it, reloaded by the foreign interface
        let other = back.file_dump(here, "second").map_err(|e| format!("dump: {}", e))?;
        for (which, what) in [(base, "foreign dump"), (other.as_str(), "library dump")] {
            for (name, load) in loads {
                let io = get_hnswio(which.len() as u64, which.as_ptr()) as *mut HnswIo;
                ensure!(!io.is_null(), "no reloader");
                let a = load(io);
                if *name == dname {
                    ensure!(!a.is_null(), "{} not reloaded with its distance {}", what, name);
                    let again = ask(a)?;
                    ensure!(again == answers, "answers from the reloaded {}: {:?} instead of {:?}", what, again, answers);
                    cov.class("reloaded by the foreign interface");
                } else {
                    ensure!(a.is_null(), "{} with distance {} reloaded with {}", what, dname, name);
                }
            }
            let io = get_hnswio(which.len() as u64, which.as_ptr()) as *mut HnswIo;
            ensure!(!load_hnswdump_NoData_DistNoDist(io).is_null(), "{} not reloaded graph-only", what);
        }
        let io = get_hnswio(7, b"nowhere".as_ptr()) as *mut HnswIo;
        if let Some((_, load)) = loads.first() {
            ensure!(load(io).is_null(), "index from a dump that does not exist");
        }
    }
    // it goes on working after the dump
    let again = ask(api)?;
    ensure!(again == answers, "answers changed by a dump");
    Ok(())
}
fn c_name(t: Ty) -> &'static str {
    match t {
        Ty::F32 => "f32",
        Ty::I32 => "i32",
        Ty::U32 => "u32",
        Ty::U16 => "u16",
        Ty::U8 => "u8",
    }
}

const BAD: [&str; 8] = ["", "Dist", "distl1", "DistL1 ", "DistL", "DistL22", "L1", "DistL1\0"];

macro_rules! per_type {
    ($run:ident, $t:ty, $api:ty, $init:ident, $new:expr, $ptr:ident, $cd:ident, $insert:ident, $pinsert:ident, $search:ident, $psearch:ident, $dump:ident,
     [$($d:ident),*], [$($ld:ident $load:ident),*], $drop:expr) => {
        fn $run(c: &Case, cov: &mut Cov) -> Outcome {
            let f = Fns::<$t, $api> { insert: $insert, par_insert: $pinsert, search: $search, par_search: $psearch, dump: $dump };
            let loads: Vec<(&str, unsafe extern "C" fn(*mut HnswIo) -> *const $api)> = vec![$((stringify!($ld), $load)),*];
            let new: Option<unsafe extern "C" fn(usize, usize, usize, *const u8, usize, usize) -> *const $api> = $new;
            let drop_fn: Option<unsafe extern "C" fn(*const $api)> = $drop;
            for b in BAD {
                unsafe {
                    ensure!($init(c.m, c.efc, b.len(), b.as_ptr()).is_null(), "index for the distance {:?}", b);
                    if let Some(n) = new {
                        ensure!(n(c.m, c.efc, b.len(), b.as_ptr(), 10, 16).is_null(), "index for the distance {:?}", b);
                    }
                }
            }
            let names = [$(stringify!($d)),*];
            if c.init == Init::Ptr {
                getrandom::set_seed(c.level_seed);
                let api = $ptr(c.m, c.efc, $cd);
                getrandom::set_seed(c.level_seed);
                let twin = Hnsw::<$t, DistCFFI<$t>>::new(c.m, 10_000, 16, c.efc, DistCFFI::<$t>::new($cd));
                cov.class("function distance");
                return run::<$t, DistCFFI<$t>, $api, _>(c, api, &f, twin, || DistCFFI::<$t>::new($cd), "DistCFFI", &loads, 16, cov);
            }
            let which = c.dist % names.len();
            let mut i = 0;
            $(
                if i == which {
                    let dname = stringify!($d);
                    getrandom::set_seed(c.level_seed);
                    let (api, max_layer) = match (c.init, new) {
                        (Init::New(l, n), Some(f)) => (unsafe { f(c.m, c.efc, dname.len(), dname.as_ptr(), n, l) }, l),
                        _ => (unsafe { $init(c.m, c.efc, dname.len(), dname.as_ptr()) }, 16),
                    };
                    cov.class(if matches!(c.init, Init::New(..)) && new.is_some() { "new_hnsw" } else { "init_hnsw" });
                    getrandom::set_seed(c.level_seed);
                    let twin = Hnsw::<$t, $d>::new(c.m, 10_000, max_layer, c.efc, $d {});
                    run::<$t, $d, $api, _>(c, api, &f, twin, || $d {}, dname, &loads, max_layer, cov)?;
                    if let Some(f) = drop_fn {
                        unsafe { f(api) };
                    }
                    return Ok(());
                }
                i += 1;
            )*
            let _ = i;
            Ok(())
        }
    };
}

per_type!(run_f32, f32, HnswApif32, init_hnsw_f32, Some(new_hnsw_f32), init_hnsw_ptrdist_f32, cd_f32, insert_f32, parallel_insert_f32,
    search_neighbours_f32, parallel_search_neighbours_f32, file_dump_f32,
    [DistL1, DistL2, DistDot, DistHellinger, DistJeffreys, DistJensenShannon],
    [DistL1 load_hnswdump_f32_DistL1, DistL2 load_hnswdump_f32_DistL2, DistCosine load_hnswdump_f32_DistCosine,
     DistDot load_hnswdump_f32_DistDot, DistJensenShannon load_hnswdump_f32_DistJensenShannon, DistJeffreys load_hnswdump_f32_DistJeffreys],
    Some(drop_hnsw_f32));
per_type!(run_i32, i32, HnswApii32, init_hnsw_i32, None, init_hnsw_ptrdist_i32, cd_i32, insert_i32, parallel_insert_i32,
    search_neighbours_i32, parallel_search_neighbours_i32, file_dump_i32,
    [DistL1, DistL2, DistHamming],
    [DistL1 load_hnswdump_i32_DistL1, DistL2 load_hnswdump_i32_DistL2, DistHamming load_hnswdump_i32_DistHamming], None);
per_type!(run_u32, u32, HnswApiu32, init_hnsw_u32, None, init_hnsw_ptrdist_u32, cd_u32, insert_u32, parallel_insert_u32,
    search_neighbours_u32, parallel_search_neighbours_u32, file_dump_u32,
    [DistL1, DistL2, DistJaccard, DistHamming],
    [DistL1 load_hnswdump_u32_DistL1, DistL2 load_hnswdump_u32_DistL2, DistHamming load_hnswdump_u32_DistHamming, DistJaccard load_hnswdump_u32_DistJaccard], None);
per_type!(run_u16, u16, HnswApiu16, init_hnsw_u16, Some(new_hnsw_u16), init_hnsw_ptrdist_u16, cd_u16, insert_u16, parallel_insert_u16,
    search_neighbours_u16, parallel_search_neighbours_u16, file_dump_u16,
    [DistL1, DistL2, DistHamming, DistJaccard, DistLevenshtein],
    [DistL1 load_hnswdump_u16_DistL1, DistL2 load_hnswdump_u16_DistL2, DistHamming load_hnswdump_u16_DistHamming, DistLevenshtein load_hnswdump_u16_DistLevenshtein],
    Some(drop_hnsw_u16));
per_type!(run_u8, u8, HnswApiu8, init_hnsw_u8, None, init_hnsw_ptrdist_u8, cd_u8, insert_u8, parallel_insert_u8,
    search_neighbours_u8, parallel_search_neighbours_u8, file_dump_u8,
    [DistL1, DistL2, DistHamming, DistJaccard],
    [DistL1 load_hnswdump_u8_DistL1, DistL2 load_hnswdump_u8_DistL2, DistHamming load_hnswdump_u8_DistHamming, DistJaccard load_hnswdump_u8_DistJaccard], None);

impl Prop for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "foreign-interface histories over 5 element types x every named distance (and a function distance): construction, single and batch insertions, single and batch searches, dump, description, reload with every foreign loader of the type, against a library index built from the same level draws. Non-trivial: more than 2 points and an answer of more than one neighbour.";
    fn cases(t: Tier) -> u64 {
        t.pick(16_000, 600_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            (
                prop_oneof![3 => Just(Ty::F32), 1 => Just(Ty::I32), 1 => Just(Ty::U32), 2 => Just(Ty::U16), 1 => Just(Ty::U8)],
                0usize..60,
                prop_oneof![4 => Just(Init::Init), 2 => (prop_oneof![2 => Just(16usize), 1 => 1usize..16], 0usize..50).prop_map(|(l, n)| Init::New(l, n)), 1 => Just(Init::Ptr)],
                prop_oneof![3 => 2usize..6, 2 => 6usize..30],
                prop_oneof![2 => 1usize..10, 3 => 10usize..100],
                data_strategy(),
            ),
            (
                prop::collection::vec((prop_oneof![1 => 0usize..3, 4 => 3usize..40], prop_oneof![3 => Just(true), 1 => Just(false)]), 0..4),
                any::<u64>(),
                prop::collection::vec((any::<u64>(), prop_oneof![1 => Just(0usize), 2 => Just(1usize), 5 => 2usize..15], prop_oneof![1 => 1usize..10, 2 => 10usize..60]), 1..5),
                0usize..10,
            ),
        )
            .prop_map(|((ty, dist, init, m, efc, data), (adds, level_seed, queries, base))| Case {
                ty, dist, init, m, efc, data, adds, level_seed, queries, base,
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        let _ = dump_dir("c16", 2);
        match c.ty {
            Ty::F32 => run_f32(c, cov),
            Ty::I32 => run_i32(c, cov),
            Ty::U32 => run_u32(c, cov),
            Ty::U16 => run_u16(c, cov),
            Ty::U8 => run_u8(c, cov),
        }
    }
}
fn main() {
    harness::fw::main::<C16>()
}
