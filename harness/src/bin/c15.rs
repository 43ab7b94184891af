//! C15: a dump that reports success is complete
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch_few, ensure};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    /// files may not grow beyond a size, chosen between 0 and a bit more than the larger file
    Limit(u64),
    /// just below or above: the size of a file, a multiple of the usual buffer size
    Edge(u8, i8),
    /// the data (or graph) file misses its last bytes
    Tail(u16, bool),
    /// the graph (or data) file is on a full device
    FullGraph,
    FullData,
    FullBoth,
    /// a file cannot be created: no such directory, the directory is a file, a directory in place of the graph (data) file
    NoDir,
    DirIsFile,
    GraphIsDir,
    DataIsDir,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    dir: u8,
    faults: Vec<Fault>,
    /// the index dumped is a reloaded one: 1 plain, 2 mapped, 3 graph-only
    reloaded: u8,
    more: usize,
    queries: Vec<(u64, usize, usize)>,
    /// what makes the index special: 1 its number of connections, 2 its distance's name, 3 its type's name
    odd: u8,
}
struct C15;

// types with names of exactly 256 and 257 bytes
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
#[repr(transparent)]
struct W<A>(A);
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
#[repr(transparent)]
struct Zab(u16);
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
#[repr(transparent)]
struct Zabc(u16);
type N2<A> = W<W<A>>;
type N4<A> = N2<N2<A>>;
type N8<A> = N4<N4<A>>;
type N16<A> = N8<N8<A>>;
type N31<A> = N16<N8<N4<N2<W<A>>>>>;
trait Val {
    fn val(&self) -> u16;
    fn of(x: u16) -> Self;
}
impl Val for Zab {
    fn val(&self) -> u16 { self.0 }
    fn of(x: u16) -> Self { Zab(x) }
}
impl Val for Zabc {
    fn val(&self) -> u16 { self.0 }
    fn of(x: u16) -> Self { Zabc(x) }
}
impl Val for u16 {
    fn val(&self) -> u16 { *self }
    fn of(x: u16) -> Self { x }
}
impl<A: Val> Val for W<A> {
    fn val(&self) -> u16 { self.0.val() }
    fn of(x: u16) -> Self { W(A::of(x)) }
}
fn l1<T: Val>(a: &[T], b: &[T]) -> f32 {
    a.iter().zip(b).map(|(x, y)| x.val().abs_diff(y.val()) as f32).sum()
}
macro_rules! odd_dist {
    ($($t:ty),*) => { $(impl<T: Val + Send + Sync> Distance<T> for $t { fn eval(&self, a: &[T], b: &[T]) -> f32 { l1(a, b) } })* };
}
#[derive(Clone, Copy, Default)]
struct Plain;
odd_dist!(Plain, Zab, Zabc, W<Plain>, N31<Zab>, N31<Zabc>);

fn odd_run<T, D>(c: &Case, m: usize, what: &str, may_fail: bool, cov: &mut Cov) -> Outcome
where
    T: 'static + Val + Clone + Send + Sync + std::fmt::Debug + PartialEq + Serialize + serde::de::DeserializeOwned,
    D: Distance<T> + Default + Send + Sync,
{
    let dir = dump_dir("c15o", c.dir);
    getrandom::set_seed(c.ix.level_seed);
    let h: Hnsw<T, D> = Hnsw::new(m, 10, 16, c.ix.efc, D::default());
    let vec = |i: usize| -> Vec<T> { (0..c.ix.data.dim).map(|j| T::of(mix2(c.ix.data.seed, (i * 100 + j) as u64) as u16 % 500)).collect() };
    let mut model: Vec<(usize, Vec<T>)> = (0..c.ix.n.max(2)).map(|i| (i, vec(i))).collect();
    for (id, v) in &model {
        h.insert((v, *id));
    }
    match catch(|| h.file_dump(&dir, "odd"))? {
        Err(e) => {
            ensure!(may_fail, "{}: dump failed: {}", what, e);
            cov.class(&format!("{} refused", what));
        }
        Ok(name) => {
            let mut io = HnswIo::new(&dir, &name);
            let r: Hnsw<T, D> = io.load_hnsw().map_err(|e| format!("{}: the dump reports success, reloading it fails: {}", what, e))?;
            diff_snap(&snap(&h, true), &snap(&r, true)).map_err(|e| format!("{}: {}", what, e))?;
            let n = model.len();
            for i in n..n + 6 {
                model.push((i, vec(i)));
                r.insert((&model[i].1, i));
            }
            check_content(&r, &model, 16).map_err(|e| format!("{}, reloaded and grown: {}", what, e))?;
            check_links(&r, m, &D::default(), true, cov).map_err(|e| format!("{}, reloaded and grown: {}", what, e))?;
            if r.get_max_level_observed() == 0 && model.len() <= 2 * m + 1 {
                let v = vec(7);
                let (got, want) = (dists(&r.search(&v, 10, model.len())), brute(&v, model.iter(), 10, &D::default()));
                ensure!(got == want, "{}, reloaded and grown: distances {:?} instead of {:?}", what, got, want);
            }
            cov.class(&format!("{} reloaded", what));
        }
    }
    check_content(&h, &model[..c.ix.n.max(2)], 16).map_err(|e| format!("{}: {}", what, e))?;
    cov.nontrivial = true;
    Ok(())
}
fn odd(c: &Case, cov: &mut Cov) -> Outcome {
    let tn = |s: &str| s.len();
    assert_eq!(tn(std::any::type_name::<N31<Zab>>()), 256);
    assert_eq!(tn(std::any::type_name::<N31<Zabc>>()), 257);
    let m = c.ix.m.min(255);
    match (c.odd, c.more % 2) {
        (1, 0) => odd_run::<u16, Plain>(c, 256, "256 connections", true, cov),
        (1, _) => odd_run::<u16, Plain>(c, 255, "255 connections", false, cov),
        (2, 0) => odd_run::<u16, N31<Zab>>(c, m, "distance name of 256 bytes", false, cov),
        (2, _) => odd_run::<u16, N31<Zabc>>(c, m, "distance name of 257 bytes", true, cov),
        (_, 0) => odd_run::<N31<Zab>, Plain>(c, m, "type name of 256 bytes", false, cov),
        _ => odd_run::<N31<Zabc>, Plain>(c, m, "type name of 257 bytes", true, cov),
    }
}

fn with_limit<R>(n: u64, f: impl FnOnce() -> R) -> R {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
        let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
        let r = f();
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &old), 0);
        r
    }
}
fn size(p: &Path) -> u64 {
    std::fs::metadata(p).map(|m| m.len()).unwrap_or(0)
}

/// `reload` compares what a base name reloads to with the index
fn faults<T, D>(c: &Case, h: &Hnsw<'_, T, D>, dir: &Path, qs: &[(Vec<T>, usize, usize)], reload: impl Fn(&str) -> Outcome, cov: &mut Cov) -> Outcome
where
    T: 'static + Clone + Send + Sync + std::fmt::Debug + Serialize + serde::de::DeserializeOwned,
    D: anndists::dist::distances::Distance<T> + Send + Sync,
{
    let before = snap(h, true);
    let answers: Vec<_> = qs.iter().map(|(q, k, ef)| h.search(q, *k, *ef)).collect();
    let name = h.file_dump(dir, "whole").map_err(|e| format!("dump failed: {}", e))?;
    reload(&name)?;
    let (gs, ds) = (size(&graph_path(dir, &name)), size(&data_path(dir, &name)));
    for (i, fault) in c.faults.iter().enumerate() {
        let asked = format!("f{}", i);
        let (g, d) = (graph_path(dir, &asked), data_path(dir, &asked));
        let limit = match fault {
            Fault::Limit(r) => Some(r % (gs.max(ds) + 64)),
            Fault::Edge(w, off) => {
                let at = match w % 4 {
                    0 => gs,
                    1 => ds,
                    2 => (gs / 8192).max(1) * 8192,
                    _ => (*w as u64 / 4 % 8) * 8192,
                };
                Some(at.saturating_add_signed(*off as i64))
            }
            Fault::Tail(r, graph) => {
                let s = if *graph { gs } else { ds };
                Some(s.saturating_sub(1 + *r as u64 % 20_000))
            }
            _ => None,
        };
        let into = match fault {
            Fault::NoDir => dir.join("missing"),
            Fault::DirIsFile => graph_path(dir, &name),
            _ => dir.to_path_buf(),
        };
        let what = format!("{:?} (limit {:?}, graph {} data {} bytes)", fault, limit, gs, ds);
        let (res, must_fail) = match limit {
            Some(n) => (catch(|| with_limit(n, || h.file_dump(dir, &asked))), n < gs.max(ds)),
            None => {
                // a data file that exists would make a reloaded index choose another name: dumped through a
                // dangling link it does not look existing
                let full = dir.join("full");
                let _ = std::fs::remove_file(&full);
                if matches!(fault, Fault::FullGraph | Fault::FullBoth) {
                    std::os::unix::fs::symlink("/dev/full", &g).unwrap();
                }
                if matches!(fault, Fault::FullData | Fault::FullBoth) {
                    if c.reloaded > 0 {
                        continue;
                    }
                    std::os::unix::fs::symlink("/dev/full", &d).unwrap();
                }
                match fault {
                    Fault::GraphIsDir => std::fs::create_dir(&g).unwrap(),
                    // a reloaded index chooses another name
                    Fault::DataIsDir if c.reloaded > 0 => continue,
                    Fault::DataIsDir => std::fs::create_dir(&d).unwrap(),
                    _ => (),
                }
                (catch(|| h.file_dump(&into, &asked)), true)
            }
        };
        match res {
            Err(p) => return Err(format!("{}: {}", what, p)),
            Ok(Ok(name)) => {
                ensure!(!must_fail, "{}: the dump reports success", what);
                reload(&name).map_err(|e| format!("{}: {}", what, e))?;
                cov.class("limit above the sizes");
            }
            Ok(Err(e)) => {
                ensure!(must_fail, "{}: the dump fails: {}", what, e);
                cov.class("failed dumps");
                cov.class_if(matches!(fault, Fault::NoDir | Fault::DirIsFile | Fault::GraphIsDir | Fault::DataIsDir), "a file that cannot be created");
                cov.class_if(limit.is_some_and(|n| n >= gs.min(ds)), "one of the files could be written");
                cov.nontrivial = true;
            }
        }
        // the index is as it was, and can be dumped
        diff_snap(&before, &snap(h, true)).map_err(|e| format!("{}: the index changed: {}", what, e))?;
        for ((q, k, ef), a) in qs.iter().zip(&answers) {
            ensure!(same_answer(a, &h.search(q, *k, *ef)), "{}: the answers changed", what);
        }
        for f in [&g, &d] {
            let _ = std::fs::remove_file(f);
            let _ = std::fs::remove_dir(f);
        }
        let name = catch(|| h.file_dump(dir, &asked))?.map_err(|e| format!("dump after {}: {}", what, e))?;
        reload(&name).map_err(|e| format!("dump after {}: {}", what, e))?;
    }
    Ok(())
}

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (mut h, model) = c.ix.build::<C>();
    let dir = dump_dir("c15", c.dir);
    let qs = queries::<C>(&c.ix.data, model.len(), &c.queries);
    cov.class(C::NAME);
    cov.class_if(c.ix.data.dim >= 2000, "vectors larger than a buffer");
    if model.is_empty() || c.ix.max_layer < 16 {
        let r = catch(|| h.file_dump(&dir, "no"))?;
        ensure!(r.is_err(), "an index of {} points and {} layers was dumped", model.len(), c.ix.max_layer);
        cov.class_if(model.is_empty(), "empty index refused");
        cov.class_if(c.ix.max_layer < 16, "other number of layers refused");
        check_content(&h, &model, c.ix.max_layer).map_err(|e| format!("after a refused dump: {}", e))?;
        // still usable
        let mut all = model;
        all.extend(insert_range::<C>(&mut h, &c.ix.data, c.ix.n..c.ix.n + 3, c.ix.how));
        check_content(&h, &all, c.ix.max_layer).map_err(|e| format!("after a refused dump: {}", e))?;
        if c.ix.max_layer >= 16 {
            h.file_dump(&dir, "no").map_err(|e| format!("dump after a refused one: {}", e))?;
        }
        return Ok(());
    }
    let back = |h: &Hnsw<'_, C::T, C::D>, name: &str| -> Outcome {
        let mut io = HnswIo::new(&dir, name);
        let r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("reload of a dump that succeeded: {}", e))?;
        check_same(h, &r, &qs).map_err(|e| format!("reload of a dump that succeeded: {}", e))
    };
    if c.reloaded == 0 {
        cov.class("fresh");
        return faults(c, &h, &dir, &qs, |n| back(&h, n), cov);
    }
    let name = h.file_dump(&dir, "orig").map_err(|e| format!("dump failed: {}", e))?;
    let orig = (std::fs::read(graph_path(&dir, &name)).unwrap(), std::fs::read(data_path(&dir, &name)).unwrap());
    let opts = if c.reloaded == 2 && C::ALIGN_OK_MMAP { ReloadOptions::new(true) } else { ReloadOptions::default() };
    let mut io = HnswIo::new_with_options(&dir, &name, opts);
    if c.reloaded == 3 {
        let r: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("graph-only reload: {}", e))?;
        let was = snap(&r, false);
        faults(c, &r, &dir, &[], |n| {
            let mut io = HnswIo::new(&dir, n);
            let g: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("reload of a dump that succeeded: {}", e))?;
            diff_snap(&was, &snap(&g, false))
        }, cov)?;
        cov.class("reloaded graph-only");
    } else {
        let mut r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
        insert_range::<C>(&mut r, &c.ix.data, c.ix.n..c.ix.n + c.more, c.ix.how);
        faults(c, &r, &dir, &qs, |n| back(&r, n), cov)?;
        cov.class(if opts.use_mmap().0 { "reloaded mapped" } else { "reloaded plain" });
    }
    ensure!(orig == (std::fs::read(graph_path(&dir, &name)).unwrap(), std::fs::read(data_path(&dir, &name)).unwrap()), "the original dump changed");
    Ok(())
}
impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "an index, fresh or reloaded, dumped under write faults (a file size limit at a generated byte, biased to file sizes and buffer blocks; graph or data file on /dev/full; files that cannot be created), dumped again after each, and indexes that cannot be dumped or have a parameter or name at the limit of what the format holds; non-trivial: a dump failed";
    fn cases(t: Tier) -> u64 {
        t.pick(4_000, 100_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let fault = prop_oneof![
            4 => any::<u64>().prop_map(Fault::Limit),
            6 => (any::<u8>(), prop_oneof![2 => Just(-1i8), 1 => Just(0i8), 1 => Just(1i8), 1 => any::<i8>()]).prop_map(|(w, o)| Fault::Edge(w, o)),
            3 => (any::<u16>(), prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(r, g)| Fault::Tail(r, g)),
            1 => Just(Fault::FullGraph), 1 => Just(Fault::FullData), 1 => Just(Fault::FullBoth),
            1 => prop_oneof![Just(Fault::NoDir), Just(Fault::DirIsFile), Just(Fault::GraphIsDir), Just(Fault::DataIsDir)]
        ];
        (
            index_strategy(160),
            prop_oneof![1 => 0usize..15, 9 => 16usize..20],
            any::<u8>(),
            prop::collection::vec(fault, 1..5),
            prop_oneof![4 => Just(0u8), 2 => 1u8..4],
            0usize..8,
            queries_strategy(4),
            prop_oneof![12 => Just(0u8), 1 => 1u8..4],
            prop_oneof![7 => Just(0usize), 1 => 2000usize..6000],
        )
            .prop_map(|(mut ix, ml, dir, faults, reloaded, more, queries, odd, big)| {
                ix.max_layer = ml.max(1);
                if big > 0 && odd == 0 {
                    // one vector is larger than the buffers of the files
                    ix.data.dim = big;
                    ix.n = 1 + ix.n % 6;
                    if ix.kind == Kind::U16Lev {
                        ix.kind = Kind::F32L2; // quadratic in the dimension
                    }
                }
                Case { ix, dir, faults, reloaded, more, queries, odd }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        if c.odd > 0 {
            return odd(c, cov);
        }
        dispatch_few!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C15>()
}
