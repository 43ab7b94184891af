//! C10: dumping a reloaded index never damages an existing dump
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Via {
    Plain,
    Map,
    Threshold(usize),
    GraphOnly,
    /// explicit distance, from a reloader that holds a data map
    DistAfterMap,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Target {
    /// the name the index was reloaded from
    Same,
    /// another dump existing in the directory
    Other,
    /// a name not used yet
    New,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    other_n: usize,
    base: usize,
    dir: u8,
    via: Via,
    /// points inserted in the reloaded index before each dump, and where it is dumped
    dumps: Vec<(usize, Target)>,
    /// nearly all of the names derived from the base are taken
    crowded: bool,
    /// each dump of the reloaded index is made in a new thread, whose random draws are those of the one before
    twins: bool,
    /// at last, a new index is dumped over the first one
    replace_n: usize,
    queries: Vec<(u64, usize, usize)>,
}
struct C10;

fn finger(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    let d = if dir.as_os_str().is_empty() { Path::new(".") } else { dir };
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let f = e.path();
        if e.file_name().to_string_lossy().contains("filler") || std::fs::metadata(&f).unwrap().len() == 0 {
            continue;
        }
        m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(&f).unwrap());
    }
    m
}
fn unchanged(dir: &Path, was: &BTreeMap<String, Vec<u8>>, what: &str) -> Outcome {
    let now = finger(dir);
    for (f, b) in was {
        match now.get(f) {
            None => return Err(format!("{}: the file {} is gone", what, f)),
            Some(x) => ensure!(x == b, "{}: the file {} changed ({} then {} bytes)", what, f, b.len(), x.len()),
        }
    }
    Ok(())
}

fn redumps<C: Cfg, T, D>(c: &Case, cov: &mut Cov, r: &mut Hnsw<'_, T, D>, dir: &Path, base: &str, qs: &[(Vec<T>, usize, usize)],
    insert: impl Fn(&mut Hnsw<'_, T, D>, std::ops::Range<usize>), default_dist: impl Fn() -> D) -> Outcome
where
    T: 'static + Clone + Send + Sync + std::fmt::Debug + PartialEq + Serialize + serde::de::DeserializeOwned,
    D: anndists::dist::distances::Distance<T> + Send + Sync,
{
    let mut next = c.ix.n;
    for (i, (more, target)) in c.dumps.iter().enumerate() {
        insert(r, next..next + more);
        next += more;
        let files = finger(dir);
        let asked = match target {
            Target::Same => base.to_string(),
            Target::Other => "other".to_string(),
            Target::New => format!("new{}", i),
        };
        let what = format!("dump {} ({:?}) of the index reloaded by {:?}", i, target, c.via);
        let before = snap(r, true);
        let answers: Vec<_> = qs.iter().map(|(q, k, ef)| r.search(q, *k, *ef)).collect();
        let name = if c.twins {
            let r = &*r;
            let asked = &asked;
            std::thread::scope(|s| {
                s.spawn(move || {
                    getrandom::set_seed(c.ix.level_seed ^ 0x77);
                    r.file_dump(dir, asked).map_err(|e| e.to_string())
                })
                .join()
            })
            .map_err(|_| format!("{}: panic", what))?
        } else {
            r.file_dump(dir, &asked).map_err(|e| e.to_string())
        }
        .map_err(|e| format!("{}: {}", what, e))?;
        unchanged(dir, &files, &what)?;
        if *target == Target::New {
            ensure!(name == asked, "{}: name {} instead of {}", what, name, asked);
        } else {
            ensure!(name != asked, "{}: the name {} of an existing dump was returned", what, name);
            cov.nontrivial = true;
        }
        ensure!(!files.contains_key(&format!("{}.hnsw.data", name)), "{}: returned the name {} of another dump", what, name);
        diff_snap(&before, &snap(r, true)).map_err(|e| format!("{} changed the index: {}", what, e))?;
        for ((q, k, ef), a) in qs.iter().zip(&answers) {
            ensure!(same_answer(a, &r.search(q, *k, *ef)), "{} changed the answers", what);
        }
        let io = HnswIo::new(dir, &name);
        let again: Hnsw<T, D> = io.load_hnsw_with_dist(default_dist()).map_err(|e| format!("{}: reload of {}: {}", what, name, e))?;
        check_same(r, &again, qs).map_err(|e| format!("{}: reload: {}", what, e))?;
        cov.class(&format!("{:?}", target));
    }
    Ok(())
}

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let base = BASES[c.base % BASES.len()];
    let dir = dump_dir("c10", c.dir);
    let name = h.file_dump(&dir, base).map_err(|e| format!("dump failed: {}", e))?;
    ensure!(name == base, "name {} instead of {}", name, base);
    let other = IndexSpec { n: c.other_n.max(1), data: DataSpec { seed: c.ix.data.seed ^ 1, ..c.ix.data }, ..c.ix.clone() };
    other.build::<C>().0.file_dump(&dir, "other").map_err(|e| format!("dump failed: {}", e))?;
    if c.crowded {
        // an empty file at most of the names
        let one = dir.join("filler");
        std::fs::write(&one, "").unwrap();
        for i in 0..10_000 {
            if i % 997 != 5 {
                for b in [base, "other"] {
                    std::fs::hard_link(&one, data_path(&dir, &format!("{}-{}", b, i))).unwrap();
                }
            }
        }
        cov.class("crowded directory");
    }
    let qs = queries::<C>(&c.ix.data, model.len(), &c.queries);
    let files = finger(&dir);
    let insert = |r: &mut Hnsw<'_, C::T, C::D>, range: std::ops::Range<usize>| {
        insert_range::<C>(r, &c.ix.data, range, c.ix.how);
    };
    let opts = match c.via {
        Via::Plain | Via::GraphOnly => ReloadOptions::default(),
        Via::Map | Via::DistAfterMap => ReloadOptions::default().set_mmap(true),
        Via::Threshold(t) => ReloadOptions::default().set_mmap_threshold(t),
    };
    let mut io = HnswIo::new_with_options(&dir, &name, opts);
    match c.via {
        Via::GraphOnly => {
            let mut r: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("graph-only reload: {}", e))?;
            let files = finger(&dir);
            let was = snap(&h, false);
            for (i, (_, target)) in c.dumps.iter().enumerate() {
                let asked = if *target == Target::New { format!("new{}", i) } else { base.to_string() };
                let files_now = finger(&dir);
                let name = r.file_dump(&dir, &asked).map_err(|e| format!("dump of the graph-only index: {}", e))?;
                unchanged(&dir, &files_now, "dump of the graph-only index")?;
                ensure!((name == asked) == (*target == Target::New), "graph-only index dumped as {} when asked {}", name, asked);
                let mut io = HnswIo::new(&dir, &name);
                let again: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("second graph-only reload: {}", e))?;
                diff_snap(&was, &snap(&again, false)).map_err(|e| format!("second graph-only reload: {}", e))?;
                cov.nontrivial |= *target != Target::New;
            }
            unchanged(&dir, &files, "dumps of the graph-only index")?;
            r.set_searching_mode(false);
        }
        Via::DistAfterMap => {
            {
                let r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("mapped reload: {}", e))?;
                check_same(&h, &r, &qs)?;
            }
            let mut r: Hnsw<C::T, C::D> = io.load_hnsw_with_dist(C::D::default()).map_err(|e| format!("reload: {}", e))?;
            redumps::<C, _, _>(c, cov, &mut r, &dir, base, &qs, insert, C::D::default)?;
        }
        _ => {
            let mut r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("reload: {}", e))?;
            check_same(&h, &r, &qs)?;
            redumps::<C, _, _>(c, cov, &mut r, &dir, base, &qs, insert, C::D::default)?;
            // the points it had are still those it had
            let all = by_pid(&r);
            for p in view(&h) {
                let Some((id, v)) = all.get(&p.pid) else { return Err(format!("point {} lost", p.id)) };
                ensure!(*id == p.id && *v == p.v, "point {} became {} {:?}", p.id, id, v);
            }
        }
    }
    unchanged(&dir, &files, "the whole history")?;
    cov.class(&format!("{:?}", c.via).split('(').next().unwrap().to_string());
    // a new index replaces what is there
    if c.replace_n > 0 {
        drop(io);
        let fresh = IndexSpec { n: c.replace_n, data: DataSpec { seed: c.ix.data.seed ^ 2, ..c.ix.data }, level_seed: c.ix.level_seed ^ 5, ..c.ix.clone() };
        let (f, fm) = fresh.build::<C>();
        let files = finger(&dir);
        let name = f.file_dump(&dir, base).map_err(|e| format!("dump over an existing one: {}", e))?;
        ensure!(name == base, "a new index was dumped as {} instead of replacing {}", name, base);
        let side = f.file_dump(&dir, "side").map_err(|e| format!("dump: {}", e))?;
        for (a, b, w) in [(graph_path(&dir, base), graph_path(&dir, &side), "graph"), (data_path(&dir, base), data_path(&dir, &side), "data")] {
            ensure!(std::fs::read(&a).unwrap() == std::fs::read(&b).unwrap(), "the {} file dumped over an existing one differs from one dumped apart", w);
        }
        let mut io = HnswIo::new(&dir, &name);
        let again: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("reload of the replaced dump: {}", e))?;
        check_same(&f, &again, &[]).map_err(|e| format!("replaced dump: {}", e))?;
        check_content(&again, &fm, 16)?;
        let untouched: BTreeMap<_, _> = files.into_iter().filter(|(k, _)| !k.starts_with(&format!("{}.hnsw.", base))).collect();
        unchanged(&dir, &untouched, "replacing one dump")?;
        cov.class_if(c.replace_n < model.len(), "replaced by a smaller one");
    }
    cov.class(C::NAME);
    cov.class_if(c.twins, "dumps with repeated random draws");
    Ok(())
}
impl Prop for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a dump reloaded (plain, mapped, partly mapped, graph-only, explicit distance from a reloader holding a map), then a history of insertions and re-dumps under its own, another existing or a new name, every file of the directory fingerprinted around each, at last a fresh index dumped over the first; non-trivial: a re-dump under an existing name";
    fn cases(t: Tier) -> u64 {
        t.pick(4_000, 100_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 60 } else { 300 };
        let via = prop_oneof![
            3 => Just(Via::Plain), 4 => Just(Via::Map), 4 => (0usize..80).prop_map(Via::Threshold), 2 => Just(Via::GraphOnly), 1 => Just(Via::DistAfterMap)
        ];
        let target = prop_oneof![4 => Just(Target::Same), 2 => Just(Target::Other), 1 => Just(Target::New)];
        (
            (dumpable_strategy(max), 1usize..30, 0usize..BASES.len(), any::<u8>(), via),
            prop::collection::vec((prop_oneof![2 => Just(0usize), 1 => 1usize..20], target), 1..4),
            prop_oneof![80 => Just(false), 1 => Just(true)],
            prop_oneof![3 => Just(false), 1 => Just(true)],
            prop_oneof![1 => Just(0usize), 1 => 1usize..40],
            queries_strategy(4),
        )
            .prop_map(|((mut ix, other_n, base, dir, via), dumps, crowded, twins, replace_n, queries)| {
                if ix.kind == Kind::F64L2 && !matches!(via, Via::Plain | Via::GraphOnly) {
                    // vectors of 8 byte elements cannot be mapped: listed finding
                    ix.kind = Kind::F32L2;
                }
                // this one would name an existing file of another dump
                let base = if BASES[base] == "a.hnsw.data" { 0 } else { base };
                Case { ix, other_n, base, dir, via, dumps, crowded, twins, replace_n, queries }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C10>()
}
