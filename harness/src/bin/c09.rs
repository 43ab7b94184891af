//! C09: reload through memory mapping is equivalent to plain reload
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Opt {
    Off,
    Default,
    Map,
    MapNew,
    /// threshold, and whether mapping is also asked explicitly
    Threshold(usize, bool),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ctor {
    NewThenOptions,
    NewWithOptions,
    SetValues,
    /// options changed between two reloads of one HnswIo
    Reuse,
    /// a reload that fails half way, the files then put right, and a reload by the same HnswIo
    Retry,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    base: usize,
    dir: u8,
    tries: Vec<(Opt, Ctor)>,
    /// format of the dump read by the attempts where mapping may be impossible
    version: u8,
    queries: Vec<(u64, usize, usize)>,
}
struct C09;

fn options(o: Opt) -> ReloadOptions {
    match o {
        Opt::Off => ReloadOptions::new(false),
        Opt::Default => ReloadOptions::default(),
        Opt::Map => ReloadOptions::default().set_mmap(true),
        Opt::MapNew => ReloadOptions::new(true),
        Opt::Threshold(t, false) => ReloadOptions::default().set_mmap_threshold(t),
        Opt::Threshold(t, true) => ReloadOptions::default().set_mmap(true).set_mmap_threshold(t),
    }
}
fn io_for(dir: &std::path::Path, base: &str, o: ReloadOptions, c: Ctor) -> Result<HnswIo, String> {
    Ok(match c {
        Ctor::NewThenOptions | Ctor::Reuse | Ctor::Retry => {
            let mut io = HnswIo::new(dir, base);
            io.set_options(o);
            io
        }
        Ctor::NewWithOptions => HnswIo::new_with_options(dir, base, o),
        Ctor::SetValues => {
            let mut io = HnswIo::default();
            io.set_values(dir, base.to_string(), o).map_err(|e| format!("set_values after default: {}", e))?;
            io
        }
    })
}

/// where the vectors are: the dump file in memory, or memory of the process
fn placement<C: Cfg>(r: &Hnsw<'_, C::T, C::D>, data: &std::path::Path, asked: bool, threshold: usize) -> Outcome {
    let file = std::fs::canonicalize(data).unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let ranges: Vec<(usize, usize)> = maps
        .lines()
        .filter(|l| l.ends_with(file.to_str().unwrap()))
        .map(|l| {
            let (a, b) = l.split(' ').next().unwrap().split_once('-').unwrap();
            (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap())
        })
        .collect();
    let (mut in_memory, mut top_mapped, mut low_memory) = (0, 0, 255);
    for p in r.get_point_indexation() {
        let (v, level) = (p.get_v(), p.get_point_id().0);
        if v.is_empty() {
            continue;
        }
        let at = v.as_ptr() as usize;
        if ranges.iter().any(|(a, b)| *a <= at && at < *b) {
            ensure!(asked, "the vector of {} is mapped, mapping was not asked", p.get_origin_id());
            top_mapped = top_mapped.max(level);
        } else {
            in_memory += 1;
            low_memory = low_memory.min(level);
        }
    }
    if asked {
        ensure!(in_memory <= threshold, "{} vectors read into memory, the threshold is {}", in_memory, threshold);
        ensure!(in_memory == 0 || low_memory >= top_mapped, "a vector of level {} is read into memory, one of level {} mapped", low_memory, top_mapped);
    }
    Ok(())
}
fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let dir = dump_dir("c09", c.dir);
    let qs = queries::<C>(&c.ix.data, model.len(), &c.queries);
    let name = h.file_dump(&dir, BASES[c.base % BASES.len()]).map_err(|e| format!("dump failed: {}", e))?;
    let mut pio = HnswIo::new(&dir, &name);
    let plain: Hnsw<C::T, C::D> = pio.load_hnsw().map_err(|e| format!("plain reload failed: {}", e))?;
    // an older format of the same dump
    let entry = entry_of(&std::fs::read(graph_path(&dir, &name)).unwrap())?;
    let (g, d) = files_of(&h, entry, c.version);
    std::fs::write(graph_path(&dir, "older"), g).unwrap();
    std::fs::write(data_path(&dir, "older"), d).unwrap();
    let mapped = snap(&plain, false);
    for (cut_at, (o, ctor)) in c.tries.iter().enumerate() {
        let opts = options(*o);
        let what = format!("{:?} {:?}", o, ctor);
        if let Opt::Threshold(t, explicit) = *o {
            let want = (t > 0 || explicit, t);
            ensure_eq!(opts.use_mmap(), want, "options {}", what);
        }
        let mut io = io_for(&dir, &name, opts, *ctor)?;
        // values cannot be set twice, and the refusal changes nothing
        ensure!(io.set_values(std::path::Path::new("/nowhere"), "other".into(), ReloadOptions::default()).is_err(), "set_values accepted twice");
        if *ctor == Ctor::Reuse {
            // another reload before, with another option, dropped
            io.set_options(ReloadOptions::default().set_mmap(!opts.use_mmap().0));
            {
                let first: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("first reload of {}: {}", what, e))?;
                check_same(&plain, &first, &qs[..1]).map_err(|e| format!("first reload of {}: {}", what, e))?;
            }
            io.set_options(opts);
        }
        if *ctor == Ctor::Retry {
            let file = if c.dir % 3 == 0 { data_path(&dir, &name) } else { graph_path(&dir, &name) };
            let whole = std::fs::read(&file).unwrap();
            let cut = 1 + (mix2(c.queries[0].0, cut_at as u64) % whole.len() as u64) as usize;
            std::fs::write(&file, &whole[..whole.len() - cut]).unwrap();
            {
                let first = catch(|| io.load_hnsw::<C::T, C::D>().map(|r| r.get_nb_point()));
                ensure!(!matches!(first, Ok(Ok(_))), "{}: {} bytes missing at the end of {:?}, reloaded", what, cut, file);
            }
            std::fs::write(&file, &whole).unwrap();
        }
        {
            let r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("reload with {}: {}", what, e))?;
            check_same(&plain, &r, &qs).map_err(|e| format!("{} against plain reload: {}", what, e))?;
            check_content(&r, &model, 16).map_err(|e| format!("{}: {}", what, e))?;
            let (asked, threshold) = opts.use_mmap();
            placement::<C>(&r, &data_path(&dir, &name), asked, threshold).map_err(|e| format!("{}: {}", what, e))?;
            if let (Opt::Threshold(t, _), true) = (o, opts.use_mmap().0) {
                cov.class_if(*t > 0 && *t < model.len(), "partly mapped");
                cov.class_if(*t >= model.len(), "threshold above the number of points");
                cov.nontrivial |= *t > 0 && *t < model.len();
            }
            cov.nontrivial |= opts.use_mmap().0 && model.len() > 2;
            cov.class_if(opts.use_mmap().0, "mapped");
        }
        cov.class(&format!("{:?}", ctor));
        // graph only, explicit distance, older formats
        let mut io = io_for(&dir, &name, opts, *ctor)?;
        match io.load_hnsw::<NoData, NoDist>() {
            Ok(r) => diff_snap(&mapped, &snap(&r, false)).map_err(|e| format!("graph only with {}: {}", what, e))?,
            Err(_) => cov.class("graph only refused"),
        };
        let io = io_for(&dir, &name, opts, *ctor)?;
        match io.load_hnsw_with_dist::<C::T, C::D>(C::D::default()) {
            Ok(r) => check_same(&plain, &r, &qs).map_err(|e| format!("explicit distance with {}: {}", what, e))?,
            Err(_) => cov.class("explicit distance refused"),
        };
        let mut io = io_for(&dir, "older", opts, *ctor)?;
        match io.load_hnsw::<C::T, C::D>() {
            Ok(r) => diff_snap(&snap(&plain, true), &snap(&r, true)).map_err(|e| format!("version {} with {}: {}", c.version, what, e))?,
            Err(_) => cov.class(&format!("version {} refused", c.version)),
        };
        cov.class(&format!("version {} tried", c.version));
    }
    cov.class(C::NAME);
    Ok(())
}
impl Prop for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "a generated dump reloaded under several generated options (no mapping, mapping, thresholds around and beyond the number of points), ways to give them and reuse of the reloader, each compared with a plain reload; plus graph-only, explicit distance and older format reloads under the same options; non-trivial: some mapped reload of more than 2 points";
    fn cases(t: Tier) -> u64 {
        t.pick(8_000, 150_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 120 } else { 400 };
        let opt = prop_oneof![
            1 => Just(Opt::Off), 1 => Just(Opt::Default), 1 => Just(Opt::Map), 1 => Just(Opt::MapNew),
            4 => (0usize..150, any::<bool>()).prop_map(|(t, e)| Opt::Threshold(t, e)),
            1 => (any::<usize>().prop_map(|x| x >> 1), any::<bool>()).prop_map(|(t, e)| Opt::Threshold(t, e)),
        ];
        let ctor = prop_oneof![Just(Ctor::NewThenOptions), Just(Ctor::NewWithOptions), Just(Ctor::SetValues), Just(Ctor::Reuse), Just(Ctor::Retry)];
        (dumpable_strategy(max), 0usize..BASES.len(), any::<u8>(), prop::collection::vec((opt, ctor), 1..5), 2u8..4, queries_strategy(6))
            .prop_map(|(mut ix, base, dir, tries, version, queries)| {
                giant(&mut ix);
                if ix.kind == Kind::F64L2 {
                    // vectors of 8 byte elements cannot be mapped: listed finding
                    ix.kind = Kind::F32L2;
                }
                Case { ix, base, dir, tries, version, queries }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
    fn known_case(sig: &str) -> Option<Case> {
        (sig == "mmap-f64").then(|| Case {
            ix: IndexSpec {
                kind: Kind::F64L2,
                data: DataSpec { seed: 1, dim: 4, palette: Palette::Wide, dup16: 0, clusters: 0, ids: IdMode::Rank },
                n: 8, m: 4, efc: 10, max_layer: 16, hint: 10, extend: false, keep: false, scale: vec![], level_seed: 1, how: How::Insert,
            },
            base: 0,
            dir: 0,
            tries: vec![(Opt::Map, Ctor::NewWithOptions)],
            version: 3,
            queries: vec![(3, 3, 10)],
        })
    }
}
fn main() {
    harness::fw::main::<C09>()
}
