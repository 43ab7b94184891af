//! C19: dumps of earlier format versions stay readable
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::datamap::DataMap;
use hnsw_rs::hnswio::{load_description, ReloadOptions};
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    base: usize,
    dir: u8,
    version: u8,
    threshold: Option<usize>,
    more: usize,
    queries: Vec<(u64, usize, usize)>,
}
struct C19;

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let dir = dump_dir("c19", c.dir);
    let qs = queries::<C>(&c.ix.data, model.len(), &c.queries);
    // only to know the entry point, which the interface does not show
    let tmp = h.file_dump(&dir, "entry").map_err(|e| format!("dump failed: {}", e))?;
    let entry = entry_of(&std::fs::read(graph_path(&dir, &tmp)).unwrap())?;
    let base = BASES[c.base % BASES.len()];
    let (g, d) = files_of(&h, entry, c.version);
    std::fs::write(graph_path(&dir, base), &g).unwrap();
    std::fs::write(data_path(&dir, base), &d).unwrap();
    let vers = format!("version {}", c.version);
    let scale = if c.version == 4 { h.get_point_indexation().get_level_scale() } else { 1. / (c.ix.m as f64).ln() };

    // what a version 2, 3 or 4 dump reloads to
    macro_rules! same {
        ($r:expr, $what:expr) => {{
            let r = &$r;
            let run = || -> Outcome {
                ensure_eq!(r.get_nb_point(), model.len(), "points");
                ensure_eq!(r.get_max_nb_connection() as usize, c.ix.m, "M");
                ensure_eq!(r.get_ef_construction(), c.ix.efc, "ef_construction");
                ensure_eq!(r.get_max_level(), 16, "layer limit");
                ensure_eq!(r.get_max_level_observed(), h.get_max_level_observed(), "entry level");
                let s = r.get_point_indexation().get_level_scale();
                ensure!((s / scale - 1.).abs() < 1e-12, "level scale {} instead of {}", s, scale);
                ensure!(ordered_links(&h) == ordered_links(r), "neighbour lists differ");
                Ok(())
            };
            run().map_err(|e| format!("{} {}: {}", vers, $what, e))?
        }};
    }
    macro_rules! full {
        ($r:expr, $what:expr) => {{
            same!($r, $what);
            check_content(&$r, &model, 16).map_err(|e| format!("{} {}: {}", vers, $what, e))?;
            diff_snap(&snap(&h, true), &snap(&$r, true)).map_err(|e| format!("{} {}: {}", vers, $what, e))?;
            for (q, k, ef) in &qs {
                let (a, b) = (h.search(q, *k, *ef), $r.search(q, *k, *ef));
                ensure!(same_answer(&a, &b), "{} {}: k {} ef {}: {:?} instead of {:?}", vers, $what, k, ef, b, a);
            }
        }};
    }
    {
        let mut io = HnswIo::new(&dir, base);
        let mut r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("{}: {}", vers, e))?;
        full!(r, "reloaded");
        // it can be dumped again, in the present format
        let name = r.file_dump(&dir, "again").map_err(|e| format!("{}: dump: {}", vers, e))?;
        {
            let mut io2 = HnswIo::new(&dir, &name);
            let r2: Hnsw<C::T, C::D> = io2.load_hnsw().map_err(|e| format!("{} dumped again: {}", vers, e))?;
            full!(r2, "reloaded, dumped and reloaded");
        }
        // and grown
        let mut all = model.clone();
        all.extend(insert_range::<C>(&mut r, &c.ix.data, model.len()..model.len() + c.more, How::Insert));
        check_content(&r, &all, 16).map_err(|e| format!("{} grown: {}", vers, e))?;
        check_links(&r, c.ix.m, &C::D::default(), true, cov).map_err(|e| format!("{} grown: {}", vers, e))?;
    }
    {
        let io = HnswIo::new(&dir, base);
        let r: Hnsw<C::T, C::D> = io.load_hnsw_with_dist(C::D::default()).map_err(|e| format!("{} with distance: {}", vers, e))?;
        full!(r, "reloaded with an explicit distance");
    }
    {
        let mut io = HnswIo::new(&dir, base);
        let r: Hnsw<NoData, NoDist> = io.load_hnsw().map_err(|e| format!("{} graph only: {}", vers, e))?;
        same!(r, "graph only");
        diff_snap(&snap(&h, false), &snap(&r, false)).map_err(|e| format!("{} graph only: {}", vers, e))?;
    }
    if c.version > 2 && C::ALIGN_OK_MMAP {
        let opt = match c.threshold {
            None => ReloadOptions::default().set_mmap(true),
            Some(t) => ReloadOptions::default().set_mmap_threshold(t),
        };
        let mut io = HnswIo::new_with_options(&dir, base, opt);
        let r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("{} mapped: {}", vers, e))?;
        full!(r, "mapped");
        let m = DataMap::from_hnswdump::<C::T>(&dir, base).map_err(|e| format!("{} data map: {}", vers, e))?;
        ensure_eq!(m.get_nb_data(), model.len(), "points in the data map");
        for (id, v) in &model {
            ensure!(m.get_data::<C::T>(id) == Some(v.as_slice()), "{} data map: {:?} for id {} instead of {:?}", vers, m.get_data::<C::T>(id), id, v);
        }
        cov.class("mapped");
        cov.class_if(c.ix.data.dim > 16_384, "vectors of more than 64 kB");
    }
    {
        let f = std::fs::File::open(graph_path(&dir, base)).unwrap();
        let d = load_description(&mut std::io::BufReader::new(f)).map_err(|e| format!("{} description: {}", vers, e))?;
        ensure_eq!(d.format_version, c.version as usize, "version in the description");
        ensure_eq!((d.max_nb_connection as usize, d.ef, d.nb_point, d.nb_layer), (c.ix.m, c.ix.efc, model.len(), 16), "{} description", vers);
        ensure_eq!((d.distname.as_str(), d.t_name.as_str()), (std::any::type_name::<C::D>(), std::any::type_name::<C::T>()), "{} description", vers);
        ensure_eq!(d.dimension, h.get_point_indexation().get_data_dimension(), "{} description", vers);
    }
    cov.class(&vers);
    cov.class(C::NAME);
    cov.class_if(!c.ix.scale.is_empty() && c.version < 4, "built with another scale");
    cov.nontrivial = model.len() > 2;
    Ok(())
}
impl Prop for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "the files a generated index has in format 2, 3 (and 4), written by an independent writer from what the public interface shows, reloaded plainly, with an explicit distance, graph only, mapped (3 and 4) and as a data map, compared with the index; dumped again and grown. Non-trivial: more than 2 points";
    fn cases(t: Tier) -> u64 {
        t.pick(6_000, 150_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 120 } else { 400 };
        (
            dumpable_strategy(max), 0usize..BASES.len(), any::<u8>(), prop_oneof![3 => Just(2u8), 3 => Just(3u8), 1 => Just(4u8)],
            prop_oneof![Just(None), (0usize..150).prop_map(Some)], 0usize..12, queries_strategy(6),
        )
            .prop_map(|(mut ix, base, dir, version, threshold, more, queries)| {
                giant(&mut ix);
                Case { ix, base, dir, version, threshold, more, queries }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C19>()
}
