//! C08: dump then reload gives back an equivalent index
use anndists::dist::distances::*;
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    base: usize,
    dir: u8,
    ptr: bool,
    queries: Vec<(u64, usize, usize)>,
}
struct C08;

fn dist_fn(a: &[f32], b: &[f32]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (x - y).abs()).fold(0., f32::max)
}

fn check_descr(dir: &std::path::Path, base: &str, h: &impl Fn() -> (u8, usize, usize, usize, f64), d: &str, t: &str) -> Outcome {
    let f = std::fs::File::open(graph_path(dir, base)).map_err(|e| format!("no graph file: {}", e))?;
    let mut r = std::io::BufReader::new(f);
    let descr = hnsw_rs::hnswio::load_description(&mut r).map_err(|e| format!("description: {}", e))?;
    let (m, ef, nb, dim, scale) = h();
    ensure_eq!(descr.max_nb_connection, m, "M in the description");
    ensure_eq!(descr.ef, ef, "ef_construction in the description");
    ensure_eq!(descr.nb_point, nb, "number of points in the description");
    ensure_eq!(descr.dimension, dim, "dimension in the description");
    ensure_eq!(descr.get_dimension(), dim, "get_dimension");
    ensure_eq!(descr.nb_layer, 16, "layers in the description");
    ensure_eq!(descr.distname, d, "distance in the description");
    ensure_eq!(descr.t_name, t, "type in the description");
    ensure_eq!(descr.get_typename(), t, "get_typename");
    ensure!((descr.level_scale - scale).abs() <= 1e-9 * scale, "scale {} in the description of {}", descr.level_scale, scale);
    Ok(())
}

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let dist = C::D::default();
    let base = BASES[c.base % BASES.len()];
    let dir = dump_dir("c08", c.dir);
    let qs = queries::<C>(&c.ix.data, model.len(), &c.queries);
    let before = snap(&h, true);
    let name = h.file_dump(&dir, base).map_err(|e| format!("dump failed: {}", e))?;
    ensure_eq!(name, base, "base name returned for a new dump");
    diff_snap(&before, &snap(&h, true)).map_err(|e| format!("dumping changed the index: {}", e))?;
    let par = || {
        (h.get_max_nb_connection(), h.get_ef_construction(), h.get_nb_point(), h.get_point_indexation().get_data_dimension(), h.get_point_indexation().get_level_scale())
    };
    check_descr(&dir, &name, &par, std::any::type_name::<C::D>(), std::any::type_name::<C::T>())?;
    ensure_eq!(par().0 as usize, c.ix.m, "M of the index");
    ensure_eq!(par().1, c.ix.efc, "ef_construction of the index");

    let mut io = HnswIo::new(&dir, &name);
    ensure_eq!(io.get_basename(), name, "HnswIo::get_basename");
    let r: Hnsw<C::T, C::D> = io.load_hnsw().map_err(|e| format!("reload failed: {}", e))?;
    check_same(&h, &r, &qs).map_err(|e| format!("reloaded index: {}", e))?;
    check_content(&r, &model, 16).map_err(|e| format!("reloaded index: {}", e))?;
    check_links(&r, c.ix.m, &dist, true, cov).map_err(|e| format!("reloaded index: {}", e))?;
    let io2 = HnswIo::new(&dir, &name);
    let r2: Hnsw<C::T, C::D> = io2.load_hnsw_with_dist(dist).map_err(|e| format!("reload with distance failed: {}", e))?;
    check_same(&h, &r2, &qs).map_err(|e| format!("index reloaded with its distance: {}", e))?;
    // once more, from the reloaded one
    let name2 = r.file_dump(&dir, "again").map_err(|e| format!("second dump failed: {}", e))?;
    check_descr(&dir, &name2, &par, std::any::type_name::<C::D>(), std::any::type_name::<C::T>()).map_err(|e| format!("second dump: {}", e))?;
    let mut io3 = HnswIo::new(&dir, &name2);
    let r3: Hnsw<C::T, C::D> = io3.load_hnsw().map_err(|e| format!("second reload failed: {}", e))?;
    check_same(&h, &r3, &qs).map_err(|e| format!("second reload: {}", e))?;
    // the entry point may be any point of the top layer (it is, after parallel insertions)
    let top = h.get_max_level_observed();
    let tops: Vec<usize> = h.get_point_indexation().get_layer_iterator(top as usize).map(|p| p.get_origin_id()).collect();
    let rank = (c.ix.level_seed % tops.len() as u64) as usize;
    let entry = (tops[rank], top, rank as i32);
    let (g, d) = files_of(&h, entry, 4);
    std::fs::write(graph_path(&dir, "crafted"), &g).unwrap();
    std::fs::write(data_path(&dir, "crafted"), &d).unwrap();
    let mut io4 = HnswIo::new(&dir, "crafted");
    let r4: Hnsw<C::T, C::D> = io4.load_hnsw().map_err(|e| format!("reload with entry point {:?} failed: {}", entry, e))?;
    if entry == entry_of(&std::fs::read(graph_path(&dir, &name)).unwrap())? {
        check_same(&h, &r4, &qs).map_err(|e| format!("reload with entry point {:?}: {}", entry, e))?;
    } else {
        diff_snap(&before, &snap(&r4, true)).map_err(|e| format!("reload with entry point {:?}: {}", entry, e))?;
        let pts = by_pid(&r4);
        for (q, k, ef) in &qs {
            check_answer(&r4.search(q, *k, *ef), q, *k, &C::D::default(), &pts).map_err(|e| format!("reload with entry point {:?}: {}", entry, e))?;
        }
        cov.class("entry point not the first of its layer");
    }
    let name4 = r4.file_dump(&dir, "crafted2").map_err(|e| format!("dump after reload with entry point {:?}: {}", entry, e))?;
    let e4 = entry_of(&std::fs::read(graph_path(&dir, &name4)).unwrap())?;
    ensure_eq!(e4, entry, "entry point dumped after a reload");
    let mut io5 = HnswIo::new(&dir, &name4);
    let r5: Hnsw<C::T, C::D> = io5.load_hnsw().map_err(|e| format!("second reload with entry point {:?}: {}", entry, e))?;
    check_same(&r4, &r5, &qs).map_err(|e| format!("second reload with entry point {:?}: {}", entry, e))?;
    cov.class(C::NAME);
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    cov.class_if(c.ix.max_layer > 16, "layer limit above 16");
    cov.class_if(!c.ix.scale.is_empty(), "modified level scale");
    cov.nontrivial = model.len() > 1 && h.get_max_level_observed() > 0;
    Ok(())
}

/// a distance given by a function pointer
fn run_ptr(c: &Case, cov: &mut Cov) -> Outcome {
    getrandom::set_seed(c.ix.level_seed);
    let h: Hnsw<f32, DistPtr<f32, f32>> = Hnsw::new(c.ix.m, c.ix.hint, 16, c.ix.efc, DistPtr::new(dist_fn));
    let model = c.ix.model::<F32L2>();
    for (id, v) in &model {
        h.insert((v, *id));
    }
    let base = BASES[c.base % BASES.len()];
    let dir = dump_dir("c08", c.dir);
    let qs = queries::<F32L2>(&c.ix.data, model.len(), &c.queries);
    let name = h.file_dump(&dir, base).map_err(|e| format!("dump failed: {}", e))?;
    let io = HnswIo::new(&dir, &name);
    let r: Hnsw<f32, DistPtr<f32, f32>> = io.load_hnsw_with_dist(DistPtr::new(dist_fn)).map_err(|e| format!("reload failed: {}", e))?;
    check_same(&h, &r, &qs)?;
    let name2 = r.file_dump(&dir, "again").map_err(|e| format!("second dump failed: {}", e))?;
    let io2 = HnswIo::new(&dir, &name2);
    let r2: Hnsw<f32, DistPtr<f32, f32>> = io2.load_hnsw_with_dist(DistPtr::new(dist_fn)).map_err(|e| format!("second reload failed: {}", e))?;
    check_same(&h, &r2, &qs)?;
    cov.class("function pointer distance");
    cov.nontrivial = model.len() > 1 && h.get_max_level_observed() > 0;
    Ok(())
}
/// more points in a layer than 16 bits can count
fn run_big(c: &Case, cov: &mut Cov) -> Outcome {
    getrandom::set_seed(c.ix.level_seed);
    let n = 66_500 + c.ix.n * 10;
    let data = DataSpec { dim: 2, palette: Palette::Wide, clusters: 0, dup16: 0, ..c.ix.data };
    let h: Hnsw<f32, DistL2> = Hnsw::new(64, n, 16, 1 + c.ix.efc % 4, DistL2 {});
    let mut h = h;
    h.set_extend_candidates(false);
    let model: Model<F32L2> = (0..n).map(|i| (data.id(i), data.vec::<F32L2>(i))).collect();
    insert_all::<F32L2>(&mut h, &model, How::Par);
    let dir = dump_dir("c08", c.dir);
    let name = h.file_dump(&dir, "big").map_err(|e| format!("dump failed: {}", e))?;
    let mut io = HnswIo::new(&dir, &name);
    let r: Hnsw<f32, DistL2> = io.load_hnsw().map_err(|e| format!("reload failed: {}", e))?;
    check_params(&h, &r)?;
    let (a, b) = (ordered_links(&h), ordered_links(&r));
    ensure_eq!(a.len(), b.len(), "number of points");
    for (x, y) in a.iter().zip(&b) {
        ensure!(x == y, "links of {:?}: {:?} then {:?}", x.0, x.1, y.1);
    }
    check_content(&r, &model, 16).map_err(|e| format!("reloaded index: {}", e))?;
    cov.class_if(h.get_point_indexation().get_layer_nb_point(0) > 65_536, "more than 65536 points in layer 0");
    cov.nontrivial = true;
    Ok(())
}
impl Prop for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a generated index dumped under an odd name in an absolute or relative directory, reloaded twice ways, dumped again and reloaded; description, parameters, points, links and answers compared; non-trivial: several points on several layers";
    fn cases(t: Tier) -> u64 {
        t.pick(6_000, 150_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 140 } else { 500 };
        (dumpable_strategy(max), 0usize..BASES.len(), any::<u8>(), prop_oneof![7 => Just(false), 1 => Just(true)], queries_strategy(10))
            .prop_map(|(mut ix, base, dir, ptr, queries)| {
                giant(&mut ix);
                Case { ix, base, dir, ptr, queries }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        if c.ix.level_seed % 2500 == 7 {
            return run_big(c, cov);
        }
        if c.ptr {
            return run_ptr(c, cov);
        }
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C08>()
}
