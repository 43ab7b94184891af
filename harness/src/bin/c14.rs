//! C14: incomplete dumps are rejected with an error
use harness::dump::*;
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch_few, ensure};
use hnsw_rs::datamap::DataMap;
use hnsw_rs::hnswio::ReloadOptions;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Which {
    Graph,
    Data,
    Both,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    base: usize,
    dir: u8,
    version: u8,
    which: Which,
    /// every cut point, or (some of) the field boundaries, the bytes around them and random ones
    all: bool,
    picks: u64,
    threshold: usize,
}
struct C14;

/// a part of a file; None: no file at all
type Part = Option<usize>;

fn put(path: &Path, full: &[u8], part: Part) {
    match part {
        None => {
            let _ = std::fs::remove_file(path);
        }
        Some(n) => std::fs::write(path, &full[..n]).unwrap(),
    }
}

struct Files {
    graph: Vec<u8>,
    data: Vec<u8>,
    descr_end: usize,
}

fn one<C: Cfg>(c: &Case, dir: &Path, base: &str, f: &Files, g: Part, d: Part, truth: &HashMap<usize, Vec<C::T>>, cov: &mut Cov) -> Outcome {
    put(&graph_path(dir, base), &f.graph, g);
    put(&data_path(dir, base), &f.data, d);
    let what = format!(
        "version {} graph {} of {} data {} of {}",
        c.version,
        g.map_or("missing".to_string(), |n| n.to_string()),
        f.graph.len(),
        d.map_or("missing".to_string(), |n| n.to_string()),
        f.data.len()
    );
    fn refused<X>(r: Result<anyhow::Result<X>, String>, what: &str, how: &str) -> Outcome {
        match r {
            Err(p) => Err(format!("{}: {}: {}", what, how, p)),
            Ok(Ok(_)) => Err(format!("{}: {} gave an index", what, how)),
            Ok(Err(_)) => Ok(()),
        }
    }
    let maps: &[(&str, ReloadOptions)] = &[
        ("plain reload", ReloadOptions::default()),
        ("mapped reload", ReloadOptions::default().set_mmap(true)),
        ("partly mapped reload", ReloadOptions::default().set_mmap_threshold(c.threshold)),
    ];
    for (how, o) in maps {
        if *how != "plain reload" && !C::ALIGN_OK_MMAP {
            continue;
        }
        let mut io = HnswIo::new_with_options(dir, base, *o);
        refused(catch(|| io.load_hnsw::<C::T, C::D>().map(|_| ())), &what, how)?;
    }
    let mut io = HnswIo::new(dir, base);
    refused(catch(|| io.load_hnsw::<NoData, NoDist>().map(|_| ())), &what, "graph-only reload")?;
    let io = HnswIo::new(dir, base);
    refused(catch(|| io.load_hnsw_with_dist::<C::T, C::D>(C::D::default()).map(|_| ())), &what, "reload with a distance")?;
    // the description
    if let Some(n) = g {
        let r = catch(|| {
            let mut r = std::io::BufReader::new(std::fs::File::open(graph_path(dir, base)).unwrap());
            hnsw_rs::hnswio::load_description(&mut r)
        });
        match r {
            Err(p) => return Err(format!("{}: load_description: {}", what, p)),
            Ok(Ok(ds)) => {
                ensure!(n >= f.descr_end, "{}: load_description read a description cut at {} of {}", what, n, f.descr_end);
                ensure!(ds.nb_point == truth.len() && ds.t_name == std::any::type_name::<C::T>(), "{}: wrong description", what);
            }
            Ok(Err(e)) => ensure!(n < f.descr_end, "{}: load_description: {}", what, e),
        }
        cov.class_if(n < f.descr_end, "cut inside the description");
    }
    // the data map
    if C::ALIGN_OK_MMAP {
        match catch(|| DataMap::from_hnswdump::<C::T>(dir, base)) {
            Err(p) => return Err(format!("{}: DataMap: {}", what, p)),
            Ok(Err(_)) => {}
            Ok(Ok(m)) => {
                if c.version == 2 {
                    return Err(format!("{}: data map of a version 2 dump", what));
                }
                cov.class("data map on an incomplete dump");
                let ids: Vec<usize> = m.get_dataid_iter().copied().collect();
                ensure!(ids.len() == m.get_nb_data(), "{}: DataMap counts", what);
                for id in ids {
                    let Some(v) = truth.get(&id) else { return Err(format!("{}: DataMap invents id {}", what, id)) };
                    let r = catch(|| m.get_data::<C::T>(&id).map(|x| x.to_vec())).map_err(|p| format!("{}: get_data: {}", what, p))?;
                    ensure!(r.as_ref() == Some(v), "{}: DataMap gives {:?} for the vector {:?} of {}", what, r, v, id);
                }
                for id in truth.keys() {
                    let r = catch(|| m.get_data::<C::T>(id).map(|x| x.to_vec())).map_err(|p| format!("{}: get_data: {}", what, p))?;
                    if let Some(r) = r {
                        ensure!(r == truth[id], "{}: DataMap gives {:?} for the vector of {}", what, r, id);
                    }
                }
            }
        }
    }
    Ok(())
}

fn cuts(len: usize, marks: &[usize], all: bool, picks: u64) -> Vec<Part> {
    let mut s: BTreeSet<usize> = BTreeSet::new();
    s.insert(0);
    s.insert(len - 1);
    if all {
        s.extend(0..len);
    } else {
        for i in 0..14u64 {
            let m = marks[(mix2(picks, i) % marks.len() as u64) as usize];
            s.extend([m.saturating_sub(1), m, m + 1]);
            s.insert((mix2(picks, 1000 + i) % len as u64) as usize);
        }
        // BufWriter writes by 8 kB blocks
        s.extend((0..len).step_by(8192));
    }
    std::iter::once(None).chain(s.into_iter().filter(|x| *x < len).map(Some)).collect()
}

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let dir = dump_dir("c14", c.dir);
    let base = BASES[c.base % BASES.len()];
    let name = h.file_dump(&dir, base).map_err(|e| format!("dump failed: {}", e))?;
    let (mut graph, mut data) = (std::fs::read(graph_path(&dir, &name)).unwrap(), std::fs::read(data_path(&dir, &name)).unwrap());
    if c.version < 4 {
        let entry = entry_of(&graph)?;
        (graph, data) = files_of(&h, entry, c.version);
    }
    let mut rd = Rd::new(&graph);
    read_descr(&mut rd)?;
    let descr_end = rd.at;
    let gm = read_graph(&graph)?.1;
    let dm = read_data(&data)?.1;
    let f = Files { graph, data, descr_end };
    let (gl, dl) = (f.graph.len(), f.data.len());
    // whole files are read
    put(&graph_path(&dir, base), &f.graph, Some(gl));
    put(&data_path(&dir, base), &f.data, Some(dl));
    let mut io = HnswIo::new(&dir, base);
    io.load_hnsw::<C::T, C::D>().map_err(|e| format!("complete dump: {}", e))?;
    let truth: HashMap<usize, Vec<C::T>> = model.into_iter().collect();
    let mut n = 0;
    match c.which {
        Which::Graph => {
            for g in cuts(gl, &gm, c.all, c.picks) {
                one::<C>(c, &dir, base, &f, g, Some(dl), &truth, cov)?;
                n += 1;
            }
        }
        Which::Data => {
            for d in cuts(dl, &dm, c.all, c.picks) {
                one::<C>(c, &dir, base, &f, Some(gl), d, &truth, cov)?;
                n += 1;
            }
        }
        Which::Both => {
            let (a, b) = (cuts(gl, &gm, false, c.picks), cuts(dl, &dm, false, c.picks ^ 99));
            for i in 0..40u64 {
                let (g, d) = (a[(mix2(c.picks, i) % a.len() as u64) as usize], b[(mix2(c.picks ^ 5, i) % b.len() as u64) as usize]);
                one::<C>(c, &dir, base, &f, g, d, &truth, cov)?;
                n += 1;
            }
        }
    }
    cov.add("incomplete dumps", n);
    cov.class(C::NAME);
    cov.class(&format!("{:?}, {}", c.which, if c.all { "every cut" } else { "some cuts" }));
    cov.class(&format!("version {}", c.version));
    cov.nontrivial = truth.len() > 1;
    Ok(())
}
impl Prop for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "a generated dump (current or earlier format) with the graph file, the data file or both missing, empty or cut: at every byte for small ones, else around field boundaries, at buffer blocks and random bytes; six readers on each; non-trivial: at least 2 points";
    fn cases(t: Tier) -> u64 {
        t.pick(1_600, 40_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            (dumpable_strategy(40), 0usize..BASES.len(), any::<u8>(), prop_oneof![3 => Just(4u8), 1 => 2u8..4]),
            prop_oneof![4 => Just(Which::Graph), 4 => Just(Which::Data), 1 => Just(Which::Both)],
            prop_oneof![3 => Just(false), 1 => Just(true)],
            any::<u64>(),
            1usize..30,
        )
            .prop_map(|((mut ix, base, dir, version), which, all, picks, threshold)| {
                if all {
                    ix.n = if which == Which::Graph { 1 + ix.n % 4 } else { 1 + ix.n % 12 };
                    ix.data.dim = 1 + ix.data.dim % 8;
                }
                Case { ix, base, dir, version, which, all, picks, threshold }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch_few!(c.ix.kind, C => run::<C>(c, cov))
    }
}
fn main() {
    harness::fw::main::<C14>()
}
