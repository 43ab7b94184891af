//! C12: the data map serves exactly the dumped vectors
use harness::fw::*;
use harness::idx::*;
use harness::{dispatch, ensure, ensure_eq};
use hnsw_rs::datamap::DataMap;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ix: IndexSpec,
    base: usize,
    dir: u8,
    gets: Vec<u64>,
}
struct C12;

/// another type of the same short name
mod elsewhere {
    #[derive(Clone, Debug)]
    #[allow(dead_code)]
    pub struct Rgb(pub u8, pub u8, pub u8);
    #[derive(Clone, Debug)]
    #[allow(dead_code)]
    pub struct Pix(pub u32);
}

fn run<C: Cfg>(c: &Case, cov: &mut Cov) -> Outcome {
    let (h, model) = c.ix.build::<C>();
    let dir = dump_dir("c12", c.dir);
    let name = h.file_dump(&dir, BASES[c.base % BASES.len()]).map_err(|e| format!("dump failed: {}", e))?;
    let map = DataMap::from_hnswdump::<C::T>(&dir, &name).map_err(|e| format!("data map: {}", e))?;
    ensure_eq!(map.get_nb_data(), model.len(), "number of data");
    ensure_eq!(map.get_data_typename(), std::any::type_name::<C::T>(), "type name");
    ensure_eq!(map.get_distname(), std::any::type_name::<C::D>(), "distance name");
    // the file holds the layers one after the other
    let order: Vec<usize> = (0..16).flat_map(|l| h.get_point_indexation().get_layer_iterator(l).map(|p| p.get_origin_id()).collect::<Vec<_>>()).collect();
    let ids: Vec<usize> = map.get_dataid_iter().copied().collect();
    ensure!(ids == order, "order of the ids: {:?} instead of {:?}", ids, order);
    for (id, v) in &model {
        match map.get_data::<C::T>(id) {
            None => return Err(format!("no data for {}", id)),
            Some(d) => ensure!(d == v.as_slice(), "data of {}: {:?} instead of {:?}", id, d, v),
        }
    }
    // again, in random order
    for g in &c.gets {
        let (id, v) = &model[(*g % model.len() as u64) as usize];
        ensure!(map.get_data::<C::T>(id).is_some_and(|d| d == v.as_slice()), "second reading of the data of {}", id);
        let a = c.ix.data.absent_id(*g as usize % 1000);
        ensure!(map.get_data::<C::T>(&a).is_none(), "data for {} which is not stored", a);
    }
    for (id, _) in &model {
        for a in [id.wrapping_add(1), id.wrapping_sub(1)] {
            let stored = model.iter().any(|m| m.0 == a);
            ensure_eq!(map.get_data::<C::T>(&a).is_some(), stored, "data for {}, is it stored", a);
        }
    }
    // other types
    macro_rules! others {
        ($($t:ty),*) => { $(
            let same = std::any::TypeId::of::<$t>() == std::any::TypeId::of::<C::T>();
            ensure_eq!(map.check_data_type::<$t>(), same, "check_data_type::<{}> on {}", stringify!($t), C::NAME);
            if !same {
                ensure!(DataMap::from_hnswdump::<$t>(&dir, &name).is_err(), "data of {} opened as {}", C::NAME, stringify!($t));
            }
        )* };
    }
    others!(u8, i8, u16, i16, u32, i32, f32, u64, usize, f64, Rgb, Pix, (u8, u8, u8), [u8; 4], elsewhere::Rgb, elsewhere::Pix, NoData, bool, char);
    // a second map of the same files, and a map that outlives another
    let map2 = DataMap::from_hnswdump::<C::T>(&dir, &name).map_err(|e| format!("second data map: {}", e))?;
    drop(map);
    let (id, v) = &model[model.len() / 2];
    ensure!(map2.get_data::<C::T>(id).is_some_and(|d| d == v.as_slice()), "data of {} in a second map", id);
    cov.class(C::NAME);
    cov.class_if(c.ix.n > 66_000, "more than 65536 points in layer 0");
    cov.class_if(h.get_max_level_observed() > 0, "several layers");
    cov.class_if(C::VARLEN && model.iter().any(|m| m.1.is_empty()), "an empty vector");
    cov.nontrivial = model.len() > 2 && model.iter().any(|m| m.1 != model[0].1);
    Ok(())
}
impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "a generated dump (vectors of one or of various lengths, absolute or relative directory) opened as a data map of its type and of 18 others; non-trivial: at least 3 points, not all the same vector";
    fn cases(t: Tier) -> u64 {
        t.pick(8_000, 200_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 140 } else { 500 };
        (dumpable_strategy(max), 0usize..BASES.len(), any::<u8>(), prop::collection::vec(any::<u64>(), 0..20))
            .prop_map(|(mut ix, base, dir, gets)| {
                if ix.kind == Kind::F64L2 {
                    // vectors of 8 byte elements cannot be mapped: listed finding
                    ix.kind = Kind::F32L2;
                }
                giant(&mut ix);
                huge(&mut ix, 2500);
                Case { ix, base, dir, gets }
            })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        dispatch!(c.ix.kind, C => run::<C>(c, cov))
    }
    fn known_case(sig: &str) -> Option<Case> {
        (sig == "mmap-f64").then(|| Case {
            ix: IndexSpec {
                kind: Kind::F64L2,
                data: DataSpec { seed: 1, dim: 4, palette: Palette::Wide, dup16: 0, clusters: 0, ids: IdMode::Rank },
                n: 8, m: 4, efc: 10, max_layer: 16, hint: 10, extend: false, keep: false, scale: vec![], level_seed: 1, how: How::Insert,
            },
            base: 0,
            dir: 0,
            gets: vec![1],
        })
    }
}
fn main() {
    harness::fw::main::<C12>()
}
