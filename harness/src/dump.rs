//! The dump format, read and written independently of the crate: versions 2, 3 and 4.
use crate::ensure;
use crate::fw::Outcome;
use crate::idx::*;
use anndists::dist::distances::Distance;
use hnsw_rs::prelude::*;
use serde::Serialize;
use std::fmt::Debug;
use std::path::{Path, PathBuf};

pub const MAGICPOINT: u32 = 0x000a678f;
pub const MAGICDESCR_2: u32 = 0x002a677f;
pub const MAGICDESCR_3: u32 = 0x002a6771;
pub const MAGICDESCR_4: u32 = 0x002a6779;
pub const MAGICLAYER: u32 = 0x000a676f;
pub const MAGICDATAP: u32 = 0xa67f0000;

pub fn graph_path(dir: &Path, base: &str) -> PathBuf {
    dir.join(format!("{}.hnsw.graph", base))
}
pub fn data_path(dir: &Path, base: &str) -> PathBuf {
    dir.join(format!("{}.hnsw.data", base))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Descr {
    pub version: u8,
    pub mode: u8,
    pub m: u8,
    pub scale: f64,
    pub nb_layer: u8,
    pub ef: usize,
    pub nb_point: usize,
    pub dim: usize,
    pub distname: Vec<u8>,
    pub tname: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct GPoint {
    pub id: usize,
    pub layer: u8,
    pub rank: i32,
    pub links: Vec<Vec<(usize, u8, i32, f32)>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Graph {
    pub descr: Descr,
    pub layers: Vec<Vec<GPoint>>,
    pub entry: (usize, u8, i32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub dim: usize,
    pub recs: Vec<(u64, Vec<u8>)>,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub at: usize,
    /// offset of the beginning of each field read
    pub marks: Vec<usize>,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, at: 0, marks: Vec::new() }
    }
    pub fn bytes(&mut self, n: usize) -> Result<&'a [u8], String> {
        self.marks.push(self.at);
        if n > self.b.len() - self.at {
            return Err(format!("end of file at {} reading {} bytes", self.at, n));
        }
        let r = &self.b[self.at..self.at + n];
        self.at += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.bytes(1)?[0])
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_ne_bytes(self.bytes(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> Result<i32, String> {
        Ok(i32::from_ne_bytes(self.bytes(4)?.try_into().unwrap()))
    }
    pub fn f32(&mut self) -> Result<f32, String> {
        Ok(f32::from_ne_bytes(self.bytes(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_ne_bytes(self.bytes(8)?.try_into().unwrap()))
    }
    pub fn usize(&mut self) -> Result<usize, String> {
        Ok(self.u64()? as usize)
    }
    pub fn f64(&mut self) -> Result<f64, String> {
        Ok(f64::from_ne_bytes(self.bytes(8)?.try_into().unwrap()))
    }
}

pub fn read_descr(r: &mut Rd) -> Result<Descr, String> {
    let version = match r.u32()? {
        MAGICDESCR_2 => 2,
        MAGICDESCR_3 => 3,
        MAGICDESCR_4 => 4,
        m => return Err(format!("magic {:x}", m)),
    };
    let mode = r.u8()?;
    let m = r.u8()?;
    let scale = if version == 4 { r.f64()? } else { 1.0 };
    let nb_layer = r.u8()?;
    let ef = r.usize()?;
    let nb_point = r.usize()?;
    let dim = r.usize()?;
    let len = r.usize()?;
    if len > 256 {
        return Err(format!("distance name of length {}", len));
    }
    let distname = r.bytes(len)?.to_vec();
    let len = r.usize()?;
    if len > 256 {
        return Err(format!("type name of length {}", len));
    }
    let tname = r.bytes(len)?.to_vec();
    Ok(Descr { version, mode, m, scale, nb_layer, ef, nb_point, dim, distname, tname })
}
/// the graph file and the offsets of its fields
pub fn read_graph(b: &[u8]) -> Result<(Graph, Vec<usize>), String> {
    let mut r = Rd::new(b);
    let descr = read_descr(&mut r)?;
    let nl = r.u8()?;
    let mut layers = Vec::new();
    for _ in 0..nl {
        let magic = r.u32()?;
        ensure_magic(magic, MAGICLAYER)?;
        let n = r.usize()?;
        let mut pts = Vec::new();
        for _ in 0..n {
            let magic = r.u32()?;
            ensure_magic(magic, MAGICPOINT)?;
            let (id, layer, rank) = (r.usize()?, r.u8()?, r.i32()?);
            let mut links = Vec::new();
            for _ in 0..descr.nb_layer {
                let k = r.usize()?;
                let mut l = Vec::new();
                for _ in 0..k {
                    l.push((r.usize()?, r.u8()?, r.i32()?, r.f32()?));
                }
                links.push(l);
            }
            pts.push(GPoint { id, layer, rank, links });
        }
        layers.push(pts);
    }
    let entry = (r.usize()?, r.u8()?, r.i32()?);
    if r.at != b.len() {
        return Err(format!("{} bytes after the end of the graph", b.len() - r.at));
    }
    Ok((Graph { descr, layers, entry }, r.marks))
}
fn ensure_magic(a: u32, b: u32) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("magic {:x} instead of {:x}", a, b))
    }
}
pub fn read_data(b: &[u8]) -> Result<(Data, Vec<usize>), String> {
    let mut r = Rd::new(b);
    ensure_magic(r.u32()?, MAGICDATAP)?;
    let dim = r.usize()?;
    let mut recs = Vec::new();
    while r.at < b.len() {
        ensure_magic(r.u32()?, MAGICDATAP)?;
        let id = r.u64()?;
        let len = r.u64()? as usize;
        recs.push((id, r.bytes(len)?.to_vec()));
    }
    Ok((Data { dim, recs }, r.marks))
}

pub fn write_descr(d: &Descr, version: u8) -> Vec<u8> {
    let mut o = Vec::new();
    let magic = match version {
        2 => MAGICDESCR_2,
        3 => MAGICDESCR_3,
        _ => MAGICDESCR_4,
    };
    o.extend(magic.to_ne_bytes());
    o.push(d.mode);
    o.push(d.m);
    if version == 4 {
        o.extend(d.scale.to_ne_bytes());
    }
    o.push(d.nb_layer);
    o.extend(d.ef.to_ne_bytes());
    o.extend(d.nb_point.to_ne_bytes());
    o.extend(d.dim.to_ne_bytes());
    o.extend(d.distname.len().to_ne_bytes());
    o.extend(&d.distname);
    o.extend(d.tname.len().to_ne_bytes());
    o.extend(&d.tname);
    o
}
pub fn write_graph(g: &Graph, version: u8) -> Vec<u8> {
    let mut o = write_descr(&g.descr, version);
    o.push(g.layers.len() as u8);
    for pts in &g.layers {
        o.extend(MAGICLAYER.to_ne_bytes());
        o.extend(pts.len().to_ne_bytes());
        for p in pts {
            o.extend(MAGICPOINT.to_ne_bytes());
            o.extend(p.id.to_ne_bytes());
            o.push(p.layer);
            o.extend(p.rank.to_ne_bytes());
            for l in &p.links {
                o.extend(l.len().to_ne_bytes());
                for (id, layer, rank, d) in l {
                    o.extend(id.to_ne_bytes());
                    o.push(*layer);
                    o.extend(rank.to_ne_bytes());
                    o.extend(d.to_ne_bytes());
                }
            }
        }
    }
    o.extend(g.entry.0.to_ne_bytes());
    o.push(g.entry.1);
    o.extend(g.entry.2.to_ne_bytes());
    o
}
pub fn write_data(d: &Data) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend(MAGICDATAP.to_ne_bytes());
    o.extend(d.dim.to_ne_bytes());
    for (id, b) in &d.recs {
        o.extend(MAGICDATAP.to_ne_bytes());
        o.extend(id.to_ne_bytes());
        o.extend((b.len() as u64).to_ne_bytes());
        o.extend(b);
    }
    o
}

pub fn raw_bytes<T>(v: &[T]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec()
}

/// the two files an index should dump to, made from what its public interface shows; `entry` is the
/// position of the entry point, which is not public
pub fn files_of<T, D>(h: &Hnsw<'_, T, D>, entry: (usize, u8, i32), version: u8) -> (Vec<u8>, Vec<u8>)
where
    T: Clone + Send + Sync + Debug + Serialize,
    D: Distance<T> + Send + Sync,
{
    let mut pts = view(h);
    pts.sort_by_key(|p| p.pid);
    let mut layers: Vec<Vec<GPoint>> = vec![Vec::new(); 16];
    let mut recs = Vec::new();
    for p in &pts {
        let mut links: Vec<Vec<(usize, u8, i32, f32)>> =
            p.links.iter().map(|l| l.iter().map(|(id, pid, d)| (*id, pid.0, pid.1, *d)).collect()).collect();
        links.resize(16, Vec::new());
        layers[p.pid.0 as usize].push(GPoint { id: p.id, layer: p.pid.0, rank: p.pid.1, links });
        let bytes = if version == 2 { bincode::serialize(&p.v).unwrap() } else { raw_bytes(&p.v) };
        recs.push((p.id as u64, bytes));
    }
    let dim = h.get_point_indexation().get_data_dimension();
    let descr = Descr {
        version,
        mode: 1,
        m: h.get_max_nb_connection(),
        scale: h.get_point_indexation().get_level_scale(),
        nb_layer: 16,
        ef: h.get_ef_construction(),
        nb_point: pts.len(),
        dim,
        distname: std::any::type_name::<D>().as_bytes().to_vec(),
        tname: std::any::type_name::<T>().as_bytes().to_vec(),
    };
    (write_graph(&Graph { descr, layers, entry }, version), write_data(&Data { dim, recs }))
}
/// the entry point written at the end of a graph file
pub fn entry_of(b: &[u8]) -> Result<(usize, u8, i32), String> {
    if b.len() < 13 {
        return Err("graph file too short".into());
    }
    let mut r = Rd::new(&b[b.len() - 13..]);
    Ok((r.usize()?, r.u8()?, r.i32()?))
}

/// parameters shown by the public interface
pub fn check_params<T, D, D2, T2>(a: &Hnsw<'_, T, D>, b: &Hnsw<'_, T2, D2>) -> Outcome
where
    T: Clone + Send + Sync,
    T2: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
    D2: Distance<T2> + Send + Sync,
{
    crate::ensure_eq!(a.get_max_nb_connection(), b.get_max_nb_connection(), "M");
    crate::ensure_eq!(a.get_ef_construction(), b.get_ef_construction(), "ef_construction");
    crate::ensure_eq!(a.get_nb_point(), b.get_nb_point(), "number of points");
    crate::ensure_eq!(a.get_max_level(), b.get_max_level(), "layer limit");
    crate::ensure_eq!(a.get_max_level_observed(), b.get_max_level_observed(), "entry level");
    let (s, t) = (a.get_point_indexation().get_level_scale(), b.get_point_indexation().get_level_scale());
    ensure!((s - t).abs() <= 1e-9 * s.abs(), "level scale {} then {}", s, t);
    Ok(())
}
/// the neighbour lists, in their order
pub fn ordered_links<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(
    h: &Hnsw<'_, T, D>,
) -> Vec<(PidKey, Vec<Vec<(usize, PidKey, u32)>>)> {
    let mut v: Vec<_> = view(h)
        .into_iter()
        .map(|p| {
            let mut l: Vec<Vec<(usize, PidKey, u32)>> =
                p.links.iter().map(|l| l.iter().map(|(i, k, d)| (*i, *k, d.to_bits())).collect()).collect();
            while l.last().is_some_and(|x: &Vec<_>| x.is_empty()) {
                l.pop();
            }
            (p.pid, l)
        })
        .collect();
    v.sort_by_key(|p| p.0);
    v
}
/// the same index: parameters, points, links, and the answers to queries
pub fn check_same<T, D, D2>(a: &Hnsw<'_, T, D>, b: &Hnsw<'_, T, D2>, queries: &[(Vec<T>, usize, usize)]) -> Outcome
where
    T: Clone + Send + Sync + Debug + PartialEq,
    D: Distance<T> + Send + Sync,
    D2: Distance<T> + Send + Sync,
{
    check_params(a, b)?;
    diff_snap(&snap(a, true), &snap(b, true))?;
    // answers may depend on the order of equally distant neighbours in the lists
    let same_lists = ordered_links(a) == ordered_links(b);
    for (q, k, ef) in queries {
        let (x, y) = (a.search(q, *k, *ef), b.search(q, *k, *ef));
        if same_lists {
            ensure!(same_answer(&x, &y), "k {} ef {}: answer {:?} then {:?}", k, ef, x, y);
        } else {
            ensure!(x.len() <= *k && y.len() <= *k, "more than k answers");
        }
    }
    Ok(())
}
