//! C21: the description reader is total and faithful
use harness::dump::*;
use harness::fw::*;
use harness::{ensure, ensure_eq};
use hnsw_rs::hnswio::load_description;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{BufReader, Read};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Flip(u64, u8),
    Set(u64, u8),
    Cut(u64),
    Insert(u64, Vec<u8>),
    Remove(u64, usize),
    /// a length field (0 distance, 1 type) set to a value
    Len(u8, u64),
    Magic(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    Raw(Vec<u8>),
    Valid { version: u8, mode: u8, m: u8, scale: u64, nb_layer: u8, nums: [u64; 3], dist: Vec<u8>, ty: Vec<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    base: Base,
    muts: Vec<Mut>,
    tail: Vec<u8>,
    chunk: usize,
}
struct C21;

/// gives a few bytes at a time, interrupts now and then, and counts what is taken
struct Slow<'a> {
    b: &'a [u8],
    at: usize,
    chunk: usize,
    calls: usize,
}
impl Read for Slow<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.chunk > 1 && self.calls % 7 == 3 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = out.len().min(self.b.len() - self.at).min(self.chunk);
        out[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn bytes_of(c: &Case) -> Vec<u8> {
    let mut b = match &c.base {
        Base::Raw(v) => v.clone(),
        Base::Valid { version, mode, m, scale, nb_layer, nums, dist, ty } => {
            let d = Descr {
                version: *version, mode: *mode, m: *m, scale: f64::from_bits(*scale), nb_layer: *nb_layer,
                ef: nums[0] as usize, nb_point: nums[1] as usize, dim: nums[2] as usize, distname: dist.clone(), tname: ty.clone(),
            };
            write_descr(&d, *version)
        }
    };
    for m in &c.muts {
        let n = b.len().max(1) as u64;
        match m {
            Mut::Flip(i, bit) => {
                if !b.is_empty() {
                    b[(i % n) as usize] ^= 1 << (bit % 8);
                }
            }
            Mut::Set(i, v) => {
                if !b.is_empty() {
                    b[(i % n) as usize] = *v;
                }
            }
            Mut::Cut(i) => b.truncate((i % n) as usize),
            Mut::Insert(i, v) => {
                let at = (i % n) as usize;
                let at = at.min(b.len());
                b.splice(at..at, v.iter().copied());
            }
            Mut::Remove(i, k) => {
                let at = ((i % n) as usize).min(b.len());
                let to = (at + k).min(b.len());
                b.drain(at..to);
            }
            Mut::Len(which, v) => {
                if let Base::Valid { version, dist, .. } = &c.base {
                    let first = 4 + 2 + if *version == 4 { 8 } else { 0 } + 1 + 24;
                    let at = if *which == 0 { first } else { first + 8 + dist.len() };
                    if at + 8 <= b.len() {
                        b[at..at + 8].copy_from_slice(&v.to_ne_bytes());
                    }
                }
            }
            Mut::Magic(v) => {
                if b.len() >= 4 {
                    b[..4].copy_from_slice(&v.to_ne_bytes());
                }
            }
        }
    }
    b.extend(&c.tail);
    b
}

fn run(c: &Case, cov: &mut Cov) -> Outcome {
    let b = bytes_of(c);
    let mut r = Rd::new(&b);
    let want = read_descr(&mut r).and_then(|d| {
        // names are text
        let (n, t) = (String::from_utf8(d.distname.clone()), String::from_utf8(d.tname.clone()));
        match (n, t) {
            (Ok(n), Ok(t)) => Ok((d, n, t)),
            _ => Err("names are not text".to_string()),
        }
    });
    let len = r.at;
    let mut slow = Slow { b: &b, at: 0, chunk: c.chunk, calls: 0 };
    let got = load_description(&mut slow);
    let used = slow.at;
    match (&want, &got) {
        (Err(_), Err(_)) => {
            cov.class("refused");
            ensure!(used <= b.len(), "reader beyond the end");
        }
        (Err(e), Ok(_)) => return Err(format!("a description is read from bytes that hold none ({})", e)),
        (Ok(_), Err(e)) => return Err(format!("a well formed description is refused: {}", e)),
        (Ok((d, n, t)), Ok(g)) => {
            ensure_eq!(g.format_version, d.version as usize, "version");
            ensure_eq!(g.dumpmode, d.mode, "mode");
            ensure_eq!(g.max_nb_connection, d.m, "M");
            if d.version == 4 {
                ensure_eq!(g.level_scale.to_bits(), d.scale.to_bits(), "scale");
            }
            ensure_eq!(g.nb_layer, d.nb_layer, "layers");
            ensure_eq!(g.ef, d.ef, "ef");
            ensure_eq!(g.nb_point, d.nb_point, "points");
            ensure_eq!(g.dimension, d.dim, "dimension");
            ensure_eq!(g.get_dimension(), d.dim, "get_dimension");
            ensure_eq!(&g.distname, n, "distance");
            ensure_eq!(&g.t_name, t, "type");
            ensure_eq!(&g.get_typename(), t, "get_typename");
            ensure_eq!(used, len, "bytes taken");
            cov.class(&format!("version {}", d.version));
            cov.class_if(n.len() == 256 || t.len() == 256, "name of 256 bytes");
            cov.class_if(n.is_empty() || t.is_empty(), "empty name");
            cov.nontrivial = true;
        }
    }
    // the same through a buffer
    let mut br = BufReader::with_capacity(1 + c.chunk * 3, &b[..]);
    ensure_eq!(load_description(&mut br).is_ok(), want.is_ok(), "read through a buffer");
    cov.nontrivial |= want.is_err() && b.len() > 4 && matches!(&b[..4], m if [MAGICDESCR_2, MAGICDESCR_3, MAGICDESCR_4].iter().any(|x| x.to_ne_bytes() == m));
    Ok(())
}
impl Prop for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "byte strings: descriptions of each version with arbitrary field values and names (text or not, lengths around 256), damaged by bit flips, cuts, splices, wrong lengths and magics, and arbitrary bytes, followed by arbitrary bytes, given in small pieces; an independent reader decides what they hold and how many bytes the description takes. Non-trivial: a description is read, or bytes beginning as one are refused";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 20_000_000)
    }
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let num = || prop_oneof![1 => Just(0u64), 4 => 0u64..1000, 2 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(i64::MAX as u64)];
        let name = || prop_oneof![
            3 => Just(b"anndists::dist::distances::DistL2".to_vec()), 2 => Just(b"f32".to_vec()), 1 => Just(vec![]),
            2 => "\\PC{0,40}".prop_map(|s| s.into_bytes()), 1 => prop::collection::vec(any::<u8>(), 0..20),
            1 => (250usize..262).prop_map(|n| vec![b'x'; n]), 1 => prop::collection::vec(b'a'..b'z', 0..300),
        ];
        let valid = (
            2u8..5, prop_oneof![3 => Just(1u8), 1 => any::<u8>()], any::<u8>(), prop_oneof![2 => (0.0f64..3.).prop_map(|x| x.to_bits()), 1 => any::<u64>()],
            prop_oneof![2 => Just(16u8), 1 => any::<u8>()], [num(), num(), num()], name(), name(),
        )
            .prop_map(|(version, mode, m, scale, nb_layer, nums, dist, ty)| Base::Valid { version, mode, m, scale, nb_layer, nums, dist, ty });
        let raw = prop_oneof![
            prop::collection::vec(any::<u8>(), 0..200),
            (prop_oneof![Just(MAGICDESCR_2), Just(MAGICDESCR_3), Just(MAGICDESCR_4)], prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => any::<u8>()], 0..200))
                .prop_map(|(m, v)| [&m.to_ne_bytes()[..], &v].concat()),
        ]
        .prop_map(Base::Raw);
        let len = prop_oneof![3 => 250u64..262, 2 => 0u64..50, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(1u64 << 63), 1 => Just((1u64 << 63) - 1), 1 => Just(1 << 40)];
        let m = prop_oneof![
            2 => (any::<u64>(), any::<u8>()).prop_map(|(i, b)| Mut::Flip(i, b)),
            1 => (any::<u64>(), any::<u8>()).prop_map(|(i, b)| Mut::Set(i, b)),
            2 => any::<u64>().prop_map(Mut::Cut),
            1 => (any::<u64>(), prop::collection::vec(any::<u8>(), 0..10)).prop_map(|(i, v)| Mut::Insert(i, v)),
            1 => (any::<u64>(), 0usize..12).prop_map(|(i, k)| Mut::Remove(i, k)),
            3 => (0u8..2, len).prop_map(|(w, v)| Mut::Len(w, v)),
            1 => prop_oneof![Just(MAGICDESCR_2), Just(MAGICDESCR_3), Just(MAGICDESCR_4), Just(MAGICPOINT), Just(MAGICLAYER), any::<u32>()].prop_map(Mut::Magic),
        ];
        (
            prop_oneof![6 => valid.boxed(), 1 => raw.boxed()],
            prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(m, 1..4)],
            prop::collection::vec(any::<u8>(), 0..40),
            prop_oneof![1usize..12, Just(100_000usize)],
        )
            .prop_map(|(base, muts, tail, chunk)| Case { base, muts, tail, chunk })
            .boxed()
    }
    fn run(c: &Case, cov: &mut Cov) -> Outcome {
        run(c, cov)
    }
}
fn main() {
    harness::fw::main::<C21>()
}
