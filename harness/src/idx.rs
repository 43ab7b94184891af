//! Generated indexes: element types, distances, data, build histories, the reference model and the
//! invariant checks shared by the properties.
use crate::fw::{mix, mix2, Cov, Outcome};
use crate::{ensure, ensure_eq};
use anndists::dist::distances::*;
use hnsw_rs::prelude::*;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt::Debug;

// ---------------------------------------------------------------------------------- element types
pub trait Elem: 'static + Serialize + DeserializeOwned + Clone + Send + Sync + Debug + PartialEq {
    /// component from a hash, with `card` distinct values
    fn make(h: u64, pal: &Palette) -> Self;
    fn byte_len() -> usize {
        std::mem::size_of::<Self>()
    }
    /// scaled down by a factor taken from h, where this means something
    fn scaled(&self, _h: u64) -> Self {
        self.clone()
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Palette {
    /// few distinct small values: many ties and duplicates
    Tiny,
    /// 0..=20
    Small,
    /// wide range, negative values where the type has them
    Wide,
    /// all components equal to one value
    Constant,
    /// large magnitudes, squares still finite (float types; as Wide for the others)
    Huge,
    /// small magnitudes, squares still normal (float types; as Tiny for the others)
    Minute,
}

fn small(h: u64, pal: &Palette) -> u64 {
    match pal {
        Palette::Tiny | Palette::Minute => h % 3,
        Palette::Small => h % 21,
        Palette::Wide | Palette::Huge => h % 65_521,
        Palette::Constant => 7,
    }
}
impl Elem for f32 {
    fn scaled(&self, h: u64) -> f32 {
        *self * ((h % 97 + 3) as f32 / 101.)
    }
    fn make(h: u64, pal: &Palette) -> f32 {
        match pal {
            Palette::Wide => ((h >> 40) as f32 / (1u64 << 24) as f32 - 0.5) * 200.,
            Palette::Huge => ((h >> 40) as f32 / (1u64 << 24) as f32 - 0.5) * 2e16,
            Palette::Minute => ((h >> 40) as f32 / (1u64 << 24) as f32 - 0.5) * 2e-16,
            _ => small(h, pal) as f32,
        }
    }
}
impl Elem for f64 {
    fn scaled(&self, h: u64) -> f64 {
        *self * ((h % 97 + 3) as f64 / 101.)
    }
    fn make(h: u64, pal: &Palette) -> f64 {
        match pal {
            Palette::Wide => ((h >> 12) as f64 / (1u64 << 52) as f64 - 0.5) * 2000.,
            Palette::Huge => ((h >> 12) as f64 / (1u64 << 52) as f64 - 0.5) * 2e16,
            Palette::Minute => ((h >> 12) as f64 / (1u64 << 52) as f64 - 0.5) * 2e-16,
            _ => small(h, pal) as f64,
        }
    }
}
impl Elem for u8 {
    fn make(h: u64, pal: &Palette) -> u8 {
        match pal {
            Palette::Wide | Palette::Huge => h as u8,
            _ => small(h, pal) as u8,
        }
    }
}
impl Elem for u16 {
    fn make(h: u64, pal: &Palette) -> u16 {
        match pal {
            Palette::Wide | Palette::Huge => h as u16,
            _ => small(h, pal) as u16,
        }
    }
}
impl Elem for i16 {
    fn make(h: u64, pal: &Palette) -> i16 {
        match pal {
            Palette::Wide | Palette::Huge => h as i16,
            _ => small(h, pal) as i16,
        }
    }
}
impl Elem for u32 {
    fn make(h: u64, pal: &Palette) -> u32 {
        match pal {
            Palette::Wide | Palette::Huge => h as u32,
            _ => small(h, pal) as u32,
        }
    }
}
impl Elem for u64 {
    fn make(h: u64, pal: &Palette) -> u64 {
        match pal {
            Palette::Wide | Palette::Huge => h,
            _ => small(h, pal),
        }
    }
}
impl Elem for i32 {
    fn make(h: u64, pal: &Palette) -> i32 {
        match pal {
            Palette::Wide | Palette::Huge => (h % 20_001) as i32 - 10_000,
            _ => small(h, pal) as i32 - 1,
        }
    }
}
/// a user element type of 3 bytes
#[derive(Default, Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[repr(C)]
pub struct Rgb(pub u8, pub u8, pub u8);
impl Elem for Rgb {
    fn make(h: u64, pal: &Palette) -> Rgb {
        Rgb(u8::make(h, pal), u8::make(h >> 8, pal), u8::make(h >> 16, pal))
    }
}
/// a user element type of 4 bytes in two fields
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[repr(C)]
pub struct Pix {
    pub a: i16,
    pub b: u16,
}
impl Elem for Pix {
    fn make(h: u64, pal: &Palette) -> Pix {
        Pix { a: i16::make(h, pal), b: u16::make(h >> 16, pal) }
    }
}
// ------------------------------------------------------------------------------ user distances
#[derive(Default, Clone, Copy)]
pub struct DistRgb;
impl Distance<Rgb> for DistRgb {
    fn eval(&self, a: &[Rgb], b: &[Rgb]) -> f32 {
        assert_eq!(a.len(), b.len());
        a.iter()
            .zip(b)
            .map(|(x, y)| x.0.abs_diff(y.0) as u32 + x.1.abs_diff(y.1) as u32 + x.2.abs_diff(y.2) as u32)
            .sum::<u32>() as f32
    }
}
#[derive(Default, Clone, Copy)]
pub struct DistPix;
impl Distance<Pix> for DistPix {
    fn eval(&self, a: &[Pix], b: &[Pix]) -> f32 {
        assert_eq!(a.len(), b.len());
        a.iter().zip(b).map(|(x, y)| x.a.abs_diff(y.a).max(x.b.abs_diff(y.b)) as u64).sum::<u64>() as f32
    }
}

// --------------------------------------------------------------------------------- configurations
pub trait Cfg: 'static + Send + Sync {
    type T: Elem;
    type D: Distance<Self::T> + Default + Clone + Send + Sync + 'static;
    const NAME: &'static str;
    const VARLEN: bool = false;
    const ALIGN_OK_MMAP: bool = true;
    fn fix(_v: &mut Vec<Self::T>) {}
}
macro_rules! cfg {
    ($n:ident, $t:ty, $d:ty) => { cfg!($n, $t, $d,); };
    ($n:ident, $t:ty, $d:ty, $($extra:tt)*) => {
        pub struct $n;
        impl Cfg for $n { type T = $t; type D = $d; const NAME: &'static str = stringify!($n); $($extra)* }
    };
}
cfg!(F32L2, f32, DistL2);
cfg!(F32L1, f32, DistL1);
cfg!(F32Cos, f32, DistCosine);
cfg!(F32Dot, f32, DistDot, fn fix(v: &mut Vec<f32>) {
    // strictly inside the unit ball, so that 1 - dot stays >= 0 whatever the rounding
    let n = v.iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
    for x in v.iter_mut() { *x = if n > 0. { (*x as f64 / n * 0.999) as f32 } else { 0. }; }
});
cfg!(F32Jen, f32, DistJensenShannon, fn fix(v: &mut Vec<f32>) {
    for x in v.iter_mut() { *x = x.abs() + 0.125; }
    let n = v.iter().sum::<f32>();
    for x in v.iter_mut() { *x /= n; }
});
cfg!(U8Ham, u8, DistHamming);
cfg!(U8L1, u8, DistL1);
cfg!(U16Lev, u16, DistLevenshtein, const VARLEN: bool = true;);
cfg!(U32Jac, u32, DistJaccard);
cfg!(I32L2, i32, DistL2);
cfg!(F64L2, f64, DistL2, const ALIGN_OK_MMAP: bool = false;);
cfg!(U64Ham, u64, DistHamming, const ALIGN_OK_MMAP: bool = false;);
cfg!(RgbU, Rgb, DistRgb);
cfg!(PixU, Pix, DistPix);

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    F32L2,
    F32L1,
    F32Cos,
    F32Dot,
    U8Ham,
    U8L1,
    U16Lev,
    U32Jac,
    I32L2,
    F64L2,
    RgbU,
    PixU,
}
/// runs `$body` with the type alias `$c` bound to the configuration named by `$kind`
#[macro_export]
macro_rules! dispatch {
    ($kind:expr, $c:ident => $body:expr) => {{
        use $crate::idx as __i;
        match $kind {
            __i::Kind::F32L2 => { type $c = __i::F32L2; $body }
            __i::Kind::F32L1 => { type $c = __i::F32L1; $body }
            __i::Kind::F32Cos => { type $c = __i::F32Cos; $body }
            __i::Kind::F32Dot => { type $c = __i::F32Dot; $body }
            __i::Kind::U8Ham => { type $c = __i::U8Ham; $body }
            __i::Kind::U8L1 => { type $c = __i::U8L1; $body }
            __i::Kind::U16Lev => { type $c = __i::U16Lev; $body }
            __i::Kind::U32Jac => { type $c = __i::U32Jac; $body }
            __i::Kind::I32L2 => { type $c = __i::I32L2; $body }
            __i::Kind::F64L2 => { type $c = __i::F64L2; $body }
            __i::Kind::RgbU => { type $c = __i::RgbU; $body }
            __i::Kind::PixU => { type $c = __i::PixU; $body }
        }
    }};
}
/// the same over fewer configurations, for properties where each one is costly to compile
#[macro_export]
macro_rules! dispatch_few {
    ($kind:expr, $c:ident => $body:expr) => {{
        use $crate::idx as __i;
        match $kind {
            __i::Kind::F32L2 | __i::Kind::F32L1 | __i::Kind::F32Dot => { type $c = __i::F32L2; $body }
            __i::Kind::F32Cos => { type $c = __i::F32Cos; $body }
            __i::Kind::U16Lev => { type $c = __i::U16Lev; $body }
            __i::Kind::U8Ham | __i::Kind::U8L1 => { type $c = __i::U8Ham; $body }
            __i::Kind::I32L2 | __i::Kind::U32Jac => { type $c = __i::I32L2; $body }
            __i::Kind::F64L2 => { type $c = __i::F64L2; $body }
            __i::Kind::RgbU | __i::Kind::PixU => { type $c = __i::RgbU; $body }
        }
    }};
}
pub fn kind_strategy() -> impl Strategy<Value = Kind> {
    prop_oneof![
        6 => Just(Kind::F32L2),
        2 => Just(Kind::F32L1),
        3 => Just(Kind::F32Cos),
        1 => Just(Kind::F32Dot),
        2 => Just(Kind::U8Ham),
        1 => Just(Kind::U8L1),
        3 => Just(Kind::U16Lev),
        2 => Just(Kind::U32Jac),
        2 => Just(Kind::I32L2),
        2 => Just(Kind::F64L2),
        2 => Just(Kind::RgbU),
        2 => Just(Kind::PixU),
    ]
}

// ------------------------------------------------------------------------------------------- data
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum IdMode {
    /// 0, 1, 2...
    Rank,
    /// spread over the whole usize range
    Hash,
    /// just below usize::MAX, decreasing
    Top,
    /// multiples of a stride, offset
    Stride,
    /// many ids equal in their lower 32 bits
    LowHalf,
    /// most ids small, some spread over the whole range
    Mixed,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct DataSpec {
    pub seed: u64,
    pub dim: usize,
    pub palette: Palette,
    /// of 16: fraction of points that repeat an earlier point
    pub dup16: u8,
    /// points gather around this many centres when > 0 (float types)
    pub clusters: u8,
    pub ids: IdMode,
}
pub fn data_strategy() -> BoxedStrategy<DataSpec> {
    (
        any::<u64>(),
        prop_oneof![40 => 1usize..6, 30 => 6usize..20, 10 => 20usize..70, 1 => 250usize..400],
        prop_oneof![
            4 => Just(Palette::Tiny),
            6 => Just(Palette::Small),
            12 => Just(Palette::Wide),
            2 => Just(Palette::Constant),
            1 => Just(Palette::Huge),
            1 => Just(Palette::Minute)
        ],
        prop_oneof![5 => Just(0u8), 2 => 1u8..8, 1 => 8u8..16],
        prop_oneof![3 => Just(0u8), 1 => 1u8..6],
        prop_oneof![
            2 => Just(IdMode::Rank),
            2 => Just(IdMode::Hash),
            1 => Just(IdMode::Top),
            1 => Just(IdMode::Stride),
            1 => Just(IdMode::LowHalf),
            1 => Just(IdMode::Mixed)
        ],
    )
        .prop_map(|(seed, dim, palette, dup16, clusters, ids)| DataSpec { seed, dim, palette, dup16, clusters, ids })
        .boxed()
}
impl DataSpec {
    pub fn id(&self, i: usize) -> usize {
        match self.ids {
            IdMode::Rank => i,
            IdMode::Hash => (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(self.seed) as usize,
            IdMode::Top => usize::MAX - i,
            IdMode::Stride => 1_000_003 * i + 17,
            IdMode::LowHalf => ((i % 7) << (32 + (self.seed % 24) as usize)) + i / 7,
            IdMode::Mixed => match mix2(self.seed, i as u64) % 10 {
                0 => (1 << 40) + ((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 1) as usize,
                _ => i,
            },
        }
    }
    /// an id no point of the set has
    pub fn absent_id(&self, i: usize) -> usize {
        self.id(1_000_000 + i)
    }
    pub fn vec<C: Cfg>(&self, i: usize) -> Vec<C::T> {
        let mut i = i;
        let mut hops = 0;
        while i > 0 && self.dup16 > 0 && hops < 4 {
            let h = mix2(self.seed ^ 0xD0B1E, i as u64);
            if (h % 16) as u8 >= self.dup16 {
                break;
            }
            i = ((h >> 8) % i as u64) as usize;
            hops += 1;
        }
        let base = mix2(self.seed, i as u64);
        let mut dim = self.dim;
        if C::VARLEN {
            // variable length, the empty vector included now and then
            let r = mix(base ^ 0x1E4);
            dim = if r % 37 == 0 { 0 } else { 1 + (r >> 8) as usize % (2 * self.dim).max(1) };
        }
        let centre = if self.clusters > 0 { Some(mix2(self.seed ^ 0xC1u64, base % self.clusters as u64)) } else { None };
        let mut v: Vec<C::T> = (0..dim)
            .map(|j| match centre {
                // most components come from the centre: near-duplicates
                Some(c) if mix2(base ^ 0x77, j as u64) % 4 != 0 => C::T::make(mix2(c, j as u64), &self.palette),
                _ => C::T::make(mix2(base, j as u64), &self.palette),
            })
            .collect();
        C::fix(&mut v);
        v
    }
    /// a query: `q` selects either a stored vector or a fresh one
    pub fn query<C: Cfg>(&self, q: u64, n: usize) -> Vec<C::T> {
        if n > 0 && q % 3 == 0 {
            let mut v = self.vec::<C>((q >> 2) as usize % n);
            match (q >> 40) % 4 {
                // colinear to a stored vector
                0 => v.iter_mut().for_each(|x| *x = x.scaled(q >> 42)),
                // a stored vector but for one component
                1 if !v.is_empty() => {
                    let j = (q >> 42) as usize % v.len();
                    v[j] = C::T::make(mix(q), &self.palette);
                }
                _ => {}
            }
            C::fix(&mut v);
            v
        } else {
            let other = DataSpec { dup16: 0, ..*self };
            other.vec::<C>(1_000_000 + (q >> 2) as usize % 100_000)
        }
    }
}

// ----------------------------------------------------------------------------------- index specs
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum How {
    Insert,
    Slice,
    Trait,
    Par,
    ParSlice,
    ParTrait,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IndexSpec {
    pub kind: Kind,
    pub data: DataSpec,
    pub n: usize,
    pub m: usize,
    pub efc: usize,
    pub max_layer: usize,
    pub hint: usize,
    pub extend: bool,
    pub keep: bool,
    /// factors given to modify_level_scale before the first insertion, in 1/100
    pub scale: Vec<i32>,
    pub level_seed: u64,
    pub how: How,
}
pub fn scale_strategy() -> BoxedStrategy<Vec<i32>> {
    prop_oneof![5 => Just(vec![]), 3 => prop::collection::vec(20i32..=100, 1..3), 1 => prop::collection::vec(-50i32..300, 1..3)]
        .boxed()
}
pub fn m_strategy() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 2usize..5,
        4 => 5usize..12,
        3 => 12usize..40,
        1 => prop_oneof![Just(64usize), Just(100), Just(127), Just(128), Just(129), Just(200), Just(255)],
    ]
    .boxed()
}
pub fn efc_strategy() -> BoxedStrategy<usize> {
    prop_oneof![20 => 1usize..5, 40 => 5usize..40, 18 => 40usize..200, 2 => 200usize..1000, 1 => 1000usize..100_000].boxed()
}
pub fn n_strategy(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![1 => 0usize..4, 4 => 4usize..40.min(max), 4 => 20usize.min(max - 1)..max].boxed()
}
pub fn index_strategy(max_n: usize) -> BoxedStrategy<IndexSpec> {
    (
        (kind_strategy(), data_strategy(), n_strategy(max_n), m_strategy(), efc_strategy()),
        (
            prop_oneof![5 => Just(16usize), 2 => 1usize..16, 1 => 17usize..40],
            prop_oneof![0usize..3, 3usize..600],
            any::<bool>(),
            any::<bool>(),
            scale_strategy(),
            any::<u64>(),
            prop_oneof![4 => Just(How::Insert), 1 => Just(How::Slice), 1 => Just(How::Trait), 1 => Just(How::ParSlice)],
        ),
        prop_oneof![80 => Just(None), 1 => (260usize..540, 128usize..256, 300usize..2000).prop_map(Some)],
        prop_oneof![120 => Just(None), 1 => (600usize..3000).prop_map(Some)],
    )
        .prop_map(|((kind, mut data, mut n, mut m, mut efc), (max_layer, hint, extend, keep, scale, level_seed, how), dense, giant)| {
            if data.dim > 200 {
                n = n.min(60);
                if kind == Kind::U16Lev {
                    data.dim %= 20; // quadratic in the dimension
                    data.dim += 1;
                }
            }
            if let (Some((dn, dm, de)), true) = (dense, kind != Kind::U16Lev) {
                // lists of more than 255 entries
                (n, m, efc) = (dn, dm, de);
                data.dim = 1 + data.dim % 4;
            }
            if let (Some(g), None, true) = (giant, dense, kind != Kind::U16Lev) {
                // vectors of many kilobytes
                data.dim = g;
                n = n.min(6);
            }
            IndexSpec { kind, data, n, m, efc, max_layer, hint, extend, keep, scale, level_seed, how }
        })
        .boxed()
}

pub type Idx<C> = Hnsw<'static, <C as Cfg>::T, <C as Cfg>::D>;
pub type Model<C> = Vec<(usize, Vec<<C as Cfg>::T>)>;

impl IndexSpec {
    pub fn model<C: Cfg>(&self) -> Model<C> {
        (0..self.n).map(|i| (self.data.id(i), self.data.vec::<C>(i))).collect()
    }
    pub fn empty<C: Cfg>(&self) -> Idx<C> {
        getrandom::set_seed(self.level_seed);
        let mut h: Idx<C> = Hnsw::new(self.m, self.hint, self.max_layer, self.efc, C::D::default());
        h.set_extend_candidates(self.extend);
        h.set_keeping_pruned(self.keep);
        for f in &self.scale {
            h.modify_level_scale(*f as f64 / 100.);
        }
        h
    }
    pub fn build<C: Cfg>(&self) -> (Idx<C>, Model<C>) {
        let mut h = self.empty::<C>();
        let model = self.model::<C>();
        insert_all::<C>(&mut h, &model, self.how);
        (h, model)
    }
}
pub fn insert_all<C: Cfg>(h: &mut Hnsw<'_, C::T, C::D>, pts: &[(usize, Vec<C::T>)], how: How) {
    match how {
        How::Insert => pts.iter().for_each(|(id, v)| h.insert((v.as_slice(), *id))),
        How::Slice => pts.iter().for_each(|(id, v)| h.insert_slice((v.as_slice(), *id))),
        How::Trait => pts.iter().for_each(|(id, v)| h.insert_data(v, *id)),
        How::Par => {
            let d: Vec<(&Vec<C::T>, usize)> = pts.iter().map(|(id, v)| (v, *id)).collect();
            h.parallel_insert(&d)
        }
        How::ParTrait => {
            let d: Vec<(&Vec<C::T>, usize)> = pts.iter().map(|(id, v)| (v, *id)).collect();
            h.parallel_insert_data(&d)
        }
        How::ParSlice => {
            let d: Vec<(&[C::T], usize)> = pts.iter().map(|(id, v)| (v.as_slice(), *id)).collect();
            h.parallel_insert_slice(&d)
        }
    }
}

// ----------------------------------------------------------------------------------------- oracles
pub type PidKey = (u8, i32);
pub fn key(p: &PointId) -> PidKey {
    (p.0, p.1)
}

pub struct PointView<T> {
    pub id: usize,
    pub pid: PidKey,
    pub v: Vec<T>,
    /// per layer: (id, pid, dist)
    pub links: Vec<Vec<(usize, PidKey, f32)>>,
}
pub fn view_point<T: Clone + Send + Sync>(p: &Point<'_, T>) -> PointView<T> {
    PointView {
        id: p.get_origin_id(),
        pid: key(&p.get_point_id()),
        v: p.get_v().to_vec(),
        links: p
            .get_neighborhood_id()
            .iter()
            .map(|l| l.iter().map(|n| (n.d_id, key(&n.p_id), n.distance)).collect())
            .collect(),
    }
}
/// all stored points, through the whole-index iterator
pub fn view<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'_, T, D>) -> Vec<PointView<T>> {
    h.get_point_indexation().into_iter().map(|p| view_point(&p)).collect()
}

/// the index holds exactly the model, and every way to enumerate or look it up agrees
pub fn check_content<T, D>(h: &Hnsw<'_, T, D>, model: &[(usize, Vec<T>)], max_layer: usize) -> Outcome
where
    T: Clone + Send + Sync + PartialEq + Debug,
    D: Distance<T> + Send + Sync,
{
    let n = model.len();
    let pi = h.get_point_indexation();
    ensure_eq!(h.get_nb_point(), n, "Hnsw::get_nb_point");
    ensure_eq!(pi.get_nb_point(), n, "PointIndexation::get_nb_point");
    let by_id: HashMap<usize, &Vec<T>> = model.iter().map(|(i, v)| (*i, v)).collect();
    ensure_eq!(by_id.len(), n, "harness: duplicate ids in the model");
    let lim = max_layer.min(16);
    ensure_eq!(h.get_max_level(), lim, "get_max_level");
    // per layer counts and iterators
    let mut per_layer: Vec<Vec<(usize, PidKey)>> = Vec::new();
    let mut seen: HashMap<usize, PidKey> = HashMap::new();
    let mut top = 0u8;
    for l in 0..lim {
        let cnt = pi.get_layer_nb_point(l);
        let mut here = Vec::new();
        for (r, p) in pi.get_layer_iterator(l).enumerate() {
            let pid = p.get_point_id();
            ensure_eq!(key(&pid), (l as u8, r as i32), "position of the {}th point of layer {}", r, l);
            let Some(v) = by_id.get(&p.get_origin_id()) else {
                return Err(format!("stored id {} was never inserted", p.get_origin_id()));
            };
            ensure!(p.get_v() == v.as_slice(), "vector of id {}: {:?} != {:?}", p.get_origin_id(), p.get_v(), v);
            ensure!(seen.insert(p.get_origin_id(), key(&pid)).is_none(), "id {} stored twice", p.get_origin_id());
            match pi.get_point_data(&pid) {
                Some(d) => ensure!(&d == *v, "get_point_data({:?}) gives {:?} for {:?}", pid, d, v),
                None => return Err(format!("get_point_data({:?}) finds nothing", pid)),
            }
            here.push((p.get_origin_id(), key(&pid)));
            top = l as u8;
        }
        ensure_eq!(cnt, here.len(), "get_layer_nb_point({}) against the layer iterator", l);
        ensure!(pi.get_point_data(&PointId(l as u8, cnt as i32)).is_none(), "data beyond the end of layer {}", l);
        ensure!(pi.get_point_data(&PointId(l as u8, -1)).is_none(), "data at rank -1 of layer {}", l);
        ensure!(pi.get_point_data(&PointId(l as u8, i32::MAX)).is_none(), "data at rank MAX of layer {}", l);
        per_layer.push(here);
    }
    for l in [lim, lim + 1, 16, 255, usize::MAX] {
        if l >= lim {
            ensure_eq!(pi.get_layer_nb_point(l), 0, "points in layer {} beyond the limit", l);
            if l <= 255 {
                ensure!(pi.get_point_data(&PointId(l as u8, 0)).is_none(), "data in layer {}", l);
            }
        }
    }
    ensure_eq!(seen.len(), n, "number of points found in the layers");
    ensure_eq!(h.get_max_level_observed(), top, "Hnsw::get_max_level_observed");
    ensure_eq!(pi.get_max_level_observed(), top, "PointIndexation::get_max_level_observed");
    // the whole-index iterator: the layers from 0 upward
    let all: Vec<(usize, PidKey)> = pi.into_iter().map(|p| (p.get_origin_id(), key(&p.get_point_id()))).collect();
    let want: Vec<(usize, PidKey)> = per_layer.into_iter().flatten().collect();
    let (mut a, mut w) = (all.clone(), want.clone());
    a.sort();
    w.sort();
    ensure!(a == w, "whole-index iteration: {} points against {} in the layers", all.len(), want.len());
    // dimension
    if n == 0 {
        ensure_eq!(pi.get_data_dimension(), 0, "dimension of an empty index");
    } else {
        let d = pi.get_data_dimension();
        ensure!(model.iter().any(|(_, v)| v.len() == d), "dimension {} is not that of a stored vector", d);
    }
    Ok(())
}

pub fn same_dist(reported: f32, ab: f32, ba: f32) -> bool {
    reported == ab || reported == ba
}

/// neighbour lists: bounded, sorted, truthful, no self link, no duplicate, nobody isolated
pub fn check_links<T, D>(h: &Hnsw<'_, T, D>, m: usize, dist: &D, with_data: bool, cov: &mut Cov) -> Outcome
where
    T: Clone + Send + Sync + PartialEq + Debug,
    D: Distance<T> + Send + Sync,
{
    let pts = view(h);
    check_links_view(&pts, m, |a, b| if with_data { Some(dist.eval(a, b)) } else { None }, cov)
}
pub fn check_links_view<T: Clone + Debug>(
    pts: &[PointView<T>], m: usize, dist: impl Fn(&[T], &[T]) -> Option<f32>, cov: &mut Cov,
) -> Outcome {
    let by_pid: HashMap<PidKey, &PointView<T>> = pts.iter().map(|p| (p.pid, p)).collect();
    let mut full0 = false;
    let mut fullu = false;
    let mut upper = false;
    for p in pts {
        let mut deg = 0;
        for (l, list) in p.links.iter().enumerate() {
            let bound = if l == 0 { 2 * m } else { m };
            ensure!(list.len() <= bound, "point {} has {} links at layer {}, bound {}", p.id, list.len(), l, bound);
            full0 |= l == 0 && list.len() == bound;
            fullu |= l > 0 && list.len() == bound;
            upper |= l > 0 && !list.is_empty();
            deg += list.len();
            let mut prev = f32::NEG_INFINITY;
            let mut seen = std::collections::HashSet::new();
            for (id, pid, d) in list {
                ensure!(*d >= prev, "links of point {} at layer {} not sorted: {} after {}", p.id, l, d, prev);
                prev = *d;
                ensure!(*pid != p.pid, "point {} is its own neighbour at layer {}", p.id, l);
                ensure!(seen.insert(*pid), "point {} has the neighbour {:?} twice at layer {}", p.id, pid, l);
                let Some(q) = by_pid.get(pid) else {
                    return Err(format!("point {} links to {:?} which is not stored", p.id, pid));
                };
                ensure_eq!(q.id, *id, "id of the neighbour {:?} of point {}", pid, p.id);
                ensure!(pid.0 as usize >= l, "point {} has at layer {} the neighbour {:?}, of a lower level", p.id, l, pid);
                if let Some(ab) = dist(&p.v, &q.v) {
                    let ba = dist(&q.v, &p.v).unwrap();
                    ensure!(same_dist(*d, ab, ba), "distance from {} to its neighbour {}: {} instead of {}", p.id, id, d, ab);
                }
            }
        }
        ensure!(deg > 0 || pts.len() < 2, "point {} ({:?}) has no neighbour among {} points", p.id, p.pid, pts.len());
    }
    // nothing can have been discarded yet: the points are all in one piece, whatever their levels
    if pts.len() <= 2 * m + 1 && !pts.is_empty() {
        let rank: HashMap<PidKey, usize> = pts.iter().enumerate().map(|(i, p)| (p.pid, i)).collect();
        let mut both = vec![Vec::new(); pts.len()];
        for (i, p) in pts.iter().enumerate() {
            for (_, pid, _) in p.links.first().into_iter().flatten() {
                both[i].push(rank[pid]);
                both[rank[pid]].push(i);
            }
        }
        let mut seen = vec![false; pts.len()];
        let mut todo = vec![0];
        seen[0] = true;
        while let Some(i) = todo.pop() {
            for j in &both[i] {
                if !seen[*j] {
                    seen[*j] = true;
                    todo.push(*j);
                }
            }
        }
        if let Some(i) = seen.iter().position(|s| !s) {
            return Err(format!("no chain of layer 0 links between points {} and {} among {} points, M {}", pts[0].id, pts[i].id, pts.len(), m));
        }
    }
    cov.class_if(full0, "a layer 0 list is full");
    cov.class_if(fullu, "an upper layer list is full");
    cov.class_if(upper, "upper layer links");
    Ok(())
}

/// in an index built by one thread, a link is known at both ends unless the list of the other end is full of points
/// at least as near
pub fn check_reciprocal<T: Clone>(pts: &[PointView<T>], m: usize, cov: &mut Cov) -> Outcome {
    let by_pid: HashMap<PidKey, &PointView<T>> = pts.iter().map(|p| (p.pid, p)).collect();
    let full_of_nearer = |q: &PointView<T>, l: usize, d: f32| {
        let bound = if l == 0 { 2 * m } else { m };
        q.links.get(l).is_some_and(|list| list.len() >= bound && list.iter().all(|n| n.2 <= d))
    };
    let mut one_way = 0u64;
    for p in pts {
        // above its own level a point only keeps trace of its descent
        for (l, list) in p.links.iter().enumerate().take(p.pid.0 as usize + 1) {
            for (id, pid, d) in list {
                let q = by_pid[pid];
                if q.links.iter().any(|x| x.iter().any(|n| n.1 == p.pid)) {
                    continue;
                }
                one_way += 1;
                ensure!(
                    full_of_nearer(q, p.pid.0 as usize, *d) || (0..=q.pid.0 as usize).any(|k| full_of_nearer(q, k, *d)),
                    "point {} {:?} is linked at layer {} to {} {:?}, at distance {}, which does not link back although its lists are not full of nearer points",
                    p.id, p.pid, l, id, pid, d
                );
            }
        }
    }
    cov.class_if(one_way > 0, "one way links");
    Ok(())
}

/// validity of one search answer
pub fn check_answer<T, D>(
    res: &[Neighbour], q: &[T], k: usize, dist: &D, by_pid: &HashMap<PidKey, (usize, Vec<T>)>,
) -> Outcome
where
    T: Clone + Send + Sync + Debug,
    D: Distance<T> + Send + Sync,
{
    ensure!(res.len() <= k, "{} answers for k = {}", res.len(), k);
    if k >= 1 && !by_pid.is_empty() {
        ensure!(!res.is_empty(), "no answer from an index of {} points", by_pid.len());
    }
    if by_pid.is_empty() {
        ensure!(res.is_empty(), "{} answers from an empty index", res.len());
    }
    let mut seen = std::collections::HashSet::new();
    let mut prev = f32::NEG_INFINITY;
    for n in res {
        ensure!(n.distance >= prev, "answers not sorted: {} after {}", n.distance, prev);
        prev = n.distance;
        ensure_eq!(n.get_origin_id(), n.d_id, "get_origin_id");
        ensure_eq!(n.get_distance().to_bits(), n.distance.to_bits(), "get_distance");
        let Some((id, v)) = by_pid.get(&key(&n.p_id)) else {
            return Err(format!("answer {:?} names a position holding no point", n));
        };
        ensure_eq!(*id, n.d_id, "id of the answer at {:?}", n.p_id);
        ensure!(seen.insert(n.d_id), "id {} returned twice", n.d_id);
        let d = dist.eval(q, v);
        let d2 = dist.eval(v, q);
        ensure!(same_dist(n.distance, d, d2), "distance of answer {}: {} instead of {}", n.d_id, n.distance, d);
    }
    Ok(())
}
pub fn by_pid<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'_, T, D>) -> HashMap<PidKey, (usize, Vec<T>)> {
    h.get_point_indexation()
        .into_iter()
        .map(|p| (key(&p.get_point_id()), (p.get_origin_id(), p.get_v().to_vec())))
        .collect()
}
/// sorted distances of the k nearest of the given points
pub fn brute<'a, T: Clone + Send + Sync + 'a, D: Distance<T>>(
    q: &[T], pts: impl Iterator<Item = &'a (usize, Vec<T>)>, k: usize, dist: &D,
) -> Vec<f32> {
    let mut d: Vec<f32> = pts.map(|(_, v)| dist.eval(q, v)).collect();
    d.sort_by(|a, b| a.partial_cmp(b).unwrap());
    d.truncate(k);
    d
}
pub fn dists(res: &[Neighbour]) -> Vec<f32> {
    res.iter().map(|n| n.distance).collect()
}
pub fn same_answer(a: &[Neighbour], b: &[Neighbour]) -> bool {
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(x, y)| x.d_id == y.d_id && x.p_id == y.p_id && x.distance.to_bits() == y.distance.to_bits())
}
/// equal up to the order of (and choice among) equally distant points: what an equivalent index may answer
pub fn equiv_answer(a: &[Neighbour], b: &[Neighbour]) -> bool {
    if a.len() != b.len() || !a.iter().zip(b).all(|(x, y)| x.distance.to_bits() == y.distance.to_bits()) {
        return false;
    }
    let Some(last) = a.last().map(|n| n.distance) else { return true };
    let f = |r: &[Neighbour]| {
        let mut v: Vec<(usize, PidKey)> =
            r.iter().filter(|n| n.distance < last).map(|n| (n.d_id, key(&n.p_id))).collect();
        v.sort();
        v
    };
    f(a) == f(b)
}

/// a comparable picture of an index
#[derive(PartialEq, Debug, Clone)]
pub struct Snap {
    /// (pid, id, vector bytes as debug text, links sorted within equal distances)
    pub pts: Vec<(PidKey, usize, String, Vec<Vec<(u32, PidKey, usize)>>)>,
    pub nb: usize,
    pub top: u8,
}
pub fn snap<T: Clone + Send + Sync + Debug, D: Distance<T> + Send + Sync>(h: &Hnsw<'_, T, D>, data: bool) -> Snap {
    let mut pts: Vec<_> = view(h)
        .into_iter()
        .map(|p| {
            let links = p
                .links
                .iter()
                .map(|l| {
                    let mut x: Vec<(u32, PidKey, usize)> = l.iter().map(|(id, pid, d)| (d.to_bits(), *pid, *id)).collect();
                    x.sort();
                    x
                })
                .collect();
            (p.pid, p.id, if data { format!("{:?}", p.v) } else { String::new() }, links)
        })
        .collect();
    pts.sort();
    Snap { pts, nb: h.get_nb_point(), top: h.get_max_level_observed() }
}
pub fn diff_snap(a: &Snap, b: &Snap) -> Outcome {
    ensure_eq!(a.nb, b.nb, "number of points");
    ensure_eq!(a.top, b.top, "maximum level");
    ensure_eq!(a.pts.len(), b.pts.len(), "number of points iterated");
    for (x, y) in a.pts.iter().zip(&b.pts) {
        ensure_eq!(x.0, y.0, "positions");
        ensure_eq!(x.1, y.1, "id at {:?}", x.0);
        ensure_eq!(x.2, y.2, "vector of id {}", x.1);
        // lists of absent upper layers may be empty or missing
        let n = x.3.len().max(y.3.len());
        for l in 0..n {
            let e = Vec::new();
            let (p, q) = (x.3.get(l).unwrap_or(&e), y.3.get(l).unwrap_or(&e));
            ensure!(p == q, "links of id {} at layer {}: {:?} != {:?}", x.1, l, p, q);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- dumps in generated places
pub const BASES: [&str; 10] =
    ["dump", "with space", "dot.ted", "ünïcode", "x.hnsw", "-", "a.hnsw.data", "UPPER_123", "0", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong"];
/// a directory of the scratch space, given absolutely or relatively to the current directory (which is set)
pub fn dump_dir(name: &str, mode: u8) -> std::path::PathBuf {
    use std::path::PathBuf;
    let top = crate::fw::scratch(name);
    let sub = top.join("sub");
    std::fs::create_dir_all(&sub).unwrap();
    std::env::set_current_dir(&sub).unwrap();
    match mode % 6 {
        0 | 1 => sub,
        2 => PathBuf::from("."),
        3 => PathBuf::from(""),
        4 => PathBuf::from("../sub"),
        _ => {
            std::env::set_current_dir(&top).unwrap();
            PathBuf::from("sub")
        }
    }
}
/// now and then, few vectors of more than 64 kB
pub fn giant(ix: &mut IndexSpec) {
    if ix.level_seed % 150 == 11 && ix.kind != Kind::U16Lev {
        ix.data.dim = 16_500 + (mix(ix.level_seed) % 6000) as usize;
        ix.n = ix.n.min(5);
    }
}
/// now and then (one case in `every`), more points in layer 0 than 16 bits can count
pub fn huge(ix: &mut IndexSpec, every: u64) {
    if ix.level_seed % every == 7 && ix.kind != Kind::U16Lev {
        (ix.m, ix.efc, ix.extend, ix.how) = (40, 1 + ix.efc % 4, false, How::ParSlice);
        (ix.data.dim, ix.data.palette, ix.data.clusters, ix.data.dup16) = (2, Palette::Wide, 0, 0);
        ix.scale.clear();
        ix.n = 69_000 + ix.n * 10;
    }
}
/// an index that can be dumped: full layer limit, at least one point
pub fn dumpable_strategy(max_n: usize) -> BoxedStrategy<IndexSpec> {
    (index_strategy(max_n), prop_oneof![3 => Just(16usize), 1 => 16usize..40])
        .prop_map(|(mut ix, ml)| {
            ix.max_layer = ml;
            ix.n = ix.n.max(1);
            ix
        })
        .boxed()
}
pub fn queries_strategy(max: usize) -> BoxedStrategy<Vec<(u64, usize, usize)>> {
    prop::collection::vec(
        (any::<u64>(), prop_oneof![1 => Just(0usize), 2 => Just(1usize), 6 => 2usize..15], prop_oneof![1 => Just(1usize), 2 => 1usize..10, 3 => 10usize..100]),
        1..max,
    )
    .boxed()
}
pub fn queries<C: Cfg>(d: &DataSpec, n: usize, q: &[(u64, usize, usize)]) -> Vec<(Vec<C::T>, usize, usize)> {
    q.iter().map(|(q, k, ef)| (d.query::<C>(*q, n), *k, *ef)).collect()
}
pub fn insert_range<C: Cfg>(h: &mut Hnsw<'_, C::T, C::D>, d: &DataSpec, range: std::ops::Range<usize>, how: How) -> Model<C> {
    let pts: Model<C> = range.map(|i| (d.id(i), d.vec::<C>(i))).collect();
    insert_all::<C>(h, &pts, how);
    pts
}
