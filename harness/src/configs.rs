use crate::api::*;
use crate::coord::*;
use rstar::primitives::*;
use rstar::*;
use std::num::Wrapping;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Pm<const MIN: usize, const MAX: usize, const REI: usize>;
impl<const MIN: usize, const MAX: usize, const REI: usize> RTreeParams for Pm<MIN, MAX, REI> {
    const MIN_SIZE: usize = MIN;
    const MAX_SIZE: usize = MAX;
    const REINSERTION_COUNT: usize = REI;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}

type Tree = Box<dyn TreeApi>;
pub struct Config {
    pub name: &'static str,
    pub dim: usize,
    pub min: usize, pub max: usize, pub rei: usize,
    pub tagged: bool, pub mutable: bool, pub float: bool, pub serde: bool,
    pub shape: char,
    /// query points and element coordinates stay within 0..=lim
    pub lim: i64,
    /// coordinate transformations that keep all arithmetic exact
    pub affs: &'static [(f64, i64)],
    /// second tree of a join: same element type or tagged boxes
    pub alt_shape: char,
    /// wrapped element type
    pub wrap: bool,
    pub new: fn() -> Tree, pub bulk: fn(&[&Def]) -> Tree,
    pub new_dp: fn() -> Tree, pub bulk_dp: fn(&[&Def]) -> Tree,
    pub join: fn(&dyn TreeApi, &dyn TreeApi) -> Vec<(u32, u32)>,
}
fn make<T: Obj, Q: RTreeParams + Clone + 'static>(s: Option<SerdeFn<T, Q>>) -> Tree where Tb<T, Q>: TreeApi {
    Box::new(Tb::<T, Q> { t: if turn() { RTree::new_with_params() } else { RTree::default() }, ser: s })
}
fn load<T: Obj, Q: RTreeParams + Clone + 'static>(ds: &[&Def], s: Option<SerdeFn<T, Q>>) -> Tree where Tb<T, Q>: TreeApi {
    Box::new(Tb::<T, Q> { t: RTree::bulk_load_with_params(ds.iter().map(|d| T::mk(d)).collect()), ser: s })
}

macro_rules! ser { (json) => { Some(via_json) }; (no) => { None } }
macro_rules! isser { (json) => { true }; (no) => { false } }
macro_rules! config {
    ($name:literal, $t:ty, $q:ty, $shape:literal, $lim:literal, $affs:expr, $ser:tt, wrap=$wrap:literal) => {
        config!($name, $t, $q, $shape, $lim, $affs, $ser, wrap=$wrap, alt=$t, $shape)
    };
    ($name:literal, $t:ty, $q:ty, $shape:literal, $lim:literal, $affs:expr, $ser:tt, wrap=$wrap:literal, alt=$u:ty, $us:literal) => {
        Config {
            name: $name,
            dim: <<$t as Obj>::Q as Point>::DIMENSIONS,
            min: <$q as RTreeParams>::MIN_SIZE, max: <$q as RTreeParams>::MAX_SIZE, rei: <$q as RTreeParams>::REINSERTION_COUNT,
            tagged: <$t as Obj>::TAGGED,
            mutable: { let mut e = <$t as Obj>::mk(&sample($shape, <<$t as Obj>::Q as Point>::DIMENSIONS)); e.bump(0) },
            float: <<<$t as Obj>::Q as Point>::Scalar as Num>::FLOAT,
            serde: isser!($ser), shape: $shape, lim: $lim, affs: $affs, alt_shape: $us, wrap: $wrap,
            new: || make::<$t, $q>(ser!($ser)), bulk: |d| load::<$t, $q>(d, ser!($ser)),
            new_dp: || Box::new(Tb::<$u, DefaultParams> { t: RTree::new(), ser: None }),
            bulk_dp: |d| Box::new(Tb::<$u, DefaultParams> { t: RTree::bulk_load(d.iter().map(|d| <$u as Obj>::mk(d)).collect()), ser: None }),
            join: |a, b| join_as::<$t, $q, $u>(a, b).unwrap(),
        }
    };
}
pub fn sample(s: char, d: usize) -> Def {
    let (a, b) = (vec![0; d], vec![1; d]);
    let shape = match s { 'p' => Shape::P(a), 'r' => Shape::R(a, b), 'l' => Shape::L(a, b), _ => Shape::M(vec![a]) };
    Def { shape, eq: 1, key: 1 }
}
const INT: &[(f64, i64)] = &[(1.0, 0), (1.0, -7), (3.0, 0), (1.0, -40), (1.0, 1 << 29), (1.0, -(1 << 29))];
/// 64 bit integers
const I64: &[(f64, i64)] = &[(1.0, 0), (1.0, -7), (1_000.0, 0), (1_000.0, -40), (1.0, 1 << 40), (1.0, -(1 << 40))];
const ONE: &[(f64, i64)] = &[(1.0, 0)];
const F64: &[(f64, i64)] = &[(1.0, 0), (0.25, 0), (1024.0, -9), (9.5367431640625e-7, 3), (1.0, -20), (1099511627776.0, 0)];
/// up to three dimensions: far from the origin, huge and tiny
const F64W: &[(f64, i64)] = &[(1.0, 0), (0.25, 0), (1024.0, -9), (9.5367431640625e-7, 3), (1.0, -20), (1099511627776.0, 0), (1.0, 1 << 44), (9.5367431640625e-7, -(1 << 40)),
    (2.037035976334486e90, -5), (4.909093465297727e-91, -5)];
const F32: &[(f64, i64)] = &[(1.0, 0), (0.5, 0), (4.0, -9), (1.0, -20), (1.0, 1 << 15)];

type Gd<G> = GeomWithData<G, Tag>;
type D = DefaultParams;

/// With the feature "few" only these are built: optimised quickly, for scouting.
#[allow(deprecated)]
fn core() -> Vec<Config> {
    vec![
        config!("t2f", Gd<[f64; 2]>, D, 'p', 1000, F64W, json, wrap=false),
        config!("t2f-2-4-1", Gd<[f64; 2]>, Pm<2, 4, 1>, 'p', 1000, F64W, json, wrap=false),
        config!("t2i-1-4-0", Gd<[i32; 2]>, Pm<1, 4, 0>, 'p', 1000, INT, no, wrap=false),
        config!("t2i-10-20-5", Gd<[i32; 2]>, Pm<10, 20, 5>, 'p', 1000, INT, no, wrap=false),
        config!("t3f-1-9-7", Gd<[f64; 3]>, Pm<1, 9, 7>, 'p', 1000, F64W, no, wrap=false),
        config!("r2i", Gd<Rectangle<[i32; 2]>>, D, 'r', 1000, INT, json, wrap=false),
        config!("r2f-2-4-1", Gd<Rectangle<[f64; 2]>>, Pm<2, 4, 1>, 'r', 1000, F64W, json, wrap=false),
        config!("r3i-3-6-2", Gd<Rectangle<[i64; 3]>>, D, 'r', 1000, I64, no, wrap=false, alt=Gd<[i64; 3]>, 'p'),
        config!("r2i-16-32-5", Gd<Rectangle<(i32, i32)>>, Pm<16, 32, 5>, 'r', 1000, INT, no, wrap=false),
        config!("l2f", Gd<Line<[f64; 2]>>, D, 'l', 100, F64W, json, wrap=false),
        config!("m2i", Gd<Multi<[i32; 2]>>, D, 'm', 1000, INT, json, wrap=false),
        config!("a2i", [i32; 2], D, 'p', 1000, INT, json, wrap=false),
        config!("u3i", (i64, i64, i64), D, 'p', 1000, I64, no, wrap=false),
        config!("gce", Gd<CachedEnvelope<Rectangle<[i32; 2]>>>, Pm<2, 4, 1>, 'r', 1000, INT, json, wrap=true),
        config!("rc", Rc<Gd<Multi<[f64; 2]>>>, Pm<2, 4, 1>, 'm', 1000, F64W, no, wrap=true),
    ]
}
#[cfg(not(feature = "few"))]
#[allow(deprecated)]
fn rest() -> Vec<Config> {
    vec![
        // tagged points, several parameter sets
        config!("t2i", Gd<[i32; 2]>, D, 'p', 1000, INT, json, wrap=false, alt=Gd<Rectangle<[i32; 2]>>, 'r'),
        config!("t2i-1-4-2", Gd<[i32; 2]>, Pm<1, 4, 2>, 'p', 1000, INT, no, wrap=false),
        config!("t2i-2-4-0", Gd<[i64; 2]>, Pm<2, 4, 0>, 'p', 1000, I64, no, wrap=false),
        config!("t2i-3-5-1", Gd<[i32; 2]>, Pm<3, 5, 1>, 'p', 1000, INT, no, wrap=false),
        config!("t3i-4-8-3", Gd<[i32; 3]>, Pm<4, 8, 3>, 'p', 300, INT, json, wrap=false),
        config!("t2f-20-40-10", Gd<[f64; 2]>, Pm<20, 40, 10>, 'p', 1000, F64W, no, wrap=false),
        // tagged boxes
        config!("r2i-1-5-3", Gd<Rectangle<[i32; 2]>>, Pm<1, 5, 3>, 'r', 1000, INT, no, wrap=false),
        config!("r4f-8-16-4", Gd<Rectangle<[f64; 4]>>, Pm<8, 16, 4>, 'r', 1000, F64, no, wrap=false),
        // tagged segments and user-defined shapes
        config!("l3f-2-4-1", Gd<Line<[f64; 3]>>, Pm<2, 4, 1>, 'l', 100, F64W, no, wrap=false),
        config!("m2f-2-5-2", Gd<Multi<[f64; 2]>>, Pm<2, 5, 2>, 'm', 1000, F64W, no, wrap=false),
        // bare elements
        config!("a2f-2-4-1", [f64; 2], Pm<2, 4, 1>, 'p', 1000, F64W, json, wrap=false),
        config!("a2f32", [f32; 2], D, 'p', 1000, F32, json, wrap=false),
        config!("a2i8", [i8; 2], D, 'p', 7, ONE, no, wrap=false),
        config!("a2i16", [i16; 2], D, 'p', 100, ONE, no, wrap=false),
        config!("a2w32", [Wrapping<i32>; 2], D, 'p', 1000, INT, no, wrap=false),
        config!("a3i64", [i64; 3], Pm<2, 4, 1>, 'p', 1000, I64, no, wrap=false),
        config!("a10f", [f64; 10], D, 'p', 60, F64, no, wrap=false),
        config!("a5i64", [i64; 5], D, 'p', 60, INT, no, wrap=false),
        config!("u2f", (f64, f64), D, 'p', 1000, F64W, json, wrap=false),
        config!("u4f", (f64, f64, f64, f64), D, 'p', 60, F64, no, wrap=false),
        config!("u5f32", (f32, f32, f32, f32, f32), D, 'p', 30, ONE, no, wrap=false),
        config!("u6f", (f64, f64, f64, f64, f64, f64), D, 'p', 60, F64, no, wrap=false),
        config!("u7i", (i64, i64, i64, i64, i64, i64, i64), D, 'p', 30, ONE, no, wrap=false),
        config!("u8f", (f64, f64, f64, f64, f64, f64, f64, f64), D, 'p', 60, F64, no, wrap=false),
        config!("u9f", (f64, f64, f64, f64, f64, f64, f64, f64, f64), D, 'p', 60, F64, no, wrap=false),
        config!("u10f", (f64, f64, f64, f64, f64, f64, f64, f64, f64, f64), D, 'p', 60, F64, no, wrap=false),
        config!("a2i128", [i128; 2], D, 'p', 1000, I64, no, wrap=false),
        config!("mint2", ::mint::Point2<f64>, D, 'p', 1000, F64W, no, wrap=false),
        config!("mint3", ::mint::Point3<i32>, D, 'p', 300, ONE, no, wrap=false),
        config!("upt", UPt, D, 'p', 1000, INT, json, wrap=false),
        config!("br2i", Rectangle<[i32; 2]>, D, 'r', 1000, INT, json, wrap=false),
        config!("bl2f", Line<[f64; 2]>, Pm<2, 4, 1>, 'l', 100, F64W, json, wrap=false),
        // wrappers
        config!("pwd", PointWithData<Tag, [i32; 2]>, D, 'p', 1000, INT, json, wrap=true),
        config!("cet", CachedEnvelope<Gd<Line<[f64; 2]>>>, D, 'l', 100, F64W, json, wrap=true),
        config!("orf", ObjectRef<'static, Gd<Multi<[i32; 2]>>>, D, 'm', 1000, INT, no, wrap=true),
        config!("arc", Arc<Gd<Rectangle<[f64; 2]>>>, D, 'r', 1000, F64W, no, wrap=true),
        config!("garc", Gd<Arc<Line<[f64; 2]>>>, D, 'l', 100, F64W, no, wrap=true),
        config!("bce", CachedEnvelope<Multi<(i32, i32)>>, D, 'm', 1000, INT, no, wrap=true),
        config!("gnest", Gd<Rc<CachedEnvelope<Arc<Multi<[i32; 2]>>>>>, Pm<3, 6, 1>, 'm', 1000, INT, no, wrap=true),
    ]
}
#[cfg(feature = "few")]
fn rest() -> Vec<Config> { vec![] }
pub fn all() -> Vec<Config> { let mut v = core(); v.extend(rest()); v }
