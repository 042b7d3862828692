use crate::igeo::{Poly, P};
use crate::rng::Rng;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| if !GUARDED.with(|g| g.get()) && !SILENT.load(std::sync::atomic::Ordering::Relaxed) { eprintln!("harness panic: {i}"); }));
}
/// panics of worker threads of the library are expected, too
static SILENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn silence() { SILENT.store(true, std::sync::atomic::Ordering::Relaxed); }
thread_local! { static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Runs code under test; a panic becomes Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let res = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    res.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else { "panic".to_string() }
    })
}

thread_local! {
    static UNIT: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
    static FAR: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) };
}
/// length of the library's unit in ours: the same world can be handed to the library at another size (a power of two, so that nothing is lost)
pub fn unit() -> f64 { UNIT.with(|u| u.get()) }
/// where bins are put
pub fn far() -> (i64, i64) { FAR.with(|u| u.get()) }
/// the library's unit is ours, bins are near the origin
pub fn plain() {
    UNIT.with(|u| u.set(1.0));
    FAR.with(|f| f.set((0, 0)));
}
pub fn regime(r: &mut Rng) {
    UNIT.with(|u| u.set(if r.chance(0.7) { 1.0 } else { *r.pick(&[0.125, 0.5, 4.0, 64.0, 1024.0]) }));
    FAR.with(|f| f.set(if r.chance(0.85) { (0, 0) } else { *r.pick(&[(1000, -700), (-2000, 1500), (0, 1200)]) }));
}

pub fn fpts(p: &[P]) -> Vec<Point> {
    let u = unit();
    p.iter().map(|q| Point((q.0 as f64 * u) as fsize, (q.1 as f64 * u) as fsize)).collect()
}
pub fn sp(p: &[P]) -> SimplePolygon {
    SimplePolygon::new(fpts(p))
}

/// A placement: rotation (quarter turns, or radians) and translation, kept exactly as chosen by the generator
#[derive(Clone, Copy, Debug)]
pub struct Place {
    pub rot: f64,
    pub quarter: Option<i64>,
    pub tx: f64,
    pub ty: f64,
}
impl Place {
    pub fn lattice(q: i64, tx: i64, ty: i64) -> Self {
        Place { rot: q as f64 * std::f64::consts::FRAC_PI_2, quarter: Some(q.rem_euclid(4)), tx: tx as f64, ty: ty as f64 }
    }
    pub fn free(rot: f64, tx: f64, ty: f64) -> Self {
        Place { rot: (rot as fsize) as f64, quarter: None, tx: (tx as fsize) as f64, ty: (ty as fsize) as f64 }
    }
    pub fn dt(&self) -> DTransformation {
        DTransformation::new(self.rot as fsize, ((self.tx * unit()) as fsize, (self.ty * unit()) as fsize))
    }
    /// where the polygon is, by the harness' own arithmetic, in scaled integers
    pub fn apply(&self, p: &[P], scale: i64) -> Poly {
        let s = scale as f64;
        match self.quarter {
            Some(q) => p.iter().map(|&(x, y)| {
                let (a, b) = rotq((x, y), q);
                (((a as f64 + self.tx) * s).round() as i64, ((b as f64 + self.ty) * s).round() as i64)
            }).collect(),
            None => {
                let (sn, cs) = self.rot.sin_cos();
                p.iter().map(|&(x, y)| {
                    let (x, y) = (x as f64, y as f64);
                    (((x * cs - y * sn + self.tx) * s).round() as i64, ((x * sn + y * cs + self.ty) * s).round() as i64)
                }).collect()
            }
        }
    }
}
pub fn rotq((x, y): P, q: i64) -> P {
    match q.rem_euclid(4) { 0 => (x, y), 1 => (-y, x), 2 => (-x, -y), _ => (y, -x) }
}
pub fn jpoly(p: &[P]) -> Value {
    Value::Array(p.iter().map(|q| json!([q.0, q.1])).collect())
}
pub fn scaled(p: &[P], s: i64) -> Poly { p.iter().map(|q| (q.0 * s, q.1 * s)).collect() }

pub fn surr(r: &mut Rng, piers: bool) -> SPSurrogateConfig {
    SPSurrogateConfig {
        pole_coverage_goal: *r.pick(&[0.0, 0.5, 0.9, 0.99]) as fsize,
        max_poles: r.us(0, 8),
        n_ff_poles: r.us(0, 5),
        n_ff_piers: if piers { r.us(0, 2) } else { 0 },
    }
}
pub fn cfg(r: &mut Rng, grid: bool, piers: bool) -> CDEConfig {
    CDEConfig {
        quadtree_depth: *r.pick(&[0u8, 1, 2, 3, 3, 4, 4, 5, 6, 7]),
        hpg_n_cells: if grid { r.us(4, 150) } else { 0 },
        item_surrogate_config: surr(r, piers),
    }
}

/// NDJSON output split over several files; "hot" blocks (those the triage found suspicious) come first
pub struct Out {
    pub blocks: Vec<(bool, Vec<Value>)>,
}
impl Out {
    pub fn new() -> Self { Out { blocks: vec![] } }
    pub fn push(&mut self, hot: bool, b: Vec<Value>) { self.blocks.push((hot, b)); }
    pub fn merge(&mut self, o: Out) { self.blocks.extend(o.blocks); }
    pub fn write(mut self, dir: &str, nfiles: usize) -> std::io::Result<()> {
        self.blocks.sort_by_key(|b| !b.0);
        std::fs::create_dir_all(dir)?;
        let mut fs: Vec<BufWriter<File>> = (0..nfiles)
            .map(|i| BufWriter::new(File::create(format!("{dir}/t{i}.ndjson")).unwrap()))
            .collect();
        let mut sizes = vec![0usize; nfiles];
        for (_, b) in self.blocks {
            let i = (0..nfiles).min_by_key(|i| sizes[*i]).unwrap();
            for v in b { let s = v.to_string(); sizes[i] += s.len(); writeln!(fs[i], "{s}")?; }
        }
        Ok(())
    }
}

/// runs f(thread_index, rng) on n threads and merges the outputs
pub fn parallel(n: usize, seed: u64, f: impl Fn(usize, Rng) -> Out + Sync) -> Out {
    let mut out = Out::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|i| { let f = &f; s.spawn(move || f(i, Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64)))) }).collect();
        for h in hs { out.merge(h.join().expect("harness thread failed")); }
    });
    out
}

pub fn idx_of(ents: &[HazardEntity], e: &HazardEntity) -> i64 {
    ents.iter().position(|x| x == e).map_or(0, |i| i as i64 + 1)
}
