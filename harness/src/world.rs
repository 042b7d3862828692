//! Engine worlds: a bin with holes and zones plus placed items, with integer (or scaled) ground truth.
use crate::gen;
use crate::igeo::*;
use crate::rng::Rng;
use crate::util::*;
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::CDEConfig;
use serde_json::{json, Value};
use std::sync::Arc;

pub struct WOpts {
    pub scale: i64,      // 1 = lattice world
    pub size: i64,       // extent of the bin
    pub max_items: usize,
    pub grid: bool,
    pub piers: bool,
    pub zones: bool,
    pub shapes: usize,   // number of base shapes
    pub exact: bool,     // lattice worlds only: no rotations at all, so every coordinate is exact
    pub fine: i64,       // lattice worlds only: logged in units of 1/fine
}

#[derive(Clone)]
pub struct Placed { pub shape: usize, pub place: Place }

pub struct World {
    pub scale: i64,
    pub k: i64,
    pub cfg: CDEConfig,
    pub outer: Poly,
    pub holes: Vec<Poly>,
    pub zones: Vec<(usize, Poly)>,
    pub base: Vec<Poly>,
    pub items: Vec<Item>,
    pub bin: Bin,
    /// static hazards then items: entity and where it is (scaled)
    pub ents: Vec<HazardEntity>,
    pub polys: Vec<Poly>,
    pub placed: Vec<Placed>,
    pub n_static: usize,
    pub lattice: bool,
    pub x: bool,
}

pub fn rand_place(r: &mut Rng, lattice: bool, exact: bool, p: &[P], region: (i64, i64, i64, i64)) -> Place {
    // put the (rotated) bbox of p somewhere in the region
    let q = if exact { 0 } else { r.int(0, 3) };
    if lattice {
        let rp: Poly = p.iter().map(|x| rotq(*x, q)).collect();
        let b = bbox(&rp);
        let (lx, hx) = (region.0 - b.0, region.2 - b.2);
        let (ly, hy) = (region.1 - b.1, region.3 - b.3);
        let tx = if lx <= hx { r.int(lx, hx) } else { r.int(hx, lx) };
        let ty = if ly <= hy { r.int(ly, hy) } else { r.int(hy, ly) };
        Place::lattice(q, tx, ty)
    } else {
        let rot = match r.us(0, 3) { 0 => q as f64 * std::f64::consts::FRAC_PI_2, 1 => (r.int(0, 15) as f64) * std::f64::consts::PI / 8.0, _ => (r.f() - 0.5) * std::f64::consts::TAU };
        let pl = Place::free(rot, 0.0, 0.0);
        let rp = pl.apply(p, 1000);
        let b = bbox(&rp);
        let rg = (region.0 * 1000, region.1 * 1000, region.2 * 1000, region.3 * 1000);
        let (lx, hx) = (rg.0 - b.0, rg.2 - b.2);
        let (ly, hy) = (rg.1 - b.1, rg.3 - b.3);
        let tx = if lx <= hx { r.int(lx, hx) } else { r.int(hx, lx) };
        let ty = if ly <= hy { r.int(ly, hy) } else { r.int(hy, ly) };
        Place::free(rot, tx as f64 / 1000.0, ty as f64 / 1000.0)
    }
}

impl World {
    pub fn random(r: &mut Rng, o: &WOpts) -> Result<World, String> {
        let cfg = cfg(r, o.grid, o.piers);
        Self::random_cfg(r, o, cfg)
    }
    pub fn random_cfg(r: &mut Rng, o: &WOpts, cfg: CDEConfig) -> Result<World, String> {
        let s = if o.scale == 1 { o.fine } else { o.scale };
        let w = r.int(o.size / 3, o.size);
        let h = if r.chance(0.3) { w } else { r.int(o.size / 3, o.size) };
        let outer0 = if r.chance(0.4) { vec![(0, 0), (w, 0), (w, h), (0, h)] } else { gen::poly(r, w, h) };
        let (ox, oy) = match r.us(0, 3) { 0 => (0, 0), 1 => (-w / 2, -h / 2), 2 => (3, 5), _ => (-7, 2) };
        let outer = gen::shift(&outer0, ox + far().0, oy + far().1);
        let ob = bbox(&outer);
        let mut holes: Vec<Poly> = vec![];
        for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2]) {
            if let Some(p) = gen::poly_inside(r, &outer, o.size / 4, 20) {
                if holes.iter().all(|q| overlap(&p, q, 0) == -1) { holes.push(p); }
            }
        }
        let mut zones: Vec<(usize, Poly)> = vec![];
        if o.zones {
            for _ in 0..*r.pick(&[0usize, 0, 1, 2, 3, 4]) {
                let zw = r.int(2, (ob.2 - ob.0).max(2)); let zh = r.int(2, (ob.3 - ob.1).max(2));
                let (zw, zh) = (zw.min(ob.2 - ob.0), zh.min(ob.3 - ob.1));
                let p = gen::poly(r, zw, zh);
                let p = gen::shift(&p, r.int(ob.0, ob.2 - zw), r.int(ob.1, ob.3 - zh));
                zones.push((r.us(0, 9), p));
            }
        }
        let mut base: Vec<Poly> = vec![];
        for i in 0..o.shapes {
            let big = r.chance(0.15);
            let m = if big { o.size } else { (o.size / 3).max(3) };
            let (a, b) = (r.int(1, m), r.int(1, m));
            let mut p = gen::poly(r, a.max(1), b.max(1));
            if r.chance(0.5) { let (dx, dy) = (r.int(-a, 0), r.int(-b, 0)); p = gen::shift(&p, dx, dy); }
            if i > 0 && r.chance(0.1) { p = base[r.us(0, i - 1)].clone(); }
            if o.piers && r.chance(0.7) { p = gen::centered(&p); }
            base.push(p);
        }
        let items: Vec<Item> = guard(|| base.iter().enumerate().map(|(i, p)| {
            Item::new(i, sp(p), AllowedRotation::Continuous, None, 0, Transformation::empty(), cfg.item_surrogate_config)
        }).collect())?;
        Self::build(r, o, cfg, outer, holes, zones, base, items, s)
    }

    pub fn build(r: &mut Rng, o: &WOpts, cfg: CDEConfig, outer: Poly, holes: Vec<Poly>, zones: Vec<(usize, Poly)>, base: Vec<Poly>, items: Vec<Item>, s: i64) -> Result<World, String> {
        let mut qz: Vec<(usize, Vec<Poly>)> = vec![];
        for (q, p) in &zones {
            match qz.iter_mut().find(|x| x.0 == *q) { Some(x) => x.1.push(p.clone()), None => qz.push((*q, vec![p.clone()])) }
        }
        let bin = guard(|| Bin::new(0, sp(&outer), 0, Transformation::empty(), holes.iter().map(|p| sp(p)).collect(),
            qz.iter().map(|(q, ps)| InferiorQualityZone::new(*q, ps.iter().map(|p| sp(p)).collect())).collect(), cfg))?;
        // ground truth of the static hazards, from the generator's data (not read back from the library)
        let mut ents = vec![HazardEntity::BinExterior];
        let mut polys = vec![scaled(&outer, s)];
        for (i, p) in holes.iter().enumerate() { ents.push(HazardEntity::BinHole { id: i }); polys.push(scaled(p, s)); }
        for (q, ps) in &qz { for (i, p) in ps.iter().enumerate() {
            ents.push(HazardEntity::InferiorQualityZone { quality: *q, id: i }); polys.push(scaled(p, s));
        }}
        let n_static = ents.len();
        let ob = bbox(&outer);
        let mut placed: Vec<Placed> = vec![];
        let n = r.us(0, o.max_items);
        let allow_overlap = r.chance(0.5);
        let lattice = o.scale == 1;
        let x = lattice && o.exact;
        let mut prot = bbox(&outer); // engine bounds, doubled
        { let (w, h) = (prot.2 - prot.0, prot.3 - prot.1); let (dx, dy) = if h < w { (0, w - h) } else { (h - w, 0) };
          prot = ((2 * prot.0 - dx) * s, (2 * prot.1 - dy) * s, (2 * prot.2 + dx) * s, (2 * prot.3 + dy) * s); }
        for _ in 0..n {
            for _try in 0..6 {
                let mut sh = r.us(0, base.len() - 1);
                let mut place = rand_place(r, lattice, x, &base[sh], ob);
                // now and then a sibling: the same item at the same position, turned
                if !placed.is_empty() && !x && r.chance(0.2) {
                    let pl = &placed[r.us(0, placed.len() - 1)];
                    sh = pl.shape;
                    place = Place { tx: pl.place.tx, ty: pl.place.ty, ..place };
                }
                let pp = place.apply(&base[sh], s);
                let e = HazardEntity::PlacedItem { id: sh, dt: place.dt() };
                if ents.contains(&e) { continue; }
                let pb = bbox(&pp);
                if 2 * pb.0 < prot.0 || 2 * pb.1 < prot.1 || 2 * pb.2 > prot.2 || 2 * pb.3 > prot.3 { continue; }
                let free = polys.iter().enumerate().all(|(i, q)| if i == 0 { leaves(&pp, q, 0) == -1 } else { overlap(&pp, q, 0) == -1 });
                if allow_overlap || free {
                    ents.push(e); polys.push(pp); placed.push(Placed { shape: sh, place });
                    break;
                }
            }
        }
        Ok(World { scale: s, k: if lattice { 0 } else { 2 }, cfg, outer, holes, zones, base, items, bin, ents, polys, placed, n_static, lattice, x })
    }

    pub fn hazard(&self, j: usize) -> Hazard {
        // j: index into placed
        let pl = &self.placed[j];
        let shape = self.items[pl.shape].shape.transform_clone(&pl.place.dt().compose());
        Hazard::new(self.ents[self.n_static + j], Arc::new(shape))
    }
    pub fn engine(&self) -> Result<CDEngine, String> {
        guard(|| {
            let mut e = self.bin.base_cde.as_ref().clone();
            for j in 0..self.placed.len() { e.register_hazard(self.hazard(j)); }
            e
        })
    }
    /// engine bounds (square around the bin), scaled
    pub fn bounds(&self) -> (i64, i64, i64, i64) {
        let b = bbox(&self.outer);
        let (w, h) = (b.2 - b.0, b.3 - b.1);
        let s = self.scale;
        // doubled to stay integral: the square extends by half the difference
        let (dx, dy) = if h < w { (0, w - h) } else { (h - w, 0) };
        ((2 * b.0 - dx) * s, (2 * b.1 - dy) * s, (2 * b.2 + dx) * s, (2 * b.3 + dy) * s)
    }
    pub fn json(&self) -> Value {
        json!({"e": "world", "s": self.scale, "k": self.k, "x": self.x as i64, "u": unit().to_string(), "d": self.cfg.quadtree_depth, "g": self.cfg.hpg_n_cells,
            "b2": self.bounds_json(),
            "hz": self.ents.iter().zip(&self.polys).map(|(e, p)| json!({"t": kind(e), "q": quality(e), "p": jpoly(p)})).collect::<Vec<_>>()})
    }
    fn bounds_json(&self) -> Value { let b = self.bounds(); json!([b.0, b.1, b.2, b.3]) }

    pub fn exact(&self) -> bool { self.x }
    pub fn hpg_ok(&self) -> bool { !self.lattice && self.placed.is_empty() }
    pub fn rand_place(&self, r: &mut Rng, p: &[P], region: (i64, i64, i64, i64)) -> Place { rand_place(r, self.lattice, self.x, p, region) }
    /// triage verdict of hazard i against polygon p
    pub fn tri(&self, i: usize, p: &[P]) -> i32 {
        if self.ents[i] == HazardEntity::BinExterior { leaves(p, &self.polys[i], self.k) } else { overlap(p, &self.polys[i], self.k) }
    }
}
pub fn kind(e: &HazardEntity) -> &'static str {
    match e {
        HazardEntity::BinExterior => "ext",
        HazardEntity::BinHole { .. } => "hole",
        HazardEntity::InferiorQualityZone { .. } => "zone",
        HazardEntity::PlacedItem { .. } => "item",
    }
}
pub fn quality(e: &HazardEntity) -> i64 {
    match e { HazardEntity::InferiorQualityZone { quality, .. } => *quality as i64, _ => -1 }
}
