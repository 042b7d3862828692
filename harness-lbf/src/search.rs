//! The search of the optimizer (C21): samplers, choice of the placement, choice of the layout, order of the items
use crate::geo::finish;
use crate::igeo::*;
use crate::io::{rand_inst, rect_shape, shape, FBin, FInst, FItem, FShape, IOpts, G};
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::parser::Parser;
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_cost::LBFPlacingCost;
use lbf::lbf_optimizer::{find_lbf_placement, sample_layout, LBFOptimizer};
use lbf::samplers::hpg_sampler::HPGSampler;
use lbf::samplers::ls_sampler::{LSSampler, SD_ROT, SD_TRANSL};
use rand::prelude::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value};

type R = Result<(), String>;
type F2 = (f64, f64);

/// a problem, the file it came from, and the number of logged units per unit of length
struct World { f: FInst, p: Problem, items: Vec<Item>, c: LBFConfig, s: f64 }

fn instance(r: &mut Rng) -> FInst {
    loop {
        let strip = r.chance(0.3);
        let o = IOpts { size: *r.pick(&[12, 24, 40]), strip, big_numbers: false, max_bins: 3, item_div: *r.pick(&[2, 3, 4, 6]), zones: r.chance(0.5), lbf: true };
        let f = rand_inst(r, &o);
        let area: f64 = f.items.iter().map(|i| i.demand as f64 * area2(&i.shape.outline).abs() as f64 / 2.0).sum();
        if area == 0.0 { continue; }
        if let Some(h) = f.strip { if area * 2.0 / h as f64 > 100.0 * G as f64 { continue; } }
        return f;
    }
}
fn world(r: &mut Rng) -> Option<World> {
    let f = instance(r);
    let c = LBFConfig { n_samples: *r.pick(&[1usize, 5, 30, 100]), ls_frac: *r.pick(&[0.0f32, 0.2, 0.5]), poly_simpl_tolerance: None, ..crate::opt::config(r, false) };
    guard(|| {
        let ji: JsonInstance = serde_json::from_str(&f.text).unwrap();
        let inst = Parser::new(PolySimplConfig::Disabled, c.cde_config, false).parse(&ji);
        let items: Vec<Item> = inst.items().iter().map(|(i, _)| i.clone()).collect();
        let (p, w): (Problem, f64) = match &inst {
            Instance::BP(b) => (BPProblem::new(b.clone()).into(), 0.0),
            Instance::SP(s) => { let w = inst.item_area() * 2.0 / s.strip_height; (SPProblem::new(s.clone(), w, c.cde_config).into(), w as f64) }
        };
        let m = f.bins.iter().flat_map(|b| b.outer.iter()).map(|p| p.0.abs().max(p.1.abs()) as f64 / G as f64).fold(w, f64::max).max(f.strip.unwrap_or(0) as f64 / G as f64);
        let s = [512.0, 256.0, 128.0, 64.0, 32.0, 16.0].into_iter().find(|s| s * m <= 14000.0).unwrap_or(8.0);
        World { f, p, items, c, s }
    }).ok()
}
fn pts(item: &Item, rot: f64, t: F2) -> Vec<F2> {
    let (sn, cs) = rot.sin_cos();
    item.shape.points.iter().map(|q| { let (x, y) = (q.0 as f64, q.1 as f64); (x * cs - y * sn + t.0, x * sn + y * cs + t.1) }).collect()
}
fn of(d: &DTransformation) -> (f64, F2) { (d.rotation() as f64, (d.translation().0 as f64, d.translation().1 as f64)) }
fn ipoly(p: &[F2], s: f64) -> Poly { p.iter().map(|q| ((q.0 * s).round().clamp(-30000.0, 30000.0) as i64, (q.1 * s).round().clamp(-30000.0, 30000.0) as i64)).collect() }
fn gp(p: &[P], s: f64) -> Poly { p.iter().map(|q| (q.0 * s as i64 / G, q.1 * s as i64 / G)).collect() }

/// what an item has to keep clear of in a layout: the outline to stay in, the shapes to stay out of
struct Room { outer: Poly, out: Vec<Poly> }
impl World {
    fn room(&self, l: &Layout, item: usize) -> Room {
        let s = self.s;
        let mut out: Vec<Poly> = l.placed_items().values().map(|p| { let (a, t) = of(&p.d_transf); ipoly(&pts(&self.items[p.item_id], a, t), s) }).collect();
        let outer = match self.f.strip {
            Some(h) => { let (w, h) = ((l.bin.bbox().x_max as f64 * s).round() as i64, h * s as i64 / G); vec![(0, 0), (w, 0), (w, h), (0, h)] }
            None => {
                let b = &self.f.bins[l.bin.id];
                out.extend(b.holes.iter().map(|h| gp(h, s)));
                let q = self.f.items[item].quality;
                out.extend(b.zones.iter().filter(|z| q.is_none_or(|q| z.0 < q)).map(|z| gp(&z.1, s)));
                gp(&b.outer, s)
            }
        };
        Room { outer, out }
    }
}
impl Room {
    fn json(&self, v: &mut Value) { v["o"] = jpoly(&self.outer); v["x"] = Value::Array(self.out.iter().map(|p| jpoly(p)).collect()); }
    /// only used to choose what to log and what to look at first
    fn free(&self, p: &Poly) -> bool { leaves(p, &self.outer, 3) == -1 && self.out.iter().all(|q| overlap(p, q, 3) == -1) }
}
fn cost(p: &Poly) -> i64 { 10 * p.iter().map(|q| q.0).max().unwrap() + p.iter().map(|q| q.1).max().unwrap() }

/// all orientations of an item in 1/10000 rad
fn orients(f: &FItem) -> Value { match &f.orient { None => json!([]), Some(v) if v.is_empty() => json!([0]), Some(v) => json!(v) } }
fn rotation(r: &mut Rng, f: &FItem) -> f64 {
    match &f.orient { None => r.f() * std::f64::consts::TAU, Some(v) if v.is_empty() => 0.0, Some(v) => (*r.pick(v) as f64 / 10.0).to_radians() }
}

fn cells(h: &HPGSampler, s: f64) -> Value {
    Value::Array(h.cell_samplers.iter().map(|c| { let b = &c.bbox; let n = |v: fsize| (v as f64 * s).round() as i64; json!([n(b.x_min), n(b.y_min), n(b.x_max), n(b.y_max)]) }).collect())
}
/// the sampler over the grid: which placements it can produce, before and after it is tightened
fn grid(w: &World, l: &Layout, i: usize, r: &mut Rng, out: &mut Out) {
    let item = &w.items[i];
    let s = w.s;
    let room = w.room(l, i);
    let poi = &item.shape.poi;
    let (px, py) = (poi.center.0 as f64, poi.center.1 as f64);
    // placements that are free, wherever they come from
    let bb = bbox(&room.outer);
    let mut free: Vec<(Poly, P)> = vec![];
    for _ in 0..400 {
        if free.len() >= 6 { break; }
        let a = rotation(r, &w.f.items[i]);
        let (sn, cs) = a.sin_cos();
        let (x, y) = ((bb.0 as f64 + r.f() * (bb.2 - bb.0) as f64) / s, (bb.1 as f64 + r.f() * (bb.3 - bb.1) as f64) / s);
        let p = ipoly(&pts(item, a, (x - (px * cs - py * sn), y - (px * sn + py * cs))), s);
        if room.free(&p) { free.push((p, ((x * s).round() as i64, (y * s).round() as i64))); }
    }
    let jfree = |v: &[(Poly, P)]| Value::Array(v.iter().map(|(p, q)| json!({"p": jpoly(p), "q": [q.0, q.1]})).collect());
    let mut rng = SmallRng::seed_from_u64(r.next());
    let ev = guard(|| {
        let mut v = json!({"e": "grid", "ok": 1, "S": s as i64, "rad": (poi.radius as f64 * s).floor() as i64, "or": orients(&w.f.items[i]), "any": w.f.items[i].orient.is_none() as i64});
        room.json(&mut v);
        v["free"] = jfree(&free);
        let Some(mut h) = HPGSampler::new(item, l) else {
            v["c"] = json!([]); v["none"] = json!(1);
            return v;
        };
        v["none"] = json!(0);
        v["c"] = cells(&h, s);
        v["cov"] = json!((h.coverage_area as f64 * s * s / 64.0).round() as i64);
        let n0 = h.n_samples;
        let few = h.cell_samplers.len() <= 8;
        let n = if few { 600 } else { 200 };
        // the samples: kept in full for the first few, the rest only counted
        let mut smp = vec![];
        let mut halves = std::collections::BTreeSet::new();
        let mut rots = std::collections::BTreeSet::new();
        for k in 0..n {
            let t = h.sample(&mut rng).decompose();
            let (a, (tx, ty)) = of(&t);
            let (sn, cs) = a.sin_cos();
            let q = (((px * cs - py * sn + tx) * s).round() as i64, ((px * sn + py * cs + ty) * s).round() as i64);
            let rot = (a.rem_euclid(std::f64::consts::TAU) * 10000.0).round() as i64;
            if k < 20 { smp.push(json!([rot, q.0, q.1])); }
            if w.f.items[i].orient.is_none() { rots.insert(rot / 15708); } else { rots.insert(rot); }
            for (c, b) in h.cell_samplers.iter().enumerate() {
                let b = &b.bbox;
                let (x, y) = (q.0 as f64 / s, q.1 as f64 / s);
                if x >= b.x_min as f64 && x <= b.x_max as f64 && y >= b.y_min as f64 && y <= b.y_max as f64 {
                    halves.insert((c, 0, x > ((b.x_min + b.x_max) / 2.0) as f64));
                    halves.insert((c, 1, y > ((b.y_min + b.y_max) / 2.0) as f64));
                }
            }
        }
        v["smp"] = json!(smp);
        v["n"] = json!(n);
        v["cnt"] = json!(h.n_samples - n0);
        v["rots"] = json!(rots.into_iter().collect::<Vec<_>>());
        v["few"] = json!(few as i64);
        v["half"] = json!(halves.len());
        // tighten
        let mut bounds: Vec<i64> = free.iter().map(|x| cost(&x.0)).collect();
        bounds.sort_unstable_by(|a, b| b.cmp(a));
        let mut tight = vec![];
        let mut b = 10 * bb.2 + bb.3;
        for k in 0..3 {
            b = if k < bounds.len() && r.chance(0.6) { bounds[k] } else { b - r.int(1, (b.abs() / 3).max(2)) };
            // 10 * x + y = b / s
            let x = b as f64 / s / 10.0 - r.f();
            h.tighten(LBFPlacingCost::new(x as fsize, (b as f64 / s - 10.0 * x) as fsize));
            tight.push(json!({"b": b, "c": cells(&h, s), "cov": (h.coverage_area as f64 * s * s / 64.0).round() as i64}));
            if h.cell_samplers.is_empty() { break; }
        }
        v["tight"] = json!(tight);
        v
    }).unwrap_or_else(|e| json!({"e": "grid", "ok": 0, "err": e}));
    let inside = |c: &Value, q: P| c.as_array().unwrap().iter().any(|b| { let n = |k: usize| b[k].as_i64().unwrap(); q.0 >= n(0) && q.0 <= n(2) && q.1 >= n(1) && q.1 <= n(3) });
    let hot = ev["ok"] == 0 || free.iter().any(|f| !inside(&ev["c"], f.1));
    out.push(hot, vec![ev]);
}

fn opt_json(w: &World, l: &Option<PlacingOption>) -> Value {
    match l { None => json!([]), Some(o) => { let (a, t) = of(&o.d_transf); jpoly(&ipoly(&pts(&w.items[o.item_id], a, t), w.s)) } }
}
fn same(a: &Option<PlacingOption>, b: &Option<PlacingOption>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.layout_idx == b.layout_idx && a.item_id == b.item_id && of(&a.d_transf) == of(&b.d_transf), _ => false }
}
/// the same search with a growing number of samples
fn budget(w: &World, idx: LayoutIndex, i: usize, r: &mut Rng, out: &mut Out, gain: &mut [i64; 4]) {
    let item = &w.items[i];
    let l = w.p.get_layout(idx);
    let seed = r.next();
    let n = r.us(8, 24);
    let room = w.room(l, i);
    let mut hot = false;
    let ev = guard(|| {
        let mut v = json!({"e": "budget", "ok": 1, "item": i, "lay": format!("{idx:?}"), "n": n});
        room.json(&mut v);
        let search = |n: usize, ls: f32| {
            let mut k = 0;
            let o = sample_layout(&w.p, idx, item, &LBFConfig { n_samples: n, ls_frac: ls, ..w.c }, &mut SmallRng::seed_from_u64(seed), &mut k);
            (o, k)
        };
        let mut distinct: Vec<Option<PlacingOption>> = vec![];
        let (mut k, mut used, mut who) = (vec![], vec![], vec![]);
        for b in 1..=n {
            let (o, u) = search(b, 0.0);
            if distinct.last().map_or(o.is_some(), |d| !same(d, &o)) { distinct.push(o); }
            k.push(distinct.len());
            used.push(u);
            who.push(o.map_or(1, |o| (o.item_id == i && o.layout_idx == idx) as i64));
        }
        // the samples it drew, if they can be drawn again
        let mut smp = vec![];
        let mut faithful = 1;
        if let Some(mut h) = HPGSampler::new(item, l) {
            let mut rng = SmallRng::seed_from_u64(seed);
            for b in 1..=n {
                if h.cell_samplers.is_empty() { break; }
                let t = h.sample(&mut rng).decompose();
                let p = ipoly(&{ let (a, x) = of(&t); pts(item, a, x) }, w.s);
                smp.push(jpoly(&p));
                let before = if b == 1 { 0 } else { k[b - 2] };
                if k[b - 1] != before {
                    let Some(o) = distinct[k[b - 1] - 1] else { faithful = 0; break };
                    let (x, y) = (of(&o.d_transf), of(&t));
                    if (x.1 .0 - y.1 .0).abs() > 0.01 || (x.1 .1 - y.1 .1).abs() > 0.01 { faithful = 0; break; }
                    let q = pts(item, y.0, y.1);
                    let m = |f: fn(&F2) -> f64| q.iter().map(f).fold(f64::MIN, f64::max) as fsize;
                    h.tighten(LBFPlacingCost::new(m(|z| z.0), m(|z| z.1)));
                } else {
                    let best = before.checked_sub(1).and_then(|d| distinct[d]).map(|o| { let (a, x) = of(&o.d_transf); cost(&ipoly(&pts(item, a, x), w.s)) });
                    if room.free(&p) && best.is_none_or(|c| cost(&p) < c - 60) { hot = true; }
                }
            }
        }
        v["k"] = json!(k); v["used"] = json!(used); v["who"] = json!(who);
        v["d"] = Value::Array(distinct.iter().map(|d| opt_json(w, d)).collect());
        v["smp"] = json!(smp);
        v["faithful"] = json!(faithful);
        // local search on top
        let f = *r.pick(&[0.1f32, 0.2, 0.5, 0.75]);
        let big = n * r.us(1, 6);
        let uni = big - (big as f32 * f) as usize;
        let (a, ua) = search(uni, 0.0);
        let (b, ub) = search(big, f);
        if let (Some(x), Some(y), true) = (&a, &b, big - uni >= 10) {
            let c = |o: &PlacingOption| { let (a, t) = of(&o.d_transf); cost(&ipoly(&pts(item, a, t), w.s)) };
            gain[0] += 1;
            gain[1] += (c(y) < c(x) - 24) as i64;
        }
        // few uniform samples, many local ones: the search wanders
        if w.f.items[i].orient.is_some() {
            if let (Some(x), Some(y)) = (search(8, 0.0).0, search(160, 0.95).0) {
                let (x, y) = (of(&x.d_transf).1, of(&y.d_transf).1);
                let b = l.bin.bbox();
                gain[2] += 1;
                gain[3] += ((x.0 - y.0).hypot(x.1 - y.1) > 0.07 * (b.width() as f64).max(b.height() as f64)) as i64;
            }
        }
        v["uni"] = opt_json(w, &a); v["ls"] = opt_json(w, &b);
        v["unib"] = json!(uni); v["lsb"] = json!(big);
        v["uniu"] = json!(ua); v["lsu"] = json!(ub);
        v
    }).unwrap_or_else(|e| { hot = true; json!({"e": "budget", "ok": 0, "err": e}) });
    out.push(hot, vec![ev]);
}

fn lname(l: &LayoutIndex) -> String { match l { LayoutIndex::Real(i) => format!("R{i}"), LayoutIndex::Template(i) => format!("T{i}") } }
/// the layout the item goes to
fn find(w: &World, i: usize, r: &mut Rng, out: &mut Out) -> Option<PlacingOption> {
    let item = &w.items[i];
    let seed = r.next();
    let mut res = None;
    let ev = guard(|| {
        let mut rng = SmallRng::seed_from_u64(seed);
        let mut used = 0;
        let o = find_lbf_placement(&w.p, item, &w.c, &mut rng, &mut used);
        res = o;
        // the same search, layout by layout: open ones first, then the bins in stock
        let mut rng = SmallRng::seed_from_u64(seed);
        let mut seq = vec![];
        let mut total = 0;
        let all = (0..w.p.layouts().len()).map(LayoutIndex::Real).chain((0..w.p.template_layouts().len()).filter(|t| w.p.bin_qtys()[w.p.template_layouts()[*t].bin.id] > 0).map(LayoutIndex::Template));
        for idx in all {
            let mut u = 0;
            let q = sample_layout(&w.p, idx, item, &w.c, &mut rng, &mut u);
            total += u;
            seq.push(json!({"l": lname(&idx), "f": q.is_some() as i64, "p": opt_json(w, &q), "u": u, "can": HPGSampler::new(item, w.p.get_layout(idx)).is_some() as i64}));
            if q.is_some() { break; }
        }
        json!({"e": "find", "ok": 1, "seq": seq, "n": w.c.n_samples, "l": o.map_or(String::new(), |o| lname(&o.layout_idx)), "p": opt_json(w, &o), "item": o.map_or(i, |o| o.item_id), "i": i, "used": used, "sum": total})
    }).unwrap_or_else(|e| json!({"e": "find", "ok": 0, "err": e}));
    out.push(ev["ok"] == 0, vec![ev]);
    res
}

/// the sampler around a placement
fn local(w: &World, l: &Layout, i: usize, r: &mut Rng, out: &mut Out) {
    let item = &w.items[i];
    let b = l.bin.bbox();
    let dim = (b.width() as f64).max(b.height() as f64);
    let ev = guard(|| {
        let any = w.f.items[i].orient.is_none();
        let place = |r: &mut Rng| DTransformation::new(rotation(r, &w.f.items[i]) as fsize, ((b.x_min as f64 + r.f() * b.width() as f64) as fsize, (b.y_min as f64 + r.f() * b.height() as f64) as fsize));
        let start = place(r);
        let mut ls = LSSampler::from_defaults(item, &start, &b);
        let mut rng = SmallRng::seed_from_u64(r.next());
        let mut rows = vec![];
        let mut mean = start;
        let mut prog = 0.0;
        for step in 0..4 {
            match step { 0 => {} 1 => { mean = DTransformation::new(start.rotation() + if any { 0.5 } else { 0.0 }, place(r).translation()); ls.shift_mean(&mean); }
                2 => { prog = if r.chance(0.4) { 1.0 } else { r.f() }; ls.decay_stddev(prog as fsize); }
                _ => { prog = if r.chance(0.3) { 0.0 } else { r.f() }; ls.decay_stddev(prog as fsize); mean = DTransformation::new(mean.rotation(), place(r).translation()); ls.shift_mean(&mean); } }
            let sd_t = dim * SD_TRANSL.0 as f64 * (SD_TRANSL.1 as f64 / SD_TRANSL.0 as f64).powf(prog);
            let sd_r = SD_ROT.0 as f64 * (SD_ROT.1 as f64 / SD_ROT.0 as f64).powf(prog);
            let (ma, mt) = of(&mean);
            let n = 400;
            // deviations from the mean in standard deviations: mean, spread and largest, times 1000
            let d: Vec<[f64; 3]> = (0..n).map(|_| { let (a, t) = of(&ls.sample(&mut rng)); [(t.0 - mt.0) / sd_t, (t.1 - mt.1) / sd_t, if any { (a - ma) / sd_r } else { (a - ma) * 1000.0 }] }).collect();
            let stat = |k: usize| {
                let m = d.iter().map(|x| x[k]).sum::<f64>() / n as f64;
                let v = (d.iter().map(|x| (x[k] - m).powi(2)).sum::<f64>() / n as f64).sqrt();
                let c = |x: f64| (x * 1000.0).round().clamp(-1e8, 1e8) as i64;
                json!([c(m), c(v), c(d.iter().map(|x| x[k].abs()).fold(0.0, f64::max))])
            };
            // far from the origin the numbers are too coarse to judge
            let coarse = ((mt.0.abs().max(mt.1.abs()) * 2e-7) > sd_t * 0.02) as i64;
            rows.push(json!({"x": stat(0), "y": stat(1), "r": stat(2), "coarse": coarse}));
        }
        json!({"e": "local", "ok": 1, "any": any as i64, "rows": rows})
    }).unwrap_or_else(|e| json!({"e": "local", "ok": 0, "err": e}));
    out.push(ev["ok"] == 0, vec![ev]);
}

/// costs order placements by ten times the right edge plus the top edge
fn costs(r: &mut Rng) -> Value {
    let mut v: Vec<(i64, i64)> = (0..6).map(|_| (r.int(-400, 400), r.int(-400, 400))).collect();
    let q = v[0];
    v.push((q.0 + 1, q.1 - 9)); v.push((q.0 + 1, q.1 - 11)); v.push((q.0 - 1, q.1 + 10)); v.push(q);
    let c: Vec<LBFPlacingCost> = v.iter().map(|q| LBFPlacingCost::new(q.0 as fsize, q.1 as fsize)).collect();
    let cmp: Vec<Vec<i64>> = c.iter().map(|a| c.iter().map(|b| match a.cmp(b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 }).collect()).collect();
    let p = crate::gen::poly(r, 40, 40);
    let p = crate::gen::shift(&p, r.int(-50, 50), r.int(-50, 50));
    let s = sp(&p);
    let of = LBFPlacingCost::from_shape(&s);
    let m = (p.iter().map(|q| q.0).max().unwrap(), p.iter().map(|q| q.1).max().unwrap());
    json!({"e": "cost", "ok": 1, "v": v, "cmp": cmp, "p": jpoly(&p), "eq": (of == LBFPlacingCost::new(m.0 as fsize, m.1 as fsize)) as i64})
}

/// one bin, room for one item only: the one with the largest extent is tried first
fn order(r: &mut Rng, out: &mut Out) {
    let side = r.int(20, 60) * G;
    let n = r.us(2, 4);
    let bins = { let s = rect_shape(side, side); vec![FBin { outer: s.outline, holes: vec![], zones: vec![], cost: 1, stock: Some(1), json: json!({"Cost": 1, "Stock": 1, "Shape": s.json}) }] };
    let mut items: Vec<FItem> = vec![];
    let mut pc: Vec<i64> = (0..n as i64).map(|k| 59 + 2 * k + r.int(0, 1)).collect();
    r.shuffle(&mut pc);
    for k in &pc {
        // squares of more than half the side, some without a small corner: no two fit together, and all have the extent of the square
        let a = side * k / 100;
        let c = side / 2 + r.int(1, (a - side / 2 - 1).max(1));
        let sh: FShape = if r.chance(0.5) || c >= a { rect_shape(a, a) } else { let p = vec![(0, 0), (a, 0), (a, c), (c, c), (c, a), (0, a)]; shape(r, &p) };
        items.push(FItem { shape: sh, demand: 1, value: None, quality: None, orient: Some(vec![0]) });
    }
    let text = json!({"Name": "generated", "Objects": bins.iter().map(|b| b.json.clone()).collect::<Vec<_>>(), "Items": items.iter().map(|i| json!({"Demand": 1,
        "Shape": i.shape.json, "AllowedOrientations": [0.0]})).collect::<Vec<_>>()}).to_string();
    let c = LBFConfig { n_samples: 400, ls_frac: 0.0, poly_simpl_tolerance: None, ..crate::opt::config(r, false) };
    let ev = guard(|| {
        let ji: JsonInstance = serde_json::from_str(&text).unwrap();
        let inst = Parser::new(PolySimplConfig::Disabled, c.cde_config, true).parse(&ji);
        let sol = LBFOptimizer::new(inst, c, SmallRng::seed_from_u64(r.next())).solve();
        let placed: Vec<usize> = sol.layout_snapshots.iter().flat_map(|l| l.placed_items.values().map(|p| p.item_id)).collect();
        json!({"e": "order", "ok": 1, "side": side, "items": items.iter().map(|i| jpoly(&i.shape.outline)).collect::<Vec<_>>(), "placed": placed})
    }).unwrap_or_else(|e| json!({"e": "order", "ok": 0, "err": e}));
    out.push(ev["ok"] == 0, vec![ev]);
}

pub fn search(args: &Args) -> R {
    let worlds = args.n("worlds", 200);
    let out = parallel(8, args.seed ^ 0xC21, |t, mut r| {
        let mut out = Out::new();
        let mut gain = [0i64; 4];
        for run in 0..worlds {
            let mut r = r.fork(run as u64);
            if run % 8 != t { continue; }
            if run % 4 == 0 { out.push(false, vec![costs(&mut r)]); order(&mut r, &mut out); }
            let Some(mut w) = world(&mut r) else { continue };
            for _ in 0..r.us(1, 6) {
                let i = r.us(0, w.items.len() - 1);
                let all: Vec<LayoutIndex> = w.p.layout_indices().chain(w.p.template_layout_indices_with_stock()).collect();
                if !all.is_empty() {
                    let idx = *r.pick(&all);
                    if r.chance(0.7) { grid(&w, w.p.get_layout(idx), i, &mut r, &mut out); }
                    if r.chance(0.6) { budget(&w, idx, i, &mut r, &mut out, &mut gain); }
                    if r.chance(0.2) { local(&w, w.p.get_layout(idx), i, &mut r, &mut out); }
                }
                let o = find(&w, i, &mut r, &mut out);
                if let Some(o) = o {
                    if w.p.missing_item_qtys()[i] <= 0 && r.chance(0.7) { continue; }
                    if guard(|| { w.p.place_item(o); w.p.flush_changes() }).is_err() { break; }
                }
            }
        }
        out.push(true, vec![json!({"e": "gain", "n": gain[0], "better": gain[1], "walks": gain[2], "far": gain[3]})]);
        out
    });
    finish(args, out, json!({"worlds": worlds}))
}
