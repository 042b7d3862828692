//! Histories of layouts (C11), bin packing (C08, C09, C19) problems: operations replayed on the real
//! code, the complete observable state recorded after each of them.
use crate::geo::finish;
use crate::hist::{begin, observe, poles_of, probes, read_scheds};
use crate::igeo::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use crate::Args;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placed_item::{PItemKey, PlacedItem};
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::io::parser::compose_json_solution;
use serde_json::{json, Value};
use slotmap::{Key, SlotMap};
use std::sync::atomic::{AtomicUsize, Ordering};

type R = Result<(), String>;

pub fn ratio(v: fsize) -> i64 { let x = v as f64 * 10000.0; if x.is_finite() { x.round().clamp(-9e6, 9e6) as i64 } else { -1 } }
pub fn qty(v: usize) -> i64 { if v > 1 << 40 { 1_000_000_000 - (usize::MAX - v) as i64 } else { v as i64 } }
pub fn key(k: PItemKey) -> String { format!("{:?}", k.data()) }

/// several containers, and candidate placements that lie within the bounds of each of them
pub struct MW { pub ws: Vec<World>, pub pr: Vec<(Poly, SimplePolygon)> }
impl MW {
    pub fn random(r: &mut Rng, nb: usize, min_c: usize, max_c: usize, grid: f64, o: Option<WOpts>) -> Result<Option<MW>, String> {
        let scale = if r.chance(0.6) { 1 } else { 64 };
        let g = r.chance(grid);
        let mut o = o.unwrap_or(WOpts { scale, size: *r.pick(&[12, 20, 28]), max_items: max_c, grid: g, piers: false, zones: r.chance(0.3), shapes: r.us(2, 4), exact: r.chance(0.3), fine: 64 });
        let mut c = cfg(r, g, false);
        if g { c.hpg_n_cells = *r.pick(&[5usize, 20, 60, 150]); }
        if c.item_surrogate_config.max_poles == 0 { c.item_surrogate_config.max_poles = r.us(1, 6); }
        for _ in 0..10 {
            let mut ws = vec![];
            let m = o.max_items;
            for b in 0..nb {
                if b > 0 { o.max_items = 0; }
                let mut w = World::random_cfg(r, &o, c)?;
                w.bin.id = b;
                w.bin.value = r.int(1, 90) as u64;
                ws.push(w);
            }
            o.max_items = m;
            let bounds: Vec<_> = ws.iter().map(|w| w.bounds()).collect();
            let k = 2 * ws[0].k;
            let w = &mut ws[0];
            let ok: Vec<bool> = (0..w.placed.len()).map(|j| {
                let b = bbox(&w.polys[w.n_static + j]);
                bounds.iter().all(|o| 2 * b.0 - k >= o.0 && 2 * b.1 - k >= o.1 && 2 * b.2 + k <= o.2 && 2 * b.3 + k <= o.3)
            }).collect();
            for j in (0..ok.len()).rev() { if !ok[j] { w.placed.remove(j); w.polys.remove(w.n_static + j); w.ents.remove(w.n_static + j); } }
            if w.placed.len() >= min_c {
                let pr = probes(r, &ws[0], 3);
                return Ok(Some(MW { ws, pr }));
            }
        }
        Ok(None)
    }
    pub fn w(&self) -> &World { &self.ws[0] }
    pub fn nc(&self) -> usize { self.ws[0].placed.len() }
    pub fn dt(&self, c: usize) -> DTransformation { self.w().placed[c - 1].place.dt() }
    pub fn item(&self, c: usize) -> usize { self.w().placed[c - 1].shape }
    pub fn cand(&self, item_id: usize, dt: &DTransformation) -> i64 {
        self.w().placed.iter().position(|p| p.shape == item_id && p.place.dt() == *dt).map_or(0, |i| i as i64 + 1)
    }
    pub fn begin(&self) -> Value {
        let polys: Vec<Poly> = self.pr.iter().map(|p| p.0.clone()).collect();
        let mut v = begin(self.w(), &self.ws.iter().collect::<Vec<_>>(), &polys);
        v["ia"] = json!(self.w().base.iter().map(|p| jpoly(p)).collect::<Vec<_>>());
        v["ba"] = json!(self.ws.iter().map(|w| std::iter::once(&w.outer).chain(&w.holes).map(|p| jpoly(p)).collect::<Vec<_>>()).collect::<Vec<_>>());
        v["cost"] = json!(self.ws.iter().map(|w| w.bin.value).collect::<Vec<_>>());
        v
    }
    fn boxes(&self, p: &PlacedItem) -> Value {
        let b = p.shape.bbox();
        let s = self.w().scale as f64;
        let f = |v: fsize| (v as f64 / unit() * s).round().clamp(-1e6, 1e6) as i64;
        json!([f(b.x_min), f(b.y_min), f(b.x_max), f(b.y_max)])
    }
    pub fn items(&self, pis: &SlotMap<PItemKey, PlacedItem>) -> Value {
        Value::Array(pis.iter().map(|(k, p)| json!([key(k), self.cand(p.item_id, &p.d_transf)])).collect())
    }
    pub fn dump(&self, r: &mut Rng, l: &Layout, engine: bool, ncells: usize) -> (Value, bool) {
        let b = l.bin.id.min(self.ws.len() - 1);
        let mut v = json!({"id": l.id(), "bin": l.bin.id + 1, "items": self.items(l.placed_items()), "us": guard(|| ratio(l.usage())).unwrap_or(-2),
            "bx": l.placed_items().values().map(|p| self.boxes(p)).collect::<Vec<_>>()});
        let mut hot = false;
        if engine {
            let (e, h) = observe(r, self.w(), &self.ws[b], l.cde(), None, &self.pr, ncells, json!({}), self.w().scale as f64);
            hot = h;
            v["en"] = e;
            // which item a hazard is
            v["hk"] = Value::Array(l.cde().dynamic_hazards().iter().filter_map(|h| {
                let c = self.w().ents[self.w().n_static..].iter().position(|x| *x == h.entity)? + 1;
                Some(match guard(|| l.hazard_to_p_item_key(&h.entity)) { Ok(Some(k)) => json!([key(k), c]), _ => json!(["none", c]) })
            }).collect());
        }
        (v, hot)
    }
    pub fn dump_snap(&self, s: &LayoutSnapshot) -> Value {
        json!({"id": s.id, "bin": s.bin.id + 1, "items": self.items(&s.placed_items), "us": ratio(s.usage),
            "bx": s.placed_items.values().map(|p| self.boxes(p)).collect::<Vec<_>>()})
    }
}

fn key_of(mw: &MW, l: &Layout, c: usize) -> Option<PItemKey> {
    l.placed_items().iter().find(|(_, p)| mw.cand(p.item_id, &p.d_transf) == c as i64).map(|(k, _)| k)
}

fn rand_layout_sched(r: &mut Rng, nc: usize, nb: usize, len: usize) -> Vec<Value> {
    (0..len).map(|_| {
        let g = if r.chance(0.3) { 2 } else { 1 };
        match r.us(0, 13) {
            0..=4 => json!({"o": "place", "g": g, "i": r.us(1, nc)}),
            5..=7 => json!({"o": "remove", "g": g, "i": r.us(1, nc), "now": r.chance(0.4) as i64}),
            8 => json!({"o": "bin", "g": g, "b": r.us(1, nb)}),
            9 => json!({"o": "snap", "g": g, "s": r.us(1, 3)}),
            10 | 11 => json!({"o": "restore", "g": g, "s": r.us(1, 3)}),
            12 => if r.chance(0.5) { json!({"o": "clone", "g": g, "f": 3 - g, "id": r.us(1, 3)}) } else { json!({"o": "from", "g": g, "s": r.us(1, 3)}) },
            _ => json!({"o": "flush", "g": g}),
        }
    }).collect()
}

/// C11: operations that are not enabled in the current state are skipped
pub fn layout(args: &Args) -> R {
    let scheds = read_scheds(args);
    let runs = args.n("runs", 50);
    let ncells = args.n("cells", 2);
    let keep = args.n("keep", 1_000_000);
    let ops = AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC11, |t, mut r| {
        let mut out = Out::new();
        for run in 0..runs {
            regime(&mut r);
            let big = r.chance(0.1);
            let nb = r.us(1, if big { 5 } else { 3 });
            let mw = match MW::random(&mut r, nb, 2, if big { 14 } else { 7 }, 0.5, None) { Ok(Some(m)) => m, Ok(None) => continue, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            let sched = if !scheds.is_empty() && run % 2 == 0 { scheds[(t + 8 * (run / 2)) % scheds.len()].clone() }
                else { let len = if big { r.us(50, 100) } else { r.us(10, 40) }; rand_layout_sched(&mut r, mw.nc(), nb, len) };
            let mut b = vec![mw.begin()];
            let mut lay: Vec<Option<Layout>> = vec![Some(Layout::new(1, mw.ws[0].bin.clone())), None];
            let mut snaps: Vec<Option<LayoutSnapshot>> = vec![None, None, None];
            let mut hot = false;
            for (n, op) in sched.iter().enumerate() {
                let u = |k: &str| op[k].as_u64().unwrap_or(0) as usize;
                let (g, i, name) = (u("g") - 1, u("i"), op["o"].as_str().unwrap());
                let now = u("now") == 1;
                if name != "from" && lay[g].is_none() { continue; }
                if i > mw.nc() { continue; }
                let mut ev = op.clone();
                let k = if name == "remove" || name == "place" { key_of(&mw, lay[g].as_ref().unwrap(), i) } else { None };
                match name {
                    "place" if k.is_some() => continue,
                    "remove" if k.is_none() => continue,
                    "bin" if u("b") > nb => continue,
                    "restore" => if snaps[u("s") - 1].as_ref().map(|s| s.id) != lay[g].as_ref().map(|l| l.id()) { continue },
                    "from" => if snaps[u("s") - 1].is_none() { continue },
                    _ => {}
                }
                ops.fetch_add(1, Ordering::Relaxed);
                let res: Result<Value, String> = {
                    let (mw, lay, snaps) = (&mw, &mut lay, &mut snaps);
                    guard(move || match name {
                        "place" => { let k = lay[g].as_mut().unwrap().place_item(&mw.w().items[mw.item(i)], mw.dt(i)); json!({"k": key(k)}) }
                        "remove" => { let p = lay[g].as_mut().unwrap().remove_item(k.unwrap(), now); json!({"k": key(k.unwrap()), "rc": mw.cand(p.item_id, &p.d_transf)}) }
                        "bin" => { lay[g].as_mut().unwrap().change_bin(mw.ws[u("b") - 1].bin.clone()); json!({}) }
                        "snap" => { let s = lay[g].as_mut().unwrap().create_snapshot(); let d = mw.dump_snap(&s); snaps[u("s") - 1] = Some(s); json!({"sd": d}) }
                        "restore" => { lay[g].as_mut().unwrap().restore(snaps[u("s") - 1].as_ref().unwrap()); json!({}) }
                        "from" => { lay[g] = Some(Layout::from_snapshot(snaps[u("s") - 1].as_ref().unwrap())); json!({}) }
                        "clone" => { lay[u("f") - 1] = Some(lay[g].as_ref().unwrap().clone_with_id(u("id"))); json!({}) }
                        "flush" => { lay[g].as_mut().unwrap().flush_changes(); json!({}) }
                        _ => panic!("unknown op"),
                    })
                };
                ev["e"] = json!("op"); ev["ok"] = json!(res.is_ok() as i64);
                if let Ok(Value::Object(m)) = &res { for (k, v) in m { ev[k.as_str()] = v.clone(); } }
                b.push(ev);
                if res.is_err() { hot = true; break; }
                let target = if name == "clone" { u("f") - 1 } else { g };
                let mut ob = vec![target];
                if n % 4 == 3 && lay[1 - target].is_some() { ob.push(1 - target); }
                if name == "restore" || name == "from" { hot |= !same_layout(lay[g].as_ref().unwrap(), snaps[u("s") - 1].as_ref().unwrap()); }
                for g in ob {
                    let (mut v, h) = mw.dump(&mut r, lay[g].as_ref().unwrap(), true, ncells);
                    hot |= h; v["e"] = json!("obs"); v["g"] = json!(g + 1);
                    b.push(v);
                }
                if n % 6 == 5 { for (s, sn) in snaps.iter().enumerate() { if let Some(sn) = sn {
                    b.push(json!({"e": "snapobs", "s": s + 1, "sd": mw.dump_snap(sn)}));
                } } }
            }
            if hot || run < keep { out.push(hot, b); }
        }
        out
    });
    finish(args, out, json!({"ops": ops.into_inner(), "schedules_from_spec": scheds.len()}))
}

// ------------------------------------------------------------------------------------------------
pub fn sol_dump(mw: &MW, s: &Solution, inst: &Instance) -> Value {
    let json = guard(|| compose_json_solution(s, inst, std::time::Instant::now()));
    let (ju, jl) = match &json { Ok(j) => (ratio(j.usage), j.layouts.iter().map(|l| ratio(l.statistics.usage)).collect()), Err(_) => (-3, vec![]) };
    json!({"ls": s.layout_snapshots.iter().map(|l| mw.dump_snap(l)).collect::<Vec<_>>(), "us": ratio(s.usage),
        "placed": s.placed_item_qtys, "target": s.target_item_qtys, "stock": s.bin_qtys.iter().map(|q| qty(*q)).collect::<Vec<_>>(),
        "compl": guard(|| ratio(s.completeness(inst))).unwrap_or(-2), "full": guard(|| s.is_complete(inst) as i64).unwrap_or(-2),
        "miss": guard(|| s.missing_item_qtys(inst)).unwrap_or_default(), "n": guard(|| s.n_items_placed() as i64).unwrap_or(-2), "ju": ju, "jl": jl})
}
fn state(mw: &MW, r: &mut Rng, p: &mut Problem, engine: &dyn Fn(&Layout) -> bool, ncells: usize) -> (Value, bool) {
    // the same through the general interface and the specific one
    if r.chance(0.5) { return state_of(mw, r, p, engine, ncells); }
    match p { Problem::BP(b) => state_of(mw, r, b, engine, ncells), Problem::SP(s) => state_of(mw, r, s, engine, ncells) }
}
fn state_of<P: ProblemGeneric>(mw: &MW, r: &mut Rng, p: &mut P, engine: &dyn Fn(&Layout) -> bool, ncells: usize) -> (Value, bool) {
    let mut hot = false;
    let ls: Vec<Value> = p.layouts().iter().map(|l| { let (v, h) = mw.dump(r, l, engine(l), ncells); hot |= h; v }).collect();
    let v = json!({"ls": ls, "miss": p.missing_item_qtys(), "stock": p.bin_qtys().iter().map(|q| qty(*q)).collect::<Vec<_>>(),
        "placed": guard(|| p.placed_item_qtys().collect::<Vec<_>>()).map(|v| v.iter().map(|x| qty(*x)).collect::<Vec<_>>()).unwrap_or_default(),
        "us": guard(|| ratio(p.usage())).unwrap_or(-2), "cost": guard(|| p.used_bin_cost() as i64).unwrap_or(-2),
        "idx": p.layout_indices().count(),
        "tmpl": p.template_layout_indices_with_stock().map(|i| { let l = p.get_layout(i); if l.is_empty() { l.bin.id as i64 + 1 } else { 0 } }).collect::<Vec<_>>()});
    (v, hot)
}

fn inner(p: &mut Problem) -> &mut BPProblem { match p { Problem::BP(b) => b, _ => unreachable!() } }

/// the layout holds exactly what the snapshot holds
pub fn same_layout(l: &Layout, s: &LayoutSnapshot) -> bool {
    l.bin.id == s.bin.id && l.placed_items().len() == s.placed_items.len()
        && s.placed_items.iter().all(|(k, p)| l.placed_items().get(k).is_some_and(|q| q.item_id == p.item_id && q.d_transf == p.d_transf))
}
fn same_solution(p: &Problem, s: &Solution) -> bool {
    p.layouts().len() == s.layout_snapshots.len() && p.bin_qtys() == s.bin_qtys
        && s.layout_snapshots.iter().all(|sl| p.layouts().iter().any(|l| l.id() == sl.id && same_layout(l, sl)))
}

fn bp_op(r: &mut Rng, nc: usize, nb: usize, fresh: f64, l: usize) -> Value {
    match r.us(0, 11) {
        0..=5 => if r.chance(fresh) { json!({"o": "open", "b": r.us(1, nb), "i": r.us(1, nc)}) } else { json!({"o": "place", "l": l, "i": r.us(1, nc)}) },
        6..=9 => json!({"o": "remove", "l": l, "i": r.us(1, nc), "now": r.chance(0.4) as i64}),
        10 => json!({"o": "rml", "l": l}),
        _ => json!({"o": "regl", "l": l, "keep": r.chance(0.3) as i64}),
    }
}
fn rand_bp_sched(r: &mut Rng, nc: usize, nb: usize, len: usize) -> Vec<Value> {
    let fresh = *r.pick(&[0.15, 0.4]);
    let mut v = vec![];
    if r.chance(0.5) {
        // episodes: a solution, a few changes concentrated on one layout, back to the solution
        for _ in 0..r.us(1, 8) { let l = r.us(1, 6); v.push(bp_op(r, nc, nb, 0.5, l)); }
        while v.len() < len {
            let s = r.us(1, 3);
            v.push(json!({"o": "sol", "s": s, "old": r.chance(0.5) as i64}));
            let l = r.us(1, 6);
            for _ in 0..r.us(0, 6) { let x = if r.chance(0.8) { l } else { r.us(1, 6) }; v.push(bp_op(r, nc, nb, 0.1, x)); }
            match r.us(0, 5) {
                0 => { v.push(json!({"o": "rml", "l": l})); }
                1 => { v.push(json!({"o": "flush"})); }
                2 => { let (i, j) = (r.us(1, nc), r.us(1, nc)); v.push(json!({"o": "place", "l": l, "i": i})); v.push(json!({"o": "remove", "l": l, "i": j, "now": r.chance(0.4) as i64})); v.push(json!({"o": "rml", "l": l})); }
                _ => {}
            }
            for _ in 0..r.us(1, 2) { v.push(json!({"o": "restore", "s": if r.chance(0.8) { s } else { r.us(1, 3) }})); }
        }
        return v;
    }
    for _ in 0..len {
        let l = r.us(1, 6);
        v.push(match r.us(0, 15) {
            0..=10 => bp_op(r, nc, nb, fresh, l),
            11 | 12 => json!({"o": "sol", "s": r.us(1, 3), "old": r.chance(0.6) as i64}),
            13 | 14 => json!({"o": "restore", "s": r.us(1, 3)}),
            _ => json!({"o": "flush"}),
        });
    }
    v
}

/// C08, C09, C19. Layouts are addressed by their rank among the open ones (modulo their number);
/// operations that are not enabled are skipped.
pub fn bp(args: &Args) -> R {
    let scheds = read_scheds(args);
    let runs = args.n("runs", 50);
    let eng = args.n("eng", 0) == 1;
    let keep = args.n("keep", 1_000_000);
    let ops = AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC08, |t, mut r| {
        let mut out = Out::new();
        for run in 0..runs {
            regime(&mut r);
            let big = r.chance(0.1);
            let nb = r.us(1, if big { 6 } else { 3 });
            let grid = if eng { 0.4 } else { 0.1 };
            let mw = match MW::random(&mut r, nb, 2, if big { 12 } else { 7 }, grid, None) { Ok(Some(m)) => m, Ok(None) => continue, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            let sched = if !scheds.is_empty() && run % 2 == 0 { scheds[(t + 8 * (run / 2)) % scheds.len()].clone() }
                else { let len = if big { r.us(50, 120) } else { r.us(10, 50) }; rand_bp_sched(&mut r, mw.nc(), nb, len) };
            let dem: Vec<usize> = mw.w().items.iter().map(|_| r.us(1, 5)).collect();
            let stock: Vec<usize> = mw.ws.iter().map(|_| if r.chance(0.2) { usize::MAX } else { r.us(1, 5) }).collect();
            let inst = BPInstance::new(mw.w().items.iter().cloned().zip(dem.iter().copied()).collect(), mw.ws.iter().map(|w| w.bin.clone()).zip(stock.iter().copied()).collect());
            let ginst = Instance::BP(inst.clone());
            let mut p: Problem = BPProblem::new(inst).into();
            let mut bg = mw.begin();
            bg["dem"] = json!(dem); bg["sup"] = json!(stock.iter().map(|q| qty(*q)).collect::<Vec<_>>());
            bg["iarea"] = json!(guard(|| ratio(ginst.item_area() / (100.0 * unit() * unit()) as fsize)).unwrap_or(-2));
            bg["tot"] = json!(ginst.total_item_qty());
            let (s0, _) = state(&mw, &mut r, &mut p, &|_| eng, 1);
            bg["st"] = s0;
            let mut b = vec![bg];
            let mut sols: Vec<Option<Solution>> = vec![None, None, None];
            let mut refsol: Option<Solution> = None;
            let mut hot = false;
            let mut next_id = 1000;
            for (n, op) in sched.iter().enumerate() {
                let u = |k: &str| op[k].as_u64().unwrap_or(0) as usize;
                let name = op["o"].as_str().unwrap();
                let (i, now) = (u("i"), u("now") == 1);
                if i > mw.nc() { continue; }
                let nl = p.layouts().len();
                let needs = ["place", "remove", "rml", "regl"].contains(&name);
                if needs && nl == 0 { continue; }
                // ranks by layout id: independent of the order in which the problem keeps them
                let li = if needs {
                    let mut ids: Vec<(usize, usize)> = p.layouts().iter().enumerate().map(|(x, l)| (l.id(), x)).collect();
                    ids.sort();
                    ids[(u("l") - 1) % nl].1
                } else { 0 };
                let mut ev = op.clone();
                if needs { ev["l"] = json!(p.layouts()[li].id()); }
                let k = if name == "remove" || name == "place" { key_of(&mw, &p.layouts()[li], i) } else { None };
                match name {
                    "place" if k.is_some() => continue,
                    "remove" if k.is_none() => continue,
                    "open" if u("b") > nb || p.bin_qtys()[u("b") - 1] == 0 => continue,
                    "regl" if p.bin_qtys()[p.layouts()[li].bin.id] == 0 && u("keep") == 0 => continue,
                    "restore" if sols[u("s") - 1].is_none() => continue,
                    "sol" if u("old") == 1 && refsol.is_none() => { ev["old"] = json!(0); }
                    _ => {}
                }
                let old = ev["old"].as_u64() == Some(1);
                if name == "regl" { ev["id"] = if u("keep") == 1 { ev["l"].clone() } else { next_id += 1; json!(next_id) }; }
                ops.fetch_add(1, Ordering::Relaxed);
                let res: Result<Value, String> = {
                    let (mw, p, sols, refsol, ginst) = (&mw, &mut p, &mut sols, &mut refsol, &ginst);
                    guard(move || match name {
                        "open" | "place" => {
                            let idx = if name == "open" { LayoutIndex::Template(u("b") - 1) } else { LayoutIndex::Real(li) };
                            let (x, k) = p.place_item(PlacingOption { layout_idx: idx, item_id: mw.item(i), d_transf: mw.dt(i) });
                            let real = matches!(x, LayoutIndex::Real(_)) as i64;
                            json!({"rl": p.get_layout(x).id(), "k": key(k), "real": real, "here": p.get_layout(x).placed_items().contains_key(k) as i64})
                        }
                        "remove" => { let o = p.remove_item(LayoutIndex::Real(li), k.unwrap(), now); json!({"k": key(k.unwrap()), "rc": mw.cand(o.item_id, &o.d_transf)}) }
                        "rml" => { inner(p).remove_layout(LayoutIndex::Real(li)); json!({}) }
                        "regl" => {
                            // the same layout taken out and put back, or a copy of it under another identity
                            let l = p.layouts()[li].clone();
                            if u("keep") == 1 { inner(p).remove_layout(LayoutIndex::Real(li)); let x = inner(p).register_layout(l); json!({"rl": p.get_layout(x).id()}) }
                            else { let x = inner(p).register_layout(l.clone_with_id(next_id)); json!({"rl": p.get_layout(x).id()}) }
                        }
                        "sol" => {
                            let s = if old { p.create_solution(refsol.as_ref()) } else { p.create_solution(None) };
                            let d = sol_dump(mw, &s, ginst);
                            *refsol = Some(s.clone()); sols[u("s") - 1] = Some(s);
                            json!({"sd": d})
                        }
                        "restore" => { let s = sols[u("s") - 1].clone().unwrap(); p.restore_to_solution(&s); *refsol = Some(s); json!({}) }
                        "flush" => { p.flush_changes(); json!({}) }
                        _ => panic!("unknown op"),
                    })
                };
                ev["e"] = json!("op"); ev["ok"] = json!(res.is_ok() as i64);
                if let Ok(Value::Object(m)) = &res { for (k, v) in m { ev[k.as_str()] = v.clone(); } }
                if res.is_err() { b.push(ev); hot = true; break; }
                let all = name == "restore" || n % 7 == 6;
                let tid = ev["rl"].as_u64().or(ev["l"].as_u64()).unwrap_or(0) as usize;
                let (st, h) = state(&mw, &mut r, &mut p, &|l| eng && (all || l.id() == tid), 1);
                hot |= h || (name == "restore" && !same_solution(&p, sols[u("s") - 1].as_ref().unwrap()));
                ev["st"] = st;
                b.push(ev);
                if n % 6 == 5 || name == "restore" { for (s, sn) in sols.iter().enumerate() { if let Some(sn) = sn {
                    b.push(json!({"e": "solobs", "s": s + 1, "sd": sol_dump(&mw, sn, &ginst)}));
                } } }
            }
            if hot || run < keep { out.push(hot, b); }
        }
        out
    });
    finish(args, out, json!({"ops": ops.into_inner(), "schedules_from_spec": scheds.len()}))
}

#[allow(dead_code)]
pub fn poles(w: &World) -> Vec<Vec<Value>> { (0..w.placed.len()).map(|j| poles_of(w, j)).collect() }
