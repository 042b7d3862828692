//! Histories of an engine (C02, C06) and of a layout (C11): operations replayed on the real code,
//! observations recorded after each of them.
use crate::gen;
use crate::geo::{finish, query_place};
use crate::igeo::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use crate::Args;
use jagua_rs::collision_detection::cd_engine::{CDESnapshot, CDEngine};
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::item::Item;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use serde_json::{json, Value};

type R = Result<(), String>;

pub fn fx(v: fsize, s: f64) -> i64 { let x = v as f64 / unit() * s; if x.is_finite() { (x.round() as i64).clamp(-1_000_000, 1_000_000) } else { 1_000_000 } }

pub fn read_scheds(args: &Args) -> Vec<Vec<Value>> {
    match args.kv.get("sched") {
        None => vec![],
        Some(p) => std::fs::read_to_string(p).expect("schedule file").lines()
            .map(|l| serde_json::from_str::<Vec<Value>>(l).expect("schedule")).collect(),
    }
}

/// poles of candidate j, moved by the harness' own arithmetic
pub fn poles_of(w: &World, j: usize) -> Vec<Value> {
    let pl = &w.placed[j];
    let (sn, cs) = pl.place.rot.sin_cos();
    let s = w.scale as f64;
    w.items[pl.shape].shape.surrogate().poles.iter().map(|c| {
        let (x, y) = (c.center.0 as f64 / unit(), c.center.1 as f64 / unit());
        json!([((x * cs - y * sn + pl.place.tx) * s).round() as i64, ((x * sn + y * cs + pl.place.ty) * s).round() as i64, (c.radius as f64 / unit() * s).round() as i64])
    }).collect()
}

pub fn begin(w: &World, bins: &[&World], probes: &[Poly]) -> Value {
    let hz = |b: &World| -> Vec<Value> { (0..b.n_static).map(|i| json!({"t": kind(&b.ents[i]), "q": quality(&b.ents[i]), "p": jpoly(&b.polys[i])})).collect() };
    json!({"e": "begin", "s": w.scale, "k": w.k, "x": w.x as i64, "u": unit().to_string(), "d": w.cfg.quadtree_depth, "g": w.cfg.hpg_n_cells,
        "bins": bins.iter().map(|b| hz(b)).collect::<Vec<_>>(),
        "cands": (0..w.placed.len()).map(|j| json!({"p": jpoly(&w.polys[w.n_static + j]), "it": w.placed[j].shape})).collect::<Vec<_>>(),
        "poles": (0..w.placed.len()).map(|j| poles_of(w, j)).collect::<Vec<_>>(),
        "pr": probes.iter().map(|p| jpoly(p)).collect::<Vec<_>>()})
}

/// hazard number as in HistGeo: static j of the container, or 100 + candidate
pub fn hz_no(w: &World, bin: &World, e: &HazardEntity) -> i64 {
    if let Some(i) = bin.ents[..bin.n_static].iter().position(|x| x == e) { return i as i64 + 1; }
    if let Some(i) = w.ents[w.n_static..].iter().position(|x| x == e) { return 101 + i as i64; }
    0
}

pub fn probes(r: &mut Rng, w: &World, n: usize) -> Vec<(Poly, SimplePolygon)> {
    let mut v = vec![];
    for _ in 0..n {
        let si = r.us(0, w.base.len() - 1);
        let pl = query_place(r, w, &w.base[si]);
        if let Ok(s) = guard(|| w.items[si].shape.transform_clone(&pl.dt().compose())) { v.push((pl.apply(&w.base[si], w.scale), s)); }
    }
    // large ones, that see most hazards at once
    let ob = bbox(&w.outer);
    let p: Poly = vec![(ob.0 - 1, ob.1 - 1), (ob.2 + 1, ob.1 - 2), (ob.2 + 2, ob.3 + 1), (ob.0 - 2, ob.3 + 2)];
    v.push((scaled(&p, w.scale), sp(&p)));
    let p: Poly = gen::shift(&[(1, 1), (ob.2 - ob.0 - 1, 1), (ob.2 - ob.0 - 1, ob.3 - ob.1 - 1), (1, ob.3 - ob.1 - 1)], ob.0, ob.1);
    if ob.2 - ob.0 > 3 && ob.3 - ob.1 > 3 { v.push((scaled(&p, w.scale), sp(&p))); }
    v
}

/// triage: which cells of the grid differ from a grid computed from scratch
pub fn odd_cells(e: &CDEngine, base: &CDEngine) -> Vec<usize> {
    let (a, b) = match (guard(|| e.haz_prox_grid().ok()), guard(|| base.haz_prox_grid().ok())) { (Ok(Some(a)), Ok(Some(b))) => (a, b), _ => return vec![] };
    if a.grid.cells.len() != b.grid.cells.len() { return vec![]; }
    (0..a.grid.cells.len()).filter(|i| match (&a.grid.cells[*i], &b.grid.cells[*i]) {
        (Some(x), Some(y)) => {
            let mut d = y.uni_prox.0 as f64;
            for h in e.dynamic_hazards() { for p in &h.shape.surrogate().poles {
                let (dx, dy) = (p.center.0 as f64 - x.centroid.0 as f64, p.center.1 as f64 - x.centroid.1 as f64);
                d = d.min(((dx * dx + dy * dy).sqrt() - p.radius as f64).max(0.0));
            } }
            (x.uni_prox.0 as f64 - d).abs() > 0.05 * unit()
        }
        (None, None) => false,
        _ => true,
    }).collect()
}

pub fn observe(r: &mut Rng, w: &World, bin: &World, e: &CDEngine, fresh: Option<&CDEngine>, pr: &[(Poly, SimplePolygon)], ncells: usize, what: Value, s: f64) -> (Value, bool) {
    let mut hot = false;
    let mut col: Vec<Vec<i64>> = vec![];
    let mut pc: Vec<i64> = vec![];
    let mut ok = 1;
    for (_, p) in pr {
        match guard(|| { let mut b = vec![]; e.collect_poly_collisions(p, &[], &mut b); (b, e.poly_collides(p, &[])) }) {
            Ok((b, y)) => { col.push(b.iter().map(|x| hz_no(w, bin, x)).collect()); pc.push(y as i64); }
            Err(_) => { ok = 0; hot = true; }
        }
    }
    let dynn: Vec<i64> = e.dynamic_hazards().iter().map(|h| hz_no(w, bin, &h.entity) - 100).collect();
    let mut grid = vec![];
    let rd = if e.config().hpg_n_cells == 0 { -1 } else {
        match guard(|| e.haz_prox_grid().map_err(|_| ())) {
            Err(_) => { ok = 0; hot = true; 0 }
            Ok(Err(_)) => 0,
            Ok(Ok(g)) => {
                let odd = fresh.map_or(vec![], |f| odd_cells(e, f));
                if !odd.is_empty() { hot = true; }
                let some: Vec<usize> = (0..g.grid.cells.len()).filter(|i| g.grid.cells[*i].is_some()).collect();
                for k in 0..ncells.min(some.len()) {
                    let i = if k < 2 && !odd.is_empty() { odd[r.us(0, odd.len() - 1)] } else { some[r.us(0, some.len() - 1)] };
                    if let Some(c) = &g.grid.cells[i] {
                        let q = if r.chance(0.6) { -1 } else { r.int(0, 10) };
                        let d = guard(|| c.hazard_proximity(if q < 0 { None } else { Some(q as usize) })).unwrap_or(-1.0);
                        grid.push(json!([fx(c.centroid.0, s), fx(c.centroid.1, s), q, fx(d, s)]));
                    }
                }
                1
            }
        }
    };
    let mut v = json!({"e": "obs", "ok": ok, "dyn": dynn, "stat": e.static_hazards().len(), "unc": e.has_uncommitted_deregisters() as i64,
        "cls": (e.all_hazards().count() == e.static_hazards().len() + e.dynamic_hazards().len() && e.static_hazards().iter().all(|h| !h.entity.is_dynamic())
            && e.dynamic_hazards().iter().all(|h| h.entity.is_dynamic())) as i64, "col": col, "pc": pc, "rd": rd, "grid": grid});
    for (k, x) in what.as_object().unwrap() { v[k] = x.clone(); }
    (v, hot)
}

/// the same questions put to the engine and to one that is freshly built with the hazards it reports: pairs of answers
fn twin(r: &mut Rng, w: &World, e: &CDEngine, g: usize, n: usize) -> (Value, bool) {
    let have: Vec<usize> = { let mut v: Vec<usize> = e.dynamic_hazards().iter().filter_map(|h| w.ents[w.n_static..].iter().position(|x| *x == h.entity)).collect(); for i in 0..v.len() { let j = r.us(0, i); v.swap(i, j); } v };
    let f = match guard(|| { let mut f = w.bin.base_cde.as_ref().clone(); for j in &have { f.register_hazard(w.hazard(*j)); } f }) { Ok(f) => f, Err(_) => return (json!({"e": "twin", "g": g, "ok": 0, "has": [], "an": []}), true) };
    let b = e.bbox().clone();
    let m = 0.05 * (b.x_max - b.x_min);
    let tb = |t: tribool::Tribool| -> i64 { match t { tribool::Tribool::True => 1, tribool::Tribool::False => 0, tribool::Tribool::Indeterminate => 2 } };
    let mut an = vec![];
    let mut hot = false;
    let mut ok = 1;
    for k in 0..n {
        let mut pt = |r: &mut Rng| {
            // anywhere, or close to a vertex of a hazard or inside one
            let v: Vec<&SimplePolygon> = f.all_hazards().map(|h| h.shape.as_ref()).collect();
            match r.us(0, 3) {
                0 => Point(b.x_min - m + (b.x_max - b.x_min + 2.0 * m) * r.f() as fsize, b.y_min - m + (b.y_max - b.y_min + 2.0 * m) * r.f() as fsize),
                1 => { let s = v[r.us(0, v.len() - 1)]; let c = s.poi.center; let d = s.poi.radius; Point(c.0 + d * (r.f() as fsize - 0.5), c.1 + d * (r.f() as fsize - 0.5)) }
                _ => { let s = v[r.us(0, v.len() - 1)]; let c = s.get_point(r.us(0, s.number_of_points() - 1)); Point(c.0 + m * (r.f() as fsize - 0.5), c.1 + m * (r.f() as fsize - 0.5)) }
            }
        };
        let all: Vec<HazardEntity> = f.all_hazards().map(|h| h.entity).collect();
        let ig: Vec<HazardEntity> = if r.chance(0.6) { vec![] } else { all.iter().filter(|_| r.chance(0.4)).cloned().collect() };
        let ent = *r.pick(&all);
        let (a, c, rad) = (pt(r), pt(r), m * r.f() as fsize * 3.0 + 1e-3 * m);
        let near = r.chance(0.5);
        let c = if near { Point(a.0 + m * (r.f() as fsize - 0.4), a.1 + m * (r.f() as fsize - 0.4)) } else { c };
        let si = r.us(0, w.items.len() - 1);
        let pl = query_place(r, w, &w.base[si]).dt().compose();
        let ask = |x: &CDEngine| -> Result<Vec<i64>, String> { guard(|| {
            let set = |v: Vec<HazardEntity>| { let mut v: Vec<i64> = v.iter().map(|y| hz_no(w, w, y)).collect(); v.sort(); v };
            let mut v = vec![];
            match k % 8 {
                0 => vec![tb(x.point_definitely_collides_with(&a, ent))],
                1 => vec![tb(x.edge_definitely_collides(&Edge::new(a, c), &ig))],
                2 => vec![tb(x.circle_definitely_collides(&Circle::new(a, rad), &ig))],
                3 => { x.hazards_within(&Edge::new(a, c), &ig, &mut v); set(v) }
                4 => { x.hazards_within(&Circle::new(a, rad), &ig, &mut v); set(v) }
                5 => { x.hazards_within(&AARectangle::new(a.0, a.1, a.0 + rad, a.1 + rad * 0.7), &ig, &mut v); set(v) }
                6 => { x.collect_surrogate_collisions(w.items[si].shape.surrogate(), &pl, &ig, &mut v); set(v) }
                _ => vec![x.surrogate_collides(w.items[si].shape.surrogate(), &pl, &ig) as i64],
            }
        }) };
        match (ask(e), ask(&f)) {
            (Ok(x), Ok(y)) => { hot |= x != y; an.push(json!([x, y])); }
            _ => { ok = 0; hot = true; }
        }
    }
    (json!({"e": "twin", "g": g, "ok": ok, "has": have.iter().map(|j| j + 1).collect::<Vec<_>>(), "an": an}), hot)
}

fn rand_sched(r: &mut Rng, nh: usize, len: usize) -> Vec<Value> {
    // legal random schedule, biased towards deferred removals and restores
    let mut eng: Vec<Option<Vec<usize>>> = vec![Some(vec![]), None];
    let mut snap: Vec<Option<Vec<usize>>> = vec![None, None, None];
    let mut v = vec![];
    while v.len() < len {
        let g = if eng[1].is_some() && r.chance(0.3) { 1 } else { 0 };
        let on = eng[g].clone().unwrap();
        match r.us(0, 11) {
            0..=3 => { let i = r.us(1, nh); if !on.contains(&i) { eng[g].as_mut().unwrap().push(i); v.push(json!({"o": "reg", "g": g + 1, "i": i})); } }
            4..=6 => if !on.is_empty() { let i = *r.pick(&on); eng[g].as_mut().unwrap().retain(|x| *x != i); v.push(json!({"o": "dereg", "g": g + 1, "i": i, "now": r.chance(0.3) as i64})); },
            7 => v.push(json!({"o": "commit", "g": g + 1})),
            8 => v.push(json!({"o": "flush", "g": g + 1})),
            9 => { let s = r.us(0, 2); snap[s] = Some(on); v.push(json!({"o": "snap", "g": g + 1, "s": s + 1})); }
            10 => { let s = r.us(0, 2); if let Some(x) = &snap[s] { eng[g] = Some(x.clone()); v.push(json!({"o": "restore", "g": g + 1, "s": s + 1})); } }
            _ => if r.chance(0.3) { let f = 1 - g; eng[f] = Some(on); v.push(json!({"o": "copy", "g": g + 1, "f": f + 1})); },
        }
    }
    v
}

/// C02 / C06
pub fn engine(args: &Args) -> R {
    let scheds = read_scheds(args);
    let runs = args.n("runs", 50);
    let ncells = args.n("cells", 3);
    let grid = args.n("grid", 50) as f64 / 100.0;
    let acc = args.n("acc", 0);
    let keep = args.n("keep", 1_000_000);
    let tw = args.n("twin", 24);
    let obs_every = args.n("obs", 1);
    let ops = std::sync::atomic::AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC02, |t, mut r| {
        let mut out = Out::new();
        for run in 0..runs {
            regime(&mut r);
            let scale = if r.chance(0.6) { 1 } else { 64 };
            let mut o = WOpts { scale, size: *r.pick(&[12, 20, 28]), max_items: if r.chance(0.1) { 16 } else { 7 }, grid: false, piers: false, zones: r.chance(0.4), shapes: r.us(2, 4), exact: r.chance(0.3), fine: 64 };
            o.grid = r.chance(grid);
            let mut c = cfg(&mut r, o.grid, false);
            if o.grid { c.hpg_n_cells = *r.pick(&[1usize, 5, 20, 60, 150, 300]); if acc > 0 { c.hpg_n_cells = *r.pick(&[60, 200, 500, 900]); } }
            if c.item_surrogate_config.max_poles == 0 { c.item_surrogate_config.max_poles = r.us(1, 6); }
            // many candidates
            let w = {
                let mut best = None;
                for _ in 0..6 { match World::random_cfg(&mut r, &o, c) {
                    Ok(w) => { let n = w.placed.len(); if best.as_ref().map_or(true, |b: &World| b.placed.len() < n) { best = Some(w); } if n >= 4 { break; } }
                    Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); }
                } }
                match best { Some(w) if w.placed.len() >= 2 => w, _ => continue }
            };
            let nh = w.placed.len();
            let sched: Vec<Value> = if !scheds.is_empty() && run % 2 == 0 {
                scheds[(t + 8 * (run / 2)) % scheds.len()].clone()
            } else { let len = if r.chance(0.1) { r.us(60, 120) } else { r.us(10, 40) }; rand_sched(&mut r, nh, len) };
            let pr = probes(&mut r, &w, 3);
            let polys: Vec<Poly> = pr.iter().map(|p| p.0.clone()).collect();
            let mut b = vec![begin(&w, &[&w], &polys)];
            let mut hot = false;
            let mut eng: Vec<Option<CDEngine>> = vec![Some(w.bin.base_cde.as_ref().clone()), None];
            let mut snaps: Vec<Option<CDESnapshot>> = vec![None, None, None];
            let mut dead = false;
            // indices in a generated schedule may exceed the candidates of this world: skipped consistently
            let mut on: Vec<Vec<usize>> = vec![vec![]; 2];
            for (k, op) in sched.iter().enumerate() {
                let g = op["g"].as_u64().unwrap() as usize - 1;
                let name = op["o"].as_str().unwrap();
                let i = op["i"].as_u64().unwrap_or(0) as usize;
                if (name == "reg" || name == "dereg") && i > nh { continue; }
                let s = op["s"].as_u64().unwrap_or(1) as usize - 1;
                let f = op["f"].as_u64().unwrap_or(1) as usize - 1;
                let now = op["now"].as_u64().unwrap_or(0) == 1;
                ops.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let res = {
                    let w = &w; let eng = &mut eng; let snaps = &mut snaps;
                    guard(move || match name {
                        "reg" => eng[g].as_mut().unwrap().register_hazard(w.hazard(i - 1)),
                        "dereg" => eng[g].as_mut().unwrap().deregister_hazard(w.ents[w.n_static + i - 1], now),
                        "commit" => eng[g].as_mut().unwrap().commit_deregisters(),
                        "flush" => eng[g].as_mut().unwrap().flush_haz_prox_grid(),
                        "snap" => snaps[s] = Some(eng[g].as_mut().unwrap().create_snapshot()),
                        "restore" => { let sn = snaps[s].clone().unwrap(); eng[g].as_mut().unwrap().restore(&sn) }
                        "copy" => eng[f] = eng[g].clone(),
                        _ => panic!("unknown op"),
                    })
                };
                match name { "reg" => on[g].push(i), "dereg" => on[g].retain(|x| *x != i), _ => {} }
                let mut ev = op.clone();
                ev["e"] = json!("op"); ev["ok"] = json!(res.is_ok() as i64);
                b.push(ev);
                if res.is_err() { hot = true; dead = true; break; }
                let target = if name == "copy" { f } else { g };
                if k % obs_every == 0 || k + 1 == sched.len() {
                    let e = eng[target].as_ref().unwrap();
                    let fr = if o.grid { Some(w.bin.base_cde.as_ref()) } else { None };
                    let (v, h) = observe(&mut r, &w, &w, e, fr, &pr, ncells, json!({"g": target + 1}), w.scale as f64);
                    hot |= h; b.push(v);
                    if tw > 0 && (k % 3 == 0 || name == "dereg" || name == "restore") { let (v, h) = twin(&mut r, &w, e, target + 1, tw); hot |= h; b.push(v); }
                }
                // the other engine must not have moved
                if k % 5 == 4 { let other = 1 - target; if let Some(e) = &eng[other] {
                    let (v, h) = observe(&mut r, &w, &w, e, None, &pr, 1, json!({"g": other + 1}), w.scale as f64);
                    hot |= h; b.push(v);
                } }
                if acc > 0 && o.grid && k % 6 == 5 { hot |= accomm(&mut r, &w, eng[target].as_ref().unwrap(), target + 1, acc, &mut b); }
            }
            if !dead && acc > 0 && o.grid { hot |= coverage(&mut r, &w, eng[0].as_ref().unwrap(), &mut b); }
            if hot || run < keep { out.push(hot, b); }
        }
        out
    });
    finish(args, out, json!({"ops": ops.into_inner(), "schedules_from_spec": scheds.len()}))
}

/// cells that are ruled out for an item: placements with the item's widest point in the cell
fn accomm(r: &mut Rng, w: &World, e: &CDEngine, g: usize, n: usize, b: &mut Vec<Value>) -> bool {
    let hpg = match guard(|| e.haz_prox_grid().ok()) { Ok(Some(h)) => h, _ => return false };
    let cells: Vec<_> = hpg.grid.cells.iter().flatten().collect();
    if cells.is_empty() { return false; }
    let mut hot = false;
    let mut logged = 0;
    for _ in 0..n * 60 {
        if logged >= n { break; }
        let si = r.us(0, w.base.len() - 1);
        let q: i64 = if r.chance(0.5) { -1 } else { r.int(0, 10) };
        let bq = if q < 0 { None } else { Some(q as usize) };
        let item = &w.items[si];
        let it = Item { base_quality: bq, ..item.clone() };
        // prefer cells at the edge of being ruled out
        let c = cells[r.us(0, cells.len() - 1)];
        let out = match guard(|| !c.could_accommodate_item(&it)) { Ok(o) => o, Err(_) => { b.push(json!({"e": "panic"})); return true } };
        if !out { continue; }
        let slack = c.hazard_proximity(bq) + c.radius;
        if item.shape.poi.radius > slack + unit() as fsize && r.chance(0.8) { continue; }
        for _ in 0..12 {
            let (u, v) = (match r.us(0, 2) { 0 => 0.01, 1 => 0.99, _ => r.f() }, match r.us(0, 2) { 0 => 0.01, 1 => 0.99, _ => r.f() });
            let px = (c.bbox.x_min as f64 + u * (c.bbox.x_max - c.bbox.x_min) as f64) / unit();
            let py = (c.bbox.y_min as f64 + v * (c.bbox.y_max - c.bbox.y_min) as f64) / unit();
            let rot = if r.chance(0.4) { r.int(0, 3) as f64 * std::f64::consts::FRAC_PI_2 } else { r.f() * std::f64::consts::TAU };
            let (sn, cs) = rot.sin_cos();
            let (x, y) = (item.shape.poi.center.0 as f64 / unit(), item.shape.poi.center.1 as f64 / unit());
            let pl = Place::free(rot, px - (x * cs - y * sn), py - (x * sn + y * cs));
            let pp = pl.apply(&w.base[si], w.scale);
            let free = (0..w.n_static).all(|i| (quality(&w.ents[i]) >= 0 && q >= 0 && quality(&w.ents[i]) >= q) || w.tri(i, &pp) == -1)
                && e.dynamic_hazards().iter().all(|h| w.ents.iter().position(|x| *x == h.entity).is_some_and(|i| overlap(&pp, &w.polys[i], 2) == -1));
            if free { hot = true; }
            if free || r.chance(0.03) { b.push(json!({"e": "acc", "g": g, "q": q, "p": jpoly(&pp)})); logged += 1; break; }
        }
    }
    hot
}
fn coverage(r: &mut Rng, w: &World, e: &CDEngine, b: &mut Vec<Value>) -> bool {
    let hpg = match guard(|| e.haz_prox_grid().ok()) { Ok(Some(h)) => h, _ => return false };
    let ob = bbox(&w.polys[0]);
    let s = w.scale as f64;
    let (mut hot, mut logged) = (false, 0);
    for n in 0..200 {
        let p = if n < 12 { (r.int(ob.0, ob.2), r.int(ob.1, ob.3)) } else {
            // close to the boundary of the container or of a hole
            let q = &w.polys[if r.chance(0.7) { 0 } else { r.us(0, w.holes.len()) }];
            let i = r.us(0, q.len() - 1);
            let (a, c, t) = (q[i], q[(i + 1) % q.len()], if r.chance(0.5) { 0 } else { r.int(0, 8) });
            let d = *r.pick(&[6, 12, 24, 48]);
            (a.0 + (c.0 - a.0) * t / 8 + r.int(-d, d), a.1 + (c.1 - a.1) * t / 8 + r.int(-d, d))
        };
        let (x, y) = (p.0 as f64 / s * unit(), p.1 as f64 / s * unit());
        let t = 1e-3 * unit();
        let inn = hpg.grid.cells.iter().flatten().any(|c| c.bbox.x_min as f64 - t <= x && x <= c.bbox.x_max as f64 + t && c.bbox.y_min as f64 - t <= y && y <= c.bbox.y_max as f64 + t);
        let sus = !inn && pin3(p, &w.polys[0], w.k + 2) == 1 && (1..=w.holes.len()).all(|j| pin3(p, &w.polys[j], w.k + 2) == -1);
        hot |= sus;
        if n < 12 || (sus && logged < 4) { b.push(json!({"e": "cov", "x": [p.0, p.1], "in": inn as i64})); logged += sus as i64; }
    }
    hot
}

#[allow(dead_code)]
pub fn plain_item(id: usize, p: &[P], w: &World) -> Item {
    Item::new(id, sp(p), AllowedRotation::Continuous, None, 0, Transformation::empty(), w.cfg.item_surrogate_config)
}
