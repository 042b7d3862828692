//! Histories of strip packing problems (C10, C19)
use crate::gen;
use crate::geo::finish;
use crate::hist::{begin, probes, read_scheds};
use crate::igeo::*;
use crate::prob::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use crate::Args;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::transformation::Transformation;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};

type R = Result<(), String>;

fn sc(v: fsize) -> i64 { (v as f64 / unit() * 64.0).round().clamp(-3e4, 3e4) as i64 }
fn rect(b: &AARectangle) -> Value { json!([sc(b.x_min), sc(b.y_min), sc(b.x_max), sc(b.y_max)]) }

fn state(mw: &MW, r: &mut Rng, p: &mut SPProblem, eng: bool) -> (Value, bool) {
    let (mut v, hot) = mw.dump(r, &p.layout, eng, 1);
    v["rect"] = rect(&p.layout.bin.outer.bbox());
    v["miss"] = json!(p.missing_item_qtys());
    v["placed"] = json!(guard(|| p.placed_item_qtys().collect::<Vec<_>>()).map(|v| v.iter().map(|x| qty(*x)).collect::<Vec<_>>()).unwrap_or_default());
    v["pus"] = json!(guard(|| ratio(p.usage())).unwrap_or(-2));
    v["sw"] = json!(sc(p.strip_width())); v["sh"] = json!(sc(p.strip_height()));
    v["occ"] = match p.occupied_range() { Some((a, b)) => json!([sc(a), sc(b), sc(p.occupied_width())]), None => json!([]) };
    // the general interface says the same
    let g: Problem = p.clone().into();
    v["gen"] = json!((g.missing_item_qtys() == p.missing_item_qtys() && g.layouts().len() == p.layouts().len() && g.template_layouts().is_empty() && p.template_layouts().is_empty()
        && g.template_layout_indices_with_stock().count() == 0 && g.placed_item_qtys().eq(p.placed_item_qtys()) && g.bin_qtys() == p.bin_qtys()
        && g.layouts()[0].placed_items().len() == p.layout.placed_items().len() && g.instance().items().len() == p.missing_item_qtys().len()) as i64);
    v["nl"] = json!(p.layouts().len());
    (v, hot)
}
fn sol(mw: &MW, s: &Solution, inst: &Instance) -> Value {
    let mut d = sol_dump(mw, s, inst);
    d["rect"] = s.layout_snapshots.first().map_or(json!([]), |l| rect(&l.bin.outer.bbox()));
    d
}
fn key_of(mw: &MW, p: &SPProblem, c: usize) -> Option<PItemKey> {
    p.layout.placed_items().iter().find(|(_, x)| mw.cand(x.item_id, &x.d_transf) == c as i64).map(|(k, _)| k)
}
/// within the (square) bounds of the current strip
fn reachable(mw: &MW, p: &SPProblem, c: usize) -> bool {
    let w = mw.w();
    let b = bbox(&w.polys[w.n_static + c - 1]);
    let q = p.layout.bin.outer.bbox().inflate_to_square();
    let t = 3;
    b.0 - t >= sc(q.x_min) && b.1 - t >= sc(q.y_min) && b.2 + t <= sc(q.x_max) && b.3 + t <= sc(q.y_max)
}
fn inside(mw: &MW, p: &SPProblem, c: usize) -> bool {
    let w = mw.w();
    let b = bbox(&w.polys[w.n_static + c - 1]);
    let q = p.layout.bin.outer.bbox();
    b.0 - 3 >= sc(q.x_min) && b.1 - 3 >= sc(q.y_min) && b.2 + 3 <= sc(q.x_max) && b.3 + 3 <= sc(q.y_max)
}
fn upright(mw: &MW, p: &SPProblem) -> bool {
    let q = p.layout.bin.outer.bbox();
    p.layout.placed_items().values().all(|x| { let c = mw.cand(x.item_id, &x.d_transf); if c == 0 { return true; }
        let b = bbox(&mw.w().polys[mw.w().n_static + c as usize - 1]); b.1 - 3 >= sc(q.y_min) && b.3 + 3 <= sc(q.y_max) })
}
fn back(g: Problem) -> SPProblem { match g { Problem::SP(s) => s, _ => unreachable!() } }
fn rand_sched(r: &mut Rng, nc: usize, len: usize) -> Vec<Value> {
    (0..len).map(|_| match r.us(0, 16) {
        0..=5 => json!({"o": "place", "i": r.us(1, nc)}),
        6 | 7 => json!({"o": "remove", "i": r.us(1, nc), "now": r.chance(0.4) as i64}),
        8 => json!({"o": "back", "w": r.us(1, 8)}),
        9 => json!({"o": "front", "w": r.us(1, 8)}),
        10 => json!({"o": "center", "w": r.us(1, 8)}),
        11 => json!({"o": "rect"}),
        12 => json!({"o": "fit"}),
        13 => json!({"o": "sol", "s": r.us(1, 3)}),
        14 | 15 => json!({"o": "restore", "s": r.us(1, 3)}),
        _ => json!({"o": "foreign", "s": r.us(1, 3)}),
    }).collect()
}

pub fn strip(args: &Args) -> R {
    let scheds = read_scheds(args);
    let runs = args.n("runs", 50);
    let keep = args.n("keep", 1_000_000);
    let eng = args.n("eng", 1) == 1;
    let ops = AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC10, |t, mut r| {
        let mut out = Out::new();
        for run in 0..runs {
            regime(&mut r);
            let un = unit() as fsize;
            let g = r.chance(0.3);
            let mut c = cfg(&mut r, g, false);
            if g { c.hpg_n_cells = *r.pick(&[5usize, 20, 60]); }
            if c.item_surrogate_config.max_poles == 0 { c.item_surrogate_config.max_poles = r.us(1, 6); }
            let h = r.int(5, 16);
            let wide = r.int(20, 80);
            let lattice = r.chance(0.5);
            let o = WOpts { scale: if lattice { 1 } else { 64 }, size: 16, max_items: 14, grid: g, piers: false, zones: false, shapes: 3, exact: r.chance(0.3), fine: 64 };
            let base: Vec<Poly> = (0..3).map(|_| { let (a, b) = (r.int(1, 10), r.int(1, h)); let p = gen::poly(&mut r, a, b); if r.chance(0.5) { gen::centered(&p) } else { p } }).collect();
            let items: Result<Vec<Item>, String> = guard(|| base.iter().enumerate().map(|(i, p)| Item::new(i, sp(p), AllowedRotation::Continuous, None, 0, Transformation::empty(), c.item_surrogate_config)).collect());
            let items = match items { Ok(i) => i, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            // candidates anywhere around a long strip; kept as a world whose container is the long strip
            let x0 = if r.chance(0.5) { 0 } else { -wide / 2 };
            let outer = vec![(x0, 0), (x0 + wide, 0), (x0 + wide, h), (x0, h)];
            let w = match World::build(&mut r, &o, c, outer, vec![], vec![], base, items, 64) { Ok(w) => w, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            if w.placed.len() < 4 { continue; }
            let mut w = w; w.k = 2; w.x = false;
            let pr = probes(&mut r, &w, 3);
            let mw = MW { ws: vec![w], pr };
            let polys: Vec<Poly> = mw.pr.iter().map(|p| p.0.clone()).collect();
            let mut bg = begin(mw.w(), &[mw.w()], &polys);
            bg["ia"] = json!(mw.w().base.iter().map(|p| jpoly(p)).collect::<Vec<_>>());
            let dem: Vec<usize> = (0..3).map(|_| r.us(1, 4)).collect();
            let inst = SPInstance::new(mw.w().items.iter().cloned().zip(dem.iter().copied()).collect(), h as fsize * un);
            let ginst = Instance::SP(inst.clone());
            let w0 = if r.chance(0.6) { wide as fsize } else { r.int(3, 40) as fsize } * un;
            let mut p = match guard(|| SPProblem::new(inst.clone(), w0, c)) { Ok(p) => p, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            bg["dem"] = json!(dem); bg["h"] = json!(h); bg["w0"] = json!(sc(w0));
            bg["st"] = state(&mw, &mut r, &mut p, eng).0;
            let sched = if !scheds.is_empty() && run % 2 == 0 { scheds[(t + 8 * (run / 2)) % scheds.len()].clone() }
                else { let len = if r.chance(0.1) { r.us(50, 100) } else { r.us(10, 40) }; rand_sched(&mut r, mw.nc(), len) };
            let mut b = vec![bg];
            let mut sols: Vec<Option<Solution>> = vec![None, None, None];
            let mut hot = false;
            for (n, op) in sched.iter().enumerate() {
                // resizing an empty strip is rarely worth it: place something instead
                let mut op = op.clone();
                let empty = p.layout.is_empty();
                if empty && ["back", "front", "center", "rect", "sol"].contains(&op["o"].as_str().unwrap()) && r.chance(0.85) { op = json!({"o": "place", "i": 1}); }
                if op["o"] == "place" {
                    let av: Vec<usize> = (1..=mw.nc()).filter(|i| key_of(&mw, &p, *i).is_none() && reachable(&mw, &p, *i)).collect();
                    let inn: Vec<usize> = av.iter().copied().filter(|i| inside(&mw, &p, *i)).collect();
                    let pool = if !inn.is_empty() && r.chance(0.8) { inn } else { av };
                    if !pool.is_empty() && !pool.contains(&(op["i"].as_u64().unwrap() as usize)) { op["i"] = json!(*r.pick(&pool)); }
                }
                let op = &op;
                let u = |k: &str| op[k].as_u64().unwrap_or(0) as usize;
                let name = op["o"].as_str().unwrap();
                let (i, now) = (u("i"), u("now") == 1);
                if i > mw.nc() { continue; }
                let mut ev = op.clone();
                let k = if i > 0 { key_of(&mw, &p, i) } else { None };
                match name {
                    "place" if k.is_some() || !reachable(&mw, &p, i) => continue,
                    "remove" if k.is_none() => continue,
                    "restore" if sols[u("s") - 1].is_none() => continue,
                    "center" if p.layout.is_empty() => continue,
                    // items that stick out at the top or bottom (or touch) can never be kept
                    "fit" if !upright(&mw, &p) => continue,
                    "fit" if p.layout.is_empty() && r.chance(0.8) => continue,
                    _ => {}
                }
                // widths: multiples of the unit, the exact occupied width (plus a bit), or arbitrary
                let step = wide as f64 / 6.0;
                let nw = match r.us(0, 3) {
                    0 => u("w").max(1) as f64 * step,
                    1 => (u("w").max(1) as f64 * step).round().max(1.0),
                    2 => (p.occupied_width() as f64 / unit() + r.f() * 4.0 - 2.0).max(0.5),
                    _ => (u("w").max(1) as f64 + r.f()) * step,
                } as fsize * un;
                let nr = { let (a, y) = (r.int(-20, 20), if r.chance(0.7) { 0 } else { r.int(-3, 3) }); let (ww, hh) = (r.int(3, 60), if r.chance(0.7) { h } else { r.int(3, 20) });
                    let fr = if r.chance(0.5) { r.f() as fsize } else { 0.0 };
                    AARectangle::new((a as fsize + fr) * un, y as fsize * un, ((a + ww) as fsize + fr) * un, (y + hh) as fsize * un) };
                if ["back", "front", "center"].contains(&name) { ev["w"] = json!(sc(nw)); }
                if name == "rect" { ev["r"] = rect(&nr); }
                let via = r.chance(0.3);
                let fw = r.int(10, 60) as fsize * un;
                let fi: Vec<usize> = (1..=mw.nc()).filter(|_| r.chance(0.5)).collect();
                ops.fetch_add(1, Ordering::Relaxed);
                let res: Result<Value, String> = {
                    let (mw, p, sols, ginst, r, inst) = (&mw, &mut p, &mut sols, &ginst, &mut r, &inst);
                    guard(move || match name {
                        "place" => { let (_, k) = if via { let mut g: Problem = p.clone().into(); let x = g.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: mw.item(i), d_transf: mw.dt(i) }); *p = back(g); x } else { p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: mw.item(i), d_transf: mw.dt(i) }) }; json!({"k": key(k)}) }
                        "remove" => { let o = if via { let mut g: Problem = p.clone().into(); let o = g.remove_item(STRIP_LAYOUT_IDX, k.unwrap(), now); *p = back(g); o } else { p.remove_item(STRIP_LAYOUT_IDX, k.unwrap(), now) }; json!({"k": key(k.unwrap()), "rc": mw.cand(o.item_id, &o.d_transf)}) }
                        "back" => { p.modify_strip_in_back(nw); json!({}) }
                        "front" => { p.modify_strip_at_front(nw); json!({}) }
                        "center" => { p.modify_strip_centered(nw); json!({}) }
                        "rect" => { p.modify_strip(nr); json!({}) }
                        "fit" => { p.fit_strip(); json!({}) }
                        "sol" => { let s = if via { let mut g: Problem = p.clone().into(); let s = g.create_solution(None); *p = back(g); s } else { p.create_solution(None) }; let d = sol(mw, &s, ginst); sols[u("s") - 1] = Some(s); json!({"sd": d}) }
                        "restore" => { let s = sols[u("s") - 1].clone().unwrap(); if via { let mut g: Problem = p.clone().into(); g.restore_to_solution(&s); *p = back(g); } else { p.restore_to_solution(&s) } json!({}) }
                        "foreign" => {
                            // a solution of another problem for the same instance
                            let mut q = SPProblem::new(inst.clone(), fw, c);
                            for i in fi { if reachable(mw, &q, i) { q.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: mw.item(i), d_transf: mw.dt(i) }); } }
                            let st = state(mw, r, &mut q, false).0;
                            let s = q.create_solution(None); let d = sol(mw, &s, ginst); sols[u("s") - 1] = Some(s); json!({"sd": d, "fst": st})
                        }
                        _ => panic!("unknown op"),
                    })
                };
                ev["e"] = json!("op"); ev["ok"] = json!(res.is_ok() as i64);
                if let Ok(Value::Object(m)) = &res { for (k, v) in m { ev[k.as_str()] = v.clone(); } }
                if res.is_err() { b.push(ev); hot = true; break; }
                let (st, h) = state(&mw, &mut r, &mut p, eng);
                hot |= h;
                ev["st"] = st;
                b.push(ev);
                if n % 6 == 5 { for (s, sn) in sols.iter().enumerate() { if let Some(sn) = sn {
                    b.push(json!({"e": "solobs", "s": s + 1, "sd": sol(&mw, sn, &ginst)}));
                } } }
            }
            if hot || run < keep { out.push(hot, b); }
        }
        out
    });
    finish(args, out, json!({"ops": ops.into_inner(), "schedules_from_spec": scheds.len()}))
}
