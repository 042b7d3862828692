//! C22: requests and data of every kind, allowed or not, and whether the library took them.
use crate::gen;
use crate::geo::finish;
use crate::hist::read_scheds;
use crate::igeo::*;
use crate::prob::{key, qty};
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::TransformableFrom;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::json_solution::{JsonLayout, JsonSolution};
use jagua_rs::io::parser::Parser;
use jagua_rs::util::config::CDEConfig;
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use serde_json::{json, Value};
use slotmap::Key;
use std::sync::Arc;

type R = Result<(), String>;

fn conf(r: &mut Rng) -> CDEConfig {
    let g = r.chance(0.3);
    let mut c = cfg(r, g, false);
    if g { c.hpg_n_cells = *r.pick(&[5usize, 20]); }
    if c.item_surrogate_config.max_poles == 0 { c.item_surrogate_config.max_poles = 2; }
    c
}
fn shape(r: &mut Rng, m: i64) -> Poly { loop { let (w, h) = (r.int(2, m), r.int(2, m)); let p = gen::poly(r, w, h); if gen::thick(&p, 0.2) { return p; } } }
fn item(r: &mut Rng, id: usize, c: &CDEConfig) -> Item {
    let p = shape(r, 5);
    Item::new(id, sp(&p), AllowedRotation::Continuous, None, 0, Transformation::empty(), c.item_surrogate_config)
}
fn square(r: &mut Rng, id: usize, c: CDEConfig, zones: Vec<InferiorQualityZone>) -> Bin {
    let s = r.int(8, 20);
    Bin::new(id, sp(&[(0, 0), (s, 0), (s, s), (0, s)]), r.int(1, 9) as u64, Transformation::empty(), vec![], zones, c)
}
fn lay(l: &Layout) -> Value { json!({"id": l.id(), "bin": l.bin.id as i64 + 1, "keys": l.placed_items().keys().map(key).collect::<Vec<_>>()}) }
fn lays(ls: &[Layout]) -> Value { Value::Array(ls.iter().map(lay).collect()) }
/// every placement at a place of its own
fn spot(n: &mut usize) -> DTransformation { *n += 1; DTransformation::new(0.0, ((*n % 7) as fsize + 0.01 * *n as fsize, (*n / 7) as fsize * 0.5)) }

fn real_or(t: usize, i: usize) -> LayoutIndex { if t == 0 { LayoutIndex::Real(i) } else { LayoutIndex::Template(i) } }

fn rand_reqs(r: &mut Rng, kind: &str) -> Vec<Value> {
    let n = r.us(1, 20);
    (0..n).map(|_| {
        let (i, it, k) = (r.us(1, 4), r.us(1, 4), r.us(0, 12));
        match (kind, r.us(0, 11)) {
            ("bp", 0 | 1) => json!({"o": "open", "i": i, "it": it}),
            ("bp", 2 | 3) => json!({"o": "place", "i": i, "it": it}),
            ("bp", 4 | 5) => json!({"o": "remove", "i": i, "k": k}),
            ("bp", 6) => json!({"o": "close", "i": i}),
            ("bp", 7) => json!({"o": "join", "b": r.us(1, 3)}),
            ("bp", 8 | 9) => json!({"o": "sol", "old": r.us(0, 3)}),
            ("bp", 10) => json!({"o": "restore", "s": r.us(1, 4)}),
            ("bp", _) => if r.chance(0.5) { json!({"o": "removet", "i": r.us(1, 3), "k": k}) } else { json!({"o": "closet", "i": r.us(1, 3)}) },
            ("sp", 0..=4) => json!({"o": "place", "t": r.chance(0.05) as i64, "i": if r.chance(0.93) { 1 } else { 2 }, "it": if r.chance(0.9) { r.us(1, 2) } else { it }}),
            ("sp", 5..=8) => json!({"o": "remove", "t": r.chance(0.05) as i64, "i": if r.chance(0.93) { 1 } else { 2 }, "k": k}),
            ("sp", 9 | 10) => json!({"o": "sol"}),
            ("sp", _) => json!({"o": "restore", "s": r.us(1, 4)}),
            ("lay", 0..=4) => json!({"o": "place"}),
            ("lay", 5..=8) => json!({"o": "remove", "k": k}),
            ("lay", _) => json!({"o": "restore", "own": r.chance(0.7) as i64}),
            (_, 0..=5) => json!({"o": "add"}),
            (_, 6..=10) => json!({"o": "del", "k": k}),
            _ => json!({"o": "commit"}),
        }
    }).collect()
}
/// mostly allowed: a request that is sure to be refused is often replaced, so that histories get longer
fn pick_key(r: &mut Rng, issued: &[String], live: &[String], k: usize) -> usize {
    if !live.is_empty() && r.chance(0.6) { let x = r.pick(live); issued.iter().position(|y| y == x).map_or(k, |p| p + 1) } else { k }
}

fn bp(r: &mut Rng, sched: Option<&Vec<Value>>) -> Result<Vec<Value>, String> {
    let c = conf(r);
    let nb = if sched.is_some() { 3 } else { r.us(1, 3) };
    let ni = if sched.is_some() { 3 } else { r.us(1, 3) };
    let sup: Vec<usize> = if sched.is_some() { vec![2, 1, 3] } else { (0..nb).map(|_| if r.chance(0.15) { usize::MAX } else { r.us(0, 3) }).collect() };
    let (items, bins) = guard(|| {
        let items: Vec<Item> = (0..ni).map(|i| item(r, i, &c)).collect();
        let bins: Vec<Bin> = (0..nb).map(|i| square(r, i, c, vec![])).collect();
        (items, bins)
    })?;
    let inst = BPInstance::new(items.iter().cloned().map(|i| (i, 3)).collect(), bins.iter().cloned().zip(sup.iter().copied()).collect());
    let mut p: Problem = BPProblem::new(inst).into();
    let mut b = vec![json!({"e": "begin", "kind": "bp", "sup": sup.iter().map(|s| qty(*s)).collect::<Vec<_>>(), "ni": ni, "ls": lays(p.layouts())})];
    let reqs = sched.cloned().unwrap_or_else(|| rand_reqs(r, "bp"));
    let mut keys: Vec<PItemKey> = vec![];
    let mut sols: Vec<Solution> = vec![];
    let (mut n, mut next) = (0, 5000);
    for q in reqs {
        let u = |k: &str| q[k].as_u64().unwrap_or(0) as usize;
        let o = q["o"].as_str().unwrap();
        let mut ev = q.clone();
        let (i, it) = (u("i").wrapping_sub(1), u("it").wrapping_sub(1));
        if o == "restore" && (sols.is_empty() || u("s") > sols.len()) { continue; }
        if o == "join" && u("b") > nb { continue; }
        if ["removet", "closet"].contains(&o) && (u("i") > nb || r.chance(0.5)) && sched.is_none() { continue; }
        let mut k = u("k");
        let mut old = u("old").min(sols.len());
        if sched.is_none() {
            let issued: Vec<String> = keys.iter().map(|k| key(*k)).collect();
            if o == "remove" && i < p.layouts().len() { let live: Vec<String> = p.layouts()[i].placed_items().keys().map(key).collect(); k = pick_key(r, &issued, &live, k); }
        }
        if k > keys.len() { k = 0; }
        if old > sols.len() { old = 0; }
        let pk = if k == 0 { PItemKey::null() } else { keys[k - 1] };
        ev["k"] = json!(key(pk)); ev["old"] = json!(old);
        let res = {
            let (p, sols, keys, n, bins, items) = (&mut p, &mut sols, &mut keys, &mut n, &bins, &items);
            next += 1;
            let commit = r.chance(0.5);
            guard(move || match o {
                "open" | "place" => {
                    let idx = if o == "open" { LayoutIndex::Template(i) } else { LayoutIndex::Real(i) };
                    let (_, k) = p.place_item(PlacingOption { layout_idx: idx, item_id: it, d_transf: spot(n) });
                    keys.push(k);
                }
                "remove" | "removet" => { p.remove_item(real_or((o == "removet") as usize, i), pk, commit); }
                "close" | "closet" => { let x = real_or((o == "closet") as usize, i); match p { Problem::BP(b) => b.remove_layout(x), _ => unreachable!() } }
                "join" => {
                    let mut l = Layout::new(next, bins[u("b") - 1].clone());
                    keys.push(l.place_item(&items[0], spot(n)));
                    match p { Problem::BP(b) => b.register_layout(l), _ => unreachable!() };
                }
                "sol" => { let s = if old == 0 { p.create_solution(None) } else { p.create_solution(Some(&sols[old - 1])) }; sols.push(s); }
                "restore" => { let s = sols[u("s") - 1].clone(); p.restore_to_solution(&s); }
                _ => panic!("unknown request"),
            })
        };
        ev["e"] = json!("req"); ev["ok"] = json!(res.is_ok() as i64);
        if o == "sol" { ev["s"] = json!(sols.len()); }
        match res { Ok(()) => { ev["ls"] = lays(p.layouts()); b.push(ev); } Err(m) => { ev["why"] = json!(m); b.push(ev); break; } }
    }
    Ok(b)
}

fn spp(r: &mut Rng) -> Result<Vec<Value>, String> {
    let c = conf(r);
    let ni = r.us(1, 3);
    let items: Vec<Item> = guard(|| (0..ni).map(|i| item(r, i, &c)).collect())?;
    let inst = SPInstance::new(items.iter().cloned().map(|i| (i, 3)).collect(), 10.0);
    let mut p: Problem = guard(|| SPProblem::new(inst, 12.0, c))?.into();
    let mut b = vec![json!({"e": "begin", "kind": "sp", "sup": [], "ni": ni, "ls": lays(p.layouts())})];
    let mut keys: Vec<PItemKey> = vec![];
    let mut sols: Vec<Solution> = vec![];
    let mut n = 0;
    for q in rand_reqs(r, "sp") {
        let u = |k: &str| q[k].as_u64().unwrap_or(0) as usize;
        let o = q["o"].as_str().unwrap();
        let mut ev = q.clone();
        if o == "restore" && u("s") > sols.len() { continue; }
        let issued: Vec<String> = keys.iter().map(|k| key(*k)).collect();
        let live: Vec<String> = p.layouts()[0].placed_items().keys().map(key).collect();
        let mut k = pick_key(r, &issued, &live, u("k"));
        if k > keys.len() { k = 0; }
        let pk = if k == 0 { PItemKey::null() } else { keys[k - 1] };
        ev["k"] = json!(key(pk));
        let res = {
            let (p, sols, keys, n) = (&mut p, &mut sols, &mut keys, &mut n);
            let commit = r.chance(0.5);
            guard(move || match o {
                "place" => { let (_, k) = p.place_item(PlacingOption { layout_idx: real_or(u("t"), u("i") - 1), item_id: u("it") - 1, d_transf: spot(n) }); keys.push(k); }
                "remove" => { p.remove_item(real_or(u("t"), u("i") - 1), pk, commit); }
                "sol" => { let s = p.create_solution(None); sols.push(s); }
                _ => { let s = sols[u("s") - 1].clone(); p.restore_to_solution(&s); }
            })
        };
        ev["e"] = json!("req"); ev["ok"] = json!(res.is_ok() as i64);
        if o == "sol" { ev["s"] = json!(sols.len()); }
        match res { Ok(()) => { ev["ls"] = lays(p.layouts()); b.push(ev); } Err(m) => { ev["why"] = json!(m); b.push(ev); break; } }
    }
    Ok(b)
}

fn layo(r: &mut Rng) -> Result<Vec<Value>, String> {
    let c = conf(r);
    let (it, bin) = guard(|| (item(r, 0, &c), square(r, 0, c, vec![])))?;
    let id = r.us(0, 3);
    let mut l = Layout::new(id, bin.clone());
    let mut keys: Vec<PItemKey> = vec![];
    let mut n = 0;
    let mut other = Layout::new(id + r.us(1, 2), bin);
    other.place_item(&it, DTransformation::new(0.0, (1.5, 1.5)));
    let snap = l.create_snapshot();
    let osnap = other.create_snapshot();
    let mut b = vec![json!({"e": "begin", "kind": "lay", "sup": [], "ni": 1, "ls": [lay(&l)]})];
    for q in rand_reqs(r, "lay") {
        let u = |k: &str| q[k].as_u64().unwrap_or(0) as usize;
        let o = q["o"].as_str().unwrap();
        let mut ev = q.clone();
        let issued: Vec<String> = keys.iter().map(|k| key(*k)).collect();
        let live: Vec<String> = l.placed_items().keys().map(key).collect();
        let mut k = pick_key(r, &issued, &live, u("k"));
        if k > keys.len() { k = 0; }
        let pk = if k == 0 { PItemKey::null() } else { keys[k - 1] };
        ev["k"] = json!(key(pk));
        let s = if u("own") == 1 { &snap } else { &osnap };
        ev["id"] = json!(s.id);
        let res = {
            let (l, keys, n, it) = (&mut l, &mut keys, &mut n, &it);
            let commit = r.chance(0.5);
            guard(move || match o {
                "place" => { let k = l.place_item(it, spot(n)); keys.push(k); }
                "remove" => { l.remove_item(pk, commit); }
                _ => l.restore(s),
            })
        };
        ev["e"] = json!("req"); ev["ok"] = json!(res.is_ok() as i64);
        match res { Ok(()) => { ev["ls"] = json!([lay(&l)]); b.push(ev); } Err(m) => { ev["why"] = json!(m); b.push(ev); break; } }
    }
    Ok(b)
}

fn eng(r: &mut Rng) -> Result<Vec<Value>, String> {
    let c = conf(r);
    let p = guard(|| { let mut p = SimplePolygon::from(AARectangle::new(0.0, 0.0, 2.0, 3.0)); p.generate_surrogate(c.item_surrogate_config); p })?;
    let bin = guard(|| square(r, 0, c, vec![]))?;
    let mut e: CDEngine = bin.base_cde.as_ref().clone();
    let ent = |i: usize| HazardEntity::PlacedItem { id: 0, dt: DTransformation::new(0.0, (i as fsize * 0.25, 1.0)), };
    let dynn = |e: &CDEngine| json!([{"id": 0, "bin": 1, "keys": (0..20usize).filter(|i| e.dynamic_hazards().iter().any(|h| h.entity == ent(*i))).collect::<Vec<_>>()}]);
    let mut b = vec![json!({"e": "begin", "kind": "eng", "sup": [], "ni": 1, "ls": dynn(&e)})];
    let mut n = 0usize;
    for q in rand_reqs(r, "eng") {
        let o = q["o"].as_str().unwrap();
        let mut ev = q.clone();
        let mut k = q["k"].as_u64().unwrap_or(0) as usize;
        if o == "del" && n > 0 && r.chance(0.7) { k = r.us(0, n - 1); }
        if o == "add" { k = n; n += 1; }
        ev["k"] = json!(k);
        let res = {
            let (e, p) = (&mut e, &p);
            let commit = r.chance(0.5);
            guard(move || match o {
                "add" => {
                    let mut q = p.clone();
                    q.transform_from(p, &DTransformation::new(0.0, (k as fsize * 0.25, 1.0)).compose());
                    e.register_hazard(Hazard::new(ent(k), Arc::new(q)));
                }
                "del" => e.deregister_hazard(ent(k), commit),
                _ => e.commit_deregisters(),
            })
        };
        ev["e"] = json!("req"); ev["ok"] = json!(res.is_ok() as i64);
        match res { Ok(()) => { ev["ls"] = dynn(&e); b.push(ev); } Err(m) => { ev["why"] = json!(m); b.push(ev); break; } }
    }
    Ok(b)
}

/// an outline, and whether it is one that any library has to take
fn outline(r: &mut Rng, bad: bool) -> (Poly, bool) {
    let mut p = shape(r, 12);
    if r.chance(0.3) { let (dx, dy) = (r.int(-20, 20), r.int(-20, 20)); p = gen::shift(&p, dx, dy); }
    if !bad { return (p, true); }
    match r.us(0, 4) {
        0 => { p.truncate(r.us(0, 2)); }
        1 => { let i = r.us(0, p.len() - 1); let j = r.us(0, p.len()); let v = p[i]; p.insert(j, v); }
        2 => { let (dx, dy) = (r.int(-2, 2), r.int(1, 3)); let n = r.us(3, 5); p = (0..n as i64).map(|k| (k * k * dx, k * k * dy)).collect(); r.shuffle(&mut p); }
        3 => { let (x, y, w, h) = (r.int(-5, 5), r.int(-5, 5), r.int(1, 4), r.int(1, 4)); p = vec![(x, y), (x + w, y + h), (x + w, y), (x, y + h)]; }
        _ => { let i = r.us(0, p.len() - 1); let j = (i + r.us(1, p.len() - 1)) % p.len(); p[i] = p[j]; }
    }
    (p, false)
}
fn data(r: &mut Rng) -> Value {
    let c = conf(r);
    match r.us(0, 6) {
        0 | 1 => {
            let bad = r.chance(0.5);
            let (p, sim) = outline(r, bad);
            let res = guard(|| SimplePolygon::new(fpts(&p)));
            json!({"e": "poly", "p": jpoly(&p), "sim": sim as i64, "ok": res.is_ok() as i64})
        }
        2 => {
            let a = (r.int(-3, 3), r.int(-3, 3));
            let b = match r.us(0, 2) { 0 => a, 1 => (a.0, a.1 + r.int(-1, 1)), _ => (a.0 + r.int(-1, 1), a.1) };
            let res = guard(|| Edge::new(Point(a.0 as fsize, a.1 as fsize), Point(b.0 as fsize, b.1 as fsize)));
            json!({"e": "edge", "a": [a.0, a.1], "b": [b.0, b.1], "ok": res.is_ok() as i64})
        }
        3 => {
            let q = r.us(7, 12);
            let res = guard(|| InferiorQualityZone::new(q, vec![]));
            json!({"e": "zone", "q": q, "ok": res.is_ok() as i64})
        }
        4 => {
            let q: Vec<usize> = (0..r.us(0, 4)).map(|_| if r.chance(0.1) { r.us(10, 12) } else { r.us(0, 9) }).collect();
            let z: Vec<InferiorQualityZone> = q.iter().map(|q| InferiorQualityZone { quality: *q, zones: vec![Arc::new(sp(&[(1, 1), (3, 1), (2, 4)]))] }).collect();
            let res = guard(|| square(r, 0, c, z));
            json!({"e": "bin", "q": q, "ok": res.is_ok() as i64})
        }
        5 => {
            let ids = |r: &mut Rng, n: usize| -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); if n > 0 && r.chance(0.3) { match r.us(0, 2) { 0 => r.shuffle(&mut v), 1 => { let i = r.us(0, n - 1); v[i] += 1; } _ => { for x in v.iter_mut() { *x += 1; } } } } v };
            let (ni, nb) = (r.us(1, 4), r.us(1, 3));
            let (it, mut bi) = (ids(r, ni), ids(r, nb));
            let strip = r.chance(0.4);
            if strip { bi.clear(); }
            let items: Vec<(Item, usize)> = it.iter().map(|i| (item(r, *i, &c), 1)).collect();
            let bins: Vec<(Bin, usize)> = bi.iter().map(|i| (square(r, *i, c, vec![]), 1)).collect();
            let res = guard(move || if strip { SPInstance::new(items, 5.0); } else { BPInstance::new(items, bins); });
            json!({"e": "ids", "it": it, "bi": bi, "ok": res.is_ok() as i64})
        }
        _ => {
            let v: Vec<fsize> = (0..3).map(|_| if r.chance(0.2) { fsize::NAN } else { r.int(-3, 3) as fsize }).collect();
            let nan = v.iter().any(|x| x.is_nan());
            let res = guard(|| DTransformation::new(v[0], (v[1], v[2])));
            json!({"e": "nan", "nan": nan as i64, "ok": res.is_ok() as i64})
        }
    }
}

fn fpoly(p: &[P]) -> Value { Value::Array(p.iter().map(|q| json!([q.0 as f64, q.1 as f64])).collect()) }
/// a shape for a file: (file's JSON, its description)
fn fshape(r: &mut Rng, bad: f64, poly: bool) -> (Value, Value) {
    let dbl = bad;
    let closed = move |r: &mut Rng, mut p: Poly| -> Poly { if !p.is_empty() && r.chance(0.4) { p.push(p[0]); if r.chance(dbl) { p.push(p[0]); } } p };
    let isbad = r.chance(bad);
    match r.us(0, 9) {
        0 | 1 => { let (w, h) = (r.int(if isbad { 0 } else { 1 }, 6), r.int(if isbad { 0 } else { 1 }, 6)); (json!({"Type": "Rectangle", "Data": {"Width": w as f64, "Height": h as f64}}), json!({"k": "rect", "w": w, "h": h})) }
        2..=6 => { let p = outline(r, isbad).0; let p = closed(r, p); (json!({"Type": "SimplePolygon", "Data": fpoly(&p)}), json!({"k": "sp", "p": jpoly(&p)})) }
        7 | 8 if poly || isbad => {
            let o = outline(r, isbad && poly).0; let o = closed(r, o);
            let ins: Vec<Poly> = (0..r.us(0, 2)).map(|_| { let p = outline(r, isbad && poly).0; closed(r, p) }).collect();
            let mut d = json!({"Outer": fpoly(&o)});
            if !ins.is_empty() { d["Inner"] = Value::Array(ins.iter().map(|p| fpoly(p)).collect()); }
            (json!({"Type": "Polygon", "Data": d}), json!({"k": "poly", "p": jpoly(&o), "in": ins.iter().map(|p| jpoly(p)).collect::<Vec<_>>()}))
        }
        _ if isbad => { let o = outline(r, false).0; (json!({"Type": "MultiPolygon", "Data": [{"Outer": fpoly(&o)}]}), json!({"k": "multi"})) }
        _ => { let p = outline(r, false).0; (json!({"Type": "SimplePolygon", "Data": fpoly(&p)}), json!({"k": "sp", "p": jpoly(&p)})) }
    }
}
fn file(r: &mut Rng) -> Value {
    let mut c = conf(r);
    c.hpg_n_cells = 0; // holes may leave no free space in these bins
    let bad = *r.pick(&[0.0, 0.0, 0.15, 0.3]);
    let items: Vec<(Value, Value)> = (0..r.us(1, 3)).map(|_| fshape(r, bad, false)).collect();
    let bins: Vec<(Value, Value)> = (0..r.us(1, 2)).map(|_| {
        let (j, d) = fshape(r, bad, true);
        let z: Vec<(Value, Value)> = (0..r.us(0, 2)).map(|_| { let (j, d) = fshape(r, bad, false); let q = if r.chance(bad) { r.us(8, 12) } else { r.us(0, 9) }; (json!({"Quality": q, "Shape": j}), json!({"q": q, "s": d})) }).collect();
        let mut b = json!({"Cost": 3, "Stock": 2, "Shape": j});
        if !z.is_empty() { b["Zones"] = Value::Array(z.iter().map(|x| x.0.clone()).collect()); }
        (b, json!({"s": d, "z": z.iter().map(|x| x.1.clone()).collect::<Vec<_>>()}))
    }).collect();
    let (hb, hs) = match r.us(0, 9) { 0 => (true, true), 1 => (false, false), 2 | 3 => (false, true), _ => (true, false) };
    let mut root = json!({"Name": "x", "Items": items.iter().map(|x| json!({"Demand": 1, "Shape": x.0})).collect::<Vec<_>>()});
    if hb { root["Objects"] = Value::Array(bins.iter().map(|b| b.0.clone()).collect()); }
    if hs { root["Strip"] = json!({"Height": 30.0}); }
    let text = root.to_string();
    let ctr = r.chance(0.5);
    let simp = if r.chance(0.3) { PolySimplConfig::Enabled { tolerance: 0.001 } } else { PolySimplConfig::Disabled };
    let res = guard(|| { let j: JsonInstance = serde_json::from_str(&text).map_err(|e| e.to_string())?; Parser::new(simp, c, ctr).parse(&j); Ok::<(), String>(()) });
    json!({"e": "file", "hb": hb as i64, "hs": hs as i64, "items": items.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "bins": bins.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),
        "ok": matches!(res, Ok(Ok(()))) as i64, "why": why(&res)})
}
fn why(r: &Result<Result<(), String>, String>) -> String { match r { Ok(Ok(())) => String::new(), Ok(Err(e)) | Err(e) => e.clone() } }
fn sfile(r: &mut Rng) -> Value {
    let c = conf(r);
    let strip = r.chance(0.3);
    let ni = r.us(1, 3);
    let sup: Vec<usize> = (0..r.us(1, 3)).map(|_| r.us(0, 3)).collect();
    let items: Vec<Value> = (0..ni).map(|_| json!({"Demand": 9, "Shape": fshape(r, 0.0, false).0})).collect();
    let mut root = json!({"Name": "x", "Items": items});
    if strip { root["Strip"] = json!({"Height": 30.0}); } else { root["Objects"] = Value::Array(sup.iter().map(|s| json!({"Cost": 1, "Stock": s, "Shape": {"Type": "Rectangle", "Data": {"Width": 30.0, "Height": 30.0}}})).collect()); }
    let odd = *r.pick(&[0.0, 0.0, 0.1]);
    let nl = if strip { if r.chance(0.8) { 1 } else { r.us(0, 2) } } else { r.us(0, 4) };
    let mut n = 0;
    let ls: Vec<(Value, Value)> = (0..nl).map(|_| {
        let s = strip != r.chance(odd);
        let b = if r.chance(odd) { sup.len() + 1 } else { r.us(1, sup.len()) };
        let m = if r.chance(odd) { 0 } else { r.us(1, 3) };
        let its: Vec<usize> = (0..m).map(|_| if r.chance(odd / 2.0) { ni + 1 } else { r.us(1, ni) }).collect();
        let cont = if s { json!({"Type": "Strip", "Params": {"Width": 40.0, "Height": 30.0}}) } else { json!({"Type": "Bin", "Params": {"Index": b - 1}}) };
        let pl: Vec<Value> = its.iter().map(|i| { n += 1; json!({"Index": i - 1, "Transformation": {"Rotation": 0.0, "Translation": [0.3 * n as f64, 0.2 * n as f64]}}) }).collect();
        (json!({"Container": cont, "PlacedItems": pl, "Statistics": {"Usage": 0.0}}), json!({"c": if s { "strip" } else { "bin" }, "b": b, "items": its}))
    }).collect();
    let text = root.to_string();
    let stext = Value::Array(ls.iter().map(|l| l.0.clone()).collect()).to_string();
    let stext = json!({"Usage": 0.0, "RunTimeSec": 0, "Layouts": serde_json::from_str::<Value>(&stext).unwrap()}).to_string();
    let ctr = r.chance(0.5);
    let res = guard(|| {
        let j: JsonInstance = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let s: JsonSolution = serde_json::from_str(&stext).map_err(|e| e.to_string())?;
        let l: &[JsonLayout] = &s.layouts;
        Parser::new(PolySimplConfig::Disabled, c, ctr).parse_and_build_solution(&j, l);
        Ok::<(), String>(())
    });
    json!({"e": "sfile", "strip": strip as i64, "ni": ni, "sup": if strip { vec![] } else { sup }, "ls": ls.iter().map(|l| l.1.clone()).collect::<Vec<_>>(), "ok": matches!(res, Ok(Ok(()))) as i64, "why": why(&res)})
}

pub fn refuse(args: &Args) -> R {
    silence();
    let scheds = read_scheds(args);
    let runs = args.n("runs", 100);
    let out = parallel(8, args.seed ^ 0xC22, |t, mut r| {
        let mut out = Out::new();
        for run in 0..runs {
            plain();
            let b = guard(|| match run % 6 {
                0 if !scheds.is_empty() => { let s = &scheds[(t + 8 * (run / 6)) % scheds.len()]; bp(&mut r, Some(s)) }
                0 | 1 => bp(&mut r, None),
                2 => spp(&mut r),
                3 => if r.chance(0.5) { layo(&mut r) } else { eng(&mut r) },
                4 => guard(|| vec![data(&mut r), data(&mut r), data(&mut r)]),
                _ => guard(|| if r.chance(0.6) { vec![file(&mut r)] } else { vec![sfile(&mut r)] }),
            }).and_then(|x| x);
            out.push(b.is_err(), b.unwrap_or_else(|e| vec![json!({"e": "panic", "what": e})]));
        }
        out
    });
    let n = |o: &Out, ok: i64| o.blocks.iter().flat_map(|b| &b.1).filter(|e| e["ok"] == json!(ok)).count();
    let (y, no) = (n(&out, 1), n(&out, 0));
    finish(args, out, json!({"accepted": y, "refused": no, "schedules_from_spec": scheds.len()}))
}
