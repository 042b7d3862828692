//! Input files and exported solutions (C12, C13)
use crate::gen;
use crate::geo::finish;
use crate::igeo::*;
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::layout::LayoutSnapshot;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::json_solution::{JsonContainer, JsonSolution};
use jagua_rs::io::parser::{build_solution_from_json, compose_json_solution, Parser};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use serde_json::{json, Map, Value};
use std::time::Instant;

type R = Result<(), String>;
/// logged units per unit of length
const S: f64 = 64.0;
/// input coordinates are multiples of 1/G
pub const G: i64 = 8;

fn u(v: fsize) -> i64 { (v as f64 * S).round().clamp(-1e6, 1e6) as i64 }
pub fn upoly(p: &SimplePolygon) -> Value { Value::Array(p.points.iter().map(|q| json!([u(q.0), u(q.1)])).collect()) }
/// grid coordinates to logged units
fn gpoly(p: &[P]) -> Value { Value::Array(p.iter().map(|q| json!([q.0 * 64 / G, q.1 * 64 / G])).collect()) }

struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, rec: &log::Record) { let _ = rec.args().to_string(); }
    fn flush(&self) {}
}
static NULL: NullLog = NullLog;

/// a shape as the file gives it: how it is written, and the outline it means (in 1/G units)
pub struct FShape { pub json: Value, pub outline: Poly }
fn num(v: i64) -> Value { if v % G == 0 && v % (3 * G) == 0 { json!(v / G) } else { json!(v as f64 / G as f64) } }
fn pts(r: &mut Rng, p: &[P]) -> Value {
    let mut v: Vec<Value> = p.iter().map(|q| json!([num(q.0), num(q.1)])).collect();
    if r.chance(0.5) { v.push(v[0].clone()); }
    Value::Array(v)
}
pub fn shape(r: &mut Rng, p: &Poly) -> FShape { FShape { json: json!({"Type": "SimplePolygon", "Data": pts(r, p)}), outline: p.clone() } }
pub fn rect_shape(w: i64, h: i64) -> FShape {
    FShape { json: json!({"Type": "Rectangle", "Data": {"Width": num(w), "Height": num(h)}}), outline: vec![(0, 0), (w, 0), (w, h), (0, h)] }
}
pub struct FItem { pub shape: FShape, pub demand: u64, pub value: Option<u64>, pub quality: Option<usize>, pub orient: Option<Vec<i64>> }
pub struct FBin { pub outer: Poly, pub holes: Vec<Poly>, pub zones: Vec<(usize, Poly)>, pub cost: u64, pub stock: Option<u64>, pub json: Value }
pub struct FInst { pub items: Vec<FItem>, pub bins: Vec<FBin>, pub strip: Option<i64>, pub text: String }

pub struct IOpts { pub size: i64, pub strip: bool, pub big_numbers: bool, pub max_bins: usize, pub item_div: i64, pub zones: bool, pub lbf: bool }

fn opt_field(r: &mut Rng, m: &mut Map<String, Value>, k: &str, v: Option<Value>) {
    match v { Some(v) => { m.insert(k.into(), v); } None => if r.chance(0.3) { m.insert(k.into(), Value::Null); } }
}

pub fn rand_inst(r: &mut Rng, o: &IOpts) -> FInst {
    let bign = |r: &mut Rng, small: u64| if o.big_numbers && r.chance(0.15) { *r.pick(&[300u64, 70_000, 3_000_000_000, 5_000_000_000, (1 << 53) + 1]) } else { r.int(0, small as i64) as u64 };
    let n = r.us(1, 5);
    let mut items = vec![];
    let mut jitems = vec![];
    for _ in 0..n {
        let m = (o.size / o.item_div * G).max(2 * G);
        let (w, h) = (r.int(G, m), r.int(G, m));
        let sh = if r.chance(0.2) { rect_shape(w, h) } else {
            let p = gen::poly(r, w, h);
            let (dx, dy) = if r.chance(0.4) { (0, 0) } else { (r.int(-60, 60) * G / 2, r.int(-60, 60) * G / 2) };
            shape(r, &gen::shift(&p, dx, dy))
        };
        let demand = if o.big_numbers && r.chance(0.1) { *r.pick(&[300u64, 70_000, 3_000_000_000]) } else { r.int(0, if o.lbf { 4 } else { 9 }) as u64 };
        let value = if r.chance(0.5) { Some(bign(r, 99)) } else { None };
        let quality = if r.chance(0.5) { Some(r.us(0, 10)) } else { None };
        let orient = match r.us(0, 5) {
            0 => None, 1 => Some(vec![]), 2 => Some(vec![0]), 3 => Some(vec![0, 1800]), 4 => Some(vec![0, 900, 1800, 2700]),
            _ => { let k = r.us(1, 4); Some((0..k).map(|_| r.int(-3600, 3600)).collect()) }
        };
        let mut m = Map::new();
        m.insert("Demand".into(), json!(demand));
        m.insert("Shape".into(), sh.json.clone());
        opt_field(r, &mut m, "Value", value.map(|v| json!(v)));
        opt_field(r, &mut m, "BaseQuality", quality.map(|v| json!(v)));
        opt_field(r, &mut m, "AllowedOrientations", orient.as_ref().map(|v| Value::Array(v.iter().map(|a| json!(*a as f64 / 10.0)).collect())));
        jitems.push(Value::Object(m));
        items.push(FItem { shape: sh, demand, value, quality, orient });
    }
    let mut bins = vec![];
    let mut root = Map::new();
    root.insert("Name".into(), json!("generated"));
    root.insert("Items".into(), Value::Array(jitems));
    let strip = if o.strip && o.lbf {
        // every item fits in every orientation
        let d = items.iter().map(|i: &FItem| diameter(&i.shape.outline)).fold(0.0, f64::max);
        Some(r.int((d * 1.05) as i64 + 1, (d * 2.5) as i64 + 1))
    } else if o.strip { Some(r.int(2 * G, o.size * G)) } else { None };
    if let Some(h) = strip { root.insert("Strip".into(), json!({"Height": num(h)})); }
    else {
        let nb = r.us(1, o.max_bins);
        for _ in 0..nb {
            let (w, h) = (r.int(o.size * G / 3, o.size * G), r.int(o.size * G / 3, o.size * G));
            let rect = r.chance(0.25);
            let outer = if rect { rect_shape(w, h).outline } else {
                let p = gen::poly(r, w, h);
                if r.chance(0.4) { p } else { gen::shift(&p, r.int(-60, 60) * G / 2, r.int(-60, 60) * G / 2) }
            };
            let mut holes: Vec<Poly> = vec![];
            if !rect { for _ in 0..*r.pick(&[0usize, 0, 1, 2, 3]) {
                if let Some(p) = gen::poly_inside(r, &outer, o.size * G / 4, 20) { if thick_enough(&p) && holes.iter().all(|q| overlap(&p, q, 0) == -1) { holes.push(p); } }
            } }
            let ob = bbox(&outer);
            let mut zones = vec![];
            let mut jz = vec![];
            if o.zones { for _ in 0..*r.pick(&[0usize, 0, 1, 2, 3, 5]) {
                let (zw, zh) = (r.int(G, (ob.2 - ob.0).max(G)), r.int(G, (ob.3 - ob.1).max(G)));
                let q = r.us(0, 9);
                let s = if rect && r.chance(0.5) { rect_shape(zw, zh) } else {
                    let p = gen::poly(r, zw, zh);
                    let p = gen::shift(&p, r.int(ob.0, (ob.2 - zw).max(ob.0)), r.int(ob.1, (ob.3 - zh).max(ob.1)));
                    shape(r, &p)
                };
                jz.push(json!({"Quality": q, "Shape": s.json}));
                zones.push((q, s.outline));
            } }
            let cost = bign(r, 500);
            let stock = if r.chance(0.4) { None } else { Some(bign(r, 9)) };
            let js = if rect { rect_shape(w, h).json }
                else if holes.is_empty() && r.chance(0.6) { shape(r, &outer).json }
                else {
                    let mut d = Map::new();
                    d.insert("Outer".into(), pts(r, &outer));
                    if !holes.is_empty() || r.chance(0.5) { let hs: Vec<Value> = holes.iter().map(|h| pts(r, h)).collect(); d.insert("Inner".into(), Value::Array(hs)); }
                    json!({"Type": "Polygon", "Data": Value::Object(d)})
                };
            let mut m = Map::new();
            m.insert("Cost".into(), json!(cost));
            opt_field(r, &mut m, "Stock", stock.map(|s| json!(s)));
            m.insert("Shape".into(), js);
            if !jz.is_empty() || r.chance(0.3) { m.insert("Zones".into(), Value::Array(jz)); }
            let j = Value::Object(m);
            bins.push(FBin { outer, holes, zones, cost, stock, json: j });
        }
        root.insert("Objects".into(), Value::Array(bins.iter().map(|b| b.json.clone()).collect()));
    }
    let text = Value::Object(root).to_string();
    FInst { items, bins, strip, text }
}
pub fn diameter(p: &[P]) -> f64 {
    p.iter().flat_map(|a| p.iter().map(move |b| (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt())).fold(0.0, f64::max)
}
fn thick_enough(p: &[P]) -> bool { gen::thick(p, 0.2 * G as f64) }

fn translation(t: &Transformation) -> Value {
    let m = t.matrix();
    let id = |a: fsize, b: fsize| (a - b).abs() < 1e-5;
    let pure = id(m[0][0].into_inner(), 1.0) && id(m[1][1].into_inner(), 1.0) && id(m[0][1].into_inner(), 0.0) && id(m[1][0].into_inner(), 0.0);
    if pure { json!([u(m[0][2].into_inner()), u(m[1][2].into_inner())]) } else { json!([]) }
}
fn stock_str(s: usize) -> String { if s == usize::MAX { "inf".into() } else { s.to_string() } }

fn file_json(f: &FInst) -> Value {
    json!({
        "items": f.items.iter().map(|i| json!({"d": i.demand.to_string(), "v": i.value.unwrap_or(0).to_string(), "q": i.quality.map_or(-1, |q| q as i64),
            "any": i.orient.is_none() as i64, "o": i.orient.clone().unwrap_or_default(), "p": gpoly(&i.shape.outline)})).collect::<Vec<_>>(),
        "bins": f.bins.iter().map(|b| json!({"c": b.cost.to_string(), "s": b.stock.map_or("inf".to_string(), |s| s.to_string()), "o": gpoly(&b.outer),
            "h": b.holes.iter().map(|h| gpoly(h)).collect::<Vec<_>>(), "z": b.zones.iter().map(|z| json!([z.0, gpoly(&z.1)])).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "strip": f.strip.map_or(-1, |h| h * 64 / G),
    })
}
fn inst_json(inst: &Instance, cfg: &jagua_rs::util::config::CDEConfig) -> Value {
    let items: Vec<Value> = inst.items().iter().map(|(it, d)| {
        let (any, angles): (i64, Vec<i64>) = match &it.allowed_rotation {
            AllowedRotation::None => (0, vec![0]),
            AllowedRotation::Continuous => (1, vec![]),
            AllowedRotation::Discrete(v) => (0, v.iter().map(|a| (*a as f64 * 10000.0).round() as i64).collect()),
        };
        json!({"id": it.id, "d": d.to_string(), "v": it.value.to_string(), "q": it.base_quality.map_or(-1, |q| q as i64),
            "f": it.hazard_filter.as_ref().map_or(-1, |f| f.0 as i64), "any": any, "o": angles, "p": upoly(&it.shape), "m": translation(&it.pretransform),
            "sc": (it.surrogate_config == cfg.item_surrogate_config) as i64})
    }).collect();
    let (bins, strip): (Vec<Value>, i64) = match inst {
        Instance::SP(s) => (vec![], u(s.strip_height)),
        Instance::BP(b) => (b.bins.iter().map(|(b, s)| {
            let mut z: Vec<Value> = vec![];
            for (q, qz) in b.quality_zones.iter().enumerate() { if let Some(qz) = qz { for p in &qz.zones { z.push(json!([q, qz.quality, upoly(p)])); } } }
            let hz: Vec<Value> = b.base_cde.static_hazards().iter().map(|h| match h.entity {
                HazardEntity::BinExterior => json!(["ext", 0, upoly(&h.shape)]),
                HazardEntity::BinHole { .. } => json!(["hole", 0, upoly(&h.shape)]),
                HazardEntity::InferiorQualityZone { quality, .. } => json!(["zone", quality, upoly(&h.shape)]),
                HazardEntity::PlacedItem { .. } => json!(["item", 0, upoly(&h.shape)]),
            }).collect();
            json!({"id": b.id, "c": b.value.to_string(), "s": stock_str(*s), "o": upoly(&b.outer), "h": b.holes.iter().map(|h| upoly(h)).collect::<Vec<_>>(), "z": z, "hz": hz,
                "m": translation(&b.pretransform), "cfg": (b.base_cde.config() == *cfg) as i64})
        }).collect(), -1),
    };
    json!({"items": items, "bins": bins, "strip": strip})
}

/// C13
pub fn parse(args: &Args) -> R {
    let _ = log::set_logger(&NULL);
    log::set_max_level(log::LevelFilter::Info);
    let runs = args.n("runs", 100);
    let out = parallel(8, args.seed ^ 0xC13, |t, mut r| {
        let mut out = Out::new();
        for run in 0..runs {
            if run % 8 != t { continue; }
            let mut r = r.fork(run as u64);
            let o = IOpts { size: *r.pick(&[12, 24, 40]), strip: r.chance(0.25), big_numbers: true, max_bins: 4, item_div: 2, zones: true, lbf: false };
            let f = rand_inst(&mut r, &o);
            let g = r.chance(0.4); let c = cfg(&mut r, g, false);
            let ctr = r.chance(0.6);
            let res = guard(|| {
                let ji: JsonInstance = serde_json::from_str(&f.text).map_err(|e| e.to_string())?;
                let inst = Parser::new(PolySimplConfig::Disabled, c, ctr).parse(&ji);
                Ok::<_, String>(inst_json(&inst, &c))
            }).and_then(|x| x);
            let mut v = json!({"e": "parse", "ctr": ctr as i64, "file": file_json(&f)});
            match res { Ok(i) => { v["ok"] = json!(1); v["inst"] = i; } Err(e) => { v["ok"] = json!(0); v["err"] = json!(e); } }
            out.push(v["ok"] == json!(0), vec![v]);
        }
        out
    });
    finish(args, out, json!({"instances": runs}))
}

fn qtys(v: &[usize]) -> Vec<String> { v.iter().map(|x| stock_str(*x)).collect() }
fn bx(b: &AARectangle) -> Value { json!([u(b.x_min), u(b.y_min), u(b.x_max), u(b.y_max)]) }
fn ratio4(v: fsize) -> i64 { if v.is_finite() { (v as f64 * 10000.0).round().clamp(-1e6, 1e6) as i64 } else { -1_000_000 } }
fn lay(l: &LayoutSnapshot) -> Value {
    json!({"b": l.bin.id, "box": bx(&l.bin.outer.bbox()), "it": l.placed_items.values().map(|p| json!({"i": p.item_id, "p": upoly(&p.shape)})).collect::<Vec<_>>(), "us": ratio4(l.usage)})
}
fn sol(s: &Solution) -> Value {
    json!({"lay": s.layout_snapshots.iter().map(lay).collect::<Vec<_>>(), "pq": qtys(&s.placed_item_qtys), "tq": qtys(&s.target_item_qtys), "bq": qtys(&s.bin_qtys), "us": ratio4(s.usage)})
}
fn jsol(s: &JsonSolution) -> Value {
    let l: Vec<Value> = s.layouts.iter().map(|l| {
        let (b, w, h) = match l.container { JsonContainer::Bin { index } => (index as i64, 0, 0), JsonContainer::Strip { width, height } => (-1, u(width), u(height)) };
        json!({"b": b, "w": w, "h": h, "us": ratio4(l.statistics.usage), "it": l.placed_items.iter().map(|p| {
            let (sn, cs) = (p.transformation.rotation as f64).sin_cos();
            json!({"i": p.index, "c": (cs * 16384.0).round() as i64, "s": (sn * 16384.0).round() as i64, "x": u(p.transformation.translation.0), "y": u(p.transformation.translation.1)})
        }).collect::<Vec<_>>()})
    }).collect();
    json!({"lay": l, "us": ratio4(s.usage)})
}
fn rand_rot(r: &mut Rng) -> fsize {
    match r.us(0, 4) {
        0 => 0.0,
        1 => (r.int(-4, 6) as f64 * std::f64::consts::FRAC_PI_2) as fsize,
        2 => (r.int(-7, 16) as f64 * std::f64::consts::PI / 8.0) as fsize,
        _ => ((r.f() - 0.5) * 3.0 * std::f64::consts::TAU) as fsize,
    }
}
/// a random placement of the item inside the rectangle, or None if it does not fit
fn rand_dt(r: &mut Rng, shape: &SimplePolygon, b: &AARectangle) -> Option<DTransformation> {
    for _ in 0..6 {
        let rot = rand_rot(r);
        let rb = shape.transform_clone(&Transformation::from_rotation(rot)).bbox();
        let e = 0.05;
        let (lx, hx) = (b.x_min - rb.x_min + e, b.x_max - rb.x_max - e);
        let (ly, hy) = (b.y_min - rb.y_min + e, b.y_max - rb.y_max - e);
        if lx <= hx && ly <= hy {
            let f = |r: &mut Rng, a: fsize, b: fsize| a + (b - a) * r.f() as fsize;
            return Some(DTransformation::new(rot, (f(r, lx, hx), f(r, ly, hy))));
        }
    }
    None
}

/// C12: a history that ends in a solution of the parsed instance
pub fn history(r: &mut Rng, inst: &Instance, cfg: jagua_rs::util::config::CDEConfig) -> Solution {
    let n = inst.items().len();
    match inst {
        Instance::BP(bp) => {
            let mut p = BPProblem::new(bp.clone());
            for _ in 0..r.us(0, 14) {
                let it = r.us(0, n - 1);
                let nl = p.layouts().len();
                if nl > 0 && r.chance(0.2) {
                    let l = r.us(0, nl - 1);
                    let ks: Vec<_> = p.layouts()[l].placed_items().keys().collect();
                    let k = *r.pick(&ks);
                    p.remove_item(LayoutIndex::Real(l), k, r.chance(0.5));
                    continue;
                }
                let tmpl: Vec<LayoutIndex> = p.template_layout_indices_with_stock().collect();
                let li = if nl == 0 || (r.chance(0.3) && nl < 5) { if tmpl.is_empty() { continue; } *r.pick(&tmpl) } else { LayoutIndex::Real(r.us(0, nl - 1)) };
                let b = p.get_layout(li).bin.outer.bbox();
                if let Some(dt) = rand_dt(r, &p.instance.item(it).shape.clone(), &b) { p.place_item(PlacingOption { layout_idx: li, item_id: it, d_transf: dt }); }
                if r.chance(0.05) { let s = p.create_solution(None); if r.chance(0.5) { p.restore_to_solution(&s); } }
            }
            p.create_solution(None)
        }
        Instance::SP(sp) => {
            let w = r.int(8, 60) as fsize;
            let mut p = SPProblem::new(sp.clone(), w, cfg);
            for _ in 0..r.us(0, 14) {
                match r.us(0, 9) {
                    0 if !p.layout.placed_items().is_empty() => {
                        let ks: Vec<_> = p.layout.placed_items().keys().collect();
                        let k = *r.pick(&ks);
                        p.remove_item(STRIP_LAYOUT_IDX, k, r.chance(0.5));
                    }
                    1 => p.modify_strip_in_back(r.int(8, 60) as fsize),
                    2 => p.modify_strip_at_front(r.int(8, 60) as fsize),
                    3 if !p.layout.placed_items().is_empty() => p.modify_strip_centered(r.int(8, 60) as fsize),
                    _ => {
                        let it = r.us(0, n - 1);
                        let b = p.layout.bin.outer.bbox();
                        if let Some(dt) = rand_dt(r, &p.instance.item(it).shape.clone(), &b) { p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: it, d_transf: dt }); }
                    }
                }
            }
            p.create_solution(None)
        }
    }
}

pub fn roundtrip(args: &Args) -> R {
    let runs = args.n("runs", 100);
    let out = parallel(8, args.seed ^ 0xC12, |t, mut r| {
        let mut out = Out::new();
        for run in 0..runs {
            if run % 8 != t { continue; }
            let mut r = r.fork(run as u64);
            let o = IOpts { size: *r.pick(&[16, 32, 48]), strip: r.chance(0.4), big_numbers: false, max_bins: 3, item_div: 3, zones: r.chance(0.3), lbf: false };
            let f = rand_inst(&mut r, &o);
            let g = r.chance(0.3); let c = cfg(&mut r, g, false);
            let ctr = r.chance(0.6);
            let mut v = json!({"e": "rt", "ctr": ctr as i64, "fi": f.items.iter().map(|i| gpoly(&i.shape.outline)).collect::<Vec<_>>(),
                "fb": f.bins.iter().map(|b| gpoly(&b.outer)).collect::<Vec<_>>(), "strip": f.strip.map_or(-1, |h| h * 64 / G)});
            let epoch = Instant::now();
            let prep = guard(|| {
                let ji: JsonInstance = serde_json::from_str(&f.text).unwrap();
                let parser = Parser::new(PolySimplConfig::Disabled, c, ctr);
                let inst = parser.parse(&ji);
                let s1 = history(&mut r, &inst, c);
                (ji, parser, inst, s1)
            });
            // what happens before the export belongs to other properties
            let Ok((ji, parser, inst, s1)) = prep else { continue };
            let same_inst = r.chance(0.5);
            let res = guard(|| {
                let j1 = serde_json::to_string(&compose_json_solution(&s1, &inst, epoch)).map_err(|e| e.to_string())?;
                let js1: JsonSolution = serde_json::from_str(&j1).map_err(|e| format!("cannot be read back: {e}"))?;
                let (inst2, s2) = if same_inst { (inst.clone(), build_solution_from_json(&inst, &js1.layouts, c)) } else { parser.parse_and_build_solution(&ji, &js1.layouts) };
                let js2 = compose_json_solution(&s2, &inst2, epoch);
                Ok::<_, String>(json!({"sol1": sol(&s1), "js1": jsol(&js1), "sol2": sol(&s2), "js2": jsol(&js2)}))
            }).and_then(|x| x);
            match res {
                Ok(x) => { v["ok"] = json!(1); for (k, y) in x.as_object().unwrap() { v[k] = y.clone(); } }
                Err(e) => { v["ok"] = json!(0); v["err"] = json!(e); }
            }
            out.push(v["ok"] == json!(0), vec![v]);
        }
        out
    });
    finish(args, out, json!({"solutions": runs}))
}

/// C14 through the parser: which way items, bins, holes and zones are simplified
pub fn simplified(r: &mut Rng, simpl: PolySimplConfig, tol: i64) -> Vec<Value> {
    let o = IOpts { size: *r.pick(&[12, 24, 40]), strip: r.chance(0.2), big_numbers: false, max_bins: 2, item_div: 2, zones: true, lbf: false };
    let f = rand_inst(r, &o);
    let mut c = cfg(r, false, false);
    c.quadtree_depth = 2;
    let center = r.chance(0.5);
    let inst = match guard(|| Parser::new(simpl, c, center).parse(&serde_json::from_str::<JsonInstance>(&f.text).unwrap())) {
        Ok(i) => i,
        Err(e) => return vec![json!({"e": "panic", "what": e, "file": f.text})],
    };
    let ev = |orig: &Poly, q: &SimplePolygon, t: &Transformation, inf: i64| {
        let m = t.matrix();
        let (dx, dy) = (m[0][2].into_inner(), m[1][2].into_inner());
        let pts: Vec<Value> = q.points.iter().map(|p| json!([u(p.0 - dx), u(p.1 - dy)])).collect();
        json!({"e": "simp", "P": gpoly(orig), "Q": pts, "inf": inf, "tol": tol, "ar": (q.area() as f64 * 32.0).round() as i64})
    };
    let mid = |p: &[(f64, f64)]| p.iter().fold((0.0, 0.0), |a, b| (a.0 + b.0 / p.len() as f64, a.1 + b.1 / p.len() as f64));
    let closest = |orig: &Poly, qs: &[&SimplePolygon], t: &Transformation| -> usize {
        let m = t.matrix();
        let (dx, dy) = (m[0][2].into_inner() as f64, m[1][2].into_inner() as f64);
        let a = mid(&orig.iter().map(|p| (p.0 as f64 / G as f64 + dx, p.1 as f64 / G as f64 + dy)).collect::<Vec<_>>());
        let d = |q: &SimplePolygon| { let b = mid(&q.points.iter().map(|p| (p.0 as f64, p.1 as f64)).collect::<Vec<_>>()); (a.0 - b.0).powi(2) + (a.1 - b.1).powi(2) };
        (0..qs.len()).min_by(|i, j| d(qs[*i]).partial_cmp(&d(qs[*j])).unwrap()).unwrap()
    };
    let mut out = vec![];
    for (i, fi) in f.items.iter().enumerate() {
        let it = inst.item(i);
        out.push(ev(&fi.shape.outline, &it.shape, &it.pretransform, 1));
    }
    if let Instance::BP(b) = &inst {
        for (i, fb) in f.bins.iter().enumerate() {
            let bin = &b.bins[i].0;
            out.push(ev(&fb.outer, &bin.outer, &bin.pretransform, 0));
            if fb.holes.len() == bin.holes.len() && !fb.holes.is_empty() {
                let hs: Vec<&SimplePolygon> = bin.holes.iter().map(|h| h.as_ref()).collect();
                for h in &fb.holes { out.push(ev(h, hs[closest(h, &hs, &bin.pretransform)], &bin.pretransform, 1)); }
            }
            for (q, z) in &fb.zones {
                if fb.zones.iter().filter(|x| x.0 == *q).count() != 1 { continue; }
                if let Some(qz) = &bin.quality_zones[*q] { if qz.zones.len() == 1 { out.push(ev(z, &qz.zones[0], &bin.pretransform, 1)); } }
            }
        }
    }
    out
}
