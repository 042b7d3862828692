//! Transformations (C18): programs of operations and transformed shapes
use crate::gen;
use crate::geo::finish;
use crate::igeo::*;
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::placed_item::PlacedItem;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable, TransformableFrom};
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use serde_json::{json, Value};

type R = Result<(), String>;
const F: f64 = 16384.0;
fn u(v: fsize) -> i64 { let x = v as f64 * 64.0; if x.is_finite() { x.round().clamp(-4e5, 4e5) as i64 } else { 400_000 } }
fn up(p: &Point) -> Value { json!([u(p.0), u(p.1)]) }
fn fx(v: f64) -> i64 { (v * F).round() as i64 }

fn observe(t: &Transformation, mut v: Value) -> Value {
    let probe = [Point(0.0, 0.0), Point(16.0, 0.0), Point(0.0, 16.0)];
    v["img"] = Value::Array(probe.iter().map(|p| up(&p.transform_clone(t))).collect());
    let d = t.decompose();
    v["dc"] = json!(fx((d.rotation() as f64).cos()));
    v["ds"] = json!(fx((d.rotation() as f64).sin()));
    v["dx"] = json!(u(d.translation().0));
    v["dy"] = json!(u(d.translation().1));
    let m = t.matrix();
    v["last"] = json!((m[2][0].into_inner().abs() < 1e-6 && m[2][1].into_inner().abs() < 1e-6 && (m[2][2].into_inner() - 1.0).abs() < 1e-5) as i64);
    v["empty"] = json!(t.is_empty() as i64);
    v
}

struct Op { o: String, r: usize, k: usize, ang: f64, x: i64, y: i64 } // x, y in quarters
fn run(regs: &mut Vec<Transformation>, op: &Op, variant: bool) -> Transformation {
    let a = op.ang as fsize;
    let t = (op.x as fsize / 4.0, op.y as fsize / 4.0);
    let m = regs[op.r].clone();
    match op.o.as_str() {
        "id" => Transformation::empty(),
        "in" => m.inverse(),
        "de" => if variant { m.decompose().compose() } else { let d: DTransformation = (&m).into(); (&d).into() },
        "cp" => regs[op.k].clone(),
        "tf" => { let o = regs[op.k].clone(); m.transform(&o) }
        "tk" => { let o = regs[op.k].decompose(); m.transform_from_decomposed(&o) }
        "fr" => Transformation::from_rotation(a),
        "ro" => m.rotate(a),
        "ft" => Transformation::from_translation(t),
        "tr" => m.translate(t),
        "fd" => if variant { Transformation::from_dt(&DTransformation::new(a, t)) } else { DTransformation::new(a, t).compose() },
        "rt" => m.rotate_translate(a, t),
        "rr" => m.translate_rotate(t, a),
        "td" => m.transform_from_decomposed(&DTransformation::new(a, t)),
        o => panic!("op {o}"),
    }
}
fn program(ops: &[Op], nr: usize, exact: bool, r: &mut Rng) -> (bool, Vec<Value>) {
    let mut regs = vec![Transformation::empty(); nr];
    let mut out = vec![json!({"e": "begin", "nr": nr, "x": exact as i64})];
    for op in ops {
        let ang = (op.ang as fsize) as f64;
        let v = json!({"e": "op", "o": op.o, "r": op.r + 1, "k": op.k + 1, "c": fx(ang.cos()), "s": fx(ang.sin()), "x": op.x * 16, "y": op.y * 16});
        let variant = r.chance(0.5);
        match guard(|| { let t = run(&mut regs, op, variant); let v = observe(&t, v.clone()); (t, v) }) {
            Ok((t, v)) => { regs[op.r] = t; out.push(v); }
            Err(e) => { out.push(json!({"e": "panic", "what": e})); return (true, out); }
        }
    }
    (false, out)
}
fn random_ops(r: &mut Rng, nr: usize, exact: bool) -> Vec<Op> {
    let n = if exact { r.us(4, 14) } else { r.us(2, 7) };
    let names = ["id", "in", "de", "cp", "tf", "tf", "tk", "fr", "ro", "ro", "ft", "tr", "tr", "fd", "fd", "rt", "rr", "td"];
    (0..n).map(|_| {
        let turn = std::f64::consts::TAU;
        let ang = if exact { r.int(-5, 7) as f64 * turn / 4.0 } else { match r.us(0, 2) { 0 => r.int(-8, 8) as f64 * turn / 8.0, 1 => (r.f() - 0.5) * turn, _ => (r.f() - 0.5) * 3.0 * turn } };
        Op { o: r.pick(&names).to_string(), r: r.us(0, nr - 1), k: r.us(0, nr - 1), ang, x: r.int(-80, 80), y: r.int(-80, 80) }
    }).collect()
}

fn shape_json(s: &SimplePolygon) -> Value {
    let c = |c: &Circle| json!([u(c.center.0), u(c.center.1), u(c.radius)]);
    let (poles, piers, bc, hull, nff, cha): (Vec<Value>, Vec<Value>, Vec<Value>, Vec<usize>, usize, i64) = match &s.surrogate {
        None => (vec![], vec![], vec![], vec![], 0, 0),
        Some(u_) => (u_.poles.iter().map(c).collect(), u_.piers.iter().map(|e| json!([up(&e.start), up(&e.end)])).collect(), vec![c(&u_.poles_bounding_circle)],
            u_.convex_hull_indices.clone(), u_.n_ff_poles, u(u_.convex_hull_area)),
    };
    json!({"p": s.points.iter().map(up).collect::<Vec<_>>(), "bb": [u(s.bbox().x_min), u(s.bbox().y_min), u(s.bbox().x_max), u(s.bbox().y_max)],
        "ar": u(s.area()), "dia": u(s.diameter()), "poi": c(&s.poi), "poles": poles, "piers": piers, "bc": bc, "hull": hull, "nff": nff, "cha": cha})
}
fn rand_motion(r: &mut Rng) -> (DTransformation, Value) {
    let pl = if r.chance(0.3) { Place::lattice(r.int(0, 3), r.int(-40, 40), r.int(-40, 40)) }
        else { Place::free((r.f() - 0.5) * 2.0 * std::f64::consts::TAU, r.int(-160, 160) as f64 / 4.0, r.int(-160, 160) as f64 / 4.0) };
    let d = pl.dt();
    let a = d.rotation() as f64;
    (d, json!({"c": fx(a.cos()), "s": fx(a.sin()), "x": u(d.translation().0), "y": u(d.translation().1)}))
}
fn shape_ev(r: &mut Rng) -> Value {
    let m = *r.pick(&[8i64, 16, 30]);
    let (w, h) = (r.int(3, m), r.int(3, m));
    let p = gen::poly(r, w, h);
    let p = if r.chance(0.5) { gen::centered(&p) } else { gen::shift(&p, r.int(-20, 20), r.int(-20, 20)) };
    let mut c = surr(r, false);
    // piers are costly to generate
    if r.chance(0.15) { c.n_ff_piers = r.us(1, 2); c.max_poles = c.max_poles.min(3); }
    let with_surr = r.chance(0.8);
    let ((m1, j1), (m2, j2)) = (rand_motion(r), rand_motion(r));
    let seg = ((r.int(-20, 20), r.int(-20, 20)), (r.int(21, 40), r.int(-20, 20)));
    let q = if r.chance(0.5) { Some(r.us(0, 9)) } else { None };
    let res = guard(|| {
        let item = Item::new(7, sp(&p), AllowedRotation::Continuous, q, 3, Transformation::empty(), c);
        let base: SimplePolygon = if with_surr { item.shape.as_ref().clone() } else { sp(&p) };
        let (t1, t2) = (m1.compose(), m2.compose());
        let clone = base.transform_clone(&t1);
        let mut inpl = base.clone(); inpl.transform(&t1);
        let mut buf = base.clone(); buf.transform_from(&base, &t2);
        let b1 = shape_json(&buf);
        buf.transform_from(&base, &t1);
        let pi = PlacedItem::new(&item, m1);
        let placed = if with_surr { shape_json(&pi.shape) } else { shape_json(&inpl) };
        let (centred, ct) = base.clone().center_around_centroid();
        let cm = ct.matrix();
        let pure = (cm[0][0].into_inner() - 1.0).abs() < 1e-6 && cm[0][1].into_inner().abs() < 1e-6;
        let e = Edge::new(Point(seg.0 .0 as fsize, seg.0 .1 as fsize), Point(seg.1 .0 as fsize, seg.1 .1 as fsize));
        let et = e.transform_clone(&t1);
        let mut ef = e.transform_clone(&t2); ef.transform_from(&e, &t1);
        let ue = |e: &Edge| json!([up(&e.start), up(&e.end)]);
        let cc = centred.centroid();
        json!({"e": "shape", "m": j1, "k": j2, "base": shape_json(&base), "clone": shape_json(&clone), "inpl": shape_json(&inpl), "buf1": b1, "buf2": shape_json(&buf), "placed": placed,
            "id": 7, "pid": pi.item_id, "pdt": (pi.d_transf == m1) as i64, "pq": pi.hazard_filter.as_ref().map_or(-1, |f| f.0 as i64), "iq": q.map_or(-1, |q| q as i64),
            "centred": shape_json(&centred), "ct": [u(cm[0][2].into_inner()), u(cm[1][2].into_inner()), pure as i64], "cc": up(&cc), "seg": ue(&e), "segt": ue(&et), "segf": ue(&ef)})
    });
    res.unwrap_or_else(|e| json!({"e": "panic", "what": e}))
}

pub fn transf(args: &Args) -> R {
    let runs = args.n("runs", args.q(400, 8000));
    let shapes = args.n("shapes", args.q(150, 3000));
    let sched: Vec<Value> = args.kv.get("sched").map_or(vec![], |p| std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect());
    let out = parallel(8, args.seed ^ 0xC18, |t, mut r| {
        let mut out = Out::new();
        for (i, s) in sched.iter().enumerate() {
            if i % 8 != t { continue; }
            let k = r.int(1, 12);
            let ops: Vec<Op> = s.as_array().unwrap().iter().filter(|o| o["o"] != "end").map(|o| {
                let g = |f: &str, d: i64| o[f].as_i64().unwrap_or(d);
                Op { o: o["o"].as_str().unwrap().into(), r: g("r", 1) as usize - 1, k: g("k", 1) as usize - 1, ang: (g("q", 0) + 4 * r.int(-1, 1)) as f64 * std::f64::consts::FRAC_PI_2, x: k * g("x", 0), y: k * g("y", 0) }
            }).collect();
            let (hot, v) = program(&ops, 3, true, &mut r);
            out.push(hot, v);
        }
        for _ in 0..runs / 8 {
            let exact = r.chance(0.3);
            let ops = random_ops(&mut r, 2, exact);
            let (hot, v) = program(&ops, 2, exact, &mut r);
            out.push(hot, v);
        }
        for _ in 0..shapes { let v = shape_ev(&mut r); out.push(v["e"] == "panic", vec![json!({"e": "begin", "nr": 1, "x": 0}), v]); }
        out
    });
    let _: Option<Poly> = None;
    finish(args, out, json!({"programs": runs + sched.len(), "shapes": shapes * 8}))
}
