//! Measures and predicates of the geometric primitives (C17) and simplification (C14)
use crate::gen;
use crate::geo::finish;
use crate::igeo::*;
use crate::rng::Rng;
use crate::util::*;
use crate::Args;
use jagua_rs::fsize;
use jagua_rs::geometry::convex_hull::{convex_hull_from_points, convex_hull_from_shapes, convex_hull_indices};
use jagua_rs::geometry::geo_enums::{GeoPosition, GeoRelation};
use jagua_rs::geometry::geo_traits::{AlmostCollidesWith, CollidesWith, DistanceFrom, Shape};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::util::polygon_simplification::{simplify_shape, PolySimplConfig, PolySimplMode};
use serde_json::{json, Value};

type R = Result<(), String>;
/// logged units per unit of length
const S: f64 = 64.0;
/// input coordinates are multiples of 1/4
const G: i64 = 4;

fn u(v: fsize) -> i64 { let x = v as f64 / unit() * S; if x.is_finite() { x.round().clamp(-4e5, 4e5) as i64 } else { 400_000 } }
/// squared lengths: units squared
fn u2(v: fsize) -> i64 { let x = v as f64 / (unit() * unit()) * S * S; if x.is_finite() { x.round().clamp(-1e9, 1e9) as i64 } else { 1_000_000_000 } }
fn up(p: &Point) -> Value { json!([u(p.0), u(p.1)]) }
fn ur(r: &AARectangle) -> Value { json!([u(r.x_min), u(r.y_min), u(r.x_max), u(r.y_max)]) }
fn ue(e: &Edge) -> Value { json!([up(&e.start), up(&e.end)]) }
fn uc(c: &Circle) -> Value { json!([u(c.center.0), u(c.center.1), u(c.radius)]) }
fn us(p: &[Point]) -> Value { Value::Array(p.iter().map(up).collect()) }
fn g(v: i64) -> fsize { (v as f64 / G as f64 * unit()) as fsize }
/// an area, in 1/n
fn area(v: fsize, n: f64) -> i64 { (v as f64 / (unit() * unit()) * n).round().clamp(-1e9, 1e9) as i64 }
fn pt(p: P) -> Point { Point(g(p.0), g(p.1)) }
fn gp(p: P) -> Value { json!([p.0 * 64 / G, p.1 * 64 / G]) }
fn gpoly(p: &[P]) -> Value { Value::Array(p.iter().map(|q| gp(*q)).collect()) }
fn pos(p: GeoPosition) -> i64 { match p { GeoPosition::Interior => 1, GeoPosition::Exterior => 0 } }
fn rel(r: GeoRelation) -> &'static str {
    match r { GeoRelation::Intersecting => "I", GeoRelation::Enclosed => "E", GeoRelation::Surrounding => "S", GeoRelation::Disjoint => "D" }
}
fn border<T, U>(a: &T, b: &U) -> Value where T: DistanceFrom<U> {
    let (p1, d1) = a.distance_from_border(b);
    let (p2, d2) = a.sq_distance_from_border(b);
    json!({"d": u(a.distance(b)), "q": u2(a.sq_distance(b)), "bp": pos(p1), "bd": u(d1), "qp": pos(p2), "qd": u2(d2)})
}

fn rp(r: &mut Rng, m: i64) -> P { let o = far(); (o.0 * G + r.int(-m, m), o.1 * G + r.int(-m, m)) }
fn rrect(r: &mut Rng, m: i64) -> (P, P) {
    let a = rp(r, m);
    let (w, h) = (r.int(1, m), r.int(1, m));
    (a, (a.0 + w, a.1 + if r.chance(0.2) { w } else { h }))
}
fn mkr(x: (P, P)) -> AARectangle { AARectangle::new(g(x.0 .0), g(x.0 .1), g(x.1 .0), g(x.1 .1)) }
fn gr(x: (P, P)) -> Value { json!([x.0 .0 * 64 / G, x.0 .1 * 64 / G, x.1 .0 * 64 / G, x.1 .1 * 64 / G]) }
fn redge(r: &mut Rng, m: i64) -> (P, P) {
    loop {
        let a = rp(r, m);
        let b = match r.us(0, 4) { 0 => (a.0, rp(r, m).1), 1 => (rp(r, m).0, a.1), 2 => (a.0 + r.int(-3, 3), a.1 + r.int(-3, 3)), _ => rp(r, m) };
        if a != b { return (a, b); }
    }
}
fn mke(x: (P, P)) -> Edge { Edge::new(pt(x.0), pt(x.1)) }
fn ge(x: (P, P)) -> Value { json!([gp(x.0), gp(x.1)]) }
fn rcirc(r: &mut Rng, m: i64) -> (P, i64) { (rp(r, m), if r.chance(0.1) { m } else { r.int(1, m / 2) }) }
fn mkc(c: (P, i64)) -> Circle { Circle::new(pt(c.0), g(c.1)) }
fn gc(c: (P, i64)) -> Value { json!([c.0 .0 * 64 / G, c.0 .1 * 64 / G, c.1 * 64 / G]) }
/// a point near something interesting of the edge or anywhere
fn near(r: &mut Rng, e: (P, P), m: i64) -> P {
    match r.us(0, 3) {
        0 => rp(r, m),
        1 => { let t = r.int(0, 4); (e.0 .0 + (e.1 .0 - e.0 .0) * t / 4 + r.int(-2, 2), e.0 .1 + (e.1 .1 - e.0 .1) * t / 4 + r.int(-2, 2)) }
        2 => { let a = e.1; (a.0 + r.int(-3, 3), a.1 + r.int(-3, 3)) }
        _ => { let a = e.0; (a.0 + r.int(-3, 3), a.1 + r.int(-3, 3)) }
    }
}

fn prim(r: &mut Rng) -> Value {
    let m = *r.pick(&[8i64, 20, 60, 120]);
    match r.us(0, 14) {
        0 | 1 => {
            let (a, mut b) = (rrect(r, m), rrect(r, m));
            if r.chance(0.4) { // share sides / nest
                let (x0, x1) = (r.int(a.0 .0, a.1 .0 - 1), r.int(a.0 .0 + 1, a.1 .0));
                let (y0, y1) = (r.int(a.0 .1, a.1 .1 - 1), r.int(a.0 .1 + 1, a.1 .1));
                if x0 < x1 && y0 < y1 { b = ((x0, y0), (x1, y1)); }
                if r.chance(0.2) { b.1 .0 += r.int(0, 9); }
                if r.chance(0.2) { b.0 .1 -= r.int(0, 9); }
            }
            let (a, b) = if r.chance(0.5) { (a, b) } else { (b, a) };
            let (x, y) = (mkr(a), mkr(b));
            json!({"e": "rr", "a": gr(a), "b": gr(b), "rel": rel(x.relation_to(&y)), "arel": rel(x.almost_relation_to(&y)),
                "col": x.collides_with(&y) as i64, "acol": x.almost_collides_with(&y) as i64,
                "int": AARectangle::from_intersection(&x, &y).map_or(json!([]), |z| ur(&z)), "bnd": ur(&AARectangle::bounding_rectangle(&x, &y))})
        }
        2 => {
            let a = rrect(r, m);
            let x = mkr(a);
            let f = r.int(1, 12);
            json!({"e": "r1", "a": gr(a), "sq": ur(&x.inflate_to_square()), "f4": f, "sc": ur(&x.clone().scale(f as fsize / 4.0)),
                "qs": x.quadrants().iter().map(ur).collect::<Vec<_>>(), "cs": us(&x.corners()), "es": x.edges().iter().map(ue).collect::<Vec<_>>(),
                "w": u(x.width()), "h": u(x.height()), "pg": us(&SimplePolygon::from(x.clone()).points), "xy": x.corners().iter().map(|c| json!([u(c.x()), u(c.y())])).collect::<Vec<_>>(), "cen": up(&x.centroid()), "ar": area(x.area(), S), "dia": u(x.diameter()), "bb": ur(&x.bbox())})
        }
        3 | 4 => {
            let a = rrect(r, m);
            let p = if r.chance(0.5) { rp(r, m) } else { (r.int(a.0 .0 - 3, a.1 .0 + 3), r.int(a.0 .1 - 3, a.1 .1 + 3)) };
            let (x, y) = (mkr(a), pt(p));
            let mut v = border(&x, &y);
            v["e"] = json!("rp"); v["a"] = gr(a); v["p"] = gp(p); v["col"] = json!(x.collides_with(&y) as i64); v["acol"] = json!(x.almost_collides_with(&y) as i64);
            v
        }
        5 | 6 => {
            let a = rrect(r, m);
            let mut e = redge(r, m);
            if r.chance(0.5) { // aim at a corner region from both sides
                let c = (if r.chance(0.5) { a.0 .0 } else { a.1 .0 }, if r.chance(0.5) { a.0 .1 } else { a.1 .1 });
                let d = (r.int(-9, 9), r.int(-9, 9));
                let o = (r.int(-2, 2), r.int(-2, 2));
                let k = r.int(1, 4);
                let e2 = ((c.0 + o.0 - d.0, c.1 + o.1 - d.1), (c.0 + o.0 + k * d.0, c.1 + o.1 + k * d.1));
                if e2.0 != e2.1 { e = e2; }
            }
            let (x, y) = (mkr(a), mke(e));
            json!({"e": "re", "a": gr(a), "s": ge(e), "col": x.collides_with(&y) as i64, "col2": y.collides_with(&x) as i64})
        }
        7 | 8 => {
            let a = redge(r, m);
            let mut b = redge(r, m);
            if r.chance(0.4) { let p = near(r, a, m); let q = near(r, a, m); if p != q { b = (p, q); } }
            let (x, y) = (mke(a), mke(b));
            json!({"e": "ee", "a": ge(a), "b": ge(b), "col": x.collides_with(&y) as i64, "col2": y.clone().reverse().collides_with(&x) as i64,
                "at": x.collides_at(&y).map_or(json!([]), |p| up(&p))})
        }
        9 => {
            let a = redge(r, m);
            let p = near(r, a, m);
            let (x, y) = (mke(a), pt(p));
            let mut v = border(&x, &y);
            v["e"] = json!("ep"); v["a"] = ge(a); v["p"] = gp(p); v["cp"] = up(&x.closest_point_on_edge(&y));
            v
        }
        10 => {
            let a = redge(r, m);
            let x = mke(a);
            let (d, f) = (r.int(0, 2 * m), r.int(1, 12));
            let bb = if x.start.0 != x.end.0 && x.start.1 != x.end.1 { ur(&x.bbox()) } else { json!([u(x.x_min()), u(x.y_min()), u(x.x_max()), u(x.y_max())]) };
            json!({"e": "e1", "a": ge(a), "d": d * 64 / G, "f4": f, "fr": ue(&x.clone().extend_at_front(g(d))), "bk": ue(&x.clone().extend_at_back(g(d))),
                "sc": ue(&x.clone().scale(f as fsize / 4.0)), "rv": ue(&x.clone().reverse()), "len": u(x.diameter()), "cen": up(&x.centroid()), "bb": bb,
                "mm": [u(x.x_min()), u(x.y_min()), u(x.x_max()), u(x.y_max())]})
        }
        11 => {
            let (a, b) = (rcirc(r, m), rcirc(r, m));
            let (x, y) = (mkc(a), mkc(b));
            let mut v = border(&x, &y);
            v["e"] = json!("cc"); v["a"] = gc(a); v["b"] = gc(b); v["col"] = json!(x.collides_with(&y) as i64);
            v["ar"] = json!(area(x.area(), 4.0)); v["bb"] = ur(&x.bbox()); v["dia"] = json!(u(x.diameter())); v["cen"] = up(&x.centroid());
            v
        }
        12 => {
            let a = rcirc(r, m);
            let e = if r.chance(0.5) { redge(r, m) } else { let p = (a.0 .0 + a.1 + r.int(-2, 2), a.0 .1 + r.int(-a.1, a.1)); let q = (p.0 + r.int(-2, 2), p.1 + r.int(1, 20)); (p, q) };
            let (x, y) = (mkc(a), mke(e));
            let mut v = border(&x, &y);
            v["e"] = json!("ce"); v["a"] = gc(a); v["s"] = ge(e); v["col"] = json!(x.collides_with(&y) as i64);
            v
        }
        13 => {
            let a = rcirc(r, m);
            let q = rrect(r, m);
            let p = if r.chance(0.5) { rp(r, m) } else { (a.0 .0 + r.int(-a.1, a.1), a.0 .1 + r.int(-a.1, a.1)) };
            let (x, y, z) = (mkc(a), mkr(q), pt(p));
            let mut v = border(&x, &z);
            v["e"] = json!("cx"); v["a"] = gc(a); v["r"] = gr(q); v["p"] = gp(p);
            v["colr"] = json!(x.collides_with(&y) as i64); v["colp"] = json!(x.collides_with(&z) as i64); v["colp2"] = json!(z.collides_with(&x) as i64);
            v["pd"] = json!(u(z.distance(x.center))); v["pq"] = json!(u2(z.sq_distance(x.center)));
            v
        }
        _ => {
            let n = r.us(1, 6);
            let mut cs: Vec<(P, i64)> = (0..n).map(|_| rcirc(r, m)).collect();
            if r.chance(0.3) { let c = cs[0]; cs.push((c.0, r.int(1, m))); }
            if r.chance(0.3) { let c = cs[0]; let i = r.us(0, cs.len()); cs.insert(i, ((c.0 .0 + r.int(-2, 2), c.0 .1 + r.int(-2, 2)), r.int(1, m))); }
            let xs: Vec<Circle> = cs.iter().map(|c| mkc(*c)).collect();
            json!({"e": "cb", "cs": cs.iter().map(|c| gc(*c)).collect::<Vec<_>>(), "b": uc(&Circle::bounding_circle(xs.iter()))})
        }
    }
}

fn mksp(p: &[P]) -> SimplePolygon { SimplePolygon::new(p.iter().map(|q| pt(*q)).collect()) }

fn polyev(r: &mut Rng) -> Vec<Value> {
    let m = *r.pick(&[12i64, 30, 60, 120]);
    let (w, h) = (r.int(4, m), r.int(4, m));
    let p = gen::poly(r, w, h);
    let (dx, dy) = if r.chance(0.5) { (-w / 2, -h / 2) } else { (r.int(-m, m), r.int(-m, m)) };
    let p = gen::shift(&p, dx + far().0 * G, dy + far().1 * G);
    let x = match guard(|| mksp(&p)) { Ok(x) => x, Err(e) => return vec![json!({"e": "panic", "what": e, "p": gpoly(&p)})] };
    let b = bbox(&p);
    // the same shape from another starting vertex, in the other direction
    let mut p2 = p.clone();
    p2.reverse();
    let k = r.us(0, p.len() - 1);
    p2.rotate_left(k);
    let other = guard(|| mksp(&p2));
    let meas = |x: &SimplePolygon| json!({"ar": area(x.area(), 32.0), "bb": ur(&x.bbox()), "cen": up(&x.centroid()), "dia": u(x.diameter()), "poi": uc(&x.poi),
        "pts": us(&x.points), "sa": area(SimplePolygon::calculate_area(&x.points), 32.0)});
    let q = gen::poly(r, w, h);
    let (ox, oy) = rp(r, m);
    let q = gen::shift(&q, ox, oy);
    let two = guard(|| { let y = mksp(&q); us(&convex_hull_from_shapes([&x, &y])) });
    let mut cloud: Vec<P> = (0..r.us(3, 14)).map(|_| rp(r, *r.clone().pick(&[2i64, 6, m]))).collect();
    cloud.sort(); cloud.dedup(); r.shuffle(&mut cloud);
    let hull = guard(|| us(&convex_hull_from_points(cloud.iter().map(|c| pt(*c)).collect())));
    let rp_ = |x: &SimplePolygon| x.edge_iter().map(|e| ue(&e)).collect::<Vec<_>>();
    let mut out = vec![match (other, two, hull) {
        (Ok(y), Ok(two), Ok(hull)) => json!({"e": "poly", "p": gpoly(&p), "m": meas(&x), "m2": meas(&y), "n": x.number_of_points(),
            "hi": convex_hull_indices(&x).iter().map(|i| up(&x.points[*i])).collect::<Vec<_>>(), "q": gpoly(&q), "two": two, "cloud": gpoly(&cloud), "ch": hull, "es": rp_(&x)}),
        (a, b, c) => json!({"e": "panic", "what": [a.err().unwrap_or_default(), b.err().unwrap_or_default(), c.err().unwrap_or_default()]}),
    }];
    for _ in 0..12 {
        let pnt = match r.us(0, 3) {
            0 => rp(r, 2 * m),
            1 => { let v = *r.pick(&p); (v.0 + r.int(-20, 2), v.1) }   // level with a vertex
            2 => { let v = *r.pick(&p); (v.0 + r.int(-2, 2), v.1 + r.int(-2, 2)) }
            _ => (r.int(b.0, b.2), r.int(b.1, b.3)),
        };
        let z = pt(pnt);
        out.push(match guard(|| { let mut v = border(&x, &z); v["col"] = json!(x.collides_with(&z) as i64); v["col2"] = json!(z.collides_with(&x) as i64); v }) {
            Ok(mut v) => { v["e"] = json!("qp"); v["P"] = gpoly(&p); v["p"] = gp(pnt); v }
            Err(e) => json!({"e": "panic", "what": e, "P": gpoly(&p), "p": gp(pnt)}),
        });
    }
    out
}

pub fn measure(args: &Args) -> R {
    let n = args.n("prims", args.q(6000, 100_000));
    let np = args.n("polys", args.q(250, 4000));
    let out = parallel(8, args.seed ^ 0xC17, |_, mut r| {
        let mut out = Out::new();
        for _ in 0..n / 8 {
            regime(&mut r);
            let before = r.clone();
            match guard(|| { let mut q = before.clone(); (prim(&mut q), q) }) {
                Ok((v, q)) => { r = q; out.push(false, vec![v]) }
                Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); r.int(0, 9); }
            }
        }
        for _ in 0..np { regime(&mut r); let v = polyev(&mut r); let hot = v.iter().any(|x| x["e"] == "panic"); out.push(hot, v); }
        out
    });
    finish(args, out, json!({"primitives": n, "polygons": np * 8}))
}

// ---- C14 ------------------------------------------------------------------------------------------
/// shapes with many vertices: bumps and notches along the sides
fn bumpy(r: &mut Rng, w: i64, h: i64) -> Poly {
    for _ in 0..50 {
        if r.chance(0.5) {
            // tangled: narrow corridors, spikes facing corners
            let (mut n, (w, h)) = (r.us(5, 26), (w.min(*r.clone().pick(&[10i64, 20, 60])), h.min(*r.clone().pick(&[10i64, 20, 60]))));
            if r.chance(0.3) { n = r.us(5, 10); }
            if let Some(mut p) = gen::two_opt(r, w, h, n) {
                if is_simple(&p) { if area2(&p) < 0 { p.reverse(); } return p; }
            }
            continue;
        }
        let p = gen::poly(r, w, h);
        if r.chance(0.3) { return p; }
        let n = p.len();
        let mut q = vec![];
        for i in 0..n {
            let (a, b) = (p[i], p[(i + 1) % n]);
            q.push(a);
            for t in 1..=r.int(0, 3) {
                let s = r.int(1, 2);
                let c = (a.0 + (b.0 - a.0) * t / 4 + r.int(-s, s), a.1 + (b.1 - a.1) * t / 4 + r.int(-s, s));
                if !q.contains(&c) { q.push(c); }
            }
        }
        if q.len() <= 40 && is_simple(&q) { return q; }
    }
    gen::poly(r, w, h)
}

pub fn simplify(args: &Args) -> R {
    let n = args.n("shapes", args.q(4000, 60_000));
    let keep = args.n("keep", 1000) as f64 / 1000.0;
    let reduced = std::sync::atomic::AtomicUsize::new(0);
    let files = args.n("parsed", args.q(60, 1000));
    let out = parallel(8, args.seed ^ 0xC14, |_, mut r| {
        let mut out = Out::new();
        for _ in 0..n / 8 {
            regime(&mut r);
            let m = *r.pick(&[16i64, 40, 80, 120]);
            let (w, h) = (r.int(8, m), r.int(8, m));
            let p = bumpy(&mut r, w, h);
            let p = if r.chance(0.5) { gen::shift(&p, r.int(-m, m), r.int(-m, m)) } else { p };
            let p = gen::shift(&p, far().0 * G, far().1 * G);
            let tol = *r.pick(&[0i64, 1, 5, 10, 20, 50, 100, 300, 600, 800]);
            let inflate = r.chance(0.5);
            let res = guard(|| {
                let s = mksp(&p);
                simplify_shape(&s, if inflate { PolySimplMode::Inflate } else { PolySimplMode::Deflate }, tol as fsize / 1000.0)
            });
            match res {
                Ok(q) => {
                    if q.points.len() < p.len() { reduced.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                    let g: Poly = p.iter().map(|c| (c.0 * 16, c.1 * 16)).collect();
                    let z: Poly = q.points.iter().map(|c| ((c.0 as f64 / unit() * 64.0).round() as i64, (c.1 as f64 / unit() * 64.0).round() as i64)).collect();
                    let (a, b) = if inflate { (&g, &z) } else { (&z, &g) };
                    let hot = self_cross(&z, 2) || area2(&z) <= 0 || a.iter().any(|x| pin3(*x, b, 2) == -1) || b.iter().any(|x| pin3(*x, a, 2) == 1)
                        || (area2(&z) - area2(&g).abs()).abs() as f64 > area2(&g).abs() as f64 * (tol as f64 / 1000.0 + 0.002) + 40.0 * perimeter(&g);
                    // a vertex far away (nearly parallel sides) carries more rounding error than the shape is large
                    if z.iter().any(|c| (c.0 - far().0 * 64).abs().max((c.1 - far().1 * 64).abs()) > 64 * 2000) { continue; }
                    let lost = p.len() - q.points.len().min(p.len());
                    if !hot && !(lost > 0 && r.chance(keep)) && !r.chance(keep / 4.0) { continue; }
                    out.push(hot, vec![json!({"e": "simp", "P": gpoly(&p), "Q": us(&q.points), "inf": inflate as i64, "tol": tol, "ar": area(q.area(), 32.0)})]);
                }
                Err(e) => out.push(true, vec![json!({"e": "panic", "what": e, "P": gpoly(&p)})]),
            }
        }
        for _ in 0..files {
            plain();
            let tol = *r.pick(&[1i64, 10, 50, 200]);
            for v in crate::io::simplified(&mut r, PolySimplConfig::Enabled { tolerance: tol as fsize / 1000.0 }, tol) {
                out.push(v["e"] == "panic", vec![v]);
            }
        }
        out
    });
    finish(args, out, json!({"shapes": n, "reduced": reduced.into_inner(), "files": files * 8}))
}
