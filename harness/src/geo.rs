//! Stateless engine queries (C01, C03, C04, C05, C07): random worlds, recorded answers.
use crate::gen;
use crate::igeo::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use crate::Args;
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::collision_detection::hazard_filter::*;
use jagua_rs::entities::item::Item;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::transformation::Transformation;
use serde_json::{json, Value};
use tribool::Tribool;

type R = Result<(), String>;

pub fn finish(args: &Args, out: Out, stats: Value) -> R {
    let n: usize = out.blocks.iter().map(|b| b.1.len()).sum();
    let hot = out.blocks.iter().filter(|b| b.0).count();
    out.write(&args.out, args.n("files", 8)).map_err(|e| e.to_string())?;
    let mut s = stats;
    s["events"] = json!(n);
    s["hot_blocks"] = json!(hot);
    std::fs::write(format!("{}/stats.json", args.out), s.to_string()).map_err(|e| e.to_string())
}

/// just overlapping some hazard, or just not: by a few hundredths of a unit
fn kiss(r: &mut Rng, w: &World, p: &[P]) -> Place {
    let h = &w.polys[r.us(0, w.polys.len() - 1)];
    let rot = if r.chance(0.5) { r.int(0, 3) as f64 * std::f64::consts::FRAC_PI_2 } else { (r.f() - 0.5) * std::f64::consts::TAU };
    let q = Place::free(rot, 0.0, 0.0).apply(p, w.scale);
    let d = r.int(-8, 14) as f64;
    let (tx, ty) = if r.chance(0.5) {
        // side by side
        let (a, b) = (bbox(&q), bbox(h));
        let along = |r: &mut Rng, lo: i64, hi: i64, l: i64, u: i64| r.int((lo - u).min(hi - l), (lo - u).max(hi - l)) as f64;
        match r.us(0, 3) {
            0 => ((b.0 - a.2) as f64 + d, along(r, b.1, b.3, a.1, a.3)),
            1 => ((b.2 - a.0) as f64 - d, along(r, b.1, b.3, a.1, a.3)),
            2 => (along(r, b.0, b.2, a.0, a.2), (b.1 - a.3) as f64 + d),
            _ => (along(r, b.0, b.2, a.0, a.2), (b.3 - a.1) as f64 - d),
        }
    } else {
        // a corner on an edge, of either with the other
        let (x, y, one) = if r.chance(0.5) { (&q, h, 1.0) } else { (h, &q, -1.0) };
        let v = x[r.us(0, x.len() - 1)];
        let i = r.us(0, y.len() - 1);
        let (a, b) = (y[i], y[(i + 1) % y.len()]);
        let (ex, ey) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
        let l = (ex * ex + ey * ey).sqrt().max(1.0);
        let t = r.f();
        let (fx, fy) = (a.0 as f64 + t * ex - d * ey / l, a.1 as f64 + t * ey + d * ex / l);
        (one * (fx - v.0 as f64), one * (fy - v.1 as f64))
    };
    let s = w.scale as f64;
    Place::free(rot, tx / s, ty / s)
}
/// a placement of shape p chosen to be interesting in world w
pub fn query_place(r: &mut Rng, w: &World, p: &[P]) -> Place {
    let ob = bbox(&w.outer);
    if !w.lattice && !w.polys.is_empty() && r.chance(0.3) { return kiss(r, w, p); }
    let m = r.us(0, 9);
    if m < 4 || w.polys.is_empty() {
        w.rand_place(r, p, ob)
    } else if m == 4 {
        // anywhere around the bin, possibly outside
        let s = (ob.2 - ob.0).max(ob.3 - ob.1) / 2 + 1;
        w.rand_place(r, p, (ob.0 - s, ob.1 - s, ob.2 + s, ob.3 + s))
    } else {
        // close to some hazard: same box region, inflated or deflated a bit
        let j = r.us(0, w.polys.len() - 1);
        let b = bbox(&w.polys[j]);
        let b = (b.0.div_euclid(w.scale), b.1.div_euclid(w.scale), b.2.div_euclid(w.scale) , b.3.div_euclid(w.scale));
        let d = r.int(0, 2);
        w.rand_place(r, p, (b.0 - d, b.1 - d, b.2 + d, b.3 + d))
    }
}
pub fn rand_ignore(r: &mut Rng, w: &World) -> Vec<usize> {
    let n = w.ents.len();
    let mut v = vec![];
    match r.us(0, 4) {
        0 | 1 => {}
        2 => v.push(r.us(0, n - 1)),
        _ => for i in 0..n { if r.chance(0.3) { v.push(i); } },
    }
    if r.chance(0.7) { v.retain(|i| *i != 0); }
    r.shuffle(&mut v);
    v
}
fn one_based(v: &[usize]) -> Vec<usize> { v.iter().map(|i| i + 1).collect() }
pub fn ents_of(w: &World, v: &[usize]) -> Vec<HazardEntity> { v.iter().map(|i| w.ents[*i]).collect() }

pub fn opts(r: &mut Rng, quick: bool) -> WOpts {
    let scale = *r.pick(&[1, 1, 1, 64]);
    WOpts { scale, size: if scale == 1 { *r.pick(&[12, 24, 40, 64]) } else { *r.pick(&[16, 30]) }, max_items: if r.chance(0.06) { r.us(15, 30) } else { r.us(0, if quick { 7 } else { 12 }) },
        grid: r.chance(0.2), piers: false, zones: r.chance(0.4), shapes: r.us(1, 5), exact: r.chance(0.3), fine: 1 }
}

fn b01(r: &Result<bool, String>) -> i64 { match r { Ok(true) => 1, Ok(false) => 0, Err(_) => 2 } }

/// triage only: 1/0/-1(unknown)
fn expected(w: &World, p: &[P], ig: &[usize]) -> i32 {
    let mut e = 0;
    for i in 0..w.ents.len() {
        if ig.contains(&i) { continue; }
        match w.tri(i, p) { 1 => return 1, 0 => e = -1, _ => {} }
    }
    e
}

pub fn in_bounds(w: &World, p: &[P]) -> bool {
    let b = bbox(p); let o = w.bounds();
    let k = if w.exact() { -1 } else { 2 * w.k };
    2 * b.0 - k > o.0 && 2 * b.1 - k > o.1 && 2 * b.2 + k < o.2 && 2 * b.3 + k < o.3
}

/// C01: yes/no collision verdicts
pub fn collide(args: &Args) -> R {
    let worlds = args.n("worlds", args.q(60, 700));
    let queries = args.n("queries", args.q(400, 600));
    let keep = args.n("keep", args.q(12, 40));
    let total = std::sync::atomic::AtomicUsize::new(0);
    let verdicts: [std::sync::atomic::AtomicUsize; 3] = Default::default();
    let out = parallel(8, args.seed ^ 0xC01, |_, mut r| {
        let mut out = Out::new();
        for _ in 0..worlds {
            regime(&mut r);
            let o = opts(&mut r, !args.thorough);
            let w = match World::random(&mut r, &o) { Ok(w) => w, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            let e = match w.engine() { Ok(e) => e, Err(m) => { out.push(true, vec![w.json(), json!({"e": "panic", "what": m})]); continue } };
            let (mut hot, mut cold) = (vec![w.json()], vec![]);
            for _ in 0..queries {
                let si = r.us(0, w.base.len() - 1);
                let pl = query_place(&mut r, &w, &w.base[si]);
                let pp = pl.apply(&w.base[si], w.scale);
                let ig = rand_ignore(&mut r, &w);
                if !in_bounds(&w, &pp) && ig.contains(&0) { continue; }
                let ige = ents_of(&w, &ig);
                let t = pl.dt().compose();
                let item = &w.items[si];
                let pc = guard(|| e.poly_collides(&item.shape.transform_clone(&t), &ige));
                let sc = guard(|| { let mut buf = item.shape.as_ref().clone(); e.surrogate_or_poly_collides(&item.shape, &t, &mut buf, &ige) });
                total.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let ex = expected(&w, &pp, &ig);
                verdicts[(ex + 1) as usize].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let ev = json!({"e": "q", "p": jpoly(&pp), "ig": one_based(&ig), "pc": b01(&pc), "sc": b01(&sc)});
                let sus = b01(&pc) == 2 || b01(&sc) == 2 || (ex >= 0 && (b01(&pc) != ex as i64 || b01(&sc) != ex as i64));
                if sus { if hot.len() < 20 { hot.push(ev); } } else if ex >= 0 || w.exact() { cold.push(ev); }
            }
            if hot.len() > 1 { out.push(true, hot); }
            r.shuffle(&mut cold); cold.truncate(keep);
            let mut b = vec![w.json()]; b.extend(cold); out.push(false, b);
        }
        out
    });
    let v = |i: usize| verdicts[i].load(std::sync::atomic::Ordering::Relaxed);
    finish(args, out, json!({"queries": total.into_inner(), "triage_collide": v(2), "triage_free": v(1), "triage_unknown": v(0)}))
}

/// C03: enumeration
pub fn collect(args: &Args) -> R {
    let worlds = args.n("worlds", args.q(60, 700));
    let queries = args.n("queries", args.q(300, 500));
    let keep = args.n("keep", args.q(10, 40));
    let total = std::sync::atomic::AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC03, |_, mut r| {
        let mut out = Out::new();
        for _ in 0..worlds {
            regime(&mut r);
            let mut o = opts(&mut r, !args.thorough);
            o.zones = r.chance(0.6);
            let w = match World::random(&mut r, &o) { Ok(w) => w, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            let e = match w.engine() { Ok(e) => e, Err(m) => { out.push(true, vec![w.json(), json!({"e": "panic", "what": m})]); continue } };
            let n = w.ents.len();
            // a few extra shapes that enclose the bin or large parts of it
            let ob = bbox(&w.outer);
            let big: Poly = vec![(ob.0 - 2, ob.1 - 3), (ob.2 + 3, ob.1 - 2), (ob.2 + 2, ob.3 + 4), (ob.0 - 4, ob.3 + 2)];
            let (mut hot, mut cold) = (vec![w.json()], vec![]);
            for qi in 0..queries {
                let (shape, pp) = if qi % 60 == 7 {
                    (Some(sp(&big)), scaled(&big, w.scale))
                } else {
                    let si = r.us(0, w.base.len() - 1);
                    let pl = query_place(&mut r, &w, &w.base[si]);
                    (guard(|| w.items[si].shape.transform_clone(&pl.dt().compose())).ok(), pl.apply(&w.base[si], w.scale))
                };
                let ig = rand_ignore(&mut r, &w);
                let mut pre: Vec<usize> = if r.chance(0.3) { (0..n).collect() } else { vec![] };
                r.shuffle(&mut pre); pre.truncate(r.us(0, 2));
                let (ige, mut buf) = (ents_of(&w, &ig), ents_of(&w, &pre));
                let shape = match shape { Some(s) => s, None => continue };
                let res = guard(|| { e.collect_poly_collisions(&shape, &ige, &mut buf); e.poly_collides(&shape, &ige) });
                total.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let got: Vec<i64> = buf.iter().map(|x| idx_of(&w.ents, x)).collect();
                let ev = json!({"e": "col", "p": jpoly(&pp), "ig": one_based(&ig), "pre": one_based(&pre), "got": got, "pc": b01(&res)});
                let mut sus = res.is_err() || got.len() < pre.len();
                if !sus {
                    let new = &got[pre.len()..];
                    for i in 0..n {
                        let v = w.tri(i, &pp);
                        let c = new.iter().filter(|x| **x == i as i64 + 1).count();
                        let skip = ig.contains(&i) || pre.contains(&i);
                        if c > 1 || (skip && c > 0) || (!skip && v == 1 && c == 0) || (v == -1 && c > 0) { sus = true; }
                    }
                }
                if sus { if hot.len() < 16 { hot.push(ev); } } else { cold.push(ev); }
            }
            if hot.len() > 1 { out.push(true, hot); }
            r.shuffle(&mut cold); cold.truncate(keep);
            let mut b = vec![w.json()]; b.extend(cold); out.push(false, b);
        }
        out
    });
    finish(args, out, json!({"queries": total.into_inner()}))
}

fn fx(v: fsize, s: f64) -> i64 { let x = v as f64 / unit() * s; if x.is_finite() { (x.round() as i64).clamp(-1_000_000, 1_000_000) } else { 1_000_000 } }

/// C04: surrogates lie inside their shape; fail-fast reports are real collisions
pub fn failfast(args: &Args) -> R {
    // (a) surrogates of many shapes
    let shapes = args.n("shapes", args.q(150, 1500));
    let piers = args.n("piers", 1) == 1;
    let engine_too = args.n("engine", 1) == 1;
    let nsur = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::atomic::AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC04, |_, mut r| {
        let mut out = Out::new();
        for _ in 0..shapes {
            regime(&mut r);
            let m = *r.pick(&[6i64, 12, 20, 30]);
            let (a, b) = (r.int(2, m), r.int(2, m));
            let mut p = gen::poly(&mut r, a, b);
            match r.us(0, 3) { 0 => (), 1 => { let (x, y) = (r.int(-60, 60), r.int(-60, 60)); for q in p.iter_mut() { q.0 += x; q.1 += y; } } _ => p = gen::centered(&p) }
            let mut c = surr(&mut r, piers);
            if r.chance(0.5) { c.max_poles = r.us(3, 12); c.pole_coverage_goal = 0.95; c.n_ff_poles = r.us(1, 4); }
            let pl = if r.chance(0.3) { Place::lattice(r.int(0, 3), r.int(-5, 5), r.int(-5, 5)) } else { Place::free(0.0, 0.0, 0.0) };
            let ident = pl.quarter.is_none();
            let res = guard(|| {
                let mut s = sp(&p); s.generate_surrogate(c);
                if ident { s } else { s.transform_clone(&pl.dt().compose()) }
            });
            let pp = if ident { p.clone() } else { pl.apply(&p, 1) };
            nsur.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            match res {
                Err(m) => out.push(true, vec![json!({"e": "panic", "what": m, "p": jpoly(&p)})]),
                Ok(s) => {
                    let sc = 64.0;
                    let su = s.surrogate();
                    let circ = |c: &Circle| json!([fx(c.center.0, sc), fx(c.center.1, sc), fx(c.radius, sc)]);
                    let poles: Vec<Value> = su.poles.iter().map(circ).collect();
                    let piers: Vec<Value> = su.piers.iter().map(|e| json!([[fx(e.start.0, sc), fx(e.start.1, sc)], [fx(e.end.0, sc), fx(e.end.1, sc)]])).collect();
                    // triage: piers with a sample point outside
                    let mut hot = false;
                    for e in &su.piers { for t in 1..8 {
                        let q = (((e.start.0 as f64 + (e.end.0 - e.start.0) as f64 * t as f64 / 8.0) * 64.0 / unit()).round() as i64,
                                 ((e.start.1 as f64 + (e.end.1 - e.start.1) as f64 * t as f64 / 8.0) * 64.0 / unit()).round() as i64);
                        if pin3(q, &scaled(&pp, 64), 3) == -1 { hot = true; }
                    } }
                    for c in &su.poles { for t in 0..8 {
                        let an = t as f64 * std::f64::consts::FRAC_PI_4;
                        let q = (((c.center.0 as f64 + c.radius as f64 * an.cos()) * 64.0 / unit()).round() as i64, ((c.center.1 as f64 + c.radius as f64 * an.sin()) * 64.0 / unit()).round() as i64);
                        if pin3(q, &scaled(&pp, 64), 4) == -1 { hot = true; }
                    } }
                    out.push(hot, vec![json!({"e": "sur", "p": jpoly(&scaled(&pp, 64)), "poles": poles, "piers": piers,
                        "poi": circ(&s.poi), "nff": su.n_ff_poles, "cmax": c.max_poles, "cnff": c.n_ff_poles, "cpier": c.n_ff_piers,
                        "bc": circ(&su.poles_bounding_circle),
                        "ffp": su.ff_poles().len(), "ffs": su.ff_piers().len()})]);
                }
            }
        }
        if !engine_too { return out; }
        // (b) engine level
        for _ in 0..args.n("worlds", args.q(25, 250)) {
            regime(&mut r);
            let mut o = opts(&mut r, !args.thorough); o.piers = piers;
            let w = match World::random(&mut r, &o) { Ok(w) => w, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            let e = match w.engine() { Ok(e) => e, Err(m) => { out.push(true, vec![w.json(), json!({"e": "panic", "what": m})]); continue } };
            let (mut hot, mut cold) = (vec![w.json()], vec![]);
            for _ in 0..args.n("queries", 300) {
                let si = r.us(0, w.base.len() - 1);
                let pl = query_place(&mut r, &w, &w.base[si]);
                let pp = pl.apply(&w.base[si], w.scale);
                let ig = rand_ignore(&mut r, &w);
                if !in_bounds(&w, &pp) && ig.contains(&0) { continue; }
                let ige = ents_of(&w, &ig);
                let t = pl.dt().compose();
                let su = w.items[si].shape.surrogate();
                let mut pre: Vec<usize> = if r.chance(0.2) { vec![r.us(0, w.ents.len() - 1)] } else { vec![] };
                if r.chance(0.5) { pre.retain(|i| !ig.contains(i)); }
                let mut buf = ents_of(&w, &pre);
                let sc = guard(|| { e.collect_surrogate_collisions(su, &t, &ige, &mut buf); e.surrogate_collides(su, &t, &ige) });
                total.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let got: Vec<i64> = buf.iter().map(|x| idx_of(&w.ents, x)).collect();
                let ex = expected(&w, &pp, &ig);
                let ev = json!({"e": "ff", "p": jpoly(&pp), "ig": one_based(&ig), "pre": one_based(&pre), "got": got, "sc": b01(&sc)});
                let sus = sc.is_err() || (ex == 0 && b01(&sc) == 1) || (pre.is_empty() && (b01(&sc) == 1) == got.is_empty())
                    || got.iter().skip(pre.len()).any(|g| *g == 0 || w.tri(*g as usize - 1, &pp) == -1);
                if sus { if hot.len() < 16 { hot.push(ev); } } else if b01(&sc) == 1 || r.chance(0.3) { cold.push(ev); }
            }
            if hot.len() > 1 { out.push(true, hot); }
            r.shuffle(&mut cold); cold.truncate(args.n("keep", args.q(12, 40)));
            let mut b = vec![w.json()]; b.extend(cold); out.push(false, b);
        }
        out
    });
    finish(args, out, json!({"surrogates": nsur.into_inner(), "queries": total.into_inner()}))
}

fn tb(t: Tribool) -> i64 { match t { Tribool::True => 1, Tribool::False => 0, Tribool::Indeterminate => -1 } }
fn tbr(t: Result<Tribool, String>) -> i64 { t.map_or(2, tb) }

fn sample_pt(r: &mut Rng, w: &World) -> P {
    let s = w.scale;
    let b = bbox(&w.polys[r.us(0, w.polys.len() - 1)]);
    let o = bbox(&w.polys[0]);
    let m = r.us(0, 9);
    if m < 5 { (r.int(b.0 - s, b.2 + s), r.int(b.1 - s, b.3 + s)) } else if m < 9 { (r.int(o.0, o.2), r.int(o.1, o.3)) }
    else { (r.int(o.0 - 9 * s, o.2 + 9 * s), r.int(o.1 - 9 * s, o.3 + 9 * s)) }
}

/// C05: broad-phase queries; also with removals pending
pub fn broad(args: &Args) -> R {
    let worlds = args.n("worlds", args.q(60, 500));
    let queries = args.n("queries", args.q(150, 300));
    let total = std::sync::atomic::AtomicUsize::new(0);
    let definite = std::sync::atomic::AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC05, |_, mut r| {
        let mut out = Out::new();
        for _ in 0..worlds {
            regime(&mut r);
            let mut o = opts(&mut r, true);
            o.scale = 1; o.size = *r.pick(&[8, 12, 24, 30]); o.fine = 4; o.max_items = r.us(0, 5);
            let w = match World::random(&mut r, &o) { Ok(w) => w, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            let mut e = match w.engine() { Ok(e) => e, Err(m) => { out.push(true, vec![w.json(), json!({"e": "panic", "what": m})]); continue } };
            // some removals, pending or committed, some re-registered
            let mut gone: Vec<usize> = vec![];
            if r.chance(0.5) {
                for j in 0..w.placed.len() { if r.chance(0.4) {
                    let ent = w.ents[w.n_static + j];
                    let inst = r.chance(0.3);
                    e.deregister_hazard(ent, inst);
                    if r.chance(0.2) { e.register_hazard(w.hazard(j)); } else { gone.push(w.n_static + j); }
                } }
                if r.chance(0.2) { e.commit_deregisters(); }
            }
            let mut b = vec![w.json()];
            let f = |v: i64| (v as f64 / w.scale as f64 * unit()) as fsize;
            let present: Vec<usize> = (0..w.ents.len()).filter(|i| !gone.contains(i)).collect();
            for _ in 0..queries {
                total.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let ig: Vec<usize> = rand_ignore(&mut r, &w);
                let ige = ents_of(&w, &ig);
                // what must not matter: ignored and removed
                let mut off = ig.clone(); off.extend(gone.iter().filter(|g| !ig.contains(g)));
                let off1 = one_based(&off);
                match r.us(0, 5) {
                    0 => {
                        let p = sample_pt(&mut r, &w);
                        let i = if !gone.is_empty() && r.chance(0.25) { *r.pick(&gone) } else { *r.pick(&present) };
                        let t = tbr(guard(|| e.point_definitely_collides_with(&Point(f(p.0), f(p.1)), w.ents[i])));
                        if t >= 0 { definite.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                        b.push(json!({"e": "dpt", "x": [p.0, p.1], "i": i + 1, "gone": gone.contains(&i) as i64, "r": t}));
                    }
                    1 | 2 => {
                        let (a, c) = (sample_pt(&mut r, &w), sample_pt(&mut r, &w));
                        let c = if r.chance(0.5) { c } else { (a.0 + r.int(-8, 8), a.1 + r.int(-8, 8)) };
                        if a == c { continue; }
                        let ed = Edge::new(Point(f(a.0), f(a.1)), Point(f(c.0), f(c.1)));
                        let t = tbr(guard(|| e.edge_definitely_collides(&ed, &ige)));
                        if t >= 0 { definite.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                        b.push(json!({"e": "ded", "a": [a.0, a.1], "b": [c.0, c.1], "off": off1, "r": t}));
                        within(&mut b, &w, &e, &ed, &ig, &ige, &off1, json!({"t": "edge", "a": [a.0, a.1], "b": [c.0, c.1]}), &mut r);
                    }
                    3 => {
                        let a = sample_pt(&mut r, &w); let rad = r.int(1, 10 * w.scale);
                        let rad = if r.chance(0.5) { 1 + rad % 8 } else { rad };
                        let c = Circle::new(Point(f(a.0), f(a.1)), f(rad));
                        let t = tbr(guard(|| e.circle_definitely_collides(&c, &ige)));
                        if t >= 0 { definite.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                        b.push(json!({"e": "dci", "c": [a.0, a.1], "rad": rad, "off": off1, "r": t}));
                        within(&mut b, &w, &e, &c, &ig, &ige, &off1, json!({"t": "circ", "c": [a.0, a.1], "rad": rad}), &mut r);
                    }
                    _ => {
                        let a = sample_pt(&mut r, &w);
                        let big = r.chance(0.3);
                        let (dw, dh) = (r.int(1, if big { 12 * w.scale } else { 10 }), r.int(1, if big { 12 * w.scale } else { 10 }));
                        let rc = AARectangle::new(f(a.0), f(a.1), f(a.0 + dw), f(a.1 + dh));
                        within(&mut b, &w, &e, &rc, &ig, &ige, &off1, json!({"t": "rect", "b": [a.0, a.1, a.0 + dw, a.1 + dh]}), &mut r);
                    }
                }
            }
            out.push(false, b);
        }
        out
    });
    finish(args, out, json!({"queries": total.into_inner(), "definite": definite.into_inner()}))
}

fn within<T: jagua_rs::collision_detection::quadtree::qt_traits::QTQueryable>(b: &mut Vec<Value>, w: &World, e: &CDEngine, q: &T, ig: &[usize],
    ige: &[HazardEntity], off1: &[usize], mut what: Value, r: &mut Rng) {
    let mut pre: Vec<usize> = if r.chance(0.2) { vec![r.us(0, w.ents.len() - 1)] } else { vec![] };
    if r.chance(0.5) { pre.retain(|i| !ig.contains(i)); }
    let mut buf = ents_of(w, &pre);
    let res = guard(|| e.hazards_within(q, ige, &mut buf));
    let got: Vec<i64> = buf.iter().map(|x| idx_of(&w.ents, x)).collect();
    what["e"] = json!("hw");
    what["off"] = json!(off1);
    what["pre"] = json!(one_based(&pre));
    what["got"] = json!(got);
    what["ok"] = json!(if res.is_ok() { 1 } else { 0 });
    b.push(what);
}

/// C07: quality zones
pub fn quality(args: &Args) -> R {
    let worlds = args.n("worlds", args.q(80, 600));
    let queries = args.n("queries", args.q(60, 150));
    let total = std::sync::atomic::AtomicUsize::new(0);
    let out = parallel(8, args.seed ^ 0xC07, |_, mut r| {
        let mut out = Out::new();
        for _ in 0..worlds {
            regime(&mut r);
            let mut o = opts(&mut r, true);
            o.zones = true; o.max_items = r.us(0, 3); o.scale = *r.pick(&[1, 1, 64]);
            o.size = if o.scale == 1 { *r.pick(&[12, 24]) } else { *r.pick(&[12, 24, 30]) };
            let w = match World::random(&mut r, &o) { Ok(w) => w, Err(e) => { out.push(true, vec![json!({"e": "panic", "what": e})]); continue } };
            let e = match w.engine() { Ok(e) => e, Err(m) => { out.push(true, vec![w.json(), json!({"e": "panic", "what": m})]); continue } };
            let n = w.ents.len();
            let ix = |v: Vec<HazardEntity>| -> Vec<i64> { v.iter().map(|x| idx_of(&w.ents, x)).collect() };
            let (mut b, mut hot) = (vec![w.json()], false);
            for _ in 0..queries {
                total.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let q: i64 = r.int(-1, 10);
                let bq = if q < 0 { None } else { Some(q as usize) };
                match r.us(0, 2) {
                    0 => {
                        // filters alone and combined
                        let (ub, uq, ue) = (r.chance(0.3), r.chance(0.6), r.chance(0.5));
                        let list: Vec<usize> = (0..n).filter(|_| r.chance(0.3)).collect();
                        let (fb, fq, fe) = (BinHazardFilter, QZHazardFilter(q.max(0) as usize), EntityHazardFilter(ents_of(&w, &list)));
                        let mut fs: Vec<Box<&dyn HazardFilter>> = vec![];
                        if ub { fs.push(Box::new(&fb)); }
                        if uq { fs.push(Box::new(&fq)); }
                        if ue { fs.push(Box::new(&fe)); }
                        r.shuffle(&mut fs);
                        let one = fs.len() == 1 && r.chance(0.5);
                        let got = guard(|| if one && ub { generate_irrelevant_hazards(&fb, e.all_hazards()) }
                            else if one && uq { generate_irrelevant_hazards(&fq, e.all_hazards()) }
                            else if one { generate_irrelevant_hazards(&fe, e.all_hazards()) }
                            else { generate_irrelevant_hazards(&CombinedHazardFilter { filters: fs }, e.all_hazards()) });
                        b.push(json!({"e": "filt", "bin": ub as i64, "cut": if uq { q.max(0) } else { -1 }, "ents": if ue { one_based(&list) } else { vec![] },
                            "got": got.map(ix).unwrap_or(vec![0])}));
                    }
                    _ => {
                        // an item with this quality, checked with its own filter
                        let si = r.us(0, w.base.len() - 1);
                        let item = Item::new(900 + si, w.items[si].shape.as_ref().clone(), AllowedRotation::None, bq, 0, Transformation::empty(), w.cfg.item_surrogate_config);
                        let pl = query_place(&mut r, &w, &w.base[si]);
                        let pp = pl.apply(&w.base[si], w.scale);
                        if !in_bounds(&w, &pp) { continue; }
                        let t = pl.dt().compose();
                        let irr = guard(|| match &item.hazard_filter { None => vec![], Some(f) => generate_irrelevant_hazards(f, e.all_hazards()) });
                        let irr = match irr { Ok(i) => i, Err(_) => { hot = true; b.push(json!({"e": "panic", "what": "filter"})); continue } };
                        let pc = guard(|| { let mut buf = item.shape.as_ref().clone(); e.surrogate_or_poly_collides(&item.shape, &t, &mut buf, &irr) });
                        b.push(json!({"e": "qz", "p": jpoly(&pp), "q": q, "irr": ix(irr), "pc": b01(&pc)}));
                    }
                }
            }
            // the proximity grid, per quality
            if w.cfg.hpg_n_cells > 0 && w.hpg_ok() {
                if let Ok(g) = e.haz_prox_grid() {
                    let cells: Vec<_> = g.grid.cells.iter().flatten().collect();
                    for _ in 0..12.min(cells.len()) {
                        let c = cells[r.us(0, cells.len() - 1)];
                        for q in -1..=10i64 {
                            let bq = if q < 0 { None } else { Some(q as usize) };
                            let v = guard(|| c.hazard_proximity(bq));
                            b.push(json!({"e": "hp", "c": [fx(c.bbox.centroid().0, w.scale as f64), fx(c.bbox.centroid().1, w.scale as f64)], "q": q,
                                "d": v.map_or(-9999, |d| fx(d, w.scale as f64))}));
                        }
                    }
                }
            }
            out.push(hot, b);
        }
        out
    });
    finish(args, out, json!({"queries": total.into_inner()}))
}
