//! Input generators: simple polygons with integer vertices, in many styles.
use crate::igeo::*;
use crate::rng::Rng;

/// shape is thick enough that its pole of inaccessibility is well defined
pub fn thick(p: &[P], min_ratio: f64) -> bool {
    let a = area2(p).abs() as f64 / 2.0;
    let b = bbox(p);
    let d = ((b.2 - b.0).max(b.3 - b.1)) as f64;
    a / perimeter(p) >= min_ratio && a / perimeter(p) >= d * 0.02
}

fn star(r: &mut Rng, w: i64, h: i64, n: usize) -> Option<Poly> {
    let (cx, cy) = (w as f64 / 2.0, h as f64 / 2.0);
    let mut ang: Vec<f64> = (0..n).map(|i| (i as f64 + r.f() * 0.8) / n as f64 * std::f64::consts::TAU).collect();
    ang.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let lo = if r.chance(0.5) { 0.3 } else { 0.75 };
    let p: Poly = ang.iter().map(|a| {
        let s = lo + (1.0 - lo) * r.f();
        ((cx + a.cos() * s * cx).round() as i64, (cy + a.sin() * s * cy).round() as i64)
    }).collect();
    Some(p)
}

pub fn two_opt(r: &mut Rng, w: i64, h: i64, n: usize) -> Option<Poly> {
    if ((w + 1) * (h + 1)) < 2 * n as i64 { return None; }
    let mut p: Poly = vec![];
    while p.len() < n {
        let q = (r.int(0, w), r.int(0, h));
        if !p.contains(&q) { p.push(q); }
    }
    for _ in 0..200 {
        let mut found = None;
        'o: for i in 0..n { for j in (i + 2)..n {
            if i == 0 && j == n - 1 { continue; }
            if seg_meet(p[i], p[i + 1], p[j], p[(j + 1) % n]) { found = Some((i, j)); break 'o; }
        }}
        match found { None => break, Some((i, j)) => p[i + 1..=j].reverse() }
    }
    Some(p)
}

fn template(r: &mut Rng, w: i64, h: i64) -> Option<Poly> {
    if w < 4 || h < 4 { return None; }
    let a = r.int(1, w - 2); let b = r.int(a + 1, w - 1);
    let c = r.int(1, h - 2); let d = r.int(c + 1, h - 1);
    Some(match r.us(0, 9) {
        0 => vec![(0, 0), (w, 0), (w, c), (a, c), (a, h), (0, h)],                               // L
        1 => vec![(0, 0), (w, 0), (w, h), (b, h), (b, c), (a, c), (a, h), (0, h)],               // U
        2 => vec![(0, 0), (w, 0), (w, c), (a, c), (a, d), (w, d), (w, h), (0, h)],               // C
        3 => vec![(a, 0), (b, 0), (b, c), (w, c), (w, h), (0, h), (0, c), (a, c)],               // T
        4 => vec![(a, 0), (b, 0), (b, c), (w, c), (w, d), (b, d), (b, h), (a, h), (a, d), (0, d), (0, c), (a, c)], // plus
        5 => { // comb / saw
            let n = r.int(2, (w / 2).min(7));
            let mut v = vec![(w, 0), (w, h)];
            for i in (0..n).rev() {
                let x1 = w * i / n;
                v.push(((w * (2 * i + 1)) / (2 * n), c));
                v.push((x1, if i == 0 { h } else { h - r.int(0, 1) }));
            }
            v.push((0, 0));
            v
        }
        6 => { // staircase
            let n = r.int(2, w.min(h).min(6));
            let mut v = vec![(0, 0), (w, 0)];
            for i in 0..n {
                let y = h * (i + 1) / n; let x = w - w * (i + 1) / n;
                v.push((w - w * i / n, y));
                if i < n - 1 { v.push((x, y)); }
            }
            v.push((0, h));
            v
        }
        7 => vec![(0, 0), (w, 0), (w, h), (0, h)],
        8 => vec![(0, 0), (a, 0), (w, 0), (w, c), (w, h), (b, h), (0, h), (0, d)],               // rectangle with collinear vertices
        _ => { // arrow / chevron
            vec![(0, 0), (a, c), (w, 0), (b.min(w - 1), h)]
        }
    })
}

/// a rectangle with teeth all around: many edges on a small boundary
fn gear(r: &mut Rng, w: i64, h: i64) -> Poly {
    let d = r.int(1, (w.min(h) / 4).max(1));
    let full = r.chance(0.6);
    let mut out: Poly = vec![];
    // side by side, each in its own coordinates: (position along the side, distance outwards)
    for side in 0..4 {
        let len = if side % 2 == 0 { w - 2 * d } else { h - 2 * d };
        let put = |t: i64, o: i64| match side { 0 => (d + t, d - o), 1 => (w - d + o, d + t), 2 => (w - d - t, h - d + o), _ => (d - o, h - d - t) };
        out.push(put(0, 0));
        let mut t = 1;
        while t + 1 < len {
            if full || r.chance(0.6) { let o = r.int(1, d); out.push(put(t, 0)); out.push(put(t, o)); out.push(put(t + 1, o)); out.push(put(t + 1, 0)); }
            t += 2;
        }
    }
    out
}

fn densify(r: &mut Rng, p: Poly) -> Poly {
    // insert collinear lattice points on long axis-parallel or diagonal edges
    let n = p.len();
    let mut out = vec![];
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        out.push(a);
        let g = gcd((a.0 - b.0).abs(), (a.1 - b.1).abs());
        if g > 1 && r.chance(0.7) {
            let k = r.int(1, (g - 1).min(4));
            let mut ts: Vec<i64> = (0..k).map(|_| r.int(1, g - 1)).collect();
            ts.sort(); ts.dedup();
            for t in ts { out.push((a.0 + (b.0 - a.0) / g * t, a.1 + (b.1 - a.1) / g * t)); }
        }
    }
    out
}
pub fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }

/// a random simple polygon inside [0,w]x[0,h] (integer vertices)
pub fn poly(r: &mut Rng, w: i64, h: i64) -> Poly {
    for _ in 0..200 {
        let cand = match r.us(0, 9) {
            0 => Some(vec![(0, 0), (w, 0), (w, h), (0, h)]),
            1 => { // triangle
                Some(vec![(r.int(0, w), r.int(0, h)), (r.int(0, w), r.int(0, h)), (r.int(0, w), r.int(0, h))])
            }
            2 | 3 => { let n = r.us(4, 8); star(r, w, h, n) }
            4 if w.min(h) >= 8 && r.chance(0.3) => Some(gear(r, w, h)),
            4 => { let n = if w * h >= 400 && r.chance(0.3) { r.us(23, 50) } else { r.us(9, 22) }; star(r, w, h, n) }
            5 => { let n = r.us(4, 9); two_opt(r, w, h, n) }
            6 => { let t = template(r, w, h); t.map(|t| densify(r, t)) }
            _ => template(r, w, h),
        };
        if let Some(mut p) = cand {
            // random symmetry and starting vertex, sometimes clockwise
            if r.chance(0.5) { for q in p.iter_mut() { q.0 = w - q.0; } }
            if r.chance(0.5) { for q in p.iter_mut() { q.1 = h - q.1; } }
            let k = r.us(0, p.len() - 1);
            p.rotate_left(k);
            if r.chance(0.5) { p.reverse(); }
            if is_simple(&p) && thick(&p, 0.2) { return p; }
        }
    }
    vec![(0, 0), (w, 0), (w, h), (0, h)]
}

pub fn shift(p: &[P], dx: i64, dy: i64) -> Poly { p.iter().map(|q| (q.0 + dx, q.1 + dy)).collect() }

/// polygon strictly inside a region polygon (rejection sampling), or None
pub fn poly_inside(r: &mut Rng, region: &[P], max: i64, tries: usize) -> Option<Poly> {
    let b = bbox(region);
    for _ in 0..tries {
        let w = r.int(1, max.min(b.2 - b.0 - 1).max(1));
        let h = r.int(1, max.min(b.3 - b.1 - 1).max(1));
        let p = poly(r, w, h);
        let q = shift(&p, r.int(b.0, b.2 - w), r.int(b.1, b.3 - h));
        if leaves(&q, region, 0) == -1 { return Some(q); }
    }
    None
}

/// shifts the polygon so that its centroid is (nearly) the origin, as the parser does with items
pub fn centered(p: &[P]) -> Poly {
    let n = p.len();
    let a2 = area2(p) as f64;
    let (mut cx, mut cy) = (0.0, 0.0);
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        let c = (a.0 * b.1 - b.0 * a.1) as f64;
        cx += (a.0 + b.0) as f64 * c; cy += (a.1 + b.1) as f64 * c;
    }
    shift(p, -(cx / (3.0 * a2)).round() as i64, -(cy / (3.0 * a2)).round() as i64)
}
