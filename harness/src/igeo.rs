//! Integer geometry used ONLY to generate inputs and to choose which recorded cases are worth
//! handing to TLC first. It never decides a property: TLC does (spec/Geo.tla).
pub type P = (i64, i64);
pub type Poly = Vec<P>;

pub fn cross(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn area2(p: &[P]) -> i64 {
    let n = p.len();
    (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a.0 * b.1 - a.1 * b.0 }).sum()
}
pub fn on_seg(a: P, b: P, c: P) -> bool {
    cross(a, b, c) == 0
        && c.0 >= a.0.min(b.0) && c.0 <= a.0.max(b.0)
        && c.1 >= a.1.min(b.1) && c.1 <= a.1.max(b.1)
}
/// segments share at least one point
pub fn seg_meet(a: P, b: P, c: P, d: P) -> bool {
    let (s1, s2) = (cross(a, b, c).signum(), cross(a, b, d).signum());
    let (s3, s4) = (cross(c, d, a).signum(), cross(c, d, b).signum());
    if s1 * s2 < 0 && s3 * s4 < 0 { return true; }
    on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)
}
pub fn is_simple(p: &[P]) -> bool {
    let n = p.len();
    if n < 3 { return false; }
    for i in 0..n {
        for j in 0..i { if p[i] == p[j] { return false; } }
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        for j in (i + 1)..n {
            let (c, d) = (p[j], p[(j + 1) % n]);
            if j == i + 1 {
                // adjacent: share b == c
                if on_seg(a, b, d) || on_seg(c, d, a) { return false; }
            } else if (j + 1) % n == i {
                if on_seg(a, b, c) || on_seg(c, d, b) { return false; }
            } else if seg_meet(a, b, c, d) {
                return false;
            }
        }
    }
    area2(p) != 0
}
pub fn bbox(p: &[P]) -> (i64, i64, i64, i64) {
    let mut b = (i64::MAX, i64::MAX, i64::MIN, i64::MIN);
    for q in p { b.0 = b.0.min(q.0); b.1 = b.1.min(q.1); b.2 = b.2.max(q.0); b.3 = b.3.max(q.1); }
    b
}
pub fn perimeter(p: &[P]) -> f64 {
    let n = p.len();
    (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt() }).sum()
}
/// 1 inside, -1 outside, 0 on the boundary
pub fn point_in(q: P, p: &[P]) -> i32 {
    let n = p.len();
    let mut c = false;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if on_seg(a, b, q) { return 0; }
        if (a.1 > q.1) != (b.1 > q.1) {
            let v = cross(a, b, q);
            if (b.1 > a.1 && v > 0) || (b.1 < a.1 && v < 0) { c = !c; }
        }
    }
    if c { 1 } else { -1 }
}
fn side(a: P, b: P, c: P, k: i64) -> i64 {
    let (dx, dy, ex, ey) = (b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
    let v = dx * ey - dy * ex;
    let t = if k == 0 { 0 } else { k * (dx.abs() + dy.abs() + ex.abs() + ey.abs() + 2) };
    if v > t { 1 } else if v < -t { -1 } else { 0 }
}
fn apart(a: P, b: P, c: P, d: P, k: i64) -> bool {
    let (ax, bx) = (a.0.min(b.0), a.0.max(b.0));
    let (ay, by) = (a.1.min(b.1), a.1.max(b.1));
    let (cx, dx) = (c.0.min(d.0), c.0.max(d.0));
    let (cy, dy) = (c.1.min(d.1), c.1.max(d.1));
    bx + k < cx || dx + k < ax || by + k < cy || dy + k < ay
        || side(a, b, c, k) * side(a, b, d, k) == 1
        || side(c, d, a, k) * side(c, d, b, k) == 1
}
fn xcross(a: P, b: P, c: P, d: P, k: i64) -> bool {
    side(a, b, c, k) * side(a, b, d, k) == -1 && side(c, d, a, k) * side(c, d, b, k) == -1
}
pub fn pin3(q: P, p: &[P], k: i64) -> i32 {
    let n = p.len();
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        let bx = q.0 + k < a.0.min(b.0) || q.0 - k > a.0.max(b.0) || q.1 + k < a.1.min(b.1) || q.1 - k > a.1.max(b.1);
        if !bx && side(a, b, q, k) == 0 { return 0; }
    }
    point_in(q, p)
}
/// three-valued: 1 overlap, -1 free, 0 unknown (mirror of Geo!Overlap)
pub fn overlap(p: &[P], q: &[P], k: i64) -> i32 {
    let (n, m) = (p.len(), q.len());
    let mut all_apart = true;
    for i in 0..n { for j in 0..m {
        let (a, b, c, d) = (p[i], p[(i + 1) % n], q[j], q[(j + 1) % m]);
        if xcross(a, b, c, d, k) { return 1; }
        if all_apart && !apart(a, b, c, d, k) { all_apart = false; }
    }}
    if all_apart {
        let (a, b) = (pin3(p[0], q, k), pin3(q[0], p, k));
        if a == 1 || b == 1 { 1 } else if a == -1 && b == -1 { -1 } else { 0 }
    } else if p.iter().any(|x| pin3(*x, q, k) == 1) || q.iter().any(|x| pin3(*x, p, k) == 1) { 1 } else { 0 }
}
pub fn leaves(p: &[P], b: &[P], k: i64) -> i32 {
    let (n, m) = (p.len(), b.len());
    let mut all_apart = true;
    for i in 0..n { for j in 0..m {
        let (x, y, c, d) = (p[i], p[(i + 1) % n], b[j], b[(j + 1) % m]);
        if xcross(x, y, c, d, k) { return 1; }
        if all_apart && !apart(x, y, c, d, k) { all_apart = false; }
    }}
    if all_apart { -pin3(p[0], b, k) }
    else if p.iter().any(|x| pin3(*x, b, k) == -1) || b.iter().any(|x| pin3(*x, p, k) == 1) { 1 } else { 0 }
}
pub fn self_cross(p: &[P], k: i64) -> bool {
    let n = p.len();
    (0..n).any(|i| (i + 2..n).any(|j| !(i == 0 && j == n - 1) && xcross(p[i], p[i + 1], p[j], p[(j + 1) % n], k)))
}
