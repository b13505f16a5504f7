//@ attach: split
//@ leaf
//! the segment intersection kernel
use crate::geom::x_segment::XSegment;
use crate::split::cross_solver::{CrossSolver, CrossType, EndMask};
use crate::vh::*;
use i_float::int::point::IntPoint;

type V = (i64, i64);
fn orient(a: V, b: V, c: V) -> i64 { (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) }
fn less(a: V, b: V) -> bool { (a.0 < b.0) | (a.0 == b.0) & (a.1 < b.1) }
fn eq(a: V, b: V) -> bool { (a.0 == b.0) & (a.1 == b.1) }
fn p(v: V) -> IntPoint { IntPoint::new(v.0 as i32, v.1 as i32) }
fn v(q: IntPoint) -> V { (q.x as i64, q.y as i64) }
fn pt(id: u32, r: i32) -> V { (i32s(id, -r, r) as i64, i32s(id + 1, -r, r) as i64) }
fn sg(x: i64) -> i64 { (x > 0) as i64 - (x < 0) as i64 }
// squared distance at most r, for small r, without products
fn within(a: V, b: V, r: i64) -> bool {
    let (x, y) = (a.0 - b.0, a.1 - b.1);
    let one = (-1 <= x) & (x <= 1) & (-1 <= y) & (y <= 1);
    match r {
        0 => (x == 0) & (y == 0),
        1 => one & ((x == 0) | (y == 0)),
        2 => one,
        _ => (-2 <= x) & (x <= 2) & (-2 <= y) & (y <= 2) & ((-1 <= x) & (x <= 1) | (-1 <= y) & (y <= 1)),
    }
}
fn between(a: V, q: V, b: V) -> bool { less(a, q) & less(q, b) }
fn code(r: &CrossType) -> i64 { match r { CrossType::Pure => 1, CrossType::TargetEnd => 2, CrossType::OtherEnd => 3, CrossType::Overlay => 4 } }

fn two(r: i32) -> (V, V, V, V) {
    let (a, b, c, d) = (pt(0, r), pt(2, r), pt(4, r), pt(6, r));
    assume(less(a, b));
    assume(less(c, d));
    (a, b, c, d)
}

// every pair of segments that do not cross at interior points: touching, sharing an end, collinear, apart
fn kind(r: i32) {
    let (a, b, c, d) = two(r);
    let (o1, o2, o3, o4) = (sg(orient(a, b, c)), sg(orient(a, b, d)), sg(orient(c, d, a)), sg(orient(c, d, b)));
    assume(!((o1 * o2 < 0) & (o3 * o4 < 0)));
    let x = CrossSolver::cross(&XSegment { a: p(a), b: p(b) }, &XSegment { a: p(c), b: p(d) }, 3);
    let collinear = (o1 == 0) & (o2 == 0);
    let shared = eq(a, c) | eq(a, d) | eq(b, c) | eq(b, d);
    let c_on = (o1 == 0) & between(a, c, b);
    let d_on = (o2 == 0) & between(a, d, b);
    let a_on = (o3 == 0) & between(c, a, d);
    let b_on = (o4 == 0) & between(c, b, d);
    match x {
        None => {
            check(!collinear, 1);
            check(shared | !(c_on | d_on | a_on | b_on), 2);
            cover(1);
            out(1, 0);
        }
        Some(x) => {
            let k = code(&x.cross_type);
            out(1, k);
            if k == 4 {
                check(collinear, 3);
                cover(2);
            } else {
                check(!collinear & !shared, 4);
                check(!x.is_round, 5);
                let q = v(x.point);
                out(2, q.0);
                out(3, q.1);
                check(k != 1, 6);
                if k == 2 { check(a_on & eq(q, a) | b_on & eq(q, b), 7); cover(3); }
                if k == 3 { check(c_on & eq(q, c) | d_on & eq(q, d), 8); cover(4); }
            }
        }
    }
}
crate::harness!(cross_kind, { kind(1 << 29) });

/// proper crossings: the point is less than one unit away on each axis, exact when it is said to be.
/// The sign pattern of the configuration is fixed by case split, everything else stays symbolic.
fn exact(r: i32, origin: bool, radius: i64) {
    let a = if origin { (0, 0) } else { pt(0, r) };
    exact_of(a, pt(2, r), pt(4, r), pt(6, r), radius);
}
fn exact_of(a: V, b: V, c: V, d: V, radius: i64) {
    assume(less(a, b));
    assume(less(c, d));
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    let up = pick((o1 > 0) as i64) == 1;
    if up { assume((o1 > 0) & (o2 < 0)) } else { assume((o1 < 0) & (o2 > 0)) }
    if up { assume((o3 < 0) & (o4 > 0)) } else { assume((o3 > 0) & (o4 < 0)) }
    // exact crossing a + t (b - a), t = n / m
    let m = if up { o1 - o2 } else { o2 - o1 };
    let n = if up { -o3 } else { o3 };
    assume((m > 0) & (n > 0) & (n < m));
    pick(sg(b.0 - a.0));
    pick(sg(b.1 - a.1));
    pick(sg(d.1 - c.1));
    pick(sg(d.0 - c.0));
    let x = CrossSolver::cross(&XSegment { a: p(a), b: p(b) }, &XSegment { a: p(c), b: p(d) }, radius);
    let x = match x { None => { check(false, 1); return } Some(x) => x };
    let k = code(&x.cross_type);
    check(k != 4, 2);
    let q = v(x.point);
    out(1, q.0);
    out(2, q.1);
    out(3, x.is_round as i64);
    out(4, k);
    let ex = (q.0 - a.0) * m - n * (b.0 - a.0);
    let ey = (q.1 - a.1) * m - n * (b.1 - a.1);
    if k == 1 {
        check((-m < ex) & (ex < m) & (-m < ey) & (ey < m), 3);
    } else {
        // snapped to an end: at most sqrt(radius) further
        check(x.is_round, 6);
        check(if k == 2 { eq(q, a) | eq(q, b) } else { eq(q, c) | eq(q, d) }, 7);
        // against the same crossing without snapping
        if let Some(y) = CrossSolver::cross(&XSegment { a: p(a), b: p(b) }, &XSegment { a: p(c), b: p(d) }, -1) {
            let w = v(y.point);
            let (dx, dy) = (w.0 - q.0, w.1 - q.1);
            check((code(&y.cross_type) == 1) & (dx * dx + dy * dy <= radius), 8);
            // and to the nearest of the four ends
            for r in 0..2 {
                check(within(w, q, r) | !(within(w, a, r) | within(w, b, r) | within(w, c, r) | within(w, d, r)), 10);
            }
        }
    }
    // a rounded point leaves no remnant within the snapping radius
    if (k == 1) & x.is_round {
        check(!(within(q, a, radius) | within(q, b, radius) | within(q, c, radius) | within(q, d, radius)), 9);
    }
    check(((ex == 0) & (ey == 0)) | x.is_round, 4);
    check(!x.is_round | (orient(a, b, q) != 0) | (orient(c, d, q) != 0), 5);
    if x.is_round { cover(1) } else { cover(2) }
}
crate::harness!(cross_point4, { exact(4, true, 0) });
crate::harness!(cross_point8, { exact(8, true, 0) });
crate::harness!(cross_point16, { exact(16, true, 0) });
// long segments: concrete slopes, symbolic lengths and position
fn long(s: V, t: V) {
    let r = 1 << 18;
    let l = i32s(0, 1, r) as i64;
    let m = i32s(1, 1, r) as i64;
    let c = pt(2, r);
    exact_of((0, 0), (l * s.0, l * s.1), c, (c.0 + m * t.0, c.1 + m * t.1), 0);
}
crate::harness!(cross_long_a, { long((2, 1), (1, -1)) });
crate::harness!(cross_long_b, { long((1, 0), (1, 3)) });
crate::harness!(cross_long_c, { long((1, 3), (0, 1)) });
crate::harness!(cross_long_d, { long((3, -2), (1, 1)) });
crate::harness!(cross_point2r, { exact(2, true, 2) });
crate::harness!(cross_point3r, { exact(3, true, 2) });

// overlap of collinear segments
crate::harness!(collinear_mask, {
    let (a, b, c, d) = two(1 << 29);
    assume((orient(a, b, c) == 0) & (orient(a, b, d) == 0));
    let m = CrossSolver::collinear(&XSegment { a: p(a), b: p(b) }, &XSegment { a: p(c), b: p(d) });
    check(m.is_target_a() == between(c, a, d), 1);
    check(m.is_target_b() == between(c, b, d), 2);
    check(m.is_other_a() == between(a, c, b), 3);
    check(m.is_other_b() == between(a, d, b), 4);
    cover(1);
    out(1, m as i64);
});

// concrete directions and lengths, symbolic positions anywhere: everything stays linear
const DIRS: [V; 12] = [(1, 0), (0, 3), (3, 3), (5, 1), (7, 2), (3, -5), (1, 4), (8, -3), (2, -2), (4, 1), (9, 4), (0, 8)];
fn dirs(radius: i64, n: i32) {
    let (i, j) = (choose(20, n) as usize, choose(21, n) as usize);
    let (s, t) = (DIRS[i], DIRS[j]);
    if s.0 * t.1 == s.1 * t.0 { return }
    let a = (0, 0);
    let c = (a.0 + i32s(2, -9, 9) as i64, a.1 + i32s(3, -9, 9) as i64);
    exact_of(a, (a.0 + s.0, a.1 + s.1), c, (c.0 + t.0, c.1 + t.1), radius);
}
crate::harness!(cross_dirs0, { dirs(0, 12) });
crate::harness!(cross_dirs2, { dirs(2, 8) });
crate::harness!(cross_dirs2w, { dirs(2, 12) });
crate::harness!(cross_dirs5, { dirs(5, 12) });

// products beyond 64 bits: concrete long directions, the second segment moved by a few units.
// q0: a grid point near the crossing for the unmoved segment, the exact remainders there are concrete
fn beyond(b: V, c0: V, e: V, q0: V, k: i32) {
    let a = (0, 0);
    let d0 = (c0.0 + e.0, c0.1 + e.1);
    let m = (b.0 * e.1 - b.1 * e.0).abs();
    let up = b.0 * e.1 - b.1 * e.0 < 0;
    let n0 = if up { -orient(c0, d0, a) } else { orient(c0, d0, a) };
    let ex0 = (q0.0 as i128 * m as i128 - n0 as i128 * b.0 as i128) as i64;
    let ey0 = (q0.1 as i128 * m as i128 - n0 as i128 * b.1 as i128) as i64;
    let s = (i32s(0, 0, k) as i64, i32s(1, 0, k) as i64);
    let c = (c0.0 + s.0, c0.1 + s.1);
    let d = (c.0 + e.0, c.1 + e.1);
    let x = CrossSolver::cross(&XSegment { a: p(a), b: p(b) }, &XSegment { a: p(c), b: p(d) }, 3);
    let x = match x { None => { check(false, 1); return } Some(x) => x };
    check(code(&x.cross_type) == 1, 2);
    let q = v(x.point);
    out(1, q.0);
    out(2, q.1);
    out(3, x.is_round as i64);
    // n - n0 = cross(s, e), linear in the move
    let dn = s.0 * e.1 - s.1 * e.0;
    let dn = if up { -dn } else { dn };
    let (qx, qy) = (q.0 - q0.0, q.1 - q0.1);
    let near = (-64 <= qx) & (qx <= 64) & (-64 <= qy) & (qy <= 64);
    check(near, 3);
    assume(near);
    let ex = ex0 + (qx * m - dn * b.0);
    let ey = ey0 + (qy * m - dn * b.1);
    check((-m < ex) & (ex < m) & (-m < ey) & (ey < m), 3);
    check(((ex == 0) & (ey == 0)) | x.is_round, 4);
    if x.is_round { cover(1) } else { cover(2) }
}
crate::harness!(cross_beyond_a, { beyond((536870912, 402653184), (268173308, 201457614), (1048576, -524288), (268435414, 201326561), 8) });
crate::harness!(cross_beyond_c, { beyond((536870912, 402653184), (268173308, 201457614), (1048576, -524288), (268435414, 201326561), 24) });
crate::harness!(cross_beyond_b, { beyond((536870912, -402653184), (268173308, -201457714), (1048576, 786432), (268391797, -201293848), 8) });
crate::harness!(cross_beyond_d, { beyond((536870912, -402653184), (268173308, -201457714), (1048576, 786432), (268391797, -201293848), 24) });
