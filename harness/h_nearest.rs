//@ attach: core
//@ leaf
//! next edge by rotation around a node
use crate::core::nearest_vector::NearestVector;
use crate::vh::*;
use i_float::int::point::IntPoint;

fn cross(a: (i64, i64), b: (i64, i64)) -> i64 { a.0 * b.1 - a.1 * b.0 }
fn dot(a: (i64, i64), b: (i64, i64)) -> i64 { a.0 * b.0 + a.1 * b.1 }
/// q lies strictly inside the sweep that starts at a and ends at b, turning by `sg` (+1 counterclockwise, -1 clockwise)
fn inside(a: (i64, i64), b: (i64, i64), q: (i64, i64), sg: i64) -> bool {
    let ab = cross(a, b) * sg;
    let aq = cross(a, q) * sg;
    let qb = cross(q, b) * sg;
    // less than half a turn / more than half a turn (a and b opposite: half plane)
    (ab > 0) & (aq > 0) & (qb > 0) | (ab < 0) & ((aq > 0) | (qb > 0)) | (ab == 0) & (aq > 0)
}

fn run(n: usize, r: i32, rc: i32, clockwise: bool, back: bool) {
    let c = (i32s(0, -rc, rc) as i64, i32s(1, -rc, rc) as i64);
    let mut v = [(0i64, 0i64); 5];
    for k in 0..=n {
        v[k] = (i32s(2 + 2 * k as u32, -r, r) as i64, i32s(3 + 2 * k as u32, -r, r) as i64);
    }
    let pt = |k: usize| IntPoint::new((c.0 + v[k].0) as i32, (c.1 + v[k].1) as i32);
    // v[0] is the direction we come from; candidate directions are distinct rays, the first one not along v[0]
    for i in 0..=n {
        assume((v[i].0 != 0) | (v[i].1 != 0));
        for j in 0..i {
            if j == 0 && i > 1 && back { continue }
            assume((cross(v[j], v[i]) != 0) | (dot(v[j], v[i]) < 0));
        }
    }
    let mut nv = NearestVector::new(c_pt(c), pt(0), pt(1), 1, clockwise);
    for k in 2..=n { nv.add(pt(k), k); }
    let sg = if clockwise { -1 } else { 1 };
    let b = nv.best_id;
    let b = pick(b as i64) as usize;
    check(b >= 1 && b <= n, 1);
    for k in 1..=n {
        if k != b { check(!inside(v[0], v[b], v[k], sg), 2); }
    }
    check((cross(v[0], v[b]) != 0) | (dot(v[0], v[b]) < 0), 3);
    cover(b as u32);
    out(1, b as i64);
}
fn c_pt(c: (i64, i64)) -> IntPoint { IntPoint::new(c.0 as i32, c.1 as i32) }

const R: i32 = 1 << 29;
crate::harness!(nearest_cw2, { run(2, R, 0, true, true) });
crate::harness!(nearest_ccw2, { run(2, R, 0, false, true) });
crate::harness!(nearest_cw3, { run(3, R, 0, true, true) });
crate::harness!(nearest_ccw3, { run(3, R, 0, false, true) });
crate::harness!(nearest_cw2c, { run(2, R, R - 1, true, true) });
crate::harness!(nearest_ccw2c, { run(2, R, R - 1, false, true) });
crate::harness!(nearest_cw4, { run(4, R, 0, true, true) });
crate::harness!(nearest_ccw4, { run(4, R, 0, false, true) });

// what a node keeps of the edges that meet in it
crate::harness!(node_keeps, {
    use crate::core::node::OverlayNode;
    let n = choose(0, 6) as usize;
    let v: Vec<usize> = (0..n).map(|i| i32s(i as u32 + 1, 0, i32::MAX) as usize).collect();
    match OverlayNode::new(&v) {
        OverlayNode::Bridge(b) => { check(n == 2, 4); if n == 2 { check((b[0] == v[0]) & (b[1] == v[1]), 5) } cover(1) }
        OverlayNode::Cross(c) => { check((n != 2) & (c.len() == n), 4); for i in 0..n.min(c.len()) { check(c[i] == v[i], 5) } cover(2) }
    }
});
