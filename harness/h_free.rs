//@ attach: root
//! contours of few points anywhere, degenerate or not
use crate::core::fill_rule::FillRule;
use crate::core::overlay::{ContourDirection, Overlay, ShapeType};
use crate::core::overlay_rule::OverlayRule;
use crate::vh::*;
use crate::vhl::*;
use i_float::int::point::IntPoint;

fn cross(a: IntPoint, b: IntPoint, c: IntPoint) -> i64 {
    (b.x as i64 - a.x as i64) * (c.y as i64 - a.y as i64) - (b.y as i64 - a.y as i64) * (c.x as i64 - a.x as i64)
}
fn same_ring(a: &[IntPoint], b: &[IntPoint]) -> bool {
    if a.len() != b.len() { return false }
    let mut any = false;
    for s in 0..b.len() {
        let mut ok = true;
        for i in 0..a.len() { ok &= a[i] == b[(i + s) % b.len()] }
        any |= ok;
    }
    any
}
// one triangle anywhere
fn tri(r: i32, clip: bool) {
    let t: C = (0..3).map(|i| p(i32s(2 * i, -r, r), i32s(2 * i + 1, -r, r))).collect();
    let fill = FILLS[choose(10, 4) as usize];
    let mut o = Overlay::new(4);
    o.add_contour(&t, if clip { ShapeType::Clip } else { ShapeType::Subject });
    let res = o.overlay(if clip { OverlayRule::Clip } else { OverlayRule::Subject }, fill);
    let a = cross(t[0], t[1], t[2]);
    let in_it = match fill { FillRule::Positive => a > 0, FillRule::Negative => a < 0, _ => a != 0 };
    out(1, res.len() as i64);
    check(res.len() == in_it as usize, 1);
    if res.len() == 1 {
        check(res[0].len() == 1, 2);
        let rev: C = t.iter().rev().cloned().collect();
        let c = &res[0][0];
        check(same_ring(c, &t) & (a > 0) | same_ring(c, &rev) & (a < 0), 3);
    }
    cover(1 + res.len() as u32);
}
crate::harness!(free_tri, { tri(1 << 12, false) });
crate::harness!(free_tri_clip, { tri(1 << 4, true) });
fn area2(c: &[IntPoint]) -> i64 {
    let n = c.len();
    let mut s = 0;
    for i in 0..n { let (a, b) = (c[i], c[(i + 1) % n]); s += a.x as i64 * b.y as i64 - a.y as i64 * b.x as i64 }
    s
}
/// form of a result, twice its area
fn form(res: &[Vec<C>]) -> i64 {
    let mut s = 0;
    for shape in res {
        check(shape.len() > 0, 11);
        for (i, c) in shape.iter().enumerate() {
            check(c.len() > 2, 12);
            for k in 0..c.len() { check(c[k] != c[(k + 1) % c.len()], 13) }
            let a = area2(c);
            check(if i == 0 { a > 0 } else { a < 0 }, 14);
            s += a;
        }
    }
    s
}
// four points anywhere
fn quad(r: i32, tol: bool) {
    four((0..4).map(|i| if i == 0 { p(0, 0) } else { p(i32s(2 * i, -r, r), i32s(2 * i + 1, -r, r)) }).collect(), tol);
}
fn quad_on(a: (i32, i32), r: i32, tol: bool) {
    four((0..4).map(|i| if i == 0 { p(0, 0) } else if i == 1 { p(a.0, a.1) } else { p(i32s(2 * i, -r, r), i32s(2 * i + 1, -r, r)) }).collect(), tol);
}
fn four(t: C, tol: bool) {
    let f = |r: FillRule| { let mut o = Overlay::new(4); o.add_contour(&t, ShapeType::Subject); o.overlay(OverlayRule::Subject, r) };
    let pos = form(&f(FillRule::Positive));
    let neg = form(&f(FillRule::Negative));
    cover(1);
    // a crossing off the grid is moved by less than one unit
    let mut len = 0i64;
    for i in 0..4 { let (a, b) = (t[i], t[(i + 1) % 4]); len += gap(a.x, b.x) + gap(a.y, b.y) }
    let d = pos - neg - area2(&t);
    if tol { check((d <= len) & (d >= -len), 4) }
    let eo = form(&f(FillRule::EvenOdd));
    let nz = form(&f(FillRule::NonZero));
    check(nz == pos + neg, 5);
    check(eo == nz, 6);
}
crate::harness!(free_quad, { quad(2, false) });
crate::harness!(free_quad_big, { quad(1 << 10, false) });
fn gap(a: i32, b: i32) -> i64 { if a < b { b as i64 - a as i64 } else { a as i64 - b as i64 } }
crate::harness!(free_quad_tol, { quad(2, true) });
// three points fixed, the fourth one anywhere: crossings off the grid
fn kite(a: (i32, i32), b: (i32, i32), r: i32) {
    four(vec![p(0, 0), p(a.0, a.1), p(b.0, b.1), p(i32s(0, -r, r), i32s(1, -r, r))], true);
}
// the fourth one anywhere on one of some lines
fn row(a: (i32, i32), b: (i32, i32), r: i32, up: bool) {
    let k = [-9, -4, 1, 3, 5, 8, 14][choose(1, 7) as usize];
    let x = i32s(0, -r, r);
    four(vec![p(0, 0), p(a.0, a.1), p(b.0, b.1), if up { p(k, x) } else { p(x, k) }], true);
}
crate::harness!(free_kite_a, { kite((7, 2), (3, 6), 12) });
crate::harness!(free_kite_b, { kite((-5, 8), (4, 7), 12) });
crate::harness!(free_row_a, { row((7, 2), (3, 6), 300, false) });
crate::harness!(free_row_b, { row((-5, 8), (4, 7), 300, true) });
crate::harness!(free_row_c, { row((40, -23), (31, 57), 1000, false) });
// two triangles, one corner of the second on one of some lines: crossings off the grid
fn pair(sub: &[(i32, i32)], clip: &[(i32, i32)], rows: &[i32], r: i32, up: bool) {
    let s: C = sub.iter().map(|q| p(q.0, q.1)).collect();
    let mut c: C = clip.iter().map(|q| p(q.0, q.1)).collect();
    let k = rows[choose(1, rows.len() as i32) as usize];
    let x = i32s(0, -r, r);
    c.push(if up { p(k, x) } else { p(x, k) });
    let fill = [FillRule::EvenOdd, FillRule::NonZero][choose(2, 2) as usize];
    let mut o = Overlay::new(8);
    o.add_contour(&s, ShapeType::Subject);
    o.add_contour(&c, ShapeType::Clip);
    let g = o.into_graph(fill);
    let f = |rule: OverlayRule| form(&g.extract_shapes(rule));
    let (u, i, x) = (f(OverlayRule::Union), f(OverlayRule::Intersect), f(OverlayRule::Xor));
    let (d, e) = (f(OverlayRule::Difference), f(OverlayRule::InverseDifference));
    let (a, b) = (f(OverlayRule::Subject), f(OverlayRule::Clip));
    check(u + i == a + b, 7);
    check(x == d + e, 8);
    check(d + i == a, 9);
    check(e + i == b, 10);
    let len = |c: &C| { let mut l = 0; for i in 0..c.len() { let (a, b) = (c[i], c[(i + 1) % c.len()]); l += gap(a.x, b.x) + gap(a.y, b.y) } l };
    let near = |m: i64, c: &C| {
        let w = area2(c);
        let w = if w < 0 { -w } else { w };
        (m - w <= 2 * len(c)) & (w - m <= 2 * len(c))
    };
    check(near(a, &s), 4);
    check(near(b, &c), 15);
    out(1, i);
    cover(1);
}
crate::harness!(free_pair_a, { pair(&[(0, 0), (9, 2), (4, 11)], &[(1, 7), (11, 5)], &[-7, 6], 40, false) });
crate::harness!(free_pair_b, { pair(&[(0, 0), (9, 2), (4, 11)], &[(8, -3), (-2, 5)], &[4, 13], 40, true) });
crate::harness!(free_pair_c, { pair(&[(0, 0), (90, 23), (44, 117), (-20, 50)], &[(8, -33), (120, 75)], &[-37, 41, 130], 1000, false) });
crate::harness!(free_pair_d, { pair(&[(0, 0), (900, 230), (440, 1170)], &[(80, 730), (1200, 51)], &[-370, 410], 10000, true) });
crate::harness!(free_pair_e, { pair(&[(0, 0), (9, 2), (4, 11)], &[(1, 7), (11, 5)], &[-7, 1, 4, 6, 13], 100, false) });
