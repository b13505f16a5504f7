//@ attach: geom
//@ leaf
//! the order of the sweep: segments against segments, points against segments, sort keys
use crate::geom::end::End;
use crate::geom::id_point::IdPoint;
use crate::geom::line_range::LineRange;
use crate::geom::v_segment::VSegment;
use crate::geom::x_segment::XSegment;
use crate::vh::*;
use i_float::int::point::IntPoint;
use i_key_sort::index::{BinKey, BinLayout};
use std::cmp::Ordering;

type V = (i64, i64);
const R: i32 = 1 << 29;
fn orient(a: V, b: V, c: V) -> i64 { (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) }
fn less(a: V, b: V) -> bool { (a.0 < b.0) | (a.0 == b.0) & (a.1 < b.1) }
fn eq(a: V, b: V) -> bool { (a.0 == b.0) & (a.1 == b.1) }
fn p(v: V) -> IntPoint { IntPoint::new(v.0 as i32, v.1 as i32) }
fn pt(id: u32, r: i32) -> V { (i32s(id, -r, r) as i64, i32s(id + 1, -r, r) as i64) }
fn seg(id: u32, r: i32) -> (V, V) { let s = (pt(id, r), pt(id + 2, r)); assume(less(s.0, s.1)); s }
fn vs(s: (V, V)) -> VSegment { VSegment { a: p(s.0), b: p(s.1) } }
fn neg(o: i64) -> bool { o < 0 }
fn pos(o: i64) -> bool { o > 0 }
/// segments of a finished arrangement: they meet in common end points only
fn apart(s: (V, V), t: (V, V)) -> bool {
    let (o1, o2, o3, o4) = (orient(s.0, s.1, t.0), orient(s.0, s.1, t.1), orient(t.0, t.1, s.0), orient(t.0, t.1, s.1));
    let cross = (pos(o1) & neg(o2) | neg(o1) & pos(o2)) & (pos(o3) & neg(o4) | neg(o3) & pos(o4));
    let inn = |a: V, q: V, b: V| less(a, q) & less(q, b);
    let touch = (o1 == 0) & inn(s.0, t.0, s.1) | (o2 == 0) & inn(s.0, t.1, s.1) | (o3 == 0) & inn(t.0, s.0, t.1) | (o4 == 0) & inn(t.0, s.1, t.1);
    let same = eq(s.0, t.0) & eq(s.1, t.1);
    !cross & !touch & !same
}
/// both are met by some sweep line (ties on x broken by y)
fn alive(s: (V, V), t: (V, V)) -> bool { less(s.0, t.1) & less(t.0, s.1) }
/// s lies below t wherever both exist: judged at the left end and at the right end of the common range
fn below(s: (V, V), t: (V, V)) -> bool {
    // orient(a, b, q) > 0: q above the line
    let left = if less(s.0, t.0) { orient(s.0, s.1, t.0) >= 0 } else { orient(t.0, t.1, s.0) <= 0 };
    let right = if less(s.1, t.1) { orient(t.0, t.1, s.1) <= 0 } else { orient(s.0, s.1, t.1) >= 0 };
    left & right
}
fn code(o: Ordering) -> i64 { o as i64 }

fn order2(r: i32) {
    let (s, t) = (seg(0, r), seg(4, r));
    assume(alive(s, t));
    assume(apart(s, t));
    let o = vs(s).cmp(&vs(t));
    let q = vs(t).cmp(&vs(s));
    out(1, code(o));
    check(code(o) == -code(q), 1);
    match o {
        Ordering::Less => { check(below(s, t), 2); cover(1) }
        Ordering::Greater => { check(below(t, s), 3); cover(2) }
        Ordering::Equal => check(false, 4),
    }
    check(vs(s).is_under_segment(&vs(t)) == (code(o) == -1), 5);
    check(vs(t).is_under_segment(&vs(s)) == (code(o) == 1), 6);
}
crate::harness!(sweep_order2, { order2(R) });

// sorting by it is sound: no cycles among segments met by the same sweep line
fn order3(r: i32) {
    let (s, t, u) = (seg(0, r), seg(4, r), seg(8, r));
    assume(alive(s, t) & alive(t, u) & alive(s, u));
    assume(apart(s, t));
    assume(apart(t, u));
    assume(apart(s, u));
    let mx = |a: V, b: V| if less(a, b) { b } else { a };
    let mn = |a: V, b: V| if less(a, b) { a } else { b };
    assume(less(mx(mx(s.0, t.0), u.0), mn(mn(s.1, t.1), u.1)));
    if (vs(s).cmp(&vs(t)) == Ordering::Less) & (vs(t).cmp(&vs(u)) == Ordering::Less) {
        cover(1);
        check(vs(s).cmp(&vs(u)) == Ordering::Less, 1);
    }
}
crate::harness!(sweep_order3, { order3(R) });

// a point strictly above / below / on a segment
crate::harness!(point_order, {
    let s = seg(0, R);
    let q = pt(4, R);
    assume((s.0.0 <= q.0) & (q.0 <= s.1.0));
    assume(!eq(q, s.0) & !eq(q, s.1));
    let o = vs(s).is_under_point_order(p(q));
    // y of the line at q.x, compared through the two triangles q makes with the ends
    let (dx, dy) = (s.1.0 - s.0.0, s.1.1 - s.0.1);
    let d = (q.1 - s.0.1) * dx - dy * (q.0 - s.0.0);
    let d2 = (q.1 - s.1.1) * dx - dy * (q.0 - s.1.0);
    out(1, code(o));
    match o {
        Ordering::Less => { check((d > 0) & (d2 > 0), 1); cover(1) }
        Ordering::Greater => { check((d < 0) & (d2 < 0), 2); cover(2) }
        Ordering::Equal => { check((d == 0) & (d2 == 0), 3); cover(3) }
    }
});

// directions out of one point, counterclockwise from straight down to straight up
crate::harness!(angle_order2, {
    let a = pt(0, R);
    let (b, c) = (pt(2, R), pt(4, R));
    assume(less(a, b) & less(a, c));
    let o = vs((a, b)).cmp_by_angle(&vs((a, c)));
    let q = vs((a, c)).cmp_by_angle(&vs((a, b)));
    let d = orient(a, b, c);
    out(1, code(o));
    check(code(o) == -code(q), 1);
    check(code(o) == (d < 0) as i64 - (d > 0) as i64, 2);
});
crate::harness!(angle_order3, {
    let v = (pt(2, R), pt(4, R), pt(6, R));
    let a = (0, 0);
    assume(less(a, v.0) & less(a, v.1) & less(a, v.2));
    let le = |x: V, y: V| vs((a, x)).cmp_by_angle(&vs((a, y))) != Ordering::Greater;
    let k = le(v.0, v.1) & le(v.1, v.2);
    if k { cover(1); check(le(v.0, v.2), 1); }
});

// plain comparisons and keys
crate::harness!(x_order, {
    let (s, t) = ((pt(0, i32::MAX), pt(2, i32::MAX)), (pt(4, i32::MAX), pt(6, i32::MAX)));
    let x = |s: (V, V)| XSegment { a: p(s.0), b: p(s.1) };
    let o = x(s).cmp(&x(t));
    let lt = less(s.0, t.0) | eq(s.0, t.0) & less(s.1, t.1);
    let same = eq(s.0, t.0) & eq(s.1, t.1);
    out(1, code(o));
    check((o == Ordering::Less) == lt, 1);
    check((o == Ordering::Equal) == same, 2);
    check(x(s).partial_cmp(&x(t)) == Some(o), 3);
    check(x(s).is_not_vertical() == (s.0.0 != s.1.0), 4);
    let y = x(s).y_range();
    let (lo, hi) = if s.0.1 < s.1.1 { (s.0.1, s.1.1) } else { (s.1.1, s.0.1) };
    check((y.min as i64 == lo) & (y.max as i64 == hi), 5);
    let rg = LineRange { min: t.0.1 as i32, max: t.1.1 as i32 };
    assume(rg.min <= rg.max);
    check(x(s).is_not_intersect_y_range(&rg) == ((hi < rg.min as i64) | (lo > rg.max as i64)), 6);
    // converting keeps the ends
    let w: VSegment = x(s).into();
    let z: XSegment = w.into();
    check((w.a == p(s.0)) & (w.b == p(s.1)) & (z == x(s)), 7);
});
crate::harness!(sort_keys, {
    let (s, t) = ((pt(0, R), pt(2, R)), (pt(4, R), pt(6, R)));
    let (u, v) = (XSegment { a: p(s.0), b: p(s.1) }, XSegment { a: p(t.0), b: p(t.1) });
    check(!(u.bin_key() < v.bin_key()) | (u < v), 1);
    let (i, j) = (IdPoint::new(3, p(s.0)), IdPoint::new(4, p(t.0)));
    check((i.id == 3) & (i.point == p(s.0)), 2);
    check(!(i.bin_key() < j.bin_key()) | (i.point < j.point), 3);
    let (e, f) = (End { index: 1, point: p(s.0) }, End { index: 2, point: p(t.0) });
    check(!(e.bin_key() < f.bin_key()) | (e.point < f.point), 4);
    // a segment leaves the sweep at its right end
    check(i_tree::ExpiredKey::expiration(&vs(s)) == s.1.0.max(s.0.0) as i32 || !less(s.0, s.1), 6);
    // the bin of an item is the bin of its key, so bins are ordered like keys
    if let Some(l) = BinLayout::<i32>::new(-1000..1000, 512) {
        assume((s.0.0 >= -1000) & (s.0.0 < 1000));
        let k = l.index(s.0.0 as i32);
        check((u.bin_index(&l) == k) & (i.bin_index(&l) == k) & (e.bin_index(&l) == k), 5);
        cover(1);
    }
});
