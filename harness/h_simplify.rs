//@ attach: root
//! area filter, simplification, and what must not matter
use crate::core::fill_rule::FillRule;
use crate::core::overlay::{Overlay, ShapeType};
use crate::core::overlay_rule::OverlayRule;
use crate::core::simplify::Simplify;
use crate::core::solver::Solver;
use crate::string::overlay::StringOverlay;
use crate::string::rule::StringRule;
use crate::vh::*;
use crate::vhl::*;
use i_float::int::point::IntPoint;

fn area2(c: &[IntPoint]) -> i64 {
    let mut s = 0i64;
    for i in 0..c.len() {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        s += a.x as i64 * b.y as i64 - a.y as i64 * b.x as i64;
    }
    s
}
/// contours of the unfiltered result, kept when large enough; the rest as it is
fn expect(all: &[Vec<C>], m: i64) -> Vec<Vec<C>> {
    let mut v = vec![];
    for s in all {
        let mut k = vec![];
        for (i, c) in s.iter().enumerate() {
            let a = area2(c).abs();
            if a >= 2 * m { k.push(c.clone()) } else if i == 0 { break }
        }
        if !k.is_empty() { v.push(k); }
    }
    v
}
/// a figure with parts of symbolic size, symbolic limit
fn area(m: M, s: &[C]) {
    let lim = i32s(9, 0, 4000);
    let s = m.all(s);
    let f = FillRule::NonZero;
    let all = overlay(&s, &[]).overlay(OverlayRule::Subject, f);
    let want = expect(&all, lim as i64);
    let lim = lim as usize;
    check(overlay(&s, &[]).overlay_custom(OverlayRule::Subject, f, CCW, true, lim, Solver::AUTO) == want, 1);
    let g = overlay(&s, &[]).into_graph(f);
    check(g.extract_shapes_custom(OverlayRule::Union, CCW, true, lim) == want, 2);
    check(s[..].simplify(f, CCW, true, lim) == want, 3);
    let cw = overlay(&s, &[]).overlay_custom(OverlayRule::Subject, f, CW, true, 0, Solver::AUTO);
    check(g.extract_shapes_custom(OverlayRule::Union, CW, true, lim) == expect(&cw, lim as i64), 4);
    let raw = overlay(&s, &[]).overlay_custom(OverlayRule::Subject, f, CCW, false, 0, Solver::AUTO);
    check(g.extract_shapes_custom(OverlayRule::Union, CCW, false, lim) == expect(&raw, lim as i64), 5);
    let t = StringOverlay::with_shape_contours(&s).into_graph(f);
    let all = t.extract_shapes_custom(StringRule::Slice, CCW, 0);
    check(t.extract_shapes_custom(StringRule::Slice, CCW, lim) == expect(&all, lim as i64), 6);
}
crate::harness!(area_hole, { let w = i32s(0, 8, 900); let h = i32s(1, 3, 900); assume(h < w); area(M::ID, &[rect(0, 0, w, 12), rect(2, 9, h, 4), rect(-20, 0, -15, 5)]); });
crate::harness!(area_skew, { let w = i32s(0, 8, 900); area(M(2, 1, -1, 3), &[rect(0, 0, w, 4), rect(-40, 0, -21, 10), rect(-36, 8, -34, 2)]); });
crate::harness!(area_isle, { let (h, w) = (i32s(0, 8, 80), i32s(1, 5, 40)); area(M::ID, &[rect(0, 0, 100, 20), rect(2, 18, h + 10, 2), rect(4, 4, w, 16)]); });

/// shapes in ranks, each contour from its least point, holes and shapes in order
type N = Vec<Vec<K>>;
fn norm(g: &Grid, v: &[Vec<C>]) -> N {
    let mut o: N = v.iter().map(|s| {
        let mut k: Vec<K> = g.all(s).into_iter().map(|mut c| { let i = (0..c.len()).min_by_key(|&i| c[i]).unwrap_or(0); c.rotate_left(i); c }).collect();
        if k.len() > 1 { k[1..].sort(); }
        k
    }).collect();
    o.sort();
    o
}
/// what is simple stays as it is; every way to ask gives the same
fn again(m: M, s: &[C], fills: &[FillRule]) {
    let gr = Grid::mapped(m, s, &[]);
    let s = m.all(s);
    let n = |v: Vec<Vec<C>>| norm(&gr, &v);
    let (mut still, mut same, mut thin) = (true, true, true);
    for &f in fills {
        for d in [CCW, CW] {
            let raw1 = s[..].simplify(f, d, true, 0);
            let one = n(raw1.clone());
            let g = if f == FillRule::Negative { FillRule::NonZero } else if f == FillRule::Positive && d == CW { FillRule::NonZero } else { f };
            still &= n(raw1[..].simplify(g, d, true, 0)) == one;
            still &= n(raw1[..].simplify(FillRule::EvenOdd, d, true, 0)) == one;
            let raw = s[..].simplify(f, d, false, 0);
            thin &= n(raw[..].simplify(FillRule::EvenOdd, d, true, 0)) == one;
            same &= n(s.simplify(f, d, true, 0)) == one && n(vec![s.clone()][..].simplify(f, d, true, 0)) == one;
            if s.len() == 1 { same &= n(s[0].simplify(f, d, true, 0)) == one; }
            same &= n(Overlay::with_contours(&s, &[]).overlay_custom(OverlayRule::Union, f, d, true, 0, Solver::AUTO)) == one;
            same &= n(Overlay::with_shapes(&[s.to_vec()], &[]).overlay_custom(OverlayRule::Xor, f, d, true, 0, Solver::AUTO)) == one;
            same &= n(Overlay::with_contours(&[], &s).overlay_custom(OverlayRule::Clip, f, d, true, 0, Solver::AUTO)) == one;
        }
    }
    check(still, 1);
    check(same, 2);
    check(thin, 3);
}
/// a second figure over everything, as the other kind
fn turned(m: M, s: &[C], c: &[C]) {
    let gr = Grid::mapped(m, s, c);
    let (s, c) = (m.all(s), m.all(c));
    let (mut start, mut back, mut order, mut swap, mut point, mut twice) = (true, true, true, true, true, true);
    let solve = |s: &[C], c: &[C], r, f| norm(&gr, &overlay(s, c).overlay(r, f));
    for f in FILLS {
        for r in [OverlayRule::Xor, OverlayRule::Difference] {
            let one = solve(&s, &c, r, f);
            let turn = |v: &[C]| -> Vec<C> { v.iter().map(|c| { let mut c = c.clone(); c.rotate_left(1); c }).collect() };
            start &= solve(&turn(&s), &turn(&c), r, f) == one;
            let flip = |v: &[C]| -> Vec<C> { v.iter().map(|c| rev(c)).collect() };
            let g = match f { FillRule::Positive => FillRule::Negative, FillRule::Negative => FillRule::Positive, x => x };
            back &= solve(&flip(&s), &flip(&c), r, g) == one;
            let (mut s2, mut c2) = (s.clone(), c.clone());
            s2.reverse();
            c2.reverse();
            order &= solve(&s2, &c2, r, f) == one;
            let rr = if r == OverlayRule::Difference { OverlayRule::InverseDifference } else { r };
            swap &= solve(&c, &s, rr, f) == one;
            // points in the middle of edges, and each point twice
            let fill = |v: &[C]| -> Vec<C> { v.iter().map(|c| { let n = c.len(); let mut o = vec![]; for i in 0..n { let (a, b) = (c[i], c[(i + 1) % n]); o.push(a); o.push(a); if c[0].x > -1 << 16 { o.push(IntPoint::new(a.x + (b.x - a.x) / 2, a.y + (b.y - a.y) / 2)); } } o }).collect() };
            point &= solve(&fill(&s), &fill(&c), r, f) == one;
            if f == FillRule::NonZero {
                let both = |v: &[C]| -> Vec<C> { let mut w = v.to_vec(); w.extend_from_slice(v); w };
                twice &= solve(&both(&s), &both(&c), r, f) == one;
            }
        }
    }
    check(start, 1);
    check(back, 2);
    check(order, 3);
    check(swap, 4);
    check(point, 5);
    check(twice, 6);
}
fn slide(w: i32, h: i32, r: i32) -> C { moved(&rect(0, 0, w, h), 16 * i32s(4, -r, r), 16 * i32s(5, -r, r)) }
crate::harness!(again_square, { again(M::ID, &[rect(0, 0, 10, 10), orect(4, R)], &FILLS); });
crate::harness!(again_skew, { again(M(2, 1, -1, 3), &[rect(0, 0, 160, 160), slide(96, 96, 1 << 20)], &FILLS); });
crate::harness!(again_hole, { again(M(1, 0, 1, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(48, 112, 112, 48), slide(96, 32, NEAR / 16)]), &[FillRule::EvenOdd, FillRule::NonZero]); });
crate::harness!(turned_square, { turned(M::ID, &with(anchors(0, 10), &[rect(0, 0, 10, 10)]), &[orect(4, NEAR)]); });
crate::harness!(turned_skew, { turned(M(2, 1, -1, 3), &with(anchors(0, 160), &[rect(0, 0, 160, 160)]), &[slide(96, 96, NEAR / 16)]); });
crate::harness!(turned_two, { turned(M(1, 1, -1, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160)]), &[rect(80, 80, 240, 16), slide(96, 96, NEAR / 16)]); });
/// the way contours are added does not matter
crate::harness!(added_same, {
    let s = vec![rect(0, 0, 160, 160), rect(48, 112, 112, 48)];
    let c = vec![slide(96, 32, NEAR / 16)];
    let one = overlay(&s, &c).overlay(OverlayRule::Xor, FillRule::EvenOdd);
    let go = |o: Overlay| o.overlay(OverlayRule::Xor, FillRule::EvenOdd) == one;
    check(go(Overlay::with_contours(&s, &c)), 1);
    check(go(Overlay::with_shapes(&[s.clone()], &[c.clone()])), 2);
    let mut o = Overlay::new(1);
    o.add_contours(&s, ShapeType::Subject);
    o.add_shape(&c, ShapeType::Clip);
    check(go(o), 3);
    let mut o = Overlay::new(1);
    o.add_shapes(&[s.clone()], ShapeType::Subject);
    o.add_path_iter(c[0].iter().copied(), ShapeType::Clip);
    check(go(o.clone()), 4);
    check(o.clone().into_graph(FillRule::EvenOdd).extract_shapes(OverlayRule::Xor) == one, 5);
    check(Overlay::with_contour(&s[0], &c[0]).overlay(OverlayRule::Union, FillRule::EvenOdd) == overlay(&s[..1], &c).overlay(OverlayRule::Union, FillRule::EvenOdd), 6);
    check(o.overlay_custom(OverlayRule::Xor, FillRule::EvenOdd, CCW, true, 0, Solver::AUTO) == one, 7);
});
