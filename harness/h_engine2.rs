//@ attach: root
//! outlines, vectors and strategies over axis-parallel figures and their images under integer maps
use crate::core::fill_rule::FillRule;
use crate::core::overlay_rule::OverlayRule;
use crate::core::solver::{Precision, Solver, Strategy};
use crate::vh::*;
use crate::vhl::*;

/// output options: direction, simplification
fn form(m: M, s: &[C], c: &[C], fills: &[FillRule]) {
    let g = Grid::mapped(m, s, c);
    let cells = Cells::new(&g, &g.input(s), &g.input(c));
    let (s, c) = (m.all(s), m.all(c));
    let mut seen = FINE;
    let mut raw = FINE;
    for &f in fills {
        let gr = overlay(&s, &c).into_graph(f);
        for r in RULES {
            for d in [CCW, CW] {
                let want = |s, c| ruled(r, filled(f, s), filled(f, c));
                seen.add(judge(&g, &gr.extract_shapes_custom(r, d, true, 0), d, &cells, &want));
                raw.add(judge(&g, &gr.extract_shapes_custom(r, d, false, 0), d, &cells, &want));
            }
        }
        for d in [CCW, CW] {
            let r = OverlayRule::Xor;
            let want = |s, c| ruled(r, filled(f, s), filled(f, c));
            seen.add(judge(&g, &overlay(&s, &c).overlay_custom(r, f, d, true, 0, Solver::AUTO), d, &cells, &want));
            raw.add(judge(&g, &overlay(&s, &c).overlay_custom(r, f, d, false, 0, Solver::AUTO), d, &cells, &want));
        }
    }
    seen.report();
    check(seen.thin, 4);
    check(raw.form & raw.region & raw.nest, 5);
}
crate::harness!(form_square, { form(M::ID, &[rect(0, 0, 10, 10)], &[orect(4, R)], &[FillRule::EvenOdd]); });
crate::harness!(form_touch, { form(M::ID, &with(anchors(0, 10), &[rect(0, 0, 10, 10), rect(10, 10, 20, 20)]), &[orect(4, NEAR)], &[FillRule::EvenOdd]); });
crate::harness!(form_opp, { form(M::ID, &with(anchors(0, 10), &[rect(0, 0, 10, 10), rect(14, 4, 4, 14)]), &[orect(4, NEAR)], &[FillRule::NonZero, FillRule::Positive]); });
crate::harness!(form_spiral, { form(M::ID, &with(anchors(0, 8), &[poly(&[(0, 0), (20, 0), (20, 20), (8, 20), (8, 8), (30, 8), (30, 30), (0, 30)])]), &[orect(4, NEAR)], &[FillRule::EvenOdd, FillRule::NonZero]); });
fn slide(w: i32, h: i32, r: i32) -> C { moved(&rect(0, 0, w, h), 16 * i32s(4, -r, r), 16 * i32s(5, -r, r)) }
crate::harness!(form_skew, { form(M(2, 1, -1, 3), &[rect(0, 0, 160, 160)], &[slide(96, 96, 1 << 20)], &FILLS); });
crate::harness!(form_comb, {
    let comb = poly(&[(0, 0), (224, 0), (224, 160), (160, 160), (160, 64), (128, 64), (128, 160), (96, 160), (96, 64), (64, 64), (64, 160), (0, 160)]);
    form(M(1, 0, 1, 1), &with(anchors(0, 64), &[comb]), &[slide(96, 80, NEAR / 16)], &[FillRule::NonZero]);
});
/// islands in holes in islands, a small figure that slides over them
crate::harness!(form_isles, {
    let s = [rect(0, 0, 320, 320), rect(32, 288, 288, 32), rect(64, 64, 256, 256), rect(96, 224, 224, 96)];
    form(M::ID, &with(anchors(0, 32), &s), &[slide(48, 48, NEAR / 16)], &[FillRule::NonZero]);
});

/// vectors: every piece of line where windings differ is there once, cut at every meeting, and names its sides
fn vectors(m: M, s: &[C], c: &[C], fills: &[FillRule], solver: Solver) {
    let g = Grid::mapped(m, s, c);
    let cells = Cells::new(&g, &g.input(s), &g.input(c));
    let (s, c) = (m.all(s), m.all(c));
    let (mut cut, mut once, mut side, mut order, mut shape, mut chain, mut named) = (true, true, true, true, true, true, true);
    for &f in fills {
        let v = overlay(&s, &c).into_separate_vectors(f, solver);
        let k: Vec<_> = v.iter().map(|e| (g.point(&e.a), g.point(&e.b))).collect();
        let mut p = Pieces::new(&cells);
        for (i, e) in v.iter().enumerate() {
            p.add(k[i].0, k[i].1);
            side &= edge_sides(&g, &cells, f, e);
            order &= e.a < e.b;
        }
        once &= p.all(&cells, &|u, l, r| u.0 + u.1 == (l != r) as u8);
        // no end of an edge inside another
        for &(a, b) in &k { for &(q, t) in &k {
            for x in [q, t] {
                let on = (a.0 == b.0 && x.0 == a.0 && (x.1 > a.1) != (x.1 > b.1) && x.1 != a.1 && x.1 != b.1)
                    || (a.1 == b.1 && x.1 == a.1 && (x.0 > a.0) != (x.0 > b.0) && x.0 != a.0 && x.0 != b.0);
                cut &= !on;
            }
            // nor a crossing
            if a.0 == b.0 && q.1 == t.1 && q.0 != t.0 {
                let (lo, hi) = (a.1.min(b.1), a.1.max(b.1));
                let (l, r) = (q.0.min(t.0), q.0.max(t.0));
                cut &= !(lo < q.1 && q.1 < hi && l < a.0 && a.0 < r);
            }
        } }
        for r in [OverlayRule::Union, OverlayRule::Difference, OverlayRule::Xor] {
            let res = overlay(&s, &c).into_shape_vectors(f, r, solver);
            for sh in &res { for path in sh {
                let n = path.len();
                for i in 0..n {
                    chain &= path[i].b == path[(i + 1) % n].a;
                    named &= edge_sides(&g, &cells, f, &path[i]);
                }
            } }
            let shapes: Vec<Vec<C>> = res.iter().map(|s| s.iter().map(|p| p.iter().map(|e| e.a).collect()).collect()).collect();
            let j = judge(&g, &shapes, CW, &cells, &|s, c| ruled(r, filled(f, s), filled(f, c)));
            shape &= j.form & j.region & j.nest;
        }
    }
    check(once, 1);
    check(cut, 2);
    check(side, 3);
    check(order, 4);
    check(shape, 5);
    check(chain, 6);
    check(named, 7);
}
crate::harness!(vec_square, { vectors(M::ID, &[rect(0, 0, 10, 10)], &[orect(4, R)], &FILLS, Solver::AUTO); });
crate::harness!(vec_pair, { vectors(M::ID, &with(anchors(0, 10), &[rect(0, 0, 10, 10), rect(4, 4, 14, 14)]), &[orect(4, NEAR)], &FILLS, Solver::AUTO); });
crate::harness!(vec_opp, { vectors(M::ID, &with(anchors(0, 10), &[rect(0, 0, 10, 10), rect(14, 4, 4, 14)]), &[orect(4, NEAR)], &FILLS, Solver::AUTO); });
crate::harness!(vec_skew, { vectors(M(2, 1, -1, 3), &[rect(0, 0, 160, 160)], &[slide(96, 96, 1 << 20)], &FILLS, Solver::AUTO); });
crate::harness!(vec_skew2, { vectors(M(1, 2, -3, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(80, 80, 240, 240)]), &[slide(96, 96, NEAR / 16)], &FILLS, Solver::AUTO); });

crate::harness!(vec_isles, {
    let s = [rect(0, 0, 320, 320), rect(32, 288, 288, 32), rect(64, 64, 256, 256), rect(96, 224, 224, 96)];
    vectors(M::ID, &with(anchors(0, 32), &s), &[slide(48, 48, NEAR / 16)], &[FillRule::NonZero], Solver::AUTO);
});
/// two holes side by side, each with an island, and more islands above and below
crate::harness!(vec_holes, {
    let s = [rect(0, 0, 320, 480), rect(32, 192, 192, 32), rect(32, 448, 192, 288), rect(64, 64, 128, 128), rect(64, 320, 128, 384), rect(224, 416, 288, 64)];
    vectors(M(1, 0, 1, 1), &with(anchors(0, 32), &s), &[slide(48, 48, NEAR / 16)], &[FillRule::NonZero], Solver::AUTO);
});

/// every strategy and precision gives the same
fn same(m: M, s: &[C], c: &[C], solvers: &[Solver], rules: &[OverlayRule]) {
    let g = Grid::mapped(m, s, c);
    let (s, c) = (m.all(s), m.all(c));
    let key = |x: &Solver, r: OverlayRule| -> Vec<Vec<K>> {
        overlay(&s, &c).overlay_custom(r, FillRule::NonZero, CCW, true, 0, *x).iter().map(|s| g.all(s)).collect()
    };
    let vec = |x: &Solver| -> Vec<((i32, i32), (i32, i32), u8)> {
        let mut v: Vec<_> = overlay(&s, &c).into_separate_vectors(FillRule::EvenOdd, *x).iter().map(|e| (g.point(&e.a), g.point(&e.b), e.fill)).collect();
        v.sort();
        v
    };
    let v0 = vec(&solvers[0]);
    let mut ok = true;
    for x in &solvers[1..] { ok &= vec(x) == v0; }
    check(ok, 1);
    let mut ok = true;
    for &r in rules {
        let k0 = key(&solvers[0], r);
        for x in &solvers[1..] { ok &= key(x, r) == k0; }
    }
    check(ok, 2);
}
fn with_p(s: Strategy, precision: Precision) -> Solver { Solver::with_strategy_and_precision(s, precision) }
fn strategies() -> Vec<Solver> { vec![Solver::LIST, Solver::TREE, Solver::FRAG, Solver::AUTO] }
fn precisions() -> Vec<Solver> {
    vec![Solver::LIST, with_p(Strategy::List, Precision::ABSOLUTE), with_p(Strategy::Tree, Precision::LOW), with_p(Strategy::List, Precision::MEDIUM_HIGH), with_p(Strategy::Auto, Precision::MEDIUM_LOW), with_p(Strategy::Tree, Precision::MEDIUM)]
}
const TWO: [OverlayRule; 2] = [OverlayRule::Xor, OverlayRule::Difference];
/// far squares that fix the extent both ways
fn far() -> Vec<C> { let b = 1 << 20; anchors(-b - 7999, b + 10) }
crate::harness!(same_square, { same(M::ID, &with(far(), &[rect(0, 0, 10, 10)]), &[orect(4, NEAR)], &strategies(), &TWO); });
crate::harness!(same_opp, { same(M::ID, &with(far(), &[rect(0, 0, 10, 10), rect(14, 4, 4, 14)]), &[orect(4, NEAR)], &strategies(), &TWO); });
crate::harness!(same_skew, { same(M(1, 1, -1, 1), &with(far(), &[rect(0, 0, 160, 160)]), &[slide(96, 96, NEAR / 16)], &[Solver::LIST, Solver::TREE, Solver::AUTO], &RULES); });
crate::harness!(same_skew_frag, { same(M(1, 1, -1, 1), &with(far(), &[rect(0, 0, 160, 160)]), &[slide(96, 96, NEAR / 16)], &[Solver::LIST, Solver::FRAG], &[]); });
crate::harness!(same_prec, { same(M(1, 1, -1, 1), &with(far(), &[rect(0, 0, 160, 160)]), &[slide(96, 96, NEAR / 16)], &precisions(), &TWO); });
