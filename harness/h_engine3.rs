//@ attach: root
//! the split: the pieces handed to the graph meet in ends only and carry the windings on, for every strategy
use crate::core::fill_rule::FillRule;
use crate::core::solver::Solver;
use crate::vh::*;
use crate::vhl::*;

fn cut(m: M, s: &[C], c: &[C], solvers: &[Solver]) {
    let g = Grid::mapped(m, s, c);
    let cells = Cells::new(&g, &g.input(s), &g.input(c));
    let (s, c) = (m.all(s), m.all(c));
    let (mut cut, mut once, mut side) = (true, true, true);
    for x in solvers {
        let f = FillRule::NonZero;
        let v = overlay(&s, &c).into_separate_vectors(f, *x);
        let mut p = Pieces::new(&cells);
        let mut ends: Vec<K1> = vec![];
        for e in &v {
            let (a, b) = (g.point(&e.a), g.point(&e.b));
            p.add(a, b);
            ends.push(a);
            ends.push(b);
            side &= edge_sides(&g, &cells, f, e);
        }
        once &= p.all(&cells, &|u, l, r| u.0 + u.1 == (l != r) as u8);
        ends.sort();
        ends.dedup();
        for e in &v {
            let (a, b) = (g.point(&e.a), g.point(&e.b));
            for t in &ends {
                let on = (a.0 == b.0 && t.0 == a.0 && (t.1 > a.1) != (t.1 > b.1) && t.1 != a.1 && t.1 != b.1)
                    || (a.1 == b.1 && t.1 == a.1 && (t.0 > a.0) != (t.0 > b.0) && t.0 != a.0 && t.0 != b.0);
                cut &= !on;
            }
        }
        // where the lines of two directions meet, all of them end
        for e in &v { for h in &v {
            let (a, b, q, t) = (g.point(&e.a), g.point(&e.b), g.point(&h.a), g.point(&h.b));
            if a.0 == b.0 && q.1 == t.1 && q.0 != t.0 {
                let (lo, hi) = (a.1.min(b.1), a.1.max(b.1));
                let (l, r) = (q.0.min(t.0), q.0.max(t.0));
                cut &= !(lo < q.1 && q.1 < hi && l < a.0 && a.0 < r);
            }
        } }
    }
    check(once, 1);
    check(cut, 2);
    check(side, 3);
}
type K1 = (i32, i32);
fn slide(w: i32, h: i32, r: i32) -> C { moved(&rect(0, 0, w, h), 16 * i32s(4, -r, r), 16 * i32s(5, -r, r)) }
fn far() -> Vec<C> { let b = 1 << 20; anchors(-b - 7999, b + 10) }
fn three() -> Vec<Solver> { vec![Solver::LIST, Solver::TREE, Solver::FRAG] }
fn two() -> Vec<Solver> { vec![Solver::LIST, Solver::TREE] }
crate::harness!(cut_square, { cut(M::ID, &with(far(), &[rect(0, 0, 10, 10)]), &[orect(4, NEAR)], &three()); });
crate::harness!(cut_touch, { cut(M::ID, &with(far(), &[rect(0, 0, 10, 10), rect(10, 10, 20, 20)]), &[orect(4, NEAR)], &three()); });
crate::harness!(cut_opp, { cut(M::ID, &with(far(), &[rect(0, 0, 10, 10), rect(14, 4, 4, 14)]), &[orect(4, NEAR)], &three()); });
crate::harness!(cut_skew, { cut(M(2, 1, -1, 3), &with(far(), &[rect(0, 0, 160, 160)]), &[slide(96, 96, NEAR / 16)], &three()); });
crate::harness!(cut_steep, { cut(M(1, 0, 3, 1), &with(far(), &[rect(0, 0, 160, 160)]), &[slide(96, 224, NEAR / 16)], &three()); });
/// edges of many figures on common lines
crate::harness!(cut_lines, {
    let s = [rect(0, 0, 160, 160), rect(0, 80, 240, 160), rect(80, 160, 160, 240), rect(160, 160, 320, 80)];
    cut(M(1, 1, -1, 1), &with(anchors(0, 80), &s), &[slide(80, 80, NEAR / 16)], &two());
});
/// long strips across each other
crate::harness!(cut_strips, {
    let s = [rect(0, 0, 640, 32), rect(0, 64, 640, 96), rect(64, -160, 96, 320), rect(320, -160, 352, 320)];
    cut(M(3, 1, -1, 2), &with(anchors(0, 32), &s), &[slide(320, 48, NEAR / 16)], &two());
});
