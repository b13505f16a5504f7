//! geometry shared by the engine harnesses: oracles written from the definitions
#![allow(dead_code)]
use crate::core::fill_rule::FillRule;
use crate::core::overlay::{ContourDirection, Overlay, ShapeType};
use crate::core::overlay_rule::OverlayRule;
use crate::core::solver::Solver;
use crate::vh::*;
use crate::vector::edge::VectorEdge;
use i_float::int::point::IntPoint;
use i_shape::int::shape::{IntContour, IntShapes};

pub type C = IntContour;
pub type V = (i64, i64);
pub const R: i32 = 1 << 29;
pub fn p(x: i32, y: i32) -> IntPoint { IntPoint::new(x, y) }
pub fn rect(a: i32, b: i32, c: i32, d: i32) -> C { vec![p(a, b), p(c, b), p(c, d), p(a, d)] }
/// rectangle with symbolic corners (either orientation, possibly flat)
pub fn srect(id: u32, r: i32) -> C { rect(i32s(id, -r, r), i32s(id + 1, -r, r), i32s(id + 2, -r, r), i32s(id + 3, -r, r)) }
pub fn poly(v: &[(i32, i32)]) -> C { v.iter().map(|q| p(q.0, q.1)).collect() }
pub fn moved(c: &[IntPoint], dx: i32, dy: i32) -> C { c.iter().map(|q| p(q.x + dx, q.y + dy)).collect() }
pub fn rev(c: &[IntPoint]) -> C { c.iter().rev().cloned().collect() }
/// rectangle with symbolic corners, counterclockwise, not flat
pub fn orect(id: u32, r: i32) -> C {
    let c = srect(id, r);
    assume(c[0].x < c[2].x);
    assume(c[0].y < c[2].y);
    c
}
pub fn filled(f: FillRule, w: i32) -> bool {
    match f { FillRule::EvenOdd => w & 1 != 0, FillRule::NonZero => w != 0, FillRule::Positive => w > 0, FillRule::Negative => w < 0 }
}
pub fn ruled(r: OverlayRule, s: bool, c: bool) -> bool {
    match r { OverlayRule::Subject => s, OverlayRule::Clip => c, OverlayRule::Intersect => s & c, OverlayRule::Union => s | c, OverlayRule::Difference => s & !c, OverlayRule::InverseDifference => c & !s, OverlayRule::Xor => s ^ c }
}
pub const RULES: [OverlayRule; 7] = [OverlayRule::Subject, OverlayRule::Clip, OverlayRule::Intersect, OverlayRule::Union, OverlayRule::Difference, OverlayRule::InverseDifference, OverlayRule::Xor];
pub const FILLS: [FillRule; 4] = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative];
pub fn rule(id: u32) -> OverlayRule { RULES[choose(id, 7) as usize] }
pub fn fill(id: u32) -> FillRule { FILLS[choose(id, 4) as usize] }
pub fn overlay(s: &[C], c: &[C]) -> Overlay {
    let mut o = Overlay::new(16);
    for x in s { o.add_contour(x, ShapeType::Subject); }
    for x in c { o.add_contour(x, ShapeType::Clip); }
    o
}
/// The arrangement of all coordinates. Axis-parallel figures keep every relation when each
/// coordinate is replaced by its rank, and every point off the lines lies in one of the cells, so
/// that a statement about all points is one about all cells. The order of the coordinates is
/// symbolic: asking for it splits the path where it is not settled yet.
pub struct Grid { pub xs: Vec<i32>, pub ys: Vec<i32>, pub m: M }
/// integer map (x, y) -> (ax + by, cx + dy)
#[derive(Clone, Copy)]
pub struct M(pub i32, pub i32, pub i32, pub i32);
impl M {
    pub const ID: M = M(1, 0, 0, 1);
    pub fn det(self) -> i32 { self.0 * self.3 - self.1 * self.2 }
    pub fn on(self, c: &[IntPoint]) -> C { c.iter().map(|q| p(self.0 * q.x + self.1 * q.y, self.2 * q.x + self.3 * q.y)).collect() }
    pub fn all(self, c: &[C]) -> Vec<C> { c.iter().map(|q| self.on(q)).collect() }
}
/// contour in ranks, doubled: lines are even, cells are odd
pub type K = Vec<(i32, i32)>;
fn insert(v: &mut Vec<i32>, x: i32) {
    let mut i = 0;
    while i < v.len() {
        if x == v[i] { return }
        if x < v[i] { break }
        i += 1;
    }
    v.insert(i, x);
}
fn find(v: &[i32], x: i32) -> i32 {
    let mut i = 0;
    while i < v.len() { if v[i] == x { return 2 * i as i32 } i += 1; }
    -1
}
impl Grid {
    pub fn new(a: &[C], b: &[C]) -> Grid { Grid::mapped(M::ID, a, b) }
    /// figures that are axis-parallel before the map; the figures are given before the map, results after it
    pub fn mapped(m: M, a: &[C], b: &[C]) -> Grid {
        let mut g = Grid { xs: vec![], ys: vec![], m };
        let d = m.det();
        for c in a { for q in c { insert(&mut g.xs, q.x * d); insert(&mut g.ys, q.y * d); } }
        for c in b { for q in c { insert(&mut g.xs, q.x * d); insert(&mut g.ys, q.y * d); } }
        g
    }
    /// the orientation is that of the result: with a negative determinant both axes run backwards,
    /// which leaves turning as it is in the preimage, so it is turned here
    pub fn sign(&self) -> i32 { if self.m.det() < 0 { -1 } else { 1 } }
    pub fn point(&self, q: &IntPoint) -> (i32, i32) {
        let M(a, b, c, d) = self.m;
        (find(&self.xs, d * q.x - b * q.y), find(&self.ys, a * q.y - c * q.x))
    }
    pub fn before(&self, q: &IntPoint) -> (i32, i32) { let d = self.m.det(); (find(&self.xs, q.x * d), find(&self.ys, q.y * d)) }
    pub fn input(&self, c: &[C]) -> Vec<K> { c.iter().map(|q| q.iter().map(|q| self.before(q)).collect()).collect() }
    pub fn ranks(&self, c: &[IntPoint]) -> K { c.iter().map(|q| self.point(q)).collect() }
    pub fn all(&self, c: &[C]) -> Vec<K> { c.iter().map(|q| self.ranks(q)).collect() }
}
/// winding number of a contour around the centre of a cell
pub fn wind(q: (i32, i32), c: &[(i32, i32)]) -> i32 {
    let mut w = 0;
    let n = c.len();
    for i in 0..n {
        let (a, b) = (c[i], c[if i + 1 < n { i + 1 } else { 0 }]);
        if a.0 < q.0 { continue }
        if a.1 < q.1 && q.1 < b.1 { w += 1 } else if b.1 < q.1 && q.1 < a.1 { w -= 1 }
    }
    w
}
pub fn winds(q: (i32, i32), cs: &[K]) -> i32 { let mut w = 0; for c in cs { w += wind(q, c); } w }
/// winding numbers of subject and clip in every cell, a ring of outside cells around
pub struct Cells { pub nx: usize, pub ny: usize, pub w: Vec<(i32, i32)> }
impl Cells {
    pub fn new(g: &Grid, s: &[K], c: &[K]) -> Cells {
        let (nx, ny) = (g.xs.len() + 1, g.ys.len() + 1);
        let mut w = vec![(0, 0); nx * ny];
        let sg = g.sign();
        for i in 1..nx - 1 { for j in 1..ny - 1 {
            let q = (2 * i as i32 - 1, 2 * j as i32 - 1);
            w[i * ny + j] = (sg * winds(q, s), sg * winds(q, c));
        } }
        Cells { nx, ny, w }
    }
    /// cell right of and above line crossing (i, j) is (i + 1, j + 1)
    pub fn at(&self, i: usize, j: usize) -> (i32, i32) { self.w[i * self.ny + j] }
}
/// directed use of each elementary piece of the lines: (along the axis, against it)
pub struct Pieces { pub ny: usize, pub h: Vec<(u8, u8)>, pub v: Vec<(u8, u8)>, pub ok: bool }
impl Pieces {
    pub fn new(c: &Cells) -> Pieces { Pieces { ny: c.ny, h: vec![(0, 0); c.nx * c.ny], v: vec![(0, 0); c.nx * c.ny], ok: true } }
    pub fn add(&mut self, a: (i32, i32), b: (i32, i32)) {
        if a.0 < 0 || a.1 < 0 || b.0 < 0 || b.1 < 0 || (a.0 == b.0) == (a.1 == b.1) { self.ok = false; return }
        let (ax, ay, bx, by) = (a.0 as usize / 2, a.1 as usize / 2, b.0 as usize / 2, b.1 as usize / 2);
        for i in ax..bx { self.h[i * self.ny + ay].0 += 1; }
        for i in bx..ax { self.h[i * self.ny + ay].1 += 1; }
        for j in ay..by { self.v[ax * self.ny + j].0 += 1; }
        for j in by..ay { self.v[ax * self.ny + j].1 += 1; }
    }
    /// every piece of line: use it gets against the windings left and right of it (of its direction along the axis)
    pub fn all(&self, c: &Cells, f: &dyn Fn((u8, u8), (i32, i32), (i32, i32)) -> bool) -> bool {
        let mut ok = self.ok;
        for i in 0..c.nx - 1 { for j in 0..c.ny - 1 {
            let k = i * self.ny + j;
            ok &= f(self.h[k], c.at(i + 1, j + 1), c.at(i + 1, j));
            ok &= f(self.v[k], c.at(i, j + 1), c.at(i + 1, j + 1));
        } }
        ok
    }
}
#[derive(Clone, Copy)]
pub struct Seen { pub form: bool, pub region: bool, pub nest: bool, pub thin: bool }
pub const FINE: Seen = Seen { form: true, region: true, nest: true, thin: true };
impl Seen {
    pub fn add(&mut self, o: Seen) { self.form &= o.form; self.region &= o.region; self.nest &= o.nest; self.thin &= o.thin; }
    pub fn report(&self) { check(self.form, 1); check(self.region, 2); check(self.nest, 3); }
}
/// Result against the wanted cells: contours on the lines of the input; the contours run along the
/// border of the wanted region, once, with the region on the side their direction says, and nowhere
/// else; each contour encloses each cell at most once, holes inside and apart, shapes apart.
/// thin: no point in the middle of a straight line
pub fn judge(g: &Grid, res: &IntShapes, dir: ContourDirection, cells: &Cells, want: &dyn Fn(i32, i32) -> bool) -> Seen {
    let sg = g.sign() * if dir == ContourDirection::CounterClockwise { 1 } else { -1 };
    let ks: Vec<Vec<K>> = res.iter().map(|s| g.all(s)).collect();
    let mut s = FINE;
    let mut use_ = Pieces::new(cells);
    for sh in &ks {
        s.form &= !sh.is_empty();
        for c in sh {
            s.form &= c.len() >= 4;
            let n = c.len();
            for i in 0..n {
                let (a, b, d) = (c[i], c[(i + 1) % n], c[(i + 2) % n]);
                use_.add(a, b);
                s.thin &= (a.0 == b.0) != (b.0 == d.0);
            }
        }
    }
    s.form &= use_.ok;
    s.region &= use_.all(cells, &|u, l, r| {
        let (l, r) = (want(l.0, l.1), want(r.0, r.1));
        let (fwd, back) = if sg > 0 { u } else { (u.1, u.0) };
        fwd == (l && !r) as u8 && back == (r && !l) as u8
    });
    for i in 1..cells.nx - 1 { for j in 1..cells.ny - 1 {
        let q = (2 * i as i32 - 1, 2 * j as i32 - 1);
        let mut total = 0;
        for sh in &ks {
            let mut w = 0;
            for (i, c) in sh.iter().enumerate() {
                let k = sg * wind(q, c);
                s.nest &= k == 0 || k == if i == 0 { 1 } else { -1 };
                w += k;
            }
            s.nest &= w == 0 || w == 1;
            total += w;
        }
        s.nest &= total <= 1;
    } }
    s
}
pub const CCW: ContourDirection = ContourDirection::CounterClockwise;
pub const CW: ContourDirection = ContourDirection::Clockwise;
/// all overlay rules and the given fill rules in one path, by the direct operation or by the graph
pub fn all_rules(s: &[C], c: &[C], fills: &[FillRule], graph: bool) { all_rules_m(M::ID, s, c, fills, graph) }
pub fn all_rules_m(m: M, s: &[C], c: &[C], fills: &[FillRule], graph: bool) {
    let g = Grid::mapped(m, s, c);
    let cells = Cells::new(&g, &g.input(s), &g.input(c));
    let (s, c) = (m.all(s), m.all(c));
    let mut seen = FINE;
    let mut n = 0;
    for &f in fills {
        let gr = if graph { Some(overlay(&s, &c).into_graph(f)) } else { None };
        for r in RULES {
            let res = match &gr { Some(g) => g.extract_shapes(r), None => overlay(&s, &c).overlay(r, f) };
            seen.add(judge(&g, &res, CCW, &cells, &|s, c| ruled(r, filled(f, s), filled(f, c))));
            n += res.len();
        }
    }
    out(1, n as i64);
    seen.report();
}
/// far away squares that fix the extent of the figure (and with it the layout of the sort buckets),
/// on lines that the figure has anyway
pub fn anchors(y0: i32, y1: i32) -> Vec<C> {
    const S: i32 = 1 << 20;
    vec![rect(-S - 7999, y0, -S - 7990, y1), rect(S, y0, S + 10, y1)]
}
pub const NEAR: i32 = 900;
pub fn with(mut a: Vec<C>, b: &[C]) -> Vec<C> { a.extend_from_slice(b); a }
/// bits of a vector edge against the windings on its sides
pub fn sides(f: FillRule, l: (i32, i32), r: (i32, i32)) -> u8 {
    filled(f, l.0) as u8 | (filled(f, r.0) as u8) << 1 | (filled(f, l.1) as u8) << 2 | (filled(f, r.1) as u8) << 3
}
/// a vector edge in ranks: the pieces it runs along carry the sides it names
pub fn edge_sides(g: &Grid, cells: &Cells, f: FillRule, e: &VectorEdge) -> bool {
    let (a, b) = (g.point(&e.a), g.point(&e.b));
    let mut p = Pieces::new(cells);
    p.add(a, b);
    let flip = g.sign() < 0;
    p.all(cells, &|u, l, r| {
        let (l, r) = if flip { (r, l) } else { (l, r) };
        (u.0 == 0 || e.fill == sides(f, l, r)) && (u.1 == 0 || e.fill == sides(f, r, l))
    })
}
