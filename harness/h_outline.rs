//@ attach: mesh/outline
//! outlines of axis-parallel shapes: every side moves by the offset
use crate::core::graph::OverlayGraph;
use crate::mesh::outline::builder::OutlineBuilder;
use crate::mesh::outline::offset::OutlineOffset;
use crate::mesh::style::{LineJoin, OutlineStyle};
use crate::vh::*;
use crate::vhl::*;
use i_float::adapter::FloatPointAdapter;
use i_float::float::rect::FloatRect;
use i_float::float::compatible::FloatPointCompatible;
use i_float::float::number::FloatNumber;
use crate::float::filter::ContourFilter;
use i_float::int::point::IntPoint;
use i_shape::int::shape::IntShapes;

type P = [f64; 2];
fn frame() -> FloatPointAdapter<P, f64> {
    let l = (1 << 24) as f64;
    FloatPointAdapter::with_scale(FloatRect { min_x: -l, max_x: l, min_y: -l, max_y: l }, 1.0)
}
fn sign(v: i32) -> i32 { (v > 0) as i32 - (v < 0) as i32 }
/// contour with every side moved to its right by d (outwards for a counterclockwise one)
fn moved_sides(c: &C, dirs: &[(i32, i32)], d: i32) -> C {
    let n = c.len();
    (0..n).map(|i| {
        // side i runs from c[i] to c[i + 1], the one before ends in c[i]
        let (u, w) = (dirs[(i + n - 1) % n], dirs[i]);
        p(c[i].x + (u.1 + w.1) * d, c[i].y - (u.0 + w.0) * d)
    }).collect()
}
fn walk(start: IntPoint, steps: &[(i32, i32)]) -> (C, Vec<(i32, i32)>) {
    let mut q = start;
    let mut c = vec![];
    let mut d = vec![];
    for s in steps {
        c.push(q);
        q = p(q.x + s.0, q.y + s.1);
        d.push((sign(s.0), sign(s.1)));
    }
    (c, d)
}
// one counterclockwise contour, by the builder, offset symbolic
fn one(steps: &[(i32, i32)], lo: i32, hi: i32) {
    let (c, dirs) = walk(p(i32s(0, -50, 50), i32s(1, -50, 50)), steps);
    let d = i32s(2, lo, hi);
    assume(d != 0);
    let f: Vec<P> = c.iter().map(|q| [q.x as f64, q.y as f64]).collect();
    let b = OutlineBuilder::new(-(d as f64), &LineJoin::Miter(0.5));
    let mut seg = Vec::new();
    b.build(&f, &frame(), &mut seg);
    let res = OverlayGraph::offset_graph_with_solver(seg, crate::core::solver::Solver::LIST).extract_offset(CCW, 0);
    let want = vec![moved_sides(&c, &dirs, d)];
    let g = Grid::new(&want, &[]);
    let cells = Cells::new(&g, &g.input(&want), &[]);
    judge(&g, &res, CCW, &cells, &|w, _| w > 0).report();
    out(1, res.len() as i64);
    cover(1);
}
crate::harness!(outline_rect_out, { one(&[(700, 0), (0, 500), (-700, 0), (0, -500)], 2, 90) });
crate::harness!(outline_rect_in, { one(&[(700, 0), (0, 500), (-700, 0), (0, -500)], -90, -2) });
const L: [(i32, i32); 6] = [(900, 0), (0, 800), (-400, 0), (0, -400), (-500, 0), (0, -400)];
crate::harness!(outline_l_out, { one(&L, 2, 90) });
crate::harness!(outline_l_in, { one(&L, -90, -2) });
const U: [(i32, i32); 8] = [(900, 0), (0, 800), (-300, 0), (0, -400), (-300, 0), (0, 400), (-300, 0), (0, -800)];
crate::harness!(outline_u_out, { one(&U, 2, 90) });
crate::harness!(outline_u_in, { one(&U, -90, -2) });
// the public call: quarter units, the frame is fixed by two far squares
fn whole<T: FloatNumber>(f: &[Vec<Vec<[T; 2]>>]) -> (IntShapes, bool) {
    let q = T::from_float(0.25);
    let mut ok = true;
    let r = f.iter().map(|s| s.iter().map(|c| c.iter().map(|v| {
        let u = p((v[0].to_f64() * 4.0) as i32, (v[1].to_f64() * 4.0) as i32);
        ok &= (T::from_i32(u.x) * q == v[0]) & (T::from_i32(u.y) * q == v[1]);
        u
    }).collect()).collect()).collect();
    (r, ok)
}
fn floats<T: FloatNumber>(c: &[C]) -> Vec<Vec<[T; 2]>> {
    let q = T::from_float(0.25);
    c.iter().map(|c| c.iter().map(|v| [T::from_i32(v.x) * q, T::from_i32(v.y) * q]).collect()).collect()
}
fn public<T: FloatNumber + 'static>(outer: &[(i32, i32)], holes: &[(i32, i32, &[(i32, i32)])], more: Option<(i32, i32)>) where [T; 2]: FloatPointCompatible<T> {
    let s = p(i32s(0, -50, 50), i32s(1, -50, 50));
    let (dout, din) = [(40, 40), (40, -24), (-28, 40), (-28, -24), (60, 0)][choose(10, 5) as usize];
    let mut all = vec![];
    let mut want = vec![];
    let mut add = |start: IntPoint, steps: &[(i32, i32)], d: i32| {
        let (c, dirs) = walk(start, steps);
        want.push(moved_sides(&c, &dirs, d));
        all.push(c);
    };
    add(s, outer, dout);
    for h in holes { add(p(s.x + h.0, s.y + h.1), h.2, din) }
    if let Some(m) = more { add(p(s.x + m.0, s.y + m.1), outer, dout) }
    for k in [-9000, 8600] { add(p(k, k), &[(400, 0), (0, 400), (-400, 0), (0, -400)], dout) }
    let mut f = floats::<T>(&all);
    // contours that are no contour
    f.push(vec![]);
    f.insert(1, vec![[T::from_float(8.0), T::from_float(16.0)]]);
    f.insert(0, vec![[T::from_float(8.0), T::from_float(16.0)], [T::from_float(20.0), T::from_float(24.0)]]);
    let style = OutlineStyle::new(T::from_float(0.0)).outer_offset(T::from_float(dout as f64 * 0.25)).inner_offset(T::from_float(din as f64 * 0.25));
    let style = style.line_join(LineJoin::Miter(T::from_float(0.5)));
    let cw = choose(11, 2) == 1;
    let res = if cw {
        f.outline_custom(style, CW, ContourFilter { min_area: T::from_float(0.0), simplify_contour: true, clean_result: true })
    } else { f.outline(style) };
    let (res, ok) = whole(&res);
    check(ok, 6);
    let g = Grid::new(&want, &[]);
    let cells = Cells::new(&g, &g.input(&want), &[]);
    judge(&g, &res, if cw { CW } else { CCW }, &cells, &|w, _| w > 0).report();
    cover(1);
}
const R: [(i32, i32); 4] = [(1800, 0), (0, 1600), (-1800, 0), (0, -1600)];
const HOLE: [(i32, i32); 4] = [(0, 700), (600, 0), (0, -700), (-600, 0)];
crate::harness!(outline_public_hole, { public::<f64>(&R, &[(300, 400, &HOLE)], None) });
crate::harness!(outline_public_two, { public::<f64>(&L, &[], Some((940, 0))) });
crate::harness!(outline_public_hole32, { public::<f32>(&R, &[(300, 400, &HOLE)], None) });
// a least area, in the units of the input
crate::harness!(outline_area, {
    let s = p(i32s(0, -50, 50), i32s(1, -50, 50));
    let m = i32s(2, 0, 8000);
    let f = |x: i32| x as f64 * 0.25;
    let mut v = vec![];
    for (x, y, l) in [(s.x, s.y, 200), (-8000, -8000, 240), (7200, 7200, 240)] { v.push(vec![[f(x), f(y)], [f(x + l), f(y)], [f(x + l), f(y + l)], [f(x), f(y + l)]]); }
    // sides of 60 and 70 units
    let style = OutlineStyle::new(5.0).line_join(LineJoin::Miter(0.5));
    let res = v.outline_custom(style, CCW, ContourFilter { min_area: m as f64, simplify_contour: false, clean_result: false });
    check(res.len() == (m <= 3600) as usize + 2 * (m <= 4900) as usize, 7);
    cover(1 + res.len() as u32);
    out(1, res.len() as i64);
});
