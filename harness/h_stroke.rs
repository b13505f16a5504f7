//@ attach: mesh/stroke
//! strokes of axis-parallel paths against the union of rectangles they are
use crate::core::graph::OverlayGraph;
use crate::mesh::stroke::builder::StrokeBuilder;
use crate::mesh::style::{LineCap, LineJoin, StrokeStyle};
use crate::vh::*;
use crate::vhl::*;
use i_float::adapter::FloatPointAdapter;
use i_float::float::rect::FloatRect;
use i_float::float::compatible::FloatPointCompatible;
use i_float::float::number::FloatNumber;
use crate::float::filter::ContourFilter;
use crate::mesh::stroke::offset::StrokeOffset;
use i_float::int::point::IntPoint;
use i_shape::int::shape::IntShapes;

type P = [f64; 2];
fn cap(k: i32) -> LineCap<P, f64> {
    match k { 0 => LineCap::Butt, 1 => LineCap::Square, _ => LineCap::Custom(vec![[1.0, -1.0], [1.0, 1.0]]) }
}
fn sign(v: i32) -> i32 { (v > 0) as i32 - (v < 0) as i32 }
fn order(a: i32, b: i32) -> (i32, i32) { if a < b { (a, b) } else { (b, a) } }
/// the frame is a concrete one with scale 1, float coordinates are grid coordinates
fn frame() -> FloatPointAdapter<P, f64> {
    let l = (1 << 24) as f64;
    FloatPointAdapter::with_scale(FloatRect { min_x: -l, max_x: l, min_y: -l, max_y: l }, 1.0)
}
/// dirs: concrete direction of each edge of the path (axis, sign), points may be symbolic
struct Case { paths: Vec<C>, dirs: Vec<Vec<(i32, i32)>>, closed: bool }
fn built(c: &Case, r: i32, join: LineJoin<f64>, caps: (i32, i32)) -> IntShapes {
    let ad = frame();
    let w = 2 * r;
    let style = StrokeStyle { width: w as f64, start_cap: cap(caps.0), end_cap: cap(caps.1), join };
    let b = StrokeBuilder::new(style);
    let mut seg = Vec::new();
    for path in &c.paths {
        let f: Vec<P> = path.iter().map(|q| [q.x as f64, q.y as f64]).collect();
        b.build(&f, c.closed, &ad, &mut seg);
    }
    OverlayGraph::offset_graph_with_solver(seg, crate::core::solver::Solver::LIST).extract_offset(CCW, 0)
}
/// rectangles that make up the stroke, corners of outer joins
fn wanted(c: &Case, r: i32, caps: (i32, i32)) -> (Vec<C>, Vec<IntPoint>) {
    let mut v = vec![];
    let mut cs = vec![];
    for (path, d) in c.paths.iter().zip(&c.dirs) {
        let n = d.len();
        for i in 0..n {
            let (a, b) = (path[i], path[(i + 1) % path.len()]);
            let u = d[i];
            let turn = |s: (i32, i32)| s.0 * u.0 + s.1 * u.1 == 0;
            let before = if i > 0 { turn(d[i - 1]) } else if c.closed { turn(d[n - 1]) } else { caps.0 > 0 };
            let after = if i + 1 < n { turn(d[i + 1]) } else if c.closed { turn(d[0]) } else { caps.1 > 0 };
            let (e, f) = (if before { r } else { 0 }, if after { r } else { 0 });
            let a1 = p(a.x - u.0 * e, a.y - u.1 * e);
            let b1 = p(b.x + u.0 * f, b.y + u.1 * f);
            let (x0, x1) = if u.0 < 0 { (b1.x, a1.x) } else { (a1.x, b1.x) };
            let (y0, y1) = if u.1 < 0 { (b1.y, a1.y) } else { (a1.y, b1.y) };
            let (h, k) = if u.0 == 0 { (r, 0) } else { (0, r) };
            v.push(rect(x0 - h, y0 - k, x1 + h, y1 + k));
            if i + 1 < n || c.closed {
                let w = d[(i + 1) % n];
                if turn(w) { cs.push(p(b.x + (u.0 - w.0) * r, b.y + (u.1 - w.1) * r)); }
            }
        }
    }
    (v, cs)
}
/// gives the cut corners back; how many there were
fn restore(res: &IntShapes, corners: &[IntPoint], r: i32) -> (IntShapes, usize, bool) {
    let mut n = 0;
    let mut ok = true;
    let all = res.iter().map(|s| s.iter().map(|c| {
        let mut o: C = vec![];
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            o.push(a);
            if (a.x != b.x) & (a.y != b.y) {
                let mut found = false;
                for q in corners {
                    let m = (q.x == a.x) & (q.y == b.y) | (q.x == b.x) & (q.y == a.y);
                    if m & !found {
                        found = true;
                        let (dx, dy) = (a.x - b.x, a.y - b.y);
                        ok &= ((dx == r) | (dx == -r)) & ((dy == r) | (dy == -r));
                        if !((q.x == a.x) & (q.y == a.y)) & !((q.x == b.x) & (q.y == b.y)) { o.push(*q) }
                    }
                }
                ok &= found;
                n += 1;
            }
        }
        o
    }).collect()).collect();
    (all, n, ok)
}
fn run(c: &Case, r: i32, caps: (i32, i32), bevel: bool) {
    let (v, corners) = wanted(c, r, caps);
    // the cut corners have their points on the lines through the joints
    let g = Grid::new(&v, if bevel { &c.paths } else { &[] });
    let cells = Cells::new(&g, &g.input(&v), &[]);
    let join = if bevel { LineJoin::Bevel } else { LineJoin::Miter(0.5) };
    let mut res = built(c, r, join, caps);
    if bevel {
        let (x, n, ok) = restore(&res, &corners, r);
        check(ok, 4);
        check(n == corners.len(), 5);
        res = x;
    }
    let s = judge(&g, &res, CCW, &cells, &|w, _| w > 0);
    s.report();
    out(1, res.len() as i64);
    out(2, res.iter().map(|s| s.len() as i64).sum());
    cover(1);
}
/// polyline from a start and steps along the axes, lengths concrete
fn walk(start: IntPoint, steps: &[(i32, i32)], closed: bool) -> (C, Vec<(i32, i32)>) {
    let mut q = start;
    let mut c = vec![q];
    let mut d = vec![];
    for (i, s) in steps.iter().enumerate() {
        q = p(q.x + s.0, q.y + s.1);
        if !closed || i + 1 < steps.len() { c.push(q); }
        d.push((sign(s.0), sign(s.1)));
    }
    (c, d)
}
fn walks(w: &[&[(i32, i32)]], closed: bool) -> Case {
    let start = p(i32s(0, -50, 50), i32s(1, -50, 50));
    let mut c = Case { paths: vec![], dirs: vec![], closed };
    for (i, s) in w.iter().enumerate() {
        let (path, d) = walk(p(start.x + 3000 * i as i32, start.y), s, closed);
        c.paths.push(path);
        c.dirs.push(d);
    }
    c
}
fn open(w: &[&[(i32, i32)]], bevel: bool) {
    let c = walks(w, false);
    let r = i32s(2, 2, 90);
    let k = choose(10, 5);
    run(&c, r, [(0, 0), (1, 1), (0, 1), (1, 0), (2, 2)][k as usize], bevel);
}
crate::harness!(stroke_line, { open(&[&[(700, 0)]], false) });
crate::harness!(stroke_l, { open(&[&[(700, 0), (0, 500)]], false) });
crate::harness!(stroke_z, { open(&[&[(0, -700), (600, 0), (0, -500)]], false) });
crate::harness!(stroke_l_bevel, { open(&[&[(700, 0), (0, 500)]], true) });

crate::harness!(stroke_z_bevel, { open(&[&[(0, -700), (600, 0), (0, -500)]], true) });
crate::harness!(stroke_u, { open(&[&[(700, 0), (0, 500), (-600, 0), (-500, 0)]], false) });
crate::harness!(stroke_cross, { open(&[&[(1000, 0), (0, 500), (-600, 0), (0, -1000)]], false) });
crate::harness!(stroke_back, { open(&[&[(1000, 0), (-600, 0), (0, 500)]], false) });
crate::harness!(stroke_two, { open(&[&[(1000, 0)], &[(-400, 0), (-200, 0), (0, 400)]], false) });
fn closed(w: &[&[(i32, i32)]], bevel: bool) {
    let c = walks(w, true);
    let r = i32s(2, 2, 90);
    run(&c, r, (0, 0), bevel);
}
crate::harness!(stroke_ring, { closed(&[&[(700, 0), (0, 500), (-700, 0), (0, -500)]], false) });
crate::harness!(stroke_ring_cw, { closed(&[&[(0, 700), (500, 0), (0, -700), (-500, 0)]], false) });
crate::harness!(stroke_ring_bevel, { closed(&[&[(700, 0), (0, 500), (-700, 0), (0, -500)]], true) });
crate::harness!(stroke_ring_l, { closed(&[&[(900, 0), (0, 800), (-400, 0), (0, -400), (-500, 0), (0, -400)]], false) });
crate::harness!(stroke_ring_eight, { closed(&[&[(900, 0), (0, 400), (-400, 0), (0, -800), (-500, 0), (0, 400)]], false) });
// the public call: quarter units, the frame is fixed by two far paths
fn whole<T: FloatNumber>(f: &[Vec<Vec<[T; 2]>>]) -> (IntShapes, bool) {
    let q = T::from_float(0.25);
    let mut ok = true;
    let r = f.iter().map(|s| s.iter().map(|c| c.iter().map(|v| {
        let u = p((v[0].to_f64() * 4.0) as i32, (v[1].to_f64() * 4.0) as i32);
        ok &= (T::from_i32(u.x) * q == v[0]) & (T::from_i32(u.y) * q == v[1]);
        u
    }).collect()).collect()).collect();
    (r, ok)
}
fn far_cap<T: FloatNumber>(k: i32) -> LineCap<[T; 2], T> {
    let (o, m, z) = (T::from_float(1.0), T::from_float(-1.0), T::from_float(4.0));
    match k { 0 => LineCap::Butt, 1 => LineCap::Square, _ => LineCap::Custom(vec![[z, m], [z, o]]) }
}
fn public<T: FloatNumber + 'static>(steps: &[(i32, i32)], closed: bool, r: i32, caps: (i32, i32), far: i32) where [T; 2]: FloatPointCompatible<T> {
    let mut c = walks(&[steps], closed);
    // far paths, which fix the frame
    for (x, y) in [(-far, -far), (far, far)] {
        let k = if x < 0 { -1 } else { 1 };
        let (q, d) = if closed { walk(p(x, y), &[(-800 * k, 0), (0, -800 * k), (800 * k, 0), (0, 800 * k)], true) } else { walk(p(x - 800 * k, y), &[(800 * k, 0)], false) };
        c.paths.push(q);
        c.dirs.push(d);
    }
    let q = T::from_float(0.25);
    let mut f: Vec<Vec<[T; 2]>> = c.paths.iter().map(|c| c.iter().map(|v| [T::from_i32(v.x) * q, T::from_i32(v.y) * q]).collect()).collect();
    // paths that are no path
    f.push(vec![]);
    f.insert(1, vec![[T::from_float(8.0), T::from_float(16.0)]]);
    f.push(vec![[T::from_float(8.0), T::from_float(16.0)]; 3]);
    let style = StrokeStyle::new(T::from_float(r as f64 * 0.5)).line_join(if steps.len() > 1 { LineJoin::Miter(T::from_float(0.5)) } else { LineJoin::Bevel }).start_cap(far_cap(caps.0)).end_cap(far_cap(caps.1));
    let cw = choose(11, 2) == 1;
    let res = if cw {
        f.stroke_custom(style, closed, CW, ContourFilter { min_area: T::from_float(0.0), simplify_contour: true, clean_result: true })
    } else { f.stroke(style, closed) };
    let (res, ok) = whole(&res);
    check(ok, 6);
    let len = |k: i32| if k == 2 { 4 } else { k };
    let mut v = wanted(&c, r, caps).0;
    if !closed {
        // caps of another length
        let mut i = 0;
        for (path, d) in c.paths.iter().zip(&c.dirs) {
            let (a, b) = (path[0], path[path.len() - 1]);
            let (e, g) = (len(caps.0) * r, len(caps.1) * r);
            let add = |a: IntPoint, u: (i32, i32), e: i32| {
                let z = p(a.x + u.0 * e, a.y + u.1 * e);
                let (x0, x1) = if u.0 < 0 { (z.x, a.x) } else { (a.x, z.x) };
                let (y0, y1) = if u.1 < 0 { (z.y, a.y) } else { (a.y, z.y) };
                let (h, k) = if u.0 == 0 { (r, 0) } else { (0, r) };
                rect(x0 - h, y0 - k, x1 + h, y1 + k)
            };
            if e > r { v.push(add(a, (-d[0].0, -d[0].1), e)) }
            let l = d[d.len() - 1];
            if g > r { v.push(add(b, l, g)) }
            i += 1;
        }
        let _ = i;
    }
    let g = Grid::new(&v, &[]);
    let cells = Cells::new(&g, &g.input(&v), &[]);
    judge(&g, &res, if cw { CW } else { CCW }, &cells, &|w, _| w > 0).report();
    cover(1);
}
fn pick_caps() -> (i32, i32) { [(0, 0), (1, 1), (0, 2), (2, 1)][choose(10, 4) as usize] }
crate::harness!(stroke_public, { public::<f64>(&[(700, 0), (0, 500), (-600, 0)], false, 40, pick_caps(), 9000) });
crate::harness!(stroke_public_wide, { public::<f64>(&[(0, -700), (600, 0)], false, 200, pick_caps(), 9000) });
crate::harness!(stroke_public32, { public::<f32>(&[(700, 0), (0, 500)], false, 64, pick_caps(), 9000) });
crate::harness!(stroke_public_ring, { public::<f64>(&[(900, 0), (0, 800), (-400, 0), (0, -400), (-500, 0), (0, -400)], true, 50, (0, 0), 9000) });
// the frame holds just what the caps need
crate::harness!(stroke_public_caps, { public::<f64>(&[(700, 0)], false, 200, pick_caps(), 7990) });
// a least area, in the units of the input
crate::harness!(stroke_area, {
    let s = p(i32s(0, -50, 50), i32s(1, -50, 50));
    let m = i32s(2, 0, 8000);
    let f = |x: i32| x as f64 * 0.25;
    let mut v = vec![];
    for (x, y, l) in [(s.x, s.y, 700), (-8000, -8000, 800), (7200, 8000, 800)] { v.push(vec![[f(x), f(y)], [f(x + l), f(y)]]); }
    let res = v.stroke_custom(StrokeStyle::new(32.0).line_join(LineJoin::Bevel), false, CCW, ContourFilter { min_area: m as f64, simplify_contour: false, clean_result: false });
    check(res.len() == (m <= 5600) as usize + 2 * (m <= 6400) as usize, 7);
    cover(1 + res.len() as u32);
    out(1, res.len() as i64);
});
