//@ attach: root
//! the float interface against the integer one, on points of the lattice of the adapter
use crate::core::fill_rule::FillRule;
use crate::core::overlay::{ContourDirection, Overlay, ShapeType};
use crate::core::overlay_rule::OverlayRule;
use crate::core::solver::Solver;
use crate::float::clip::FloatClip;
use crate::float::filter::ContourFilter;
use crate::float::overlay::FloatOverlay;
use crate::float::simplify::SimplifyShape;
use crate::float::single::SingleFloatOverlay;
use crate::float::slice::FloatSlice;
use crate::float::string_overlay::FloatStringOverlay;
use crate::string::clip::{ClipRule, IntClip};
use crate::string::overlay::StringOverlay;
use crate::string::rule::StringRule;
use crate::vh::*;
use crate::vhl::*;
use i_float::adapter::FloatPointAdapter;
use i_float::float::compatible::FloatPointCompatible;
use i_float::float::number::FloatNumber;
use i_float::float::rect::FloatRect;
use i_float::int::point::IntPoint;

/// the frame: offset in quarter units, quarter units to a step of the integer grid
#[derive(Clone, Copy)]
struct Fr { ox: i32, oy: i32, w: i32, h: i32, k: u32 }
/// frame of 2048 x 2048 around the origin: half width 2^10, scale 2^19
const MID: Fr = Fr { ox: 0, oy: 0, w: 4096, h: 4096, k: 17 };
/// frame off the origin, wider than high
const OFF: Fr = Fr { ox: 4400, oy: -2000, w: 4096, h: 1200, k: 17 };
impl Fr {
    /// two squares at the far corners that fix the frame
    fn ends(self) -> Vec<C> {
        let (x, y) = (self.w, self.h);
        vec![rect(-x, -y, 8 - x, 8 - y), rect(x - 8, y - 8, x, y)]
    }
    fn float<T: FloatNumber>(self, c: &[C]) -> Vec<Vec<[T; 2]>> where [T; 2]: FloatPointCompatible<T> {
        let q = T::from_float(0.25);
        c.iter().map(|c| c.iter().map(|p| [T::from_i32(p.x + self.ox) * q, T::from_i32(p.y + self.oy) * q]).collect()).collect()
    }
    fn int(self, c: &[C]) -> Vec<C> { c.iter().map(|c| c.iter().map(|q| p(q.x << self.k, q.y << self.k)).collect()).collect() }
    fn same<T: FloatNumber>(self, a: &[Vec<Vec<[T; 2]>>], b: &[Vec<C>]) -> bool where [T; 2]: FloatPointCompatible<T> {
        if a.len() != b.len() { return false }
        let mut ok = true;
        for (a, b) in a.iter().zip(b) { ok &= self.paths(a, b) }
        ok
    }
    fn paths<T: FloatNumber>(self, a: &[Vec<[T; 2]>], b: &[C]) -> bool where [T; 2]: FloatPointCompatible<T> {
        if a.len() != b.len() { return false }
        let s = T::from_float(1.0 / (4u64 << self.k) as f64);
        let (ox, oy) = (T::from_float(self.ox as f64 * 0.25), T::from_float(self.oy as f64 * 0.25));
        let mut ok = true;
        for (a, b) in a.iter().zip(b) {
            if a.len() != b.len() { return false }
            for (a, b) in a.iter().zip(b) {
                ok &= (a[0] == T::from_i32(b.x) * s + ox) & (a[1] == T::from_i32(b.y) * s + oy);
            }
        }
        ok
    }
}
fn bools<T: FloatNumber + 'static>(fr: Fr, s: &[C], c: &[C]) where [T; 2]: FloatPointCompatible<T> {
    let mut s = s.to_vec();
    s.extend(fr.ends());
    let (fs, fc) = (fr.float::<T>(&s), fr.float::<T>(c));
    let (is, ic) = (fr.int(&s), fr.int(c));
    let k = choose(100, 7) as usize;
    let (r, f) = (RULES[k], FILLS[k & 3]);
    let want = overlay(&is, &ic).overlay(r, f);
    check(fr.same(&FloatOverlay::with_subj_and_clip(&fs, &fc).overlay(r, f), &want), 1);
    check(fr.same(&SingleFloatOverlay::overlay(&fs, &fc, r, f), &want), 2);
    let g = FloatOverlay::with_subj_and_clip(&fs, &fc).into_graph(f);
    check(fr.same(&g.extract_shapes(r), &overlay(&is, &ic).into_graph(f).extract_shapes(r)), 3);
    // adapter of one's own
    let ad = FloatPointAdapter::<[T; 2], T>::with_iter(fs.iter().flatten());
    let o = FloatOverlay::with_adapter(ad, 8).unsafe_add_source(&fc, ShapeType::Clip).unsafe_add_source(&fs, ShapeType::Subject);
    let mut io = Overlay::new(8);
    for x in &ic { io.add_contour(x, ShapeType::Clip) }
    for x in &is { io.add_contour(x, ShapeType::Subject) }
    check(fr.same(&o.into_graph_with_solver(f, Solver::LIST).extract_shapes(r), &io.into_graph_with_solver(f, Solver::LIST).extract_shapes(r)), 4);
}
/// all settings, areas linear in one symbolic size
fn custom<T: FloatNumber + 'static>(fr: Fr, s: &[C], c: &[C]) where [T; 2]: FloatPointCompatible<T> {
    let mut s = s.to_vec();
    s.extend(fr.ends());
    let (fs, fc) = (fr.float::<T>(&s), fr.float::<T>(c));
    let (is, ic) = (fr.int(&s), fr.int(c));
    let area = i32s(50, 0, 60000);
    let ia = (area as usize) << (2 * fr.k + 4);
    let k = choose(100, 8) as usize;
    let (r, f) = (RULES[k % 7], FILLS[k & 3]);
    let simple = k & 1 == 0;
    let d = if k & 2 == 0 { CCW } else { CW };
    let filter = ContourFilter { min_area: T::from_i32(area), simplify_contour: simple, clean_result: false };
    let want = overlay(&is, &ic).overlay_custom(r, f, d, simple, ia, Solver::LIST);
    check(fr.same(&FloatOverlay::with_subj_and_clip(&fs, &fc).overlay_custom(r, f, d, filter, Solver::LIST), &want), 1);
    let g = FloatOverlay::with_subj_and_clip(&fs, &fc).into_graph(f);
    check(fr.same(&g.extract_shapes_custom(r, d, filter), &overlay(&is, &ic).into_graph(f).extract_shapes_custom(r, d, simple, ia)), 2);
    let want = overlay(&is, &[]).overlay_custom(OverlayRule::Subject, f, d, true, ia, Solver::AUTO);
    check(fr.same(&fs.simplify_shape(f, d, T::from_i32(area)), &want), 3);
    check(fr.same(&fs.simplify_shape_with_solver(f, d, T::from_i32(area), Solver::LIST), &want), 4);
    let mut o = StringOverlay::with_shape_contours(&is);
    for l in &ic { o.add_string_path(l) }
    let want = o.clone().into_graph_with_solver(f, Solver::LIST).extract_shapes_custom(StringRule::Slice, d, ia);
    check(fr.same(&fs.slice_custom_by(&fc, f, d, filter, Solver::LIST), &want), 5);
    let g = FloatStringOverlay::with_shape_and_string(&fs, &fc).into_graph(f);
    check(fr.same(&g.extract_shapes_custom(StringRule::Slice, d, filter), &o.into_graph(f).extract_shapes_custom(StringRule::Slice, d, ia)), 6);
}
fn simple<T: FloatNumber + 'static>(fr: Fr, s: &[C]) where [T; 2]: FloatPointCompatible<T> {
    let mut s = s.to_vec();
    s.extend(fr.ends());
    let (fs, is) = (fr.float::<T>(&s), fr.int(&s));
    let f = fill(101);
    let d = if choose(102, 2) == 0 { CCW } else { CW };
    let want = overlay(&is, &[]).overlay_custom(OverlayRule::Subject, f, d, true, 0, Solver::AUTO);
    check(fr.same(&fs.simplify_shape(f, d, T::from_i32(0)), &want), 1);
    check(fr.same(&fs.simplify_shape_with_solver(f, d, T::from_i32(0), Solver::LIST), &want), 2);
    check(fr.same(&FloatOverlay::with_subj(&fs).overlay(OverlayRule::Subject, f), &overlay(&is, &[]).overlay(OverlayRule::Subject, f)), 3);
}
fn lines<T: FloatNumber + 'static>(fr: Fr, s: &[C], l: &[C]) where [T; 2]: FloatPointCompatible<T> {
    let mut s = s.to_vec();
    s.extend(fr.ends());
    let (fs, fl) = (fr.float::<T>(&s), fr.float::<T>(l));
    let (is, il) = (fr.int(&s), fr.int(l));
    let f = fill(101);
    let mut o = StringOverlay::with_shape_contours(&is);
    for l in &il { o.add_string_path(l) }
    for k in 0..4 {
        let r = ClipRule { invert: k & 1 != 0, boundary_included: k & 2 != 0 };
        let want = o.clone().clip_string_lines_with_solver(f, r, Solver::AUTO);
        check(fr.paths(&fl.clip_by(&fs, f, r), &want), 1);
        check(fr.paths(&fl.clip_by_with_solver(&fs, f, r, Solver::LIST), &o.clone().clip_string_lines_with_solver(f, r, Solver::LIST)), 2);
    }
    let want = o.clone().into_graph(f).extract_shapes(StringRule::Slice);
    check(fr.same(&fs.slice_by(&fl, f), &want), 3);
}
/// rectangle with two corners in the frame, symbolic along one axis (so that areas stay linear)
fn inner(fr: Fr, id: u32, x: bool) -> C {
    let m = if x { fr.w } else { fr.h } - 10;
    let (a, b) = (i32s(id, -m, m), i32s(id + 1, -m, m));
    assume(a < b);
    if x { rect(a, -60, b, 180) } else { rect(-140, a, 60, b) }
}
crate::harness!(float_bool, { bools::<f64>(MID, &[rect(-300, -200, 100, 250)], &[inner(MID, 0, true)]); });
crate::harness!(float_bool_off, { bools::<f64>(OFF, &[rect(-300, -200, 100, 250)], &[inner(OFF, 0, false)]); });
/// between the horizontal lines of the other rectangle: every corner of the result is one of the input
fn level(fr: Fr, id: u32) -> C {
    let (a, b) = (i32s(id, 10 - fr.w, fr.w - 10), i32s(id + 1, 10 - fr.w, fr.w - 10));
    assume(a < b);
    rect(a, -200, b, 250)
}
crate::harness!(float_bool32, { bools::<f32>(MID, &[rect(-300, -200, 100, 250)], &[level(MID, 0)]); });
crate::harness!(float_simple, { simple::<f64>(OFF, &[rect(-300, -200, 100, 250), inner(OFF, 0, true)]); });
crate::harness!(float_simple32, { simple::<f32>(MID, &[rect(-300, -200, 100, 250), level(MID, 0)]); });
crate::harness!(float_lines, { let (x, w) = (i32s(0, -900, 900), i32s(2, 1, 900)); lines::<f64>(OFF, &[rect(-300, -200, 100, 250)], &[vec![p(x, 10), p(x + w, 10), p(x + w, 130)]]); });
crate::harness!(float_lines_y, { let (y, w) = (i32s(0, -400, 400), i32s(2, 1, 150)); lines::<f64>(MID, &[rect(-300, -200, 100, 250)], &[vec![p(10, y), p(10, y + w), p(130, y + w)]]); });
fn sized(w: i32) -> (Vec<C>, Vec<C>) { (vec![rect(-300, -200, 100, 250), rect(-200, 200, -100, -150), rect(300, 0, 300 + w, 60)], vec![rect(-250, -100, w - 250, 200)]) }
crate::harness!(float_custom, { let (s, c) = sized(i32s(0, 1, 900)); custom::<f64>(OFF, &s, &c); });
crate::harness!(float_custom32, { let w = i32s(0, 1, 900); custom::<f32>(MID, &[rect(-300, -200, 100, 250), rect(-200, 200, -100, -150), rect(300, -200, 300 + w, 250)], &[rect(w - 80, -200, w + 150, 250)]); });
