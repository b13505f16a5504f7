//@ attach: mesh
//@ leaf
//! stroke and outline styles, rotations, vectors, sharp corners
use crate::mesh::math::Math;
use crate::mesh::rotator::Rotator;
use crate::mesh::style::*;
use crate::vh::*;
use std::f64::consts::PI;

type P = [f64; 2];
type Q = [f32; 2];
fn near(a: f64, b: f64, e: f64) -> bool { ((a - b) <= e) & ((b - a) <= e) }

// ---- styles: whatever is asked for, the angles end up inside the documented limits
fn clamp(v: f64, lo: f64, hi: f64) -> f64 { if v < lo { lo } else if v > hi { hi } else { v } }
const LO: f64 = 0.01 * PI;
const RHI: f64 = 0.25 * PI;
const MHI: f64 = 0.99 * PI;
fn cap_value(c: &LineCap<P, f64>) -> (i64, f64) { match c { LineCap::Butt => (0, 0.0), LineCap::Round(a) => (1, *a), LineCap::Square => (2, 0.0), LineCap::Custom(v) => (3, v.len() as f64) } }
fn join_value(c: &LineJoin<f64>) -> (i64, f64) { match c { LineJoin::Bevel => (0, 0.0), LineJoin::Miter(a) => (1, *a), LineJoin::Round(a) => (2, *a) } }
fn cap(k: i32, a: f64) -> LineCap<P, f64> { match k { 0 => LineCap::Butt, 1 => LineCap::Round(a), 2 => LineCap::Square, _ => LineCap::Custom(vec![[a, a], [0.0, a]]) } }
fn join(k: i32, a: f64) -> LineJoin<f64> { match k { 0 => LineJoin::Bevel, 1 => LineJoin::Miter(a), _ => LineJoin::Round(a) } }

crate::harness!(style_stroke, {
    let (w, a, b, c) = (f64s(0), f64s(1), f64s(2), f64s(3));
    assume(!(w != w) & !(a != a) & !(b != b) & !(c != c));
    let (ks, ke, kj) = (choose(10, 4), choose(11, 4), choose(12, 3));
    let st = StrokeStyle::<P, f64>::new(1.0).width(w).start_cap(cap(ks, a)).end_cap(cap(ke, b)).line_join(join(kj, c));
    check(if w > 0.0 { st.width == w } else { st.width == 0.0 }, 1);
    let (s, sv) = cap_value(&st.start_cap);
    let (e, ev) = cap_value(&st.end_cap);
    let (j, jv) = join_value(&st.join);
    check((s == ks as i64) & (e == ke as i64) & (j == kj as i64), 2);
    if ks == 1 { check(sv == clamp(a, LO, RHI), 3) }
    if ke == 1 { check(ev == clamp(b, LO, RHI), 4) }
    if ks == 3 { check(sv == 2.0, 5) }
    if kj == 1 { check(jv == clamp(c, LO, MHI), 6) }
    if kj == 2 { check(jv == clamp(c, LO, RHI), 7) }
    if let LineCap::Custom(v) = &st.end_cap { check((v[0][0] == b) & (v[1][1] == b) & (v[1][0] == 0.0), 8) }
    cover((ks + 4 * ke + 16 * kj) as u32);
});
// setting one attribute leaves the others alone, in any order
crate::harness!(style_order, {
    let (w, a, c) = (f64s(0), f64s(1), f64s(3));
    assume((w > 0.0) & (w < 1e300) & (a > LO) & (a < RHI) & (c > LO) & (c < RHI));
    let mut st = StrokeStyle::<P, f64>::default();
    check((st.width == 1.0) & (cap_value(&st.start_cap).0 == 0) & (cap_value(&st.end_cap).0 == 0) & (join_value(&st.join).0 == 0), 1);
    let k = choose(20, 4);
    for i in 0..4 {
        st = match (i + k) % 4 { 0 => st.width(w), 1 => st.start_cap(LineCap::Round(a)), 2 => st.end_cap(LineCap::Square), _ => st.line_join(LineJoin::Miter(c)) };
    }
    check((st.width == w) & (cap_value(&st.start_cap) == (1, a)) & (cap_value(&st.end_cap).0 == 2) & (join_value(&st.join) == (1, c)), 2);
    check(StrokeStyle::<P, f64>::new(w).width == w, 3);
});
crate::harness!(style_outline, {
    let (o, i, c) = (f64s(0), f64s(1), f64s(2));
    assume(!(o != o) & !(i != i) & !(c != c));
    let s = OutlineStyle::<f64>::new(o);
    check((s.outer_offset == o) & (s.inner_offset == o) & (join_value(&s.join).0 == 0), 1);
    let s = s.outer_offset(i);
    check((s.outer_offset == i) & (s.inner_offset == o), 2);
    let s = s.inner_offset(c);
    check((s.outer_offset == i) & (s.inner_offset == c), 3);
    let s = s.offset(o).line_join(join(choose(10, 3), c));
    check((s.outer_offset == o) & (s.inner_offset == o), 4);
    let d = OutlineStyle::<f64>::default();
    check((d.outer_offset == 1.0) & (d.inner_offset == 1.0) & (join_value(&d.join).0 == 0), 5);
    let (k, v) = join_value(&s.join.normalize());
    match k { 1 => check(v == clamp(c, LO, MHI), 6), 2 => check(v == clamp(c, LO, RHI), 7), _ => {} }
    cover(k as u32);
});
// single precision
crate::harness!(style_f32, {
    let (w, a, c) = (f32s(0), f32s(1), f32s(2));
    assume(!(w != w) & !(a != a) & !(c != c));
    let st = StrokeStyle::<Q, f32>::new(1.0).width(w).start_cap(LineCap::Round(a)).line_join(if choose(10, 2) == 0 { LineJoin::Miter(c) } else { LineJoin::Round(c) });
    check(if w > 0.0 { st.width == w } else { st.width == 0.0 }, 1);
    if let LineCap::Round(v) = st.start_cap { check((v >= LO as f32) & (v <= RHI as f32) & (!((a as f64 > LO) & ((a as f64) < RHI)) | (v == a)), 2) } else { check(false, 3) }
    match st.join {
        LineJoin::Miter(v) => { cover(1); check((v >= LO as f32) & (v <= MHI as f32) & (!((c as f64 > LO) & ((c as f64) < MHI)) | (v == c)), 4) }
        LineJoin::Round(v) => { cover(2); check((v >= LO as f32) & (v <= RHI as f32) & (!((c as f64 > LO) & ((c as f64) < RHI)) | (v == c)), 5) }
        _ => check(false, 6),
    }
});

// ---- vectors and rotations on the lattice of exactly representable values
fn lat(id: u32, r: i32, k: i32) -> f64 { i32s(id, -r, r) as f64 / (1 << k) as f64 }
crate::harness!(rotate_exact, {
    let r = 1 << 20;
    let (cs, sn) = (lat(0, r, 20), lat(1, r, 20));
    let v: P = [i32s(2, -1 << 10, 1 << 10) as f64, i32s(3, -1 << 10, 1 << 10) as f64];
    // complex product (cs + i sn)(x + i y)
    let w: P = if choose(4, 2) == 0 { Rotator::new(cs, sn).rotate(&v) } else { Rotator::with_vector(&[cs, sn]).rotate(&v) };
    check(w[0] == cs * v[0] - sn * v[1], 1);
    check(w[1] == sn * v[0] + cs * v[1], 2);
    // there and back: rotating by the mirrored angle scales by cs^2 + sn^2
    let m = [i32s(5, -64, 64) as f64, i32s(6, -64, 64) as f64];
    let u: P = Rotator::new(m[0], -m[1]).rotate(&Rotator::new(m[0], m[1]).rotate(&v));
    let q = m[0] * m[0] + m[1] * m[1];
    check((u[0] == q * v[0]) & (u[1] == q * v[1]), 3);
});
// rotation by an angle: quarter turns exactly placed, other angles through the cosine and sine they stand for
crate::harness!(rotate_angle, {
    let k = choose(0, 24) - 12;
    let angle = k as f64 * PI / 12.0;
    let v: P = [i32s(1, -1 << 20, 1 << 20) as f64, i32s(2, -1 << 20, 1 << 20) as f64];
    let one: P = Rotator::with_angle(angle).rotate(&[1.0, 0.0]);
    let up: P = Rotator::with_angle(angle).rotate(&[0.0, 1.0]);
    check(near(one[0], angle.cos(), 1e-9) & near(one[1], angle.sin(), 1e-9), 1);
    check(near(up[0], -angle.sin(), 1e-9) & near(up[1], angle.cos(), 1e-9), 2);
    if k % 6 == 0 {
        let w: P = Rotator::new(angle.cos().round(), angle.sin().round()).rotate(&v);
        let e = match k / 6 { 0 => v, 1 => [-v[1], v[0]], -1 => [v[1], -v[0]], _ => [-v[0], -v[1]] };
        check((w[0] == e[0]) & (w[1] == e[1]), 3);
        cover((k / 6 + 2) as u32);
    }
});
crate::harness!(ortho, {
    let r = 1 << 20;
    let v: P = [lat(0, r, 10), lat(1, r, 10)];
    let s = lat(2, r, 10);
    let o: P = Math::ortho_and_scale(&v, s);
    // a quarter turn counterclockwise, times s
    check((o[0] == -s * v[1]) & (o[1] == s * v[0]), 1);
    let (a, b): (P, P) = ([lat(3, r, 10), lat(4, r, 10)], [lat(5, r, 10), lat(6, r, 10)]);
    cover(1);
    // directions along the axes and along a 3-4-5 triangle
    let d = [lat(7, 1 << 10, 0), 0.0];
    if d[0] != 0.0 {
        let k = choose(8, 9);
        let (ux, uy) = match k { 0 => (1.0, 0.0), 1 => (0.0, 1.0), 2 => (-1.0, 0.0), 3 => (0.0, -1.0), 4 => (0.5, 0.0), 5 => (0.0, -4.0), 6 => (3.0, 4.0), 7 => (-4.0, 3.0), _ => (5.0, -12.0) };
        let l = 1.0 / match k { 4 => 0.5, 5 => 4.0, 6 | 7 => 5.0, 8 => 13.0, _ => 1.0 };
        let n: P = Math::normal(&[a[0] + ux, a[1] + uy], &a);
        check(near(n[0], ux * l, 1e-12) & near(n[1], uy * l, 1e-12), 2);
        cover(2);
    }
    let _ = b;
});

// ---- sharp corner: the meeting point of the two offset lines
use crate::mesh::miter::{Miter, SharpMiter};
use i_float::adapter::FloatPointAdapter;
use i_float::float::rect::FloatRect;
const DIRS: [([f64; 2], [f64; 2]); 10] = [
    ([-1.0, 0.5], [-1.0, -0.5]), ([0.5, -1.0], [-0.5, -1.0]),
    ([1.0, 0.0], [0.0, 1.0]), ([1.0, 0.5], [1.0, -0.5]), ([0.5, 1.0], [-0.5, 1.0]), ([-0.75, 0.25], [-0.25, 0.75]),
    ([0.0, -1.0], [-1.0, 0.0]), ([0.25, -0.5], [0.25, 0.25]), ([-1.0, 0.25], [-1.0, -0.5]), ([0.125, 0.5], [-0.125, -1.0]),
];
crate::harness!(miter_sharp, {
    let h = 1.0 / 1024.0;
    let r = 8.0;
    let ad = FloatPointAdapter::<P, f64>::new(FloatRect::new(-r, r, -r, r));
    let (va, vb) = DIRS[choose(9, 10) as usize];
    let (ax, ay, m) = (i32s(0, -2048, 2048) as f64 * h, i32s(1, -2048, 2048) as f64 * h, i32s(2, 0, 1024) as f64 * h);
    let pa = [ax, ay];
    let c = [ax + m * va[0], ay + m * va[1]];
    let pb = [c[0] + m * vb[0], c[1] + m * vb[1]];
    let (ia, ib, ic) = (ad.float_to_int(&pa), ad.float_to_int(&pb), ad.float_to_int(&c));
    match Miter::sharp(pa, pb, va, vb, &ad) {
        SharpMiter::Degenerate => { cover(1); check(ia == ib, 1) }
        SharpMiter::AB(a, b) => { cover(2); check((a == ia) & (b == ib) & (a != b) & ((ic == ia) | (ic == ib)), 2) }
        SharpMiter::AcB(a, x, b) => { cover(3); check((a == ia) & (b == ib) & (x == ic) & (ia != ic) & (ib != ic), 3) }
    }
});
// coarse grid: corners collapse on the lattice
crate::harness!(miter_coarse, {
    let big = 536870912.0; // lattice unit 1
    let ad = FloatPointAdapter::<P, f64>::new(FloatRect::new(-big, big, -big, big));
    let (va, vb) = DIRS[choose(9, 10) as usize];
    let h = 0.125;
    let (ax, ay, m) = (i32s(0, -64, 64) as f64 * h, i32s(1, -64, 64) as f64 * h, i32s(2, 0, 32) as f64 * h);
    let pa = [ax, ay];
    let c = [ax + m * va[0], ay + m * va[1]];
    let pb = [c[0] + m * vb[0], c[1] + m * vb[1]];
    let (ia, ib, ic) = (ad.float_to_int(&pa), ad.float_to_int(&pb), ad.float_to_int(&c));
    match Miter::sharp(pa, pb, va, vb, &ad) {
        SharpMiter::Degenerate => { cover(1); check(ia == ib, 1) }
        SharpMiter::AB(a, b) => { cover(2); check((a == ia) & (b == ib) & (a != b) & ((ic == ia) | (ic == ib)), 2) }
        SharpMiter::AcB(a, x, b) => { cover(3); check((a == ia) & (b == ib) & (x == ic) & (ia != ic) & (ib != ic), 3) }
    }
});
