//@ attach: root
//! windings, fill rules and overlay rules
use crate::core::fill_rule::FillRule;
use crate::core::filter::MaskFilter;
use crate::core::link::{OverlayLink, OverlayLinkBuilder};
use crate::core::overlay::{Overlay, ShapeType};
use crate::core::overlay_rule::OverlayRule;
use crate::core::solver::Solver;
use crate::geom::id_point::IdPoint;
use crate::segm::build::BuildSegments;
use crate::segm::merge::ShapeSegmentsMerge;
use crate::segm::segment::Segment;
use crate::segm::winding_count::{ShapeCountBoolean, ShapeCountString, WindingCount};
use crate::split::solver::SplitSegments;
use crate::string::clip::ClipRule;
use crate::vh::*;
use crate::vhl::*;

/// all masks, all rules
crate::harness!(rule_table, {
    let m = i32s(0, 0, 15) as u8;
    let bit = |k: u8| m >> k & 1 == 1;
    let links = vec![OverlayLink::new(IdPoint::new(0, p(0, 0)), IdPoint::new(1, p(1, 0)), m)];
    let (mut keep, mut top) = (true, true);
    for r in RULES {
        let (t, b) = (ruled(r, bit(0), bit(2)), ruled(r, bit(1), bit(3)));
        let v = links.filter_by_rule(r);
        keep &= v.len() == 1 && v[0] == (t == b);
        if t != b { top &= r.is_fill_top(m) == t; }
    }
    check(keep, 1);
    check(top, 2);
});

const W: i32 = 1 << 28;
fn loops(segments: &mut Vec<Segment<ShapeCountBoolean>>, c: &C, w: ShapeCountBoolean) {
    for i in 0..c.len() { segments.push(Segment::create_and_validate(c[i], c[(i + 1) % c.len()], w)); }
}
/// concrete figures, each with its own symbolic windings
fn wound(m: M, figs: &[C], ws: &[ShapeCountBoolean], fills: &[FillRule]) {
    let g = Grid::mapped(m, figs, &[]);
    let ks = g.input(figs);
    let mut cells = Cells::new(&g, &[], &[]);
    let sg = g.sign();
    for i in 1..cells.nx - 1 { for j in 1..cells.ny - 1 {
        let q = (2 * i as i32 - 1, 2 * j as i32 - 1);
        let w = &mut cells.w[i * cells.ny + j];
        for (k, c) in ks.iter().zip(ws) {
            let n = wind(q, k) * sg;
            w.0 += n * c.subj;
            w.1 += n * c.clip;
        }
    } }
    let mut o = Overlay::new(16);
    for (c, w) in m.all(figs).iter().zip(ws) { loops(&mut o.segments, c, *w); }
    let mut side = true;
    let mut seen = FINE;
    for &f in fills {
        for e in o.clone().into_separate_vectors(f, Solver::AUTO) { side &= edge_sides(&g, &cells, f, &e); }
        let gr = o.clone().into_graph(f);
        for r in RULES {
            seen.add(judge(&g, &gr.extract_shapes(r), CCW, &cells, &|s, c| ruled(r, filled(f, s), filled(f, c))));
            seen.add(judge(&g, &o.clone().overlay(r, f), CCW, &cells, &|s, c| ruled(r, filled(f, s), filled(f, c))));
        }
    }
    seen.report();
    check(side, 4);
}
fn w2(id: u32) -> ShapeCountBoolean { ShapeCountBoolean { subj: i32s(id, -W, W), clip: i32s(id + 1, -W, W) } }
fn ws(id: u32) -> ShapeCountBoolean { ShapeCountBoolean { subj: i32s(id, -W, W), clip: 0 } }
fn wc(id: u32) -> ShapeCountBoolean { ShapeCountBoolean { subj: 0, clip: i32s(id, -W, W) } }
crate::harness!(wound_one, { wound(M::ID, &[rect(0, 0, 10, 10)], &[w2(0)], &FILLS); });
crate::harness!(wound_nest, { wound(M::ID, &[rect(0, 0, 10, 10), rect(2, 2, 8, 8)], &[ws(0), ws(1)], &FILLS); });
crate::harness!(wound_nest2, { wound(M::ID, &[rect(0, 0, 10, 10), rect(2, 2, 8, 8)], &[w2(0), wc(2)], &[FillRule::NonZero, FillRule::Positive]); });
crate::harness!(wound_cross, { wound(M(2, 1, -1, 3), &[rect(0, 0, 10, 10), rect(4, 4, 14, 14)], &[ws(0), wc(1)], &FILLS); });
crate::harness!(wound_share, { wound(M::ID, &[rect(0, 0, 10, 10), rect(4, 0, 14, 10), rect(10, -3, 14, 6)], &[ws(0), ws(1), wc(2)], &[FillRule::NonZero, FillRule::EvenOdd]); });
crate::harness!(wound_share2, { wound(M(1, 1, -1, 1), &[rect(0, 0, 10, 10), rect(10, 0, 14, 10), rect(0, 10, 14, 12)], &[ws(0), ws(1), ws(2)], &[FillRule::Positive, FillRule::Negative]); });

/// lines over shapes with symbolic windings
crate::harness!(wound_line, {
    let (w, u) = (i32s(0, -W, W), i32s(1, -W, W));
    assume(w != 0 && u != 0);
    let forth = choose(2, 2) == 1;
    let mut segments: Vec<Segment<ShapeCountString>> = vec![];
    let figs = [(rect(0, 0, 10, 10), w), (rect(10, 0, 20, 10), u)];
    for (c, w) in &figs { for i in 0..4 { segments.push(Segment::create_and_validate(c[i], c[(i + 1) % 4], ShapeCountString { subj: *w, clip: 0 })); } }
    // outside, along the floor of the first, up the wall between, out through the second
    let t = [p(-5, 0), p(10, 0), p(10, 5), p(25, 5)];
    for i in 0..3 {
        let (a, b) = if forth { (t[i], t[i + 1]) } else { (t[i + 1], t[i]) };
        segments.push(Segment { x_segment: crate::geom::x_segment::XSegment { a: a.min(b), b: a.max(b) }, count: ShapeCountString { subj: 0, clip: if a < b { 1 } else { 2 } } });
    }
    let mut keep = true;
    let mut whole = true;
    for f in FILLS {
        let fs = [filled(f, 0), filled(f, w), filled(f, u)];
        // pieces by their sides: outside, floor, wall, second, outside
        let want = |b: bool, n: [bool; 2]| { let k = n[0] as u8 + n[1] as u8; if b { k > 0 } else { k == 2 } };
        let pieces = [(p(-5, 0), p(0, 0), [fs[0], fs[0]]), (p(0, 0), p(10, 0), [fs[0], fs[1]]), (p(10, 0), p(10, 5), [fs[1], fs[2]]), (p(10, 5), p(20, 5), [fs[2], fs[2]]), (p(20, 5), p(25, 5), [fs[0], fs[0]])];
        for invert in [false, true] { for boundary_included in [false, true] {
            let links = OverlayLinkBuilder::build_string_with_clip_rule(segments.clone(), f, ClipRule { invert, boundary_included }, Solver::AUTO);
            let mut n = 0;
            for (a, b, s) in pieces {
                let k = want(boundary_included, s) != invert;
                n += k as usize;
                let found = links.iter().any(|l| l.a.point == a && l.b.point == b && l.fill >> 2 == if forth { 1 } else { 2 });
                keep &= found == k;
            }
            whole &= links.len() == n;
        } }
    }
    check(keep, 1);
    check(whole, 2);
});

/// a closed walk along the axes, steps and order of axes symbolic; every piece of line gets the net use of the walk
fn walk(m: M, n: usize, clip: bool) {
    let ax: Vec<bool> = (0..n).map(|i| choose(20 + i as u32, 2) == 1).collect();
    let (mut x, mut y) = (i32s(0, -1000, 1000), i32s(1, -1000, 1000));
    let (x0, y0) = (x, y);
    let mut c = vec![];
    for i in 0..n {
        c.push(p(x, y));
        let last = (i + 1..n).all(|j| ax[j] != ax[i]);
        let d = i32s(2 + i as u32, -1000, 1000);
        if ax[i] { x = if last { x0 } else { x + d } } else { y = if last { y0 } else { y + d } }
    }
    let kind = if clip { ShapeType::Clip } else { ShapeType::Subject };
    let g = Grid::mapped(m, &[c.clone()], &[]);
    let k = &g.input(&[c.clone()])[0];
    let mut segments: Vec<Segment<ShapeCountBoolean>> = vec![];
    segments.append_path_iter(m.on(&c).iter().copied(), kind);
    let mut text: Vec<Segment<ShapeCountString>> = vec![];
    text.append_path_iter(m.on(&c).iter().copied(), kind);
    let mut net = std::collections::BTreeMap::new();
    let mut ok = true;
    let mut add = |a: (i32, i32), b: (i32, i32), w: i32| {
        ok &= a.0 >= 0 && a.1 >= 0 && b.0 >= 0 && b.1 >= 0 && (a.0 == b.0 || a.1 == b.1);
        let (mut q, dx, dy) = (a, (b.0 - a.0).signum() * 2, (b.1 - a.1).signum() * 2);
        while ok && q != b {
            let t = (q.0 + dx, q.1 + dy);
            *net.entry((q.min(t), q.max(t))).or_insert(0) += if q < t { w } else { -w };
            q = t;
        }
    };
    for i in 0..n { add(k[i], k[(i + 1) % n], 1); }
    let mut straight = true;
    let mut kinds = true;
    for s in &segments {
        straight &= s.x_segment.a < s.x_segment.b;
        let (w, o) = if clip { (s.count.clip, s.count.subj) } else { (s.count.subj, s.count.clip) };
        kinds &= o == 0 && (w == 1 || w == -1);
        add(g.point(&s.x_segment.a), g.point(&s.x_segment.b), -w);
    }
    let same = text.len() == segments.len() && text.iter().zip(&segments).all(|(t, s)| t.x_segment == s.x_segment && if clip { t.count.subj == 0 && t.count.clip == if s.count.clip > 0 { 2 } else { 1 } } else { t.count.clip == 0 && t.count.subj == s.count.subj });
    check(ok && net.values().all(|&v| v == 0), 1);
    check(straight, 2);
    check(kinds, 3);
    check(same, 4);
}
crate::harness!(walk_4, { walk(M::ID, 4, false); });
crate::harness!(walk_5, { walk(M::ID, 5, true); });
crate::harness!(walk_6, { walk(M(2, 1, -1, 3), 6, false); });

/// fewer points than a contour needs, and a triangle
crate::harness!(walk_few, {
    let n = choose(9, 4) as usize;
    let c: C = (0..n).map(|i| p(i32s(2 * i as u32, -R, R), i32s(2 * i as u32 + 1, -R, R))).collect();
    let mut s: Vec<Segment<ShapeCountBoolean>> = vec![];
    s.append_path_iter(c.iter().copied(), ShapeType::Subject);
    if n < 3 { check(s.is_empty(), 1); return }
    let cross = (c[1].x as i64 - c[0].x as i64) * (c[2].y as i64 - c[0].y as i64) - (c[1].y as i64 - c[0].y as i64) * (c[2].x as i64 - c[0].x as i64);
    if cross != 0 {
        check(s.len() == 3, 2);
        for i in 0..3 {
            let (a, b) = (c[i], c[(i + 1) % 3]);
            let w = if a < b { 1 } else { -1 };
            check(s.iter().any(|e| e.x_segment.a == a.min(b) && e.x_segment.b == a.max(b) && e.count.subj == w && e.count.clip == 0), 3);
        }
    }
});

/// equal neighbours become one with the sum, sums of nothing vanish
fn merged<Q: WindingCount + PartialEq>(n: usize, w: Vec<Q>, sum: &dyn Fn(&[Q]) -> Q) {
    let mut at = vec![0i32];
    for i in 1..n { let up = choose(50 + i as u32, 2); at.push(at[i - 1] + up); }
    let mut v: Vec<Segment<Q>> = (0..n).map(|i| Segment { x_segment: crate::geom::x_segment::XSegment { a: p(0, at[i]), b: p(5, 0) }, count: w[i] }).collect();
    v.merge_if_needed();
    let any = (1..n).any(|i| at[i] == at[i - 1]);
    let mut i = 0;
    for y in 0..=at[n - 1] {
        let here: Vec<Q> = (0..n).filter(|&i| at[i] == y).map(|i| w[i]).collect();
        let t = sum(&here);
        let kept = i < v.len() && v[i].x_segment.a.y == y;
        if kept {
            check(v[i].count == t && v[i].x_segment.b == p(5, 0), 1);
            i += 1;
        } else {
            check(any && !t.is_not_empty(), 2);
        }
        if kept && here.len() > 1 { check(t.is_not_empty(), 3); }
    }
    check(i == v.len(), 4);
}
crate::harness!(merge_bool, {
    let w: Vec<ShapeCountBoolean> = (0..4).map(|i| w2(2 * i)).collect();
    merged(4, w, &|v| { let mut t = ShapeCountBoolean { subj: 0, clip: 0 }; for x in v { t.subj += x.subj; t.clip += x.clip; } t });
});
crate::harness!(merge_text, {
    let w: Vec<ShapeCountString> = (0..4).map(|i| ShapeCountString { subj: i32s(2 * i, -W, W), clip: i32s(2 * i + 1, 0, 3) as u8 }).collect();
    merged(4, w, &|v| { let mut t = ShapeCountString { subj: 0, clip: 0 }; for x in v { t.subj += x.subj; t.clip |= x.clip; } t });
});
/// arithmetic of windings
crate::harness!(wind_count, {
    let (a, b) = (w2(0), w2(2));
    let s = a.add(b);
    let mut t = a;
    t.apply(b);
    check(s.subj == a.subj + b.subj && s.clip == a.clip + b.clip && t == s, 1);
    let i = a.invert();
    check(i.subj == -a.subj && i.clip == -a.clip && i.invert() == a, 2);
    check(a.is_not_empty() == (a.subj != 0 || a.clip != 0), 3);
    let n = ShapeCountBoolean::new(a.subj, a.clip);
    check(n == a, 4);
    let q = |id: u32| ShapeCountString { subj: i32s(id, -W, W), clip: i32s(id + 1, 0, 3) as u8 };
    let (a, b) = (q(4), q(6));
    let s = a.add(b);
    let mut t = a;
    t.apply(b);
    check(s.subj == a.subj + b.subj && s.clip == a.clip | b.clip && t == s, 5);
    let i = a.invert();
    check(i.subj == -a.subj && i.clip == (a.clip >> 1 | (a.clip & 1) << 1) && i.invert() == a, 6);
    check(a.is_not_empty() == (a.subj != 0 || a.clip != 0), 7);
    for k in [ShapeType::Subject, ShapeType::Clip] {
        let (d, i) = ShapeCountBoolean::with_shape_type(k);
        check(d.invert() == i && (d.subj, d.clip) == if k == ShapeType::Subject { (1, 0) } else { (0, 1) }, 8);
        let (d, i) = ShapeCountString::with_shape_type(k);
        check(d.invert() == i && (d.subj, d.clip) == if k == ShapeType::Subject { (1, 0) } else { (0, 2) }, 9);
    }
});
/// opposite edges cancel, equal edges add up
crate::harness!(split_sum, {
    let (a, b, c) = (i32s(0, -W, W), i32s(1, -W, W), i32s(2, -W, W));
    // three on one line, overlapping in part
    let seg = |x0: i32, x1: i32, w: i32| Segment::create_and_validate(p(x0, 3 * x0), p(x1, 3 * x1), ShapeCountBoolean { subj: w, clip: 0 });
    let v = vec![seg(0, 10, a), seg(5, 20, b), seg(20, 0, c)].split_segments(Solver::AUTO);
    let want = [(0, 5, a - c), (5, 10, a + b - c), (10, 20, b - c)];
    let mut n = 0;
    for (x0, x1, w) in want {
        let found = v.iter().find(|s| s.x_segment.a == p(x0, 3 * x0) && s.x_segment.b == p(x1, 3 * x1));
        match found { Some(s) => { check(s.count.subj == w && s.count.clip == 0, 1); n += 1; } None => check(w == 0, 2) }
    }
    check(n == v.len(), 3);
});
