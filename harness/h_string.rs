//@ attach: root
//! lines clipped by shapes, shapes sliced by lines
use crate::core::fill_rule::FillRule;
use crate::core::overlay::ContourDirection;
use crate::string::clip::{ClipRule, IntClip};
use crate::string::overlay::StringOverlay;
use crate::string::rule::StringRule;
use crate::string::slice::IntSlice;
use i_float::int::point::IntPoint;
use crate::vh::*;
use crate::vhl::*;

fn open(p: &mut Pieces, k: &[(i32, i32)]) { for i in 1..k.len() { p.add(k[i - 1], k[i]); } }
/// shapes s, open paths t, all axis-parallel before the map
fn clip(m: M, s: &[C], t: &[C], fills: &[FillRule]) {
    let g = Grid::mapped(m, s, t);
    let cells = Cells::new(&g, &g.input(s), &[]);
    let mut given = Pieces::new(&cells);
    for k in g.input(t) { open(&mut given, &k); }
    let (s, t) = (m.all(s), m.all(t));
    let (mut form, mut piece, mut same) = (true, true, true);
    for &f in fills {
        for invert in [false, true] { for boundary_included in [false, true] {
            let rule = ClipRule { invert, boundary_included };
            let mut o = StringOverlay::with_shape_contours(&s);
            o.add_string_paths(&t);
            let res = o.clip_string_lines(f, rule);
            let mut got = Pieces::new(&cells);
            for path in &res {
                form &= path.len() > 1;
                open(&mut got, &g.ranks(path));
            }
            form &= got.ok;
            let (gh, gv) = (&given.h, &given.v);
            let keep = |l: (i32, i32), r: (i32, i32)| {
                let n = filled(f, l.0) as u8 + filled(f, r.0) as u8;
                (if boundary_included { n > 0 } else { n == 2 }) != invert
            };
            for i in 0..cells.nx - 1 { for j in 0..cells.ny - 1 {
                let k = i * cells.ny + j;
                let h = keep(cells.at(i + 1, j + 1), cells.at(i + 1, j));
                let v = keep(cells.at(i, j + 1), cells.at(i + 1, j + 1));
                piece &= got.h[k].0 == (gh[k].0 > 0 && h) as u8 && got.h[k].1 == (gh[k].1 > 0 && h) as u8;
                piece &= got.v[k].0 == (gv[k].0 > 0 && v) as u8 && got.v[k].1 == (gv[k].1 > 0 && v) as u8;
            } }
            if s.len() == 1 && t.len() == 1 { same &= s[0].clip_path(&t[0], f, rule) == res; }
            if t.len() == 1 { same &= s.clip_paths(&t, f, rule) == res && vec![s.clone()].clip_path(&t[0], f, rule) == res; }
        } }
    }
    check(form, 1);
    check(piece, 2);
    check(same, 3);
}
fn line(x0: i32, y0: i32, v: &[i32]) -> C {
    let (mut x, mut y) = (x0, y0);
    let mut c = vec![p(x, y)];
    for (i, d) in v.iter().enumerate() {
        if i % 2 == 0 { x += d } else { y += d }
        c.push(p(x, y));
    }
    c
}
fn at(r: i32) -> (i32, i32) { (16 * i32s(4, -r, r), 16 * i32s(5, -r, r)) }
crate::harness!(clip_line, { let (x, y) = at(1 << 20); clip(M::ID, &[rect(0, 0, 160, 160)], &[line(x, y, &[16 * i32s(6, -99, 99)])], &[FillRule::EvenOdd]); });
crate::harness!(clip_hook, { let (x, y) = at(1 << 20); clip(M::ID, &[rect(0, 0, 160, 160)], &[line(x, y, &[240, 96, -96])], &[FillRule::NonZero]); });
crate::harness!(clip_hole, { let (x, y) = at(NEAR / 16); clip(M(2, 1, -1, 3), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(48, 112, 112, 48)]), &[line(x, y, &[240, 32, -48, -96])], &[FillRule::NonZero, FillRule::Positive]); });
crate::harness!(clip_back, { let (x, y) = at(NEAR / 16); clip(M(1, 3, 2, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(80, 80, 240, 240)]), &[line(x, y, &[96, 112, -16, -64, -176])], &[FillRule::EvenOdd, FillRule::NonZero]); });
crate::harness!(clip_twice, { let (x, y) = at(NEAR / 16); clip(M(1, 1, -1, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160)]), &[line(0, 80, &[96, 0, -240]), line(x, y, &[160, 48])], &[FillRule::NonZero]); });

fn find(parent: &mut Vec<usize>, mut i: usize) -> usize { while parent[i] != i { i = parent[i]; } i }
/// shapes s cut by closed or open paths t
fn slice(m: M, s: &[C], t: &[C], closed: bool, fills: &[FillRule]) {
    let g = Grid::mapped(m, s, t);
    let cells = Cells::new(&g, &g.input(s), &[]);
    let mut wall = Pieces::new(&cells);
    for k in g.input(t) { open(&mut wall, &k); if closed { wall.add(k[k.len() - 1], k[0]); } }
    let (s, t) = (m.all(s), m.all(t));
    let (mut form, mut cover, mut once, mut part, mut turn) = (true, true, true, true, true);
    for &f in fills {
        // parts of the region between the walls and the edges of the shapes
        let (nx, ny) = (cells.nx, cells.ny);
        let mut parent: Vec<usize> = (0..nx * ny).collect();
        let on = |i: usize, j: usize| filled(f, cells.at(i, j).0);
        for i in 0..nx - 1 { for j in 0..ny - 1 {
            let k = i * ny + j;
            if on(i + 1, j + 1) && cells.at(i + 1, j + 1) == cells.at(i + 1, j) && wall.h[k] == (0, 0) { let (a, b) = (find(&mut parent, (i + 1) * ny + j + 1), find(&mut parent, (i + 1) * ny + j)); parent[a] = b; }
            if on(i, j + 1) && cells.at(i, j + 1) == cells.at(i + 1, j + 1) && wall.v[k] == (0, 0) { let (a, b) = (find(&mut parent, i * ny + j + 1), find(&mut parent, (i + 1) * ny + j + 1)); parent[a] = b; }
        } }
        let mut n = 0;
        for i in 1..nx - 1 { for j in 1..ny - 1 { if on(i, j) && parent[i * ny + j] == i * ny + j { n += 1; } } }
        for dir in [CCW, CW] {
            let mut o = StringOverlay::with_shape_contours(&s);
            if closed { o.add_string_contours(&t); } else { o.add_string_paths(&t); }
            let res = o.into_graph(f).extract_shapes_custom(StringRule::Slice, dir, 0);
            let sg = g.sign() * if dir == ContourDirection::CounterClockwise { 1 } else { -1 };
            let ks: Vec<Vec<K>> = res.iter().map(|s| g.all(s)).collect();
            part &= ks.len() == n;
            let mut used = Pieces::new(&cells);
            for sh in &ks { for c in sh {
                form &= c.len() > 2;
                for i in 0..c.len() { used.add(c[i], c[(i + 1) % c.len()]); }
            } }
            form &= used.ok;
            let mut seen = vec![0u8; nx * ny];
            for sh in &ks {
                let mut whose = usize::MAX;
                for i in 1..nx - 1 { for j in 1..ny - 1 {
                    let q = (2 * i as i32 - 1, 2 * j as i32 - 1);
                    let mut w = 0;
                    for (i, c) in sh.iter().enumerate() {
                        let k = sg * wind(q, c);
                        turn &= k == 0 || k == if i == 0 { 1 } else { -1 };
                        w += k;
                    }
                    once &= w == 0 || w == 1;
                    if w == 1 {
                        seen[i * ny + j] += 1;
                        let r = find(&mut parent, i * ny + j);
                        part &= whose == usize::MAX || whose == r;
                        whose = r;
                    }
                } }
                part &= whose != usize::MAX;
            }
            for i in 1..nx - 1 { for j in 1..ny - 1 { cover &= seen[i * ny + j] == on(i, j) as u8; } }
        }
    }
    check(form, 1);
    check(cover, 2);
    check(once, 3);
    check(part, 4);
    check(turn, 5);
}
crate::harness!(slice_line, { let (x, y) = at(1 << 20); slice(M::ID, &[rect(0, 0, 160, 160)], &[line(x, y, &[16 * i32s(6, -99, 99)])], false, &[FillRule::EvenOdd]); });
crate::harness!(slice_hook, { let (x, y) = at(1 << 20); slice(M::ID, &[rect(0, 0, 160, 160)], &[line(x, y, &[240, 96, -240])], false, &[FillRule::NonZero]); });
crate::harness!(slice_hole, { let (x, y) = at(NEAR / 16); slice(M(2, 1, -1, 3), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(48, 112, 112, 48)]), &[line(x, y, &[240, 32, -240])], false, &[FillRule::NonZero]); });
crate::harness!(slice_ring, { let (x, y) = at(NEAR / 16); slice(M(1, 3, 2, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(80, 80, 240, 240)]), &[moved(&rect(0, 0, 96, 64), x, y)], true, &[FillRule::EvenOdd, FillRule::NonZero]); });
crate::harness!(slice_two, { let (x, y) = at(NEAR / 16); slice(M(1, 1, -1, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160)]), &[line(-16, 80, &[192]), line(x, y, &[0, 192, 64, -64])], false, &[FillRule::NonZero]); });
/// several holes and slices through them, by the traits as well
crate::harness!(slice_comb, {
    let (x, y) = at(NEAR / 16);
    let comb = poly(&[(0, 0), (224, 0), (224, 160), (160, 160), (160, 64), (128, 64), (128, 160), (96, 160), (96, 64), (64, 64), (64, 160), (0, 160)]);
    slice(M(1, 0, 1, 1), &with(anchors(0, 64), &[comb]), &[line(x, y, &[240, 48, -112])], false, &[FillRule::NonZero]);
});
crate::harness!(slice_holes, {
    let (x, y) = at(NEAR / 16);
    let s = [rect(0, 0, 320, 480), rect(32, 192, 192, 32), rect(32, 448, 192, 288), rect(64, 64, 128, 128)];
    slice(M(2, 1, 1, 1), &with(anchors(0, 32), &s), &[line(x, y, &[0, 320, 96, -320])], false, &[FillRule::NonZero]);
});
crate::harness!(slice_same, {
    let s = vec![rect(0, 0, 160, 160), rect(32, 128, 128, 32)];
    let (x, y) = at(NEAR / 16);
    let l = line(x, y, &[240, 16]);
    let t = moved(&rect(0, 0, 48, 48), y, x);
    let f = FillRule::NonZero;
    let lines = |ls: &[[IntPoint; 2]]| { let mut o = StringOverlay::with_shape_contours(&s); o.add_string_lines(ls); o.into_graph(f).extract_shapes(StringRule::Slice) };
    let l2 = [[l[0], l[1]], [l[1], l[2]]];
    check(s.slice_by_line(l2[0], f) == lines(&l2[..1]), 1);
    check(s.slice_by_lines(&l2, f) == lines(&l2), 2);
    check(s.slice_by_path(&l, f) == lines(&l2), 3);
    let run: Vec<[IntPoint; 2]> = (0..3).map(|i| [t[i], t[i + 1]]).collect();
    check(s.slice_by_paths(&[t.clone()], f) == lines(&run), 4);
    let ring: Vec<[IntPoint; 2]> = (0..4).map(|i| [t[(i + 3) % 4], t[i]]).collect();
    let mut o = StringOverlay::with_shape_contours(&s);
    o.add_string_contour(&t);
    check(o.into_graph(f).extract_shapes(StringRule::Slice) == lines(&ring), 5);
    let many = vec![s.clone()];
    check(many.slice_by_path(&l, f) == lines(&l2) && many.slice_by_line(l2[0], f) == lines(&l2[..1]) && many.slice_by_lines(&l2, f) == lines(&l2) && many.slice_by_paths(&[t.clone()], f) == lines(&run), 6);
    let one = |ls: &[[IntPoint; 2]]| { let mut o = StringOverlay::with_shape_contour(&s[0]); o.add_string_lines(ls); o.into_graph(f).extract_shapes(StringRule::Slice) };
    let c = &s[0];
    check(c.slice_by_path(&l, f) == one(&l2) && c.slice_by_line(l2[0], f) == one(&l2[..1]) && c.slice_by_lines(&l2, f) == one(&l2) && c.slice_by_paths(&[t.clone()], f) == one(&run), 7);
});
