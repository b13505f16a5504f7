//@ attach: split
//@ leaf
//! the fragment grid: every part of a segment is filed, in the right column, inside its box
use crate::geom::x_segment::XSegment;
use crate::split::fragment::Fragment;
use crate::split::grid_layout::{FragmentBuffer, GridLayout};
use crate::split::line_mark::LineMark;
use crate::vh::*;
use i_float::int::point::IntPoint;
use i_key_sort::index::{BinKey, BinLayout};

type V = (i64, i64);
fn less(a: V, b: V) -> bool { (a.0 < b.0) | (a.0 == b.0) & (a.1 < b.1) }
fn p(v: V) -> IntPoint { IntPoint::new(v.0 as i32, v.1 as i32) }

/// grid over [x0, x0 + dx], made through the public constructor; `count` segments decide how fine it is
fn layout(x0: i64, dx: i64, count: usize) -> Option<GridLayout> {
    let s = [XSegment { a: p((x0, 0)), b: p((x0, 1)) }, XSegment { a: p((x0, 0)), b: p((x0 + dx, 0)) }];
    GridLayout::new(s.iter().copied(), count)
}

/// dx fixed, the segment anywhere inside, y in [-r, r]
fn cover_seg(dx: i64, count: usize, r: i32, off: bool) {
    let x0 = if off { i32s(10, -(1 << 29), 1 << 29) as i64 } else { 0 };
    let l = match layout(x0, dx, count) { None => { check(dx < 4, 1); return } Some(l) => l };
    check(dx >= 4, 2);
    let a = (x0 + i32s(0, 0, dx as i32) as i64, i32s(1, -r, r) as i64);
    let b = (x0 + i32s(2, 0, dx as i32) as i64, i32s(3, -r, r) as i64);
    assume(less(a, b));
    let s = XSegment { a: p(a), b: p(b) };
    let mut buf = FragmentBuffer::new(l);
    let n = buf.groups.len();
    // columns: [pos(i), pos(i + 1)], of equal width, the last one holds the right end
    check(buf.layout.pos(0) as i64 == x0, 3);
    check(buf.layout.pos(n - 1) as i64 <= x0 + dx, 4);
    buf.init_fragment_buffer([s].iter().copied());
    buf.add_segment(7, s);
    // the boxes, left to right
    let mut total = 0;
    let mut last = i64::MIN;
    let mut at = a.0;
    for i in 0..n {
        let (c0, c1) = (buf.layout.pos(i) as i64, buf.layout.pos(i + 1) as i64);
        check(c1 > c0, 5);
        check(buf.groups[i].len() <= 1, 6);
        for f in buf.groups[i].iter() {
            total += 1;
            check((f.index == 7) & (f.x_segment == s), 7);
            let (x0, x1, y0, y1) = (f.rect.min_x as i64, f.rect.max_x as i64, f.rect.min_y as i64, f.rect.max_y as i64);
            check((x0 <= x1) & (y0 <= y1), 8);
            check((c0 <= x0) & (x1 <= c1), 9);
            check((total == 1) | (last == i as i64 - 1), 10);
            last = i as i64;
            check(x0 == at, 11);
            at = x1;
            // the part of the segment over [x0, x1] stays between y0 and y1
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            if a.0 != b.0 {
                let l = dy * (x0 - a.0);
                let r = dy * (x1 - a.0);
                check((dx * (y0 - a.1) <= l) & (l <= dx * (y1 - a.1)), 12);
                check((dx * (y0 - a.1) <= r) & (r <= dx * (y1 - a.1)), 13);
            } else {
                check((x0 == a.0) & (x1 == a.0) & (y0 == a.1) & (y1 == b.1), 15);
            }
        }
    }
    check((total >= 1) & (at == b.0), 16);
    // the first box holds the left end, a vertical segment standing on a column border is known to the border
    if a.0 == b.0 {
        let mut on = usize::MAX;
        for i in 1..n { if buf.layout.pos(i) as i64 == a.0 { on = i } }
        match on {
            usize::MAX => { let mut k = 0; for i in 0..n { if buf.on_border.contains_key(&i) { k += 1 } } check(k == 0, 17) }
            i => {
                let e = buf.on_border.get(&i);
                check(e.is_some(), 18);
                if let Some(e) = e { check((e.len() == 1) && (e[0].id == 7) & (e[0].y_range.min as i64 == a.1) & (e[0].y_range.max as i64 == b.1), 19); }
                cover(3);
            }
        }
        cover(1);
    }
    if total > 1 { cover(2) }
    out(1, total);
    // clearing empties everything
    buf.clear();
    let mut k = 0;
    for g in buf.groups.iter() { k += g.len() }
    for i in 0..n { if buf.on_border.contains_key(&i) { k += 1 } }
    check(k == 0, 20);
}
crate::harness!(grid_3, { cover_seg(3, 16, 100, true) });
crate::harness!(grid_4, { cover_seg(4, 1, 1 << 29, true) });
crate::harness!(grid_7, { cover_seg(7, 64, 1 << 29, false) });
crate::harness!(grid_8, { cover_seg(8, 4, 1 << 29, true) });
crate::harness!(grid_13, { cover_seg(13, 16, 1 << 29, false) });

crate::harness!(grid_20, { cover_seg(20, 64, 1 << 29, false) });
crate::harness!(grid_21, { cover_seg(21, 1000, 1 << 29, false) });
// wide grids: few columns, the coordinates run over the whole range
crate::harness!(grid_wide4, { cover_seg(1 << 30, 16, 1 << 29, false) });
crate::harness!(grid_wide8, { cover_seg((1 << 30) - 1, 64, 1 << 29, false) });
crate::harness!(grid_mid, { cover_seg(1000, 16, 1 << 29, true) });
crate::harness!(grid_wide2, { cover_seg(1 << 30, 4, 1 << 29, false) });

// two standing segments and a lying one in one grid: nothing replaces anything
crate::harness!(grid_more, {
    let x0 = i32s(10, -(1 << 28), 1 << 28) as i64;
    let l = match layout(x0, 16, 16) { None => { check(false, 1); return } Some(l) => l };
    let mut buf = FragmentBuffer::new(l);
    let n = buf.groups.len();
    let r = 1 << 29;
    let v = |k: u32| ((x0 + i32s(4 * k, 0, 16) as i64, i32s(4 * k + 1, -r, r) as i64), i32s(4 * k + 3, -r, r) as i64);
    let mut s = vec![];
    for k in 0..2 {
        let (a, y) = v(k);
        assume(a.1 < y);
        s.push(XSegment { a: p(a), b: p((a.0, y)) });
    }
    let (a, b) = ((x0 + choose(20, 5) as i64, i32s(21, -r, r) as i64), x0 + 11 + choose(22, 6) as i64);
    s.push(XSegment { a: p(a), b: p((b, a.1)) });
    for pass in 0..2 {
        buf.init_fragment_buffer(s.iter().copied());
        for (k, q) in s.iter().enumerate() { buf.add_segment(k + 3, *q) }
        for (k, q) in s.iter().enumerate() {
            let mut count = 0;
            let mut at = q.a.x;
            for i in 0..n {
                for f in buf.groups[i].iter() {
                    if f.index == k + 3 {
                        count += 1;
                        check((f.x_segment == *q) & (f.rect.min_x == at), 2);
                        at = f.rect.max_x;
                    }
                }
                if let Some(e) = buf.on_border.get(&i) {
                    let mut m = 0;
                    for e in e.iter() { if e.id == k + 3 { m += 1; check((e.y_range.min == q.a.y) & (e.y_range.max == q.b.y), 3) } }
                    check(m == ((i > 0) & (k < 2) & (buf.layout.pos(i) == q.a.x)) as i32, 4);
                } else { check(!((i > 0) & (k < 2) & (buf.layout.pos(i) == q.a.x)), 5) }
            }
            check(at == q.b.x, 6);
            check((k == 2) | (count == 1), 7);
        }
        buf.clear();
        cover(pass + 1);
    }
});

// what decides the shape of the grid: any count, any span
crate::harness!(grid_shape, {
    let dx = i32s(0, 0, 1 << 30) as i64;
    let x0 = i32s(1, -(1 << 29), 1 << 29) as i64;
    assume(x0 + dx <= 1 << 29);
    let k = choose(2, 21);
    let count = 1usize << k;
    match layout(x0, dx, count) {
        None => { check(dx < 4, 1); cover(1) }
        Some(l) => {
            cover(2);
            check(dx >= 4, 2);
            check(l.pos(0) as i64 == x0, 3);
            let w = l.pos(1) as i64 - x0;
            check(w >= 2, 4);
            if 2 * w <= dx { check(l.pos(2) as i64 - x0 == 2 * w, 5); }
            // the number of columns follows the square root of the number of segments
            let c = dx / w + 1;
            check((c >= 2) & (c * c <= 16 * (count as i64).max(1)), 6);
        }
    }
});
crate::harness!(fragment_box, {
    let r = i32::MAX;
    let (a, b) = ((i32s(0, -r, r) as i64, i32s(1, -r, r) as i64), (i32s(2, -r, r) as i64, i32s(3, -r, r) as i64));
    assume(less(a, b));
    let f = Fragment::with_index_and_segment(5, XSegment { a: p(a), b: p(b) });
    check((f.index == 5) & (f.x_segment.a == p(a)) & (f.x_segment.b == p(b)), 1);
    check((f.rect.min_x as i64 == a.0) & (f.rect.max_x as i64 == b.0), 2);
    check((f.rect.min_y as i64 == a.1.min(b.1)) & (f.rect.max_y as i64 == a.1.max(b.1)), 3);
    let i = i32s(4, 0, 4095) as usize;
    let m = LineMark { index: i, point: p(a) };
    check(m.bin_key() == i, 4);
    if let Some(l) = BinLayout::<usize>::new(0..4096, 512) { check(m.bin_index(&l) == l.index(i), 5); cover(1) }
});
