//@ attach: vector
//@ leaf
//! edges of the vector output: sides of an edge
use crate::vector::edge::*;
use crate::vh::*;
use i_float::int::point::IntPoint;

crate::harness!(edge_sides, {
    let r = i32::MAX;
    let f = i32s(4, 0, 15) as u8;
    let bit = |k: u8| f & k != 0;
    let g = f.reverse();
    check((g & SUBJ_LEFT != 0) == bit(SUBJ_RIGHT), 1);
    check((g & SUBJ_RIGHT != 0) == bit(SUBJ_LEFT), 2);
    check((g & CLIP_LEFT != 0) == bit(CLIP_RIGHT), 3);
    check((g & CLIP_RIGHT != 0) == bit(CLIP_LEFT), 4);
    check((g < 16) & (g.reverse() == f), 5);
    let (a, b) = (IntPoint::new(i32s(0, -r, r), i32s(1, -r, r)), IntPoint::new(i32s(2, -r, r), i32s(3, -r, r)));
    assume(a != b);
    // one and the same boundary walked both ways: ends swapped, sides swapped
    let e = VectorEdge::new(f, a, b);
    let h = VectorEdge::new(f, b, a);
    out(1, e.fill as i64);
    check((e.a == a) & (e.b == b) & (h.a == b) & (h.b == a), 6);
    check(h.fill == e.fill.reverse(), 7);
    // left and right refer to the walking direction; the stored fill refers to left-to-right order
    let ltr = (a.x < b.x) | (a.x == b.x) & (a.y < b.y);
    check(if ltr { e.fill == f } else { e.fill == g }, 8);
    // the four bits are distinct and cover the nibble
    check((SUBJ_LEFT | SUBJ_RIGHT | CLIP_LEFT | CLIP_RIGHT == 15) & (SUBJ_LEFT & SUBJ_RIGHT == 0) & (CLIP_LEFT & CLIP_RIGHT == 0), 9);
});
crate::harness!(edge_path, {
    let r = i32::MAX;
    let n = choose(100, 6) as usize;
    let v: VectorPath = (0..n).map(|i| {
        let k = 4 * i as u32;
        VectorEdge::new(1, IntPoint::new(i32s(k, -r, r), i32s(k + 1, -r, r)), IntPoint::new(i32s(k + 2, -r, r), i32s(k + 3, -r, r)))
    }).collect();
    let p = v.to_path();
    check(p.len() == n, 1);
    for i in 0..n { check(p[i] == v[i].a, 2); }
    cover(n as u32);
});
