//@ attach: string
//@ leaf
//! splitting a walk into simple loops
use crate::string::split::Split;
use crate::vh::*;
use i_float::int::point::IntPoint;
use i_shape::int::path::IntPath;

/// points of the grid w x h, one symbolic choice each (small coordinates so that areas stay decidable)
fn walk(n: usize, w: i32) -> Vec<IntPoint> { (0..n).map(|i| IntPoint::new(i32s(2 * i as u32, 0, w), i32s(2 * i as u32 + 1, 0, w))).collect() }

/// reference: the classical stack decomposition of a closed walk. A vertex seen again closes the loop made of
/// everything since its first occurrence; what remains at the end is the outer loop.
fn reference(src: &[IntPoint]) -> Vec<Vec<IntPoint>> {
    let mut st: Vec<IntPoint> = Vec::new();
    let mut res = Vec::new();
    for &p in src {
        let mut at = usize::MAX;
        for i in 0..st.len() { if st[i] == p { at = i; break } }
        if at == usize::MAX { st.push(p) } else {
            let lp: Vec<IntPoint> = st[at..].to_vec();
            st.truncate(at + 1);
            if lp.len() > 2 { res.push(lp); }
        }
    }
    if st.len() > 2 { res.push(st); }
    res
}
fn area2(c: &[IntPoint]) -> i64 {
    let mut s = 0i64;
    let mut j = c.len() - 1;
    for i in 0..c.len() {
        s += c[j].x as i64 * c[i].y as i64 - c[j].y as i64 * c[i].x as i64;
        j = i;
    }
    s.abs()
}
/// same cyclic sequence
fn same_loop(a: &[IntPoint], b: &[IntPoint]) -> bool {
    if a.len() != b.len() { return false }
    let n = a.len();
    for s in 0..n {
        let mut ok = true;
        for i in 0..n { ok &= a[i] == b[(i + s) % n]; }
        if ok { return true }
    }
    false
}
fn run(n: usize, w: i32, with_area: bool) {
    let src: IntPath = walk(n, w);
    let m = if with_area { i32s(100, 0, 2 * w * w) as usize } else { 0 };
    let all = reference(&src);
    let want: Vec<&Vec<IntPoint>> = all.iter().filter(|c| m == 0 || (area2(c) >> 1) as usize >= m).collect();
    let got = src.split_loops(m);
    check(got.len() == want.len(), 1);
    cover(got.len() as u32);
    let mut used = vec![false; want.len()];
    for g in got.iter() {
        let mut hit = false;
        for (k, w) in want.iter().enumerate() {
            if !used[k] && same_loop(g, w) { used[k] = true; hit = true; break }
        }
        check(hit, 2);
        // simple: no point twice
        for i in 0..g.len() { for j in 0..i { check(g[i] != g[j], 3); } }
    }
    out(1, got.len() as i64);
}
crate::harness!(split_loops4, { run(4, 1 << 29, false) });
crate::harness!(split_loops5, { run(5, 1 << 29, false) });
crate::harness!(split_loops6, { run(6, 1 << 29, false) });
crate::harness!(split_loops7, { run(7, 1 << 29, false) });
crate::harness!(split_loops8, { run(8, 1 << 29, false) });
crate::harness!(split_loops9, { run(9, 1 << 29, false) });
crate::harness!(split_area5, { run(5, 3, true) });
crate::harness!(split_area4, { run(4, 3, true) });
crate::harness!(split_area6, { run(6, 3, true) });

// areas of any size: two axis-parallel rectangles that share a corner, in one walk
crate::harness!(split_area_big, {
    let r = 1 << 29;
    let (x, y, w, h, u, v) = (i32s(0, -r, r), i32s(1, -r, r), i32s(2, 1, r), i32s(3, 1, r), i32s(4, 1, r), i32s(5, 1, r));
    let m = i64s(6, 1, 1 << 60);
    let p = |a: i32, b: i32| IntPoint::new(a, b);
    let src: IntPath = vec![p(x, y), p(x + w, y), p(x + w, y + h), p(x, y + h), p(x, y), p(x - u, y), p(x - u, y - v), p(x, y - v)];
    let (a1, a2) = (w as i64 * h as i64, u as i64 * v as i64);
    let got = src.split_loops(m as usize);
    let (k1, k2) = (a1 >= m, a2 >= m);
    check(got.len() == k1 as usize + k2 as usize, 1);
    cover(got.len() as u32);
    for g in got.iter() {
        let first = g.iter().any(|q| *q == p(x + w, y + h));
        check(g.len() == 4, 2);
        check(if first { k1 } else { k2 }, 3);
    }
});
// many triangles at one point, of any height, and a rest that is walked before and after them
crate::harness!(split_area_hub, {
    let n = choose(100, 6) as usize;
    let lead = choose(101, 3) as usize;
    let m = i64s(50, 0, 1 << 33);
    let p = |a: i32, b: i32| IntPoint::new(a, b);
    let w: Vec<i32> = (0..=n).map(|i| i32s(i as u32, 1, 1 << 29)).collect();
    let rest = [p(-10, 0), p(-10, -w[n])];
    let mut src: IntPath = rest[2 - lead..].to_vec();
    let mut want = 0;
    let keep = |i: usize| { let a = 5 * if i == n { 1 } else { i as i64 + 1 } * w[i] as i64; (m == 0) | (a >= m) };
    for i in 0..n {
        src.push(p(0, 0));
        src.push(p(10 * (i as i32 + 1), 0));
        src.push(p(10 * (i as i32 + 1), w[i]));
        want += keep(i) as usize;
    }
    src.push(p(0, 0));
    src.extend_from_slice(&rest[..2 - lead]);
    want += keep(n) as usize;
    let got = src.split_loops(m as usize);
    check(got.len() == want, 1);
    for g in got.iter() {
        let mut hit = false;
        for i in 0..n { if same_loop(g, &[p(0, 0), p(10 * (i as i32 + 1), 0), p(10 * (i as i32 + 1), w[i])]) { hit = true; check(keep(i), 4) } }
        if same_loop(g, &[p(0, 0), rest[0], rest[1]]) { hit = true; check(keep(n), 4) }
        check(hit, 2);
    }
    cover(got.len() as u32);
});
