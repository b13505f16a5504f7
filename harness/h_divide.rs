//@ attach: core
//@ leaf
//! taking a contour that touches itself apart into simple contours
use crate::core::divide::ContourDecomposition;
use crate::vh::*;
use i_float::int::point::IntPoint;
use i_shape::int::shape::IntContour;

/// the loops of the closed walk, taken off a stack
fn reference(src: &[IntPoint]) -> Vec<Vec<IntPoint>> {
    let mut st: Vec<IntPoint> = Vec::new();
    let mut res = Vec::new();
    for &p in src {
        let mut at = usize::MAX;
        for i in 0..st.len() { if st[i] == p { at = i; break } }
        if at == usize::MAX { st.push(p) } else {
            res.push(st[at..].to_vec());
            st.truncate(at + 1);
        }
    }
    res.push(st);
    res
}
fn same_loop(a: &[IntPoint], b: &[IntPoint]) -> bool {
    if a.len() != b.len() { return false }
    let n = a.len();
    for s in 0..n {
        let mut ok = true;
        for i in 0..n { ok &= a[i] == b[(i + s) % n]; }
        if ok { return true }
    }
    false
}
/// order 0: any; 1 / -1: every new point is greater / less than all the points before it
fn run(n: usize, order: i32) {
    let r = 1 << 29;
    let p: IntContour = (0..n).map(|i| IntPoint::new(i32s(2 * i as u32, -r, r), i32s(2 * i as u32 + 1, -r, r))).collect();
    // no repeated neighbours, and repeats are nested: the contour touches itself, it does not cross itself
    for i in 0..n { assume(p[i] != p[(i + 1) % n]); }
    for i in 0..n { for j in i + 1..n { for k in j + 1..n { for l in k + 1..n {
        assume(!((p[i] == p[k]) & (p[j] == p[l])) | (p[i] == p[j]));
    } } } }
    if order != 0 {
        for i in 0..n {
            let (mut old, mut far) = (false, true);
            for j in 0..i { old |= p[j] == p[i]; far &= if order > 0 { p[j] < p[i] } else { p[i] < p[j] }; }
            assume(old | far);
        }
    }
    decide(&p);
}
fn decide(p: &IntContour) {
    let want = reference(&p);
    match p.decompose_contours() {
        None => { check(want.len() == 1, 1); cover(1); out(1, 0); }
        Some(got) => {
            cover(got.len() as u32);
            out(1, got.len() as i64);
            check(want.len() > 1, 2);
            check(got.len() == want.len(), 3);
            let mut used = vec![false; want.len()];
            for g in got.iter() {
                let mut hit = false;
                for (k, w) in want.iter().enumerate() {
                    if !used[k] && same_loop(g, w) { used[k] = true; hit = true; break }
                }
                check(hit, 4);
            }
        }
    }
}
crate::harness!(divide3, { run(3, 0) });
crate::harness!(divide4, { run(4, 0) });
crate::harness!(divide5, { run(5, 0) });
crate::harness!(divide6, { run(6, 0) });
crate::harness!(divide7, { run(7, 0) });
crate::harness!(divide8i, { run(8, 1) });
crate::harness!(divide8d, { run(8, -1) });
crate::harness!(divide9i, { run(9, 1) });
crate::harness!(divide9d, { run(9, -1) });
crate::harness!(divide10i, { run(10, 1) });
crate::harness!(divide10d, { run(10, -1) });

// one point visited many times, every other point once
fn hub(most: i32, order: i32) {
    let r = 1 << 29;
    let k = choose(100, most - 1) + 2;
    let h = IntPoint::new(i32s(0, -r, r), i32s(1, -r, r));
    let mut p: IntContour = Vec::new();
    let mut prev: Option<IntPoint> = None;
    let mut id = 2u32;
    let mut put = |p: &mut IntContour| {
        let q = IntPoint::new(i32s(id, -r, r), i32s(id + 1, -r, r));
        id += 2;
        assume(if order > 0 { h.x < q.x } else { q.x < h.x });
        if let Some(s) = prev { assume(if order > 0 { s.x < q.x } else { q.x < s.x }) }
        prev = Some(q);
        p.push(q);
    };
    let lead = choose(101, 3);
    for _ in 0..lead { put(&mut p) }
    for i in 0..k {
        p.push(h);
        // between two visits one or two points; after the last one any number that keeps neighbours apart
        let g = if i + 1 < k { choose(102 + i as u32, 2) + 1 } else if lead == 0 { 1 } else { choose(140, 2) };
        for _ in 0..g { put(&mut p) }
    }
    decide(&p);
}
crate::harness!(divide_hub_i, { hub(9, 1) });
crate::harness!(divide_hub_d, { hub(9, -1) });
