//@ attach: float
//@ leaf
//! float input containers: every contour is delivered once, whole and in order
use crate::float::source::resource::OverlayResource;
use crate::vh::*;

type P = [f64; 2];
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
fn path(n: usize, id: &mut u32) -> Vec<P> {
    (0..n).map(|_| { let p = [f64s(*id), f64s(*id + 1)]; *id += 2; p }).collect()
}
fn eq(a: &[P], b: &[P]) -> bool {
    if a.len() != b.len() { return false }
    let mut ok = true;
    for i in 0..a.len() { ok &= same(a[i][0], b[i][0]) & same(a[i][1], b[i][1]); }
    ok
}
/// the iterator yields exactly `want`, then keeps returning nothing; a second pass yields the same
fn expect<R: OverlayResource<P, f64> + ?Sized>(r: &R, want: &[&[P]]) {
    for _ in 0..2 {
        let mut it = r.iter_paths();
        for w in want {
            match it.next() { None => check(false, 1), Some(g) => check(eq(g, w), 2) }
        }
        check(it.next().is_none(), 3);
        check(it.next().is_none(), 4);
    }
    let mut n = 0;
    for g in r.iter_paths() { check(n < want.len() && eq(g, want[n]), 5); n += 1; }
    check(n == want.len(), 6);
    out(1, n as i64);
}
fn expect_sized<R: OverlayResource<P, f64>>(r: &R, want: &[&[P]]) { expect(r, want) }

crate::harness!(source_single, {
    let mut id = 0;
    let n = choose(100, 4) as usize;
    let v = path(n, &mut id);
    expect_sized(&v, &[&v]);
    expect(v.as_slice(), &[&v]);
    let sl: &[P] = &v;
    expect_sized(&sl, &[&v]);
    if n == 3 { let a = [v[0], v[1], v[2]]; expect_sized(&a, &[&v]); cover(3) }
    if n == 1 { let a = [v[0]]; expect_sized(&a, &[&v]); cover(1) }
    if n == 0 { let a: [P; 0] = []; expect_sized(&a, &[&v]); cover(0) }
});
crate::harness!(source_double, {
    let mut id = 0;
    let k = choose(100, 4) as usize;
    let v: Vec<Vec<P>> = (0..k).map(|i| path(choose(101 + i as u32, 3) as usize, &mut id)).collect();
    let want: Vec<&[P]> = v.iter().map(|x| x.as_slice()).collect();
    expect_sized(&v, &want);
    expect(v.as_slice(), &want);
    let sl: &[Vec<P>] = &v;
    expect_sized(&sl, &want);
    if k == 2 { let a = [v[0].clone(), v[1].clone()]; expect_sized(&a, &want); cover(2) }
    if k == 0 { let a: [Vec<P>; 0] = []; expect_sized(&a, &want); cover(0) }
});
crate::harness!(source_triple, {
    let mut id = 0;
    let k = choose(100, 5) as usize;
    let v: Vec<Vec<Vec<P>>> = (0..k).map(|i| {
        let m = choose(101 + i as u32, 3) as usize;
        (0..m).map(|j| path(1 + (i + j) % 2, &mut id)).collect()
    }).collect();
    let want: Vec<&[P]> = v.iter().flatten().map(|x| x.as_slice()).collect();
    expect_sized(&v, &want);
    expect(v.as_slice(), &want);
    if k == 2 { let a = [v[0].clone(), v[1].clone()]; expect_sized(&a, &want); cover(2) }
    if k == 4 && v[0].is_empty() && v[1].is_empty() { cover(4) }
});
// paths of every length inside a shape
crate::harness!(source_triple_len, {
    let mut id = 0;
    let v: Vec<Vec<Vec<P>>> = vec![
        (0..choose(100, 3)).map(|j| path(choose(101 + j as u32, 3) as usize, &mut id)).collect(),
        (0..choose(110, 3)).map(|j| path(choose(111 + j as u32, 3) as usize, &mut id)).collect(),
    ];
    let want: Vec<&[P]> = v.iter().flatten().map(|x| x.as_slice()).collect();
    expect_sized(&v, &want);
    cover(want.len() as u32);
});
