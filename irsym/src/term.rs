//! Terms. A machine integer of width w is represented by an integer polynomial over atoms,
//! taken modulo 2^w: add/sub/mul are therefore exact ring operations and wrap-around is only
//! materialised where it can be observed (comparison, division, right shift, extension).
use std::collections::HashMap;
use std::rc::Rc;

pub type P = u32;
pub type B = u32;
pub type A = u32;
pub type F = u32;

pub const INF: i128 = 1i128 << 125;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly { pub c: i128, pub t: Vec<(Rc<[A]>, i128)> }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(u32),
    Ite(B, P, P),
    FMod(P, i128),
    FDiv(P, i128),
    /// truncated quotient / remainder of exact integers (divisor non-zero on every path that evaluates it)
    Quo(P, P),
    /// floor quotient, meaningful where the dividend is >= 0 and the divisor > 0 (0 elsewhere)
    UQuo(P, P),
    Rem(P, P),
    /// float to integer (saturating, truncating): float term, lo, hi
    FToI(F, i128, i128),
    FBits(F),
    /// signed value of a bitwise operation on w-bit signed values (0 and, 1 or, 2 xor)
    Bit(u8, P, P, u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BN {
    T,
    F,
    Not(B),
    Ge0(P),
    Eq0(P),
    And(Rc<[B]>),
    Or(Rc<[B]>),
    Ite(B, B, B),
    FCmp(u8, F, F), // 0 eq(ordered) 1 lt 2 le 3 isnan(a)
}

/// symbolic floats (IEEE binary32/binary64, RNE)
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FN {
    Const(u64, bool), // bits, is64
    Var(u32, bool),
    Bin(u8, F, F), // 0 add 1 sub 2 mul 3 div
    Un(u8, F),     // 0 neg 1 abs 2 sqrt 3 floor 4 ceil 5 trunc 6 round(away) 7 round(even)
    FromInt(P, bool),
    /// exactly p * 2^e: p is below the precision limit on every path
    Dy(P, i32, bool),
    Conv(F, bool),
    Ite(B, F, F),
    MinMax(u8, F, F), // 0 minnum 1 maxnum
    FromBits(P, bool),
    Uf(u8, F), // uninterpreted library function (sin, cos, ...)
    CopySign(F, F),
}

pub struct Terms {
    pub polys: Vec<Poly>,
    pub piv: Vec<(i128, i128)>,
    pub pix: HashMap<Poly, P>,
    pub atoms: Vec<Atom>,
    pub aiv: Vec<(i128, i128)>,
    pub aix: HashMap<Atom, A>,
    pub bools: Vec<BN>,
    pub bix: HashMap<BN, B>,
    pub floats: Vec<FN>,
    pub fix: HashMap<FN, F>,
    pub vars: Vec<(u32, i128, i128)>, // id -> (user id, lo, hi)
    pub var_ix: HashMap<u32, u32>,
    pub fvars: Vec<(u32, bool)>,
    pub fvar_ix: HashMap<u32, u32>,
}

static mut TM: *mut Terms = std::ptr::null_mut();
pub fn tm() -> &'static mut Terms {
    unsafe {
        if TM.is_null() {
            let mut t = Terms {
                polys: vec![], piv: vec![], pix: HashMap::new(), atoms: vec![], aiv: vec![], aix: HashMap::new(),
                bools: vec![], bix: HashMap::new(), floats: vec![], fix: HashMap::new(), vars: vec![], var_ix: HashMap::new(),
                fvars: vec![], fvar_ix: HashMap::new(),
            };
            t.bools.push(BN::F);
            t.bools.push(BN::T);
            t.bix.insert(BN::F, 0);
            t.bix.insert(BN::T, 1);
            TM = Box::into_raw(Box::new(t));
        }
        &mut *TM
    }
}
pub const FALSE: B = 0;
pub const TRUE: B = 1;

pub fn smul(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) { Some(v) => v.clamp(-INF, INF), None => if (a < 0) == (b < 0) { INF } else { -INF } }
}
fn sadd(a: i128, b: i128) -> i128 { a.saturating_add(b).clamp(-INF, INF) }
fn mul_iv(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let c = [smul(a.0, b.0), smul(a.0, b.1), smul(a.1, b.0), smul(a.1, b.1)];
    (*c.iter().min().unwrap(), *c.iter().max().unwrap())
}
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t; } a as i128 }

pub fn iv(p: P) -> (i128, i128) { tm().piv[p as usize] }

fn atom(a: Atom, iv: (i128, i128)) -> A {
    let t = tm();
    if let Some(&i) = t.aix.get(&a) {
        let o = t.aiv[i as usize];
        t.aiv[i as usize] = (o.0.max(iv.0), o.1.min(iv.1));
        return i;
    }
    let i = t.atoms.len() as u32;
    t.atoms.push(a.clone());
    t.aiv.push(iv);
    t.aix.insert(a, i);
    i
}

pub fn mono_iv(m: &[A]) -> (i128, i128) {
    let t = tm();
    let mut r = (1, 1);
    let mut i = 0;
    while i < m.len() {
        let mut j = i;
        while j < m.len() && m[j] == m[i] { j += 1 }
        let a = t.aiv[m[i] as usize];
        let k = j - i;
        let mut p = a;
        if k % 2 == 0 {
            let mut hi = 1;
            let mx = a.0.abs().max(a.1.abs());
            let mn = if a.0 <= 0 && a.1 >= 0 { 0 } else { a.0.abs().min(a.1.abs()) };
            let mut lo = 1;
            for _ in 0..k { hi = smul(hi, mx); lo = smul(lo, mn); }
            p = (lo, hi);
        } else { for _ in 1..k { p = mul_iv(p, a) } }
        r = mul_iv(r, p);
        i = j;
    }
    r
}

pub fn mkp(p: Poly) -> P {
    let t = tm();
    if let Some(&i) = t.pix.get(&p) { return i }
    let mut v = (p.c.clamp(-INF, INF), p.c.clamp(-INF, INF));
    for (m, k) in &p.t {
        let x = mul_iv(mono_iv(m), (*k, *k));
        v = (sadd(v.0, x.0), sadd(v.1, x.1));
    }
    let i = t.polys.len() as u32;
    t.pix.insert(p.clone(), i);
    t.polys.push(p);
    t.piv.push(v);
    i
}
fn hint(p: P, v: (i128, i128)) -> P {
    let t = tm();
    let o = t.piv[p as usize];
    t.piv[p as usize] = (o.0.max(v.0), o.1.min(v.1));
    p
}
pub fn cst(c: i128) -> P { mkp(Poly { c, t: vec![] }) }
pub fn as_const(p: P) -> Option<i128> { let q = &tm().polys[p as usize]; if q.t.is_empty() { Some(q.c) } else { None } }
pub fn of_atom(a: A) -> P {
    let v = tm().aiv[a as usize];
    if v.0 == v.1 && v.0.abs() < INF { return cst(v.0) }
    let p = mkp(Poly { c: 0, t: vec![(Rc::from([a]), 1)] });
    hint(p, v)
}
pub fn single_atom(p: P) -> Option<A> {
    let q = &tm().polys[p as usize];
    if q.c == 0 && q.t.len() == 1 && q.t[0].1 == 1 && q.t[0].0.len() == 1 { Some(q.t[0].0[0]) } else { None }
}
pub fn var(user: u32, lo: i128, hi: i128) -> P {
    let t = tm();
    let id = if let Some(&i) = t.var_ix.get(&user) {
        let v = t.vars[i as usize];
        if v.1 != lo || v.2 != hi { panic!("sym var {} redeclared with other bounds", user) }
        i
    } else {
        let i = t.vars.len() as u32;
        t.vars.push((user, lo, hi));
        t.var_ix.insert(user, i);
        i
    };
    of_atom(atom(Atom::Var(id), (lo, hi)))
}

/// sorted merge of k1*a + k2*b
fn lin(a: &Poly, k1: i128, b: &Poly, k2: i128) -> Poly {
    let mut r = Vec::with_capacity(a.t.len() + b.t.len());
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        let o = if i == a.t.len() { std::cmp::Ordering::Greater } else if j == b.t.len() { std::cmp::Ordering::Less } else { a.t[i].0.cmp(&b.t[j].0) };
        match o {
            std::cmp::Ordering::Less => { r.push((a.t[i].0.clone(), a.t[i].1.wrapping_mul(k1))); i += 1 }
            std::cmp::Ordering::Greater => { r.push((b.t[j].0.clone(), b.t[j].1.wrapping_mul(k2))); j += 1 }
            _ => {
                let c = a.t[i].1.wrapping_mul(k1).wrapping_add(b.t[j].1.wrapping_mul(k2));
                if c != 0 { r.push((a.t[i].0.clone(), c)) }
                i += 1;
                j += 1
            }
        }
    }
    Poly { c: a.c.wrapping_mul(k1).wrapping_add(b.c.wrapping_mul(k2)), t: r }
}
pub fn add(a: P, b: P) -> P {
    if let Some(0) = as_const(a) { return b }
    if let Some(0) = as_const(b) { return a }
    let (x, y) = (iv(a), iv(b));
    let t = tm();
    let r = lin(&t.polys[a as usize], 1, &t.polys[b as usize], 1);
    hint(mkp(r), (sadd(x.0, y.0), sadd(x.1, y.1)))
}
pub fn sub(a: P, b: P) -> P {
    if a == b { return cst(0) }
    if let Some(0) = as_const(b) { return a }
    let (x, y) = (iv(a), iv(b));
    let t = tm();
    let r = lin(&t.polys[a as usize], 1, &t.polys[b as usize], -1);
    hint(mkp(r), (sadd(x.0, -y.1), sadd(x.1, -y.0)))
}
pub fn neg(a: P) -> P { sub(cst(0), a) }
pub fn mulc(a: P, k: i128) -> P {
    if k == 1 { return a }
    if k == 0 { return cst(0) }
    let x = iv(a);
    let t = tm();
    let r = lin(&t.polys[a as usize], k, &Poly { c: 0, t: vec![] }, 0);
    hint(mkp(r), mul_iv(x, (k, k)))
}
pub fn mul(a: P, b: P) -> P {
    if let Some(k) = as_const(a) { return mulc(b, k) }
    if let Some(k) = as_const(b) { return mulc(a, k) }
    // ite(c,k1,k2) * q  ->  ite(c, k1*q, k2*q) when the leaves are constants
    for (x, y) in [(a, b), (b, a)] {
        if let Some((c, p, q)) = ite_parts(x) {
            if let (Some(k1), Some(k2)) = (as_const(p), as_const(q)) {
                return ite(c, mulc(y, k1), mulc(y, k2));
            }
        }
    }
    let (x, y) = (iv(a), iv(b));
    let t = tm();
    let (pa, pb) = (t.polys[a as usize].clone(), t.polys[b as usize].clone());
    let mut m: std::collections::BTreeMap<Rc<[A]>, i128> = Default::default();
    let mut ta = pa.t.clone();
    if pa.c != 0 { ta.push((Rc::from([]), pa.c)) }
    let mut tb = pb.t.clone();
    if pb.c != 0 { tb.push((Rc::from([]), pb.c)) }
    for (ma, ka) in &ta {
        for (mb, kb) in &tb {
            let mut v: Vec<A> = ma.iter().chain(mb.iter()).cloned().collect();
            v.sort_unstable();
            let e = m.entry(v.into()).or_insert(0);
            *e = e.wrapping_add(ka.wrapping_mul(*kb));
        }
    }
    let mut c = 0;
    let mut r = vec![];
    for (k, v) in m { if v == 0 { continue } if k.is_empty() { c = v } else { r.push((k, v)) } }
    let p = mkp(Poly { c, t: r });
    let mut h = mul_iv(x, y);
    if a == b { h.0 = h.0.max(0) }
    hint(p, h)
}

pub fn pow2(k: u32) -> i128 { 1i128 << k }

/// floor modulus by k > 0
pub fn fmod(p: P, k: i128) -> P {
    let v = iv(p);
    if v.0 >= 0 && v.1 < k { return p }
    if let Some(c) = as_const(p) { return cst(c.rem_euclid(k)) }
    // reduce coefficients modulo k (symmetric) and strip inner mods
    let q = reduce(p, k);
    if q != p { return fmod(q, k) }
    if v.0 > -INF && v.1 < INF && v.0.div_euclid(k) == v.1.div_euclid(k) { return sub(p, cst(v.0.div_euclid(k) * k)) }
    if let Some((c, a, b)) = ite_parts(p) {
        if leafy(a) && leafy(b) { return ite(c, fmod(a, k), fmod(b, k)) }
    }
    of_atom(atom(Atom::FMod(p, k), (0, k - 1)))
}
fn leafy(p: P) -> bool {
    if as_const(p).is_some() { return true }
    if let Some((_, a, b)) = ite_parts(p) { return leafy(a) && leafy(b) }
    false
}
/// an equivalent polynomial modulo k, with inner modular atoms removed where k divides their modulus
pub fn reduce(p: P, k: i128) -> P {
    let pl = tm().polys[p as usize].clone();
    let mut extra: Vec<(P, i128)> = vec![];
    let mut t = vec![];
    let mut changed = false;
    let half = k / 2;
    for (m, c) in pl.t.iter() {
        let mut c2 = *c;
        if c2 >= half || c2 < -half { c2 = c2.rem_euclid(k); if c2 >= half { c2 -= k } }
        if c2 != *c { changed = true }
        if c2 == 0 { continue }
        if m.len() == 1 {
            if let Atom::FMod(q, mm) = tm().atoms[m[0] as usize] {
                // c2 * (q mod mm): congruent to c2*q modulo k iff k | c2*mm
                if mm % k == 0 || (mm.checked_mul(c2).map_or(false, |x| x % k == 0)) { extra.push((q, c2)); changed = true; continue }
            }
        }
        t.push((m.clone(), c2));
    }
    let mut c0 = pl.c;
    if c0 >= k || c0 < -k { c0 = c0.rem_euclid(k); changed = true }
    if !changed { return p }
    let mut r = mkp(Poly { c: c0, t });
    for (q, c) in extra { r = add(r, mulc(q, c)) }
    reduce(r, k)
}
/// floor division by k > 0
pub fn fdiv(p: P, k: i128) -> P {
    if k == 1 { return p }
    let v = iv(p);
    if let Some(c) = as_const(p) { return cst(c.div_euclid(k)) }
    if v.0 > -INF && v.1 < INF {
        let (l, h) = (v.0.div_euclid(k), v.1.div_euclid(k));
        if l == h { return cst(l) }
        if l == -1 && h == 0 { return ite(ge0(p), cst(0), cst(-1)) }
    }
    // split off the part divisible by k
    let pl = tm().polys[p as usize].clone();
    let mut dv = vec![];
    let mut rs = vec![];
    for (m, c) in pl.t.iter() { if c % k == 0 { dv.push((m.clone(), c / k)) } else { rs.push((m.clone(), *c)) } }
    let cq = pl.c.div_euclid(k);
    let cr = pl.c.rem_euclid(k);
    if !dv.is_empty() || cq != 0 {
        let d = mkp(Poly { c: cq, t: dv });
        let r = mkp(Poly { c: cr, t: rs });
        return add(d, fdiv(r, k));
    }
    if let Some((c, a, b)) = ite_parts(p) {
        if leafy(a) && leafy(b) { return ite(c, fdiv(a, k), fdiv(b, k)) }
    }
    let h = if v.0 > -INF && v.1 < INF { (v.0.div_euclid(k), v.1.div_euclid(k)) } else { (-INF, INF) };
    of_atom(atom(Atom::FDiv(p, k), h))
}

pub fn quo(a: P, b: P) -> P {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(x.wrapping_div(y)) }
    if let Some(k) = as_const(b) {
        if k > 0 && iv(a).0 >= 0 { return fdiv(a, k) }
        if k > 0 && iv(a).1 <= 0 { return neg(fdiv(neg(a), k)) }
    }
    let v = iv(a);
    let m = v.0.abs().max(v.1.abs());
    let mut lo = -m;
    let mut hi = m;
    if v.0 >= 0 && iv(b).0 >= 0 { lo = 0 }
    if iv(b).0 > 0 { if v.0 >= 0 { hi = (v.1 / iv(b).0).min(hi) } }
    if m == 0 { return cst(0) }
    if lo > hi { lo = hi }
    of_atom(atom(Atom::Quo(a, b), (lo, hi)))
}
/// quotient on a path where both operands are known to be non-negative
pub fn quo_nn(a: P, b: P, nn: bool) -> P {
    if !nn || as_const(b).is_some() || (iv(a).0 >= 0 && iv(b).0 >= 0) { return quo(a, b) }
    of_atom(atom(Atom::UQuo(a, b), (0, iv(a).1.max(0))))
}
pub fn rem(a: P, b: P) -> P {
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(x.wrapping_rem(y)) }
    if let Some(k) = as_const(b) {
        if k > 0 && iv(a).0 >= 0 { return fmod(a, k) }
    }
    // a - quo(a,b)*b
    let q = quo(a, b);
    let r = sub(a, mul(q, b));
    let vb = iv(b);
    let mb = vb.0.abs().max(vb.1.abs()).saturating_sub(1);
    let va = iv(a);
    let h = (if va.0 >= 0 { 0 } else { -mb }, if va.1 <= 0 { 0 } else { mb });
    hint(r, h)
}

pub fn ite_parts(p: P) -> Option<(B, P, P)> {
    let a = single_atom(p)?;
    if let Atom::Ite(c, x, y) = tm().atoms[a as usize] { Some((c, x, y)) } else { None }
}
pub fn ite(c: B, a: P, b: P) -> P {
    if c == TRUE || a == b { return a }
    if c == FALSE { return b }
    if let BN::Not(n) = tm().bools[c as usize] { return ite(n, b, a) }
    let (mut a, mut b) = (a, b);
    if let Some((c2, x, _)) = ite_parts(a) { if c2 == c { a = x } }
    if let Some((c2, _, y)) = ite_parts(b) { if c2 == c { b = y } }
    if a == b { return a }
    let (x, y) = (iv(a), iv(b));
    let mut h = (x.0.min(y.0), x.1.max(y.1));
    // abs / min / max tightening
    if let BN::Ge0(p) = tm().bools[c as usize] {
        if p == a && neg(a) == b { h = (0, x.0.abs().max(x.1.abs())) }
        else if sub(a, b) == p { h.0 = h.0.max(x.0.max(y.0)) }
        else if sub(b, a) == p { h.1 = h.1.min(x.1.min(y.1)) }
    }
    of_atom(atom(Atom::Ite(c, a, b), h))
}

/// p within [lo, hi], the nearer end outside
pub fn clamp(p: P, lo: i128, hi: i128) -> P {
    let narrow = |p: P, lo: i128, hi: i128| -> P {
        match single_atom(p) {
            Some(a) => { let k = tm().atoms[a as usize].clone(); if matches!(k, Atom::Ite(..)) { of_atom(atom(k, (lo, hi))) } else { p } }
            None => p,
        }
    };
    let v = iv(p);
    let q = if v.0 < lo { narrow(ite(ge0(sub(p, cst(lo))), p, cst(lo)), lo, v.1.max(lo)) } else { p };
    let v = iv(q);
    if v.1 > hi { narrow(ite(ge0(sub(cst(hi), q)), q, cst(hi)), v.0.min(hi), hi) } else { q }
}

pub fn bit(k: u8, x: P, y: P, w: u32) -> P {
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    let h = pow2(w - 1);
    let (vx, vy) = (iv(x), iv(y));
    let mut r = (-h, h - 1);
    if vx.0 >= 0 && vy.0 >= 0 || k == 0 && (vx.0 >= 0 || vy.0 >= 0) { r.0 = 0 }
    if k == 1 && (vx.1 < 0 || vy.1 < 0) || k == 0 && vx.1 < 0 && vy.1 < 0 { r.1 = -1 }
    of_atom(atom(Atom::Bit(k, x, y, w), r))
}
/// p = bit atom + c or -(bit atom) + c
fn bit_parts(pl: &Poly) -> Option<(u8, P, P, i128)> {
    if pl.t.len() != 1 || pl.t[0].0.len() != 1 || pl.t[0].1.abs() != 1 { return None }
    if let Atom::Bit(k, x, y, _) = tm().atoms[pl.t[0].0[0] as usize] { Some((k, x, y, pl.t[0].1)) } else { None }
}

fn mkb(b: BN) -> B {
    let t = tm();
    if let Some(&i) = t.bix.get(&b) { return i }
    let i = t.bools.len() as u32;
    t.bools.push(b.clone());
    t.bix.insert(b, i);
    i
}
pub fn not(b: B) -> B {
    match tm().bools[b as usize] { BN::T => FALSE, BN::F => TRUE, BN::Not(x) => x, _ => mkb(BN::Not(b)) }
}
pub fn and(a: B, b: B) -> B { nary(vec![a, b], true) }
pub fn or(a: B, b: B) -> B { nary(vec![a, b], false) }
fn nary(v: Vec<B>, is_and: bool) -> B {
    let (unit, zero) = if is_and { (TRUE, FALSE) } else { (FALSE, TRUE) };
    let mut r: Vec<B> = vec![];
    for x in v {
        if x == zero { return zero }
        if x == unit { continue }
        match (&tm().bools[x as usize], is_and) {
            (BN::And(l), true) | (BN::Or(l), false) => r.extend(l.iter().cloned()),
            _ => r.push(x),
        }
    }
    r.sort_unstable();
    r.dedup();
    for &x in &r { if r.binary_search(&not(x)).is_ok() { return zero } }
    match r.len() { 0 => unit, 1 => r[0], _ => mkb(if is_and { BN::And(r.into()) } else { BN::Or(r.into()) }) }
}
pub fn iteb(c: B, a: B, b: B) -> B {
    if c == TRUE || a == b { return a }
    if c == FALSE { return b }
    if a == TRUE && b == FALSE { return c }
    if a == FALSE && b == TRUE { return not(c) }
    if a == TRUE { return or(c, b) }
    if a == FALSE { return and(not(c), b) }
    if b == TRUE { return or(not(c), a) }
    if b == FALSE { return and(c, a) }
    if let BN::Not(n) = tm().bools[c as usize] { return iteb(n, b, a) }
    mkb(BN::Ite(c, a, b))
}
pub fn iff(a: B, b: B) -> B { iteb(a, b, not(b)) }
pub fn xorb(a: B, b: B) -> B { iteb(a, not(b), b) }

/// factor p = k * f * g with f, g linear forms over disjoint atoms (rank one bilinear); None if impossible
fn factor(p: P) -> Option<(P, P)> {
    let pl = tm().polys[p as usize].clone();
    let mut side: HashMap<A, u8> = HashMap::new();
    let mut edges: HashMap<A, Vec<A>> = HashMap::new();
    let mut any = false;
    for (m, _) in &pl.t {
        match m.len() {
            1 => {}
            2 => {
                if m[0] == m[1] { return None }
                edges.entry(m[0]).or_default().push(m[1]);
                edges.entry(m[1]).or_default().push(m[0]);
                any = true;
            }
            _ => return None,
        }
    }
    if !any { return None }
    let start = *edges.keys().min().unwrap();
    side.insert(start, 0);
    let mut st = vec![start];
    while let Some(a) = st.pop() {
        let s = side[&a];
        for &b in &edges[&a] {
            match side.get(&b) {
                Some(&x) => if x == s { return None },
                None => { side.insert(b, 1 - s); st.push(b) }
            }
        }
    }
    for (m, _) in &pl.t { for a in m.iter() { if !side.contains_key(a) { return None } } }
    let mut xs: Vec<Option<A>> = vec![None];
    let mut ys: Vec<Option<A>> = vec![None];
    let mut ks: Vec<_> = side.iter().collect();
    ks.sort();
    for (a, s) in ks { if *s == 0 { xs.push(Some(*a)) } else { ys.push(Some(*a)) } }
    let mut co: HashMap<(Option<A>, Option<A>), i128> = HashMap::new();
    co.insert((None, None), pl.c);
    for (m, k) in &pl.t {
        if m.len() == 1 {
            if side[&m[0]] == 0 { co.insert((Some(m[0]), None), *k); } else { co.insert((None, Some(m[0])), *k); }
        } else {
            let (x, y) = if side[&m[0]] == 0 { (m[0], m[1]) } else { (m[1], m[0]) };
            co.insert((Some(x), Some(y)), *k);
        }
    }
    let g = |x: Option<A>, y: Option<A>| co.get(&(x, y)).cloned().unwrap_or(0);
    let (mut pi, mut pj) = (None, None);
    'o: for &x in &xs { for &y in &ys { if x.is_some() && y.is_some() && g(x, y) != 0 { pi = x; pj = y; break 'o } } }
    let piv = g(pi, pj);
    for &x in &xs {
        for &y in &ys {
            let l = g(x, y).checked_mul(piv)?;
            let r = g(x, pj).checked_mul(g(pi, y))?;
            if l != r { return None }
        }
    }
    let mut cont = 0;
    for &x in &xs { cont = gcd(cont, g(x, pj)) }
    let mk = |v: Vec<(Option<A>, i128)>| -> P {
        let mut r = cst(0);
        for (a, k) in v { if k == 0 { continue } r = match a { None => add(r, cst(k)), Some(a) => add(r, mulc(of_atom(a), k)) } }
        r
    };
    let f = mk(xs.iter().map(|&x| (x, g(x, pj) / cont)).collect());
    let fi = g(pi, pj) / cont;
    for &y in &ys { if g(pi, y) % fi != 0 { return None } }
    let h = mk(ys.iter().map(|&y| (y, g(pi, y) / fi)).collect());
    Some((f, h))
}

fn ite_leaf(p: P) -> Option<(usize, B, P, P)> {
    // exactly one atom occurrence, linear, that atom is an Ite
    let pl = &tm().polys[p as usize];
    let mut found = None;
    for (i, (m, _)) in pl.t.iter().enumerate() {
        if m.len() != 1 { continue }
        if let Atom::Ite(c, a, b) = tm().atoms[m[0] as usize] {
            if found.is_some() { return None }
            found = Some((i, c, a, b));
        }
    }
    found
}

pub fn ge0(p: P) -> B {
    let v = iv(p);
    if v.0 >= 0 { return TRUE }
    if v.1 < 0 { return FALSE }
    // gcd tightening
    let pl = tm().polys[p as usize].clone();
    let mut g = 0;
    for (_, k) in &pl.t { g = gcd(g, *k) }
    if g == 0 { return if pl.c >= 0 { TRUE } else { FALSE } }
    if g > 1 {
        let q = Poly { c: pl.c.div_euclid(g), t: pl.t.iter().map(|(m, k)| (m.clone(), k / g)).collect() };
        let h = (if v.0 <= -INF { -INF } else { -((-v.0) / g) - 1 }, if v.1 >= INF { INF } else { v.1 / g + 1 });
        let q = hint(mkp(q), h);
        return ge0(q);
    }
    if let Some((k, x, y, s)) = bit_parts(&pl) {
        // sign tests: a >= 0 and -a - 1 >= 0
        if s == 1 && pl.c == 0 || s == -1 && pl.c == -1 {
            let (bx, by) = (ge0(x), ge0(y));
            let nn = match k { 0 => or(bx, by), 1 => and(bx, by), _ => iff(bx, by) };
            return if s == 1 { nn } else { not(nn) };
        }
    }
    if let Some((i, c, a, b)) = ite_leaf(p) {
        let k = pl.t[i].1;
        let mut t = pl.t.clone();
        t.remove(i);
        let r = mkp(Poly { c: pl.c, t });
        return iteb(c, ge0(add(r, mulc(a, k))), ge0(add(r, mulc(b, k))));
    }
    if pl.t[0].1 < 0 {
        // p >= 0  <=>  not (-p-1 >= 0)
        let q = sub(neg(p), cst(1));
        return not(ge0_canon(q));
    }
    ge0_canon(p)
}
fn ge0_canon(p: P) -> B {
    if iv(p).0 >= 0 { return TRUE }
    if iv(p).1 < 0 { return FALSE }
    if let Some(&i) = tm().bix.get(&BN::Ge0(p)) { return i }
    let deg2 = tm().polys[p as usize].t.iter().any(|(m, _)| m.len() == 2);
    if deg2 {
        if let Some((f, g)) = factor(p) {
            return or(and(ge0(f), ge0(g)), and(ge0(neg(f)), ge0(neg(g))));
        }
        let p1 = add(p, cst(1));
        if let Some((f, g)) = factor(p1) {
            let f1 = sub(f, cst(1));
            let g1 = sub(g, cst(1));
            let f2 = sub(neg(f), cst(1));
            let g2 = sub(neg(g), cst(1));
            return or(and(ge0(f1), ge0(g1)), and(ge0(f2), ge0(g2)));
        }
    }
    mkb(BN::Ge0(p))
}
pub fn eq0(p: P) -> B {
    let v = iv(p);
    if v.0 > 0 || v.1 < 0 { return FALSE }
    let pl = tm().polys[p as usize].clone();
    if pl.t.is_empty() { return if pl.c == 0 { TRUE } else { FALSE } }
    let mut g = 0;
    for (_, k) in &pl.t { g = gcd(g, *k) }
    if pl.c % g != 0 { return FALSE }
    let s = if pl.t[0].1 < 0 { -1 } else { 1 };
    if g != 1 || s < 0 {
        let q = Poly { c: pl.c / g * s, t: pl.t.iter().map(|(m, k)| (m.clone(), k / g * s)).collect() };
        let q = mkp(q);
        return eq0(q);
    }
    if let Some((k, x, y, _)) = bit_parts(&pl) {
        if pl.c == 0 && k == 1 { return and(eq0(x), eq0(y)) }
        if pl.c == 0 && k == 2 { return eq0(sub(x, y)) }
    }
    if let Some((i, c, a, b)) = ite_leaf(p) {
        let k = pl.t[i].1;
        let mut t = pl.t.clone();
        t.remove(i);
        let r = mkp(Poly { c: pl.c, t });
        return iteb(c, eq0(add(r, mulc(a, k))), eq0(add(r, mulc(b, k))));
    }
    if let Some((f, g)) = factor(p) { return or(eq0(f), eq0(g)) }
    mkb(BN::Eq0(p))
}

// ---- machine views -------------------------------------------------------
pub fn as_unsigned(p: P, w: u32) -> P {
    let v = iv(p);
    if w >= 126 {
        if v.0 >= 0 { return p }
        panic!("unsupported: unsigned view of a possibly negative 128-bit symbolic value");
    }
    if v.0 >= 0 && v.1 < pow2(w) { return p }
    fmod(p, pow2(w))
}
pub fn as_signed(p: P, w: u32) -> P {
    let v = iv(p);
    if w >= 126 {
        if v.0 > -INF && v.1 < INF { return p }
        panic!("unsupported: 128-bit wrap");
    }
    let h = pow2(w - 1);
    if v.0 >= -h && v.1 < h { return p }
    // prefer a representative without inner mods
    let q = reduce(p, pow2(w));
    let v = iv(q);
    if v.0 >= -h && v.1 < h { return q }
    let m = fmod(add(q, cst(h)), pow2(w));
    sub(m, cst(h))
}
/// value modulo 2^w, with coefficients kept small
pub fn norm(p: P, w: u32) -> P {
    if w >= 126 { return p }
    let v = iv(p);
    let h = pow2(w);
    if v.0 >= -h && v.1 <= h { return p }
    reduce(p, h)
}

// ---- evaluation ----------------------------------------------------------
#[derive(Clone, Debug, Default)]
pub struct Model { pub v: Vec<i128>, pub f: Vec<u64> }

pub struct Ev<'a> { pub m: &'a Model, pm: HashMap<P, i128>, bm: HashMap<B, bool>, am: HashMap<A, i128>, fm: HashMap<F, f64> }
impl<'a> Ev<'a> {
    pub fn new(m: &'a Model) -> Self { Ev { m, pm: HashMap::new(), bm: HashMap::new(), am: HashMap::new(), fm: HashMap::new() } }
    pub fn a(&mut self, a: A) -> i128 {
        if let Some(&v) = self.am.get(&a) { return v }
        let r = match tm().atoms[a as usize].clone() {
            Atom::Var(i) => match self.m.v.get(i as usize) { Some(&v) => v, None => { let x = tm().vars[i as usize]; if x.1 <= 0 && x.2 >= 0 { 0 } else { x.1 } } },
            Atom::Ite(c, x, y) => if self.b(c) { self.p(x) } else { self.p(y) },
            Atom::FMod(p, k) => self.p(p).rem_euclid(k),
            Atom::FDiv(p, k) => self.p(p).div_euclid(k),
            Atom::Quo(x, y) => { let d = self.p(y); if d == 0 { 0 } else { self.p(x).wrapping_div(d) } }
            Atom::UQuo(x, y) => { let (n, d) = (self.p(x), self.p(y)); if n >= 0 && d > 0 { n / d } else { 0 } }
            Atom::Rem(x, y) => { let d = self.p(y); if d == 0 { 0 } else { self.p(x).wrapping_rem(d) } }
            Atom::FToI(f, lo, hi) => { let x = self.f(f); if x.is_nan() { 0 } else { (x.trunc() as i128).clamp(lo, hi) } }
            Atom::Bit(k, x, y, _) => { let (x, y) = (self.p(x), self.p(y)); match k { 0 => x & y, 1 => x | y, _ => x ^ y } }
            Atom::FBits(f) => { let x = self.f(f); if is64(f) { x.to_bits() as i128 } else { (x as f32).to_bits() as i128 } }
        };
        self.am.insert(a, r);
        r
    }
    pub fn p(&mut self, p: P) -> i128 {
        if let Some(&v) = self.pm.get(&p) { return v }
        let pl = tm().polys[p as usize].clone();
        let mut r = pl.c;
        for (m, k) in &pl.t {
            let mut x = *k;
            for &a in m.iter() { x = x.wrapping_mul(self.a(a)) }
            r = r.wrapping_add(x);
        }
        self.pm.insert(p, r);
        r
    }
    pub fn b(&mut self, b: B) -> bool {
        if let Some(&v) = self.bm.get(&b) { return v }
        let r = match tm().bools[b as usize].clone() {
            BN::T => true,
            BN::F => false,
            BN::Not(x) => !self.b(x),
            BN::Ge0(p) => self.p(p) >= 0,
            BN::Eq0(p) => self.p(p) == 0,
            BN::And(l) => l.iter().all(|&x| self.b(x)),
            BN::Or(l) => l.iter().any(|&x| self.b(x)),
            BN::Ite(c, x, y) => if self.b(c) { self.b(x) } else { self.b(y) },
            BN::FCmp(k, x, y) => { let (x, y) = (self.f(x), self.f(y)); match k { 0 => x == y, 1 => x < y, 2 => x <= y, _ => x.is_nan() } }
        };
        self.bm.insert(b, r);
        r
    }
    pub fn f(&mut self, f: F) -> f64 {
        if let Some(&v) = self.fm.get(&f) { return v }
        let s = is64(f);
        let r = match tm().floats[f as usize].clone() {
            FN::Const(b, d) => if d { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 },
            FN::Var(i, d) => { let b = self.m.f.get(i as usize).cloned().unwrap_or(0); if d { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 } }
            FN::Bin(o, x, y) => { let (x, y) = (self.f(x), self.f(y)); fbin(o, x, y, s) }
            FN::Un(o, x) => { let x = self.f(x); funop(o, x, s) }
            FN::FromInt(p, d) => { let x = self.p(p); if d { x as f64 } else { x as f32 as f64 } }
            FN::Dy(p, e, _) => { let x = self.p(p); x as f64 * 2f64.powi(e) }
            FN::Conv(x, d) => { let x = self.f(x); if d { x } else { x as f32 as f64 } }
            FN::Ite(c, x, y) => if self.b(c) { self.f(x) } else { self.f(y) },
            FN::MinMax(k, x, y) => { let (x, y) = (self.f(x), self.f(y)); if k == 0 { x.min(y) } else { x.max(y) } }
            FN::FromBits(p, d) => { let x = self.p(p); if d { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 } }
            FN::Uf(k, x) => { let x = self.f(x); ufeval(k, x, s) }
            FN::CopySign(x, y) => { let (x, y) = (self.f(x), self.f(y)); x.copysign(y) }
        };
        self.fm.insert(f, r);
        r
    }
}

pub fn fbin(o: u8, x: f64, y: f64, d: bool) -> f64 {
    if d { match o { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y } } else {
        let (x, y) = (x as f32, y as f32);
        (match o { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y }) as f64
    }
}
pub fn funop(o: u8, x: f64, d: bool) -> f64 {
    let r = match o { 0 => -x, 1 => x.abs(), 2 => if d { x.sqrt() } else { (x as f32).sqrt() as f64 }, 3 => x.floor(), 4 => x.ceil(), 5 => x.trunc(), 6 => x.round(), _ => x.round_ties_even() };
    r
}
pub fn ufeval(k: u8, x: f64, d: bool) -> f64 {
    if d { match k { 0 => x.sin(), 1 => x.cos(), 2 => x.acos(), 3 => x.log2(), _ => x.tan() } } else {
        let x = x as f32;
        (match k { 0 => x.sin(), 1 => x.cos(), 2 => x.acos(), 3 => x.log2(), _ => x.tan() }) as f64
    }
}

// ---- floats ---------------------------------------------------------------
pub fn mkf(f: FN) -> F {
    let t = tm();
    if let Some(&i) = t.fix.get(&f) { return i }
    let i = t.floats.len() as u32;
    t.floats.push(f.clone());
    t.fix.insert(f, i);
    i
}
pub fn is64(f: F) -> bool {
    match tm().floats[f as usize] {
        FN::Const(_, d) | FN::Var(_, d) | FN::FromInt(_, d) | FN::Dy(_, _, d) | FN::Conv(_, d) | FN::FromBits(_, d) => d,
        FN::Bin(_, x, _) | FN::Un(_, x) | FN::MinMax(_, x, _) | FN::Uf(_, x) | FN::CopySign(x, _) => is64(x),
        FN::Ite(_, x, _) => is64(x),
    }
}
pub fn fconst(f: F) -> Option<f64> {
    match tm().floats[f as usize] { FN::Const(b, d) => Some(if d { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 }), _ => None }
}
pub fn fc(v: f64, d: bool) -> F { mkf(FN::Const(if d { v.to_bits() } else { (v as f32).to_bits() as u64 }, d)) }
pub fn fcmp(k: u8, a: F, b: F) -> B {
    if let (Some(x), Some(y)) = (fconst(a), fconst(b)) {
        return if match k { 0 => x == y, 1 => x < y, 2 => x <= y, _ => x.is_nan() } { TRUE } else { FALSE };
    }
    if k == 3 {
        match tm().floats[a as usize] { FN::FromInt(..) | FN::Dy(..) => return FALSE, _ => {} }
        return mkb(BN::FCmp(3, a, a));
    }
    // threshold form against a constant
    let cmp_const = |p: P, e: i32, c: f64, left: bool| -> Option<B> {
        if c.is_nan() { return Some(FALSE) }
        if c.is_infinite() { return Some(match k { 0 => FALSE, _ => if (c > 0.0) == left { TRUE } else { FALSE } }) }
        let t = c * 2f64.powi(-e);
        if !t.is_finite() || (c != 0.0 && t.abs() < 1e-200) { return None }
        if t.abs() > 1e30 { return Some(match k { 0 => FALSE, _ => if (t > 0.0) == left { TRUE } else { FALSE } }) }
        let (fl, ce) = (t.floor() as i128, t.ceil() as i128);
        Some(match (k, left) {
            (0, _) => if fl == ce { eq0(sub(p, cst(fl))) } else { FALSE },
            (1, true) => ge0(sub(cst(ce - 1), p)),  // p < t
            (_, true) => ge0(sub(cst(fl), p)),      // p <= t
            (1, false) => ge0(sub(p, cst(fl + 1))), // t < p
            (_, false) => ge0(sub(p, cst(ce))),     // t <= p
        })
    };
    match (&tm().floats[a as usize].clone(), &tm().floats[b as usize].clone()) {
        (FN::Dy(p, e, _), FN::Const(..)) => if let Some(r) = cmp_const(*p, *e, fconst(b).unwrap(), true) { return r },
        (FN::Const(..), FN::Dy(p, e, _)) => if let Some(r) = cmp_const(*p, *e, fconst(a).unwrap(), false) { return r },
        (FN::Dy(..), FN::Dy(..)) => if let Some((p, q, _)) = align(a, b) {
            let s = sub(q, p);
            return match k { 0 => eq0(s), 1 => ge0(sub(s, cst(1))), _ => ge0(s) };
        },
        _ => {}
    }
    mkb(BN::FCmp(k, a, b))
}
fn prec(d: bool) -> i128 { if d { pow2(53) } else { pow2(24) } }
/// exact value p * 2^e of a float term, when it provably has one
pub fn exact_dy(f: F) -> Option<(P, i32)> {
    match tm().floats[f as usize].clone() {
        FN::Dy(p, e, _) => Some((p, e)),
        FN::Const(..) => {
            let v = fconst(f).unwrap();
            if !v.is_finite() { return None }
            if v == 0.0 { return Some((cst(0), 0)) }
            let b = v.to_bits();
            let ex = ((b >> 52) & 0x7ff) as i32;
            if ex == 0 { return None }
            let mut m = ((b & ((1 << 52) - 1)) | (1 << 52)) as i128;
            let mut e = ex - 1075;
            while m % 2 == 0 { m /= 2; e += 1 }
            Some((cst(if v < 0.0 { -m } else { m }), e))
        }
        _ => None,
    }
}
/// both over the same exponent
fn align(a: F, b: F) -> Option<(P, P, i32)> {
    let ((p, e), (q, g)) = (exact_dy(a)?, exact_dy(b)?);
    let m = if as_const(p) == Some(0) { g } else if as_const(q) == Some(0) { e } else { e.min(g) };
    let sh = |p: P, e: i32| -> Option<P> {
        if as_const(p) == Some(0) { return Some(p) }
        let k = e - m;
        if k == 0 { return Some(p) }
        let v = iv(p);
        if k > 100 || v.0.unsigned_abs().max(v.1.unsigned_abs()) > (1u128 << 110) >> k { return None }
        Some(mulc(p, pow2(k as u32)))
    };
    Some((sh(p, e)?, sh(q, g)?, m))
}
/// exact float p * 2^e if it provably fits the format
pub fn mk_dy(p: P, e: i32, d: bool) -> Option<F> {
    if let Some(c) = as_const(p) {
        let v = c as f64 * 2f64.powi(e);
        if c.unsigned_abs() <= 1 << 53 && v.is_finite() && (c == 0 || v.abs() > 1e-290) && (d || v as f32 as f64 == v) { return Some(fc(v, d)) }
        return None;
    }
    let (mut p, mut e) = (p, e);
    // take common factors of two out
    let pl = tm().polys[p as usize].clone();
    let mut g = pl.c;
    for (_, k) in &pl.t { g = gcd(g, *k) }
    let tz = if g == 0 { 0 } else { g.trailing_zeros() };
    if tz > 0 {
        let mut r = cst(pl.c >> tz);
        for (m, k) in &pl.t {
            let mut x = cst(1);
            for &a in m.iter() { x = mul(x, of_atom(a)); }
            r = add(r, mulc(x, *k >> tz));
        }
        p = r;
        e += tz as i32;
    }
    let v = iv(p);
    let lim = prec(d);
    let er = if d { 700 } else { 90 };
    if v.0 >= -lim && v.1 <= lim && e.abs() <= er { Some(mkf(FN::Dy(p, e, d))) } else { None }
}
/// exact integer value of a float term, when it provably is one
pub fn exact_int(f: F) -> Option<P> {
    let (p, e) = exact_dy(f)?;
    if as_const(p) == Some(0) { return Some(p) }
    if e < 0 || e > 60 { return None }
    Some(mulc(p, pow2(e as u32)))
}
// Zero results of exact operations are taken as +0; the sign of a zero is only visible to
// division by it, to copysign and to the bits, which are not folded.
pub fn fbin_t(o: u8, a: F, b: F) -> F {
    let d = is64(a);
    if let (Some(x), Some(y)) = (fconst(a), fconst(b)) { return fc(fbin(o, x, y, d), d) }
    if o < 2 {
        if let Some((p, q, e)) = align(a, b) {
            let r = if o == 0 { add(p, q) } else { sub(p, q) };
            if let Some(f) = mk_dy(r, e, d) { return f }
        }
    } else if o == 2 {
        if let (Some((p, e)), Some((q, g))) = (exact_dy(a), exact_dy(b)) {
            let (v, w) = (iv(p), iv(q));
            let (x, y) = (v.0.unsigned_abs().max(v.1.unsigned_abs()), w.0.unsigned_abs().max(w.1.unsigned_abs()));
            if x < 1 << 54 && y < 1 << 54 { if let Some(f) = mk_dy(mul(p, q), e + g, d) { return f } }
        }
    } else if let (Some((p, e)), Some((q, g))) = (exact_dy(a), exact_dy(b)) {
        if let Some(c) = as_const(q) { if c == 1 || c == -1 { if let Some(f) = mk_dy(mulc(p, c), e - g, d) { return f } } }
    }
    mkf(FN::Bin(o, a, b))
}
pub fn from_int(p: P, d: bool) -> F {
    if let Some(c) = as_const(p) { return if d { fc(c as f64, d) } else { fc(c as f32 as f64, d) } }
    if let Some(f) = mk_dy(p, 0, d) { return f }
    mkf(FN::FromInt(p, d))
}
/// integer part of p / m in the given rounding (3 floor, 4 ceil, 5 trunc, 6 half away from zero, 7 half to even)
fn round_div(o: u8, p: P, m: i128) -> P {
    match o {
        3 => fdiv(p, m),
        4 => neg(fdiv(neg(p), m)),
        5 => ite(ge0(p), fdiv(p, m), neg(fdiv(neg(p), m))),
        6 => ite(ge0(p), fdiv(add(p, cst(m / 2)), m), neg(fdiv(add(neg(p), cst(m / 2)), m))),
        _ => {
            // the half way case goes to the even neighbour
            let f = fdiv(add(p, cst(m / 2)), m);
            let tie = eq0(sub(add(p, cst(m / 2)), mulc(f, m)));
            ite(and(tie, eq0(sub(fmod(f, 2), cst(1)))), sub(f, cst(1)), f)
        }
    }
}
pub fn fun_t(o: u8, a: F) -> F {
    let d = is64(a);
    if let Some(x) = fconst(a) { return fc(funop(o, x, d), d) }
    if let FN::Dy(p, e, _) = tm().floats[a as usize] {
        match o {
            0 => if let Some(f) = mk_dy(neg(p), e, d) { return f },
            1 => { let v = iv(p); let q = if v.0 >= 0 { p } else if v.1 <= 0 { neg(p) } else { ite(ge0(p), p, neg(p)) }; if let Some(f) = mk_dy(q, e, d) { return f } }
            2 => {}
            _ => {
                if e >= 0 { return a }
                if -e < 100 { if let Some(f) = mk_dy(round_div(o, p, pow2((-e) as u32)), 0, d) { return f } }
            }
        }
    }
    if o == 0 { if let FN::Un(0, x) = tm().floats[a as usize] { return x } }
    mkf(FN::Un(o, a))
}
pub fn fite(c: B, a: F, b: F) -> F {
    if c == TRUE || a == b { return a }
    if c == FALSE { return b }
    if matches!(tm().floats[a as usize], FN::Dy(..)) || matches!(tm().floats[b as usize], FN::Dy(..)) {
        if let Some((p, q, e)) = align(a, b) { if let Some(f) = mk_dy(ite(c, p, q), e, is64(a)) { return f } }
    }
    mkf(FN::Ite(c, a, b))
}
pub fn fminmax(k: u8, a: F, b: F) -> F {
    if let (Some(p), Some(q)) = (fconst(a), fconst(b)) { return fc(if k == 0 { p.min(q) } else { p.max(q) }, is64(a)) }
    if exact_dy(a).is_some() && exact_dy(b).is_some() { let c = fcmp(2, a, b); return if k == 0 { fite(c, a, b) } else { fite(c, b, a) } }
    mkf(FN::MinMax(k, a, b))
}
pub fn fconv(f: F, d: bool) -> F {
    if let Some(v) = fconst(f) { return fc(v, d) }
    if let FN::Dy(p, e, _) = tm().floats[f as usize] { if let Some(r) = mk_dy(p, e, d) { return r } }
    mkf(FN::Conv(f, d))
}
pub fn ftoi(f: F, lo: i128, hi: i128) -> P {
    if let Some(x) = fconst(f) { return cst(if x.is_nan() { 0 } else { (x.trunc() as i128).clamp(lo, hi) }) }
    if let Some(p) = exact_int(fun_t(5, f)) {
        let v = iv(p);
        if v.0 >= lo && v.1 <= hi { return p }
        return ite(ge0(sub(p, cst(lo))), ite(ge0(sub(cst(hi), p)), p, cst(hi)), cst(lo));
    }
    of_atom(atom(Atom::FToI(f, lo, hi), (lo, hi)))
}
pub fn fbits(f: F) -> P {
    match tm().floats[f as usize] { FN::Const(b, _) => return cst(b as i128), FN::FromBits(p, _) => return p, _ => {} }
    let w = if is64(f) { 64 } else { 32 };
    of_atom(atom(Atom::FBits(f), (0, pow2(w) - 1)))
}
pub fn from_bits(p: P, d: bool) -> F {
    if let Some(c) = as_const(p) { return mkf(FN::Const(if d { c as u64 } else { c as u32 as u64 }, d)) }
    if let Some(a) = single_atom(p) { if let Atom::FBits(f) = tm().atoms[a as usize] { return f } }
    mkf(FN::FromBits(p, d))
}

/// rewrite p using known truth values of ite conditions
pub fn subst_known(p: P, known: &dyn Fn(B) -> Option<bool>) -> P {
    let pl = tm().polys[p as usize].clone();
    let mut r = cst(pl.c);
    let mut changed = false;
    for (m, k) in &pl.t {
        let mut x = cst(1);
        for &a in m.iter() {
            let mut v = of_atom(a);
            match tm().atoms[a as usize] {
                Atom::Ite(c, y, z) => {
                    if let Some(t) = known(c) { v = subst_known(if t { y } else { z }, known); changed = true }
                }
                Atom::FMod(q, k) => { let q2 = subst_known(q, known); if q2 != q { v = fmod(q2, k); changed = true } }
                Atom::FDiv(q, k) => { let q2 = subst_known(q, known); if q2 != q { v = fdiv(q2, k); changed = true } }
                Atom::Quo(q, d) => { let (q2, d2) = (subst_known(q, known), subst_known(d, known)); if q2 != q || d2 != d { v = quo(q2, d2); changed = true } }
                Atom::UQuo(q, d) => { let (q2, d2) = (subst_known(q, known), subst_known(d, known)); if q2 != q || d2 != d { v = quo_nn(q2, d2, true); changed = true } }
                _ => {}
            }
            x = mul(x, v);
        }
        r = add(r, mulc(x, *k));
    }
    if changed { r } else { p }
}
/// some undecided ite condition inside p
pub fn some_ite(p: P) -> Option<B> {
    let pl = &tm().polys[p as usize];
    for (m, _) in &pl.t {
        for &a in m.iter() {
            match tm().atoms[a as usize] {
                Atom::Ite(c, _, _) => return Some(c),
                Atom::FMod(q, _) | Atom::FDiv(q, _) => if let Some(c) = some_ite(q) { return Some(c) },
                _ => {}
            }
        }
    }
    None
}
