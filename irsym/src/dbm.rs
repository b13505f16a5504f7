//! Cheap sound entailment on a path: difference bounds over monomials plus known bounds of linear
//! forms. Only ever used to answer "this condition is implied / refuted"; everything else goes to SMT.
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Dbm {
    ix: HashMap<Rc<[A]>, usize>,
    n: usize,
    m: Vec<i128>, // m[i*cap+j]: upper bound of x_i - x_j ; index 0 is the constant 0
    cap: usize,
    forms: HashMap<P, (i128, i128)>,
}
const MAXN: usize = 40;

impl Dbm {
    pub fn new() -> Self { let cap = 8; let mut d = Dbm { cap, n: 1, m: vec![INF; cap * cap], ..Default::default() }; d.m[0] = 0; d }
    fn g(&self, i: usize, j: usize) -> i128 { self.m[i * self.cap + j] }
    fn node(&mut self, k: &Rc<[A]>) -> Option<usize> {
        if let Some(&i) = self.ix.get(k) { return Some(i) }
        if self.n >= MAXN { return None }
        if self.n == self.cap {
            let c2 = self.cap * 2;
            let mut m = vec![INF; c2 * c2];
            for i in 0..self.n { for j in 0..self.n { m[i * c2 + j] = self.m[i * self.cap + j] } }
            self.m = m;
            self.cap = c2;
        }
        let i = self.n;
        self.n += 1;
        self.ix.insert(k.clone(), i);
        let (lo, hi) = mono_iv(k);
        let c = self.cap;
        self.m[i * c + i] = 0;
        for j in 0..i {
            // x_i - x_j <= hi + (0 - x_j)
            self.m[i * c + j] = if j == 0 { hi } else { sat(hi, self.m[j]) };
            self.m[j * c + i] = if j == 0 { -lo } else { sat(-lo, self.m[j * c]) };
        }
        Some(i)
    }
    fn edge(&mut self, a: usize, b: usize, w: i128) {
        // x_a - x_b <= w
        let c = self.cap;
        if self.m[a * c + b] <= w { return }
        for i in 0..self.n {
            let ia = self.m[i * c + a];
            if ia >= INF { continue }
            let base = sat(ia, w);
            for j in 0..self.n {
                let bj = self.m[b * c + j];
                if bj >= INF { continue }
                let v = sat(base, bj);
                if v < self.m[i * c + j] { self.m[i * c + j] = v }
            }
        }
    }
    /// (form without constant, constant)
    fn shape(&mut self, p: P) -> Option<(usize, usize, i128)> {
        // p = x_i - x_j + c
        let pl = &tm().polys[p as usize];
        let c = pl.c;
        match pl.t.len() {
            1 => {
                let (m, k) = pl.t[0].clone();
                if k == 1 { let i = self.node(&m)?; Some((i, 0, c)) } else if k == -1 { let i = self.node(&m)?; Some((0, i, c)) } else { None }
            }
            2 => {
                let (m1, k1) = pl.t[0].clone();
                let (m2, k2) = pl.t[1].clone();
                if k1 == 1 && k2 == -1 { let i = self.node(&m1)?; let j = self.node(&m2)?; Some((i, j, c)) }
                else if k1 == -1 && k2 == 1 { let i = self.node(&m1)?; let j = self.node(&m2)?; Some((j, i, c)) }
                else { None }
            }
            _ => None,
        }
    }
    pub fn bounds(&mut self, p: P) -> (i128, i128) {
        let v = iv(p);
        if let Some((i, j, c)) = self.shape(p) {
            let hi = sat(self.g(i, j), c);
            let lo = -sat(self.g(j, i), -c);
            return (v.0.max(lo), v.1.min(hi));
        }
        let pl = tm().polys[p as usize].clone();
        let (f, flip) = form(&pl);
        let mut r = (pl.c, pl.c);
        for (m, k) in &pl.t {
            let (mut lo, mut hi) = mono_iv(m);
            if let Some(&i) = self.ix.get(m) { hi = hi.min(self.g(i, 0)); lo = lo.max(-self.g(0, i)); }
            let (a, b) = (smul(lo, *k), smul(hi, *k));
            r = (sat(r.0, a.min(b)), sat(r.1, a.max(b)));
        }
        let mut r = (r.0.max(v.0), r.1.min(v.1));
        if let Some(&(lo, hi)) = self.forms.get(&f) {
            let (lo, hi) = if flip { (-hi, -lo) } else { (lo, hi) };
            r = (r.0.max(sat(lo, pl.c)), r.1.min(sat(hi, pl.c)));
        }
        r
    }
    fn shape_ro(&self, pl: &Poly) -> Option<(usize, usize, i128)> {
        let c = pl.c;
        let ix = |m: &Rc<[A]>| self.ix.get(m).cloned();
        match pl.t.len() {
            1 => { let (m, k) = &pl.t[0]; if *k == 1 { Some((ix(m)?, 0, c)) } else if *k == -1 { Some((0, ix(m)?, c)) } else { None } }
            2 => {
                let ((m1, k1), (m2, k2)) = (&pl.t[0], &pl.t[1]);
                if *k1 == 1 && *k2 == -1 { Some((ix(m1)?, ix(m2)?, c)) } else if *k1 == -1 && *k2 == 1 { Some((ix(m2)?, ix(m1)?, c)) } else { None }
            }
            _ => None,
        }
    }
    /// like bounds, without adding anything; products of two bounded factors are multiplied out
    pub fn bounds_ro(&self, p: P) -> (i128, i128) {
        let v = iv(p);
        let pl = tm().polys[p as usize].clone();
        if pl.t.is_empty() { return (pl.c, pl.c) }
        if let Some((i, j, c)) = self.shape_ro(&pl) {
            let hi = sat(self.g(i, j), c);
            let lo = -sat(self.g(j, i), -c);
            return (v.0.max(lo), v.1.min(hi));
        }
        let (f, flip) = form(&pl);
        let mut r = (pl.c, pl.c);
        for (m, k) in &pl.t {
            let (mut lo, mut hi) = mono_iv(m);
            if let Some(&i) = self.ix.get(m) { hi = hi.min(self.g(i, 0)); lo = lo.max(-self.g(0, i)); }
            else if m.len() > 1 {
                // product of the bounds of the factors
                let mut q = (1i128, 1i128);
                for a in m.iter() {
                    let x: Rc<[A]> = Rc::from([*a]);
                    let mut b = tm().aiv[*a as usize];
                    if let Some(&i) = self.ix.get(&x) { b.1 = b.1.min(self.g(i, 0)); b.0 = b.0.max(-self.g(0, i)); }
                    let c = [smul(q.0, b.0), smul(q.0, b.1), smul(q.1, b.0), smul(q.1, b.1)];
                    q = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                }
                lo = lo.max(q.0);
                hi = hi.min(q.1);
            }
            let (a, b) = (smul(lo, *k), smul(hi, *k));
            r = (sat(r.0, a.min(b)), sat(r.1, a.max(b)));
        }
        let mut r = (r.0.max(v.0), r.1.min(v.1));
        if let Some(&(lo, hi)) = self.forms.get(&f) {
            let (lo, hi) = if flip { (-hi, -lo) } else { (lo, hi) };
            r = (r.0.max(sat(lo, pl.c)), r.1.min(sat(hi, pl.c)));
        }
        r
    }
    pub fn add_ge(&mut self, p: P) {
        // p >= 0
        if let Some((i, j, c)) = self.shape(p) { self.edge(j, i, c); return }
        let pl = tm().polys[p as usize].clone();
        let (f, flip) = form(&pl);
        let e = self.forms.entry(f).or_insert((-INF, INF));
        if flip { e.1 = e.1.min(pl.c) } else { e.0 = e.0.max(-pl.c) }
    }
    pub fn add(&mut self, b: B, v: bool) {
        match (tm().bools[b as usize].clone(), v) {
            (BN::Not(x), _) => self.add(x, !v),
            (BN::And(l), true) => for &x in l.iter() { self.add(x, true) },
            (BN::Or(l), false) => for &x in l.iter() { self.add(x, false) },
            (BN::Ge0(p), true) => self.add_ge(p),
            (BN::Ge0(p), false) => self.add_ge(sub(neg(p), cst(1))),
            (BN::Eq0(p), true) => { self.add_ge(p); self.add_ge(neg(p)) }
            (BN::Eq0(p), false) => {
                // sharpen a bound that touches zero
                let (lo, hi) = self.bounds(p);
                if lo == 0 { self.add_ge(sub(p, cst(1))) } else if hi == 0 { self.add_ge(sub(neg(p), cst(1))) }
            }
            _ => {}
        }
    }
    pub fn decide(&mut self, b: B, lits: &dyn Fn(B) -> Option<bool>) -> Option<bool> { self.dec(b, lits, &mut HashMap::new(), 0) }
    /// the memo keeps shared sub-terms from being visited once per use
    fn dec(&mut self, b: B, lits: &dyn Fn(B) -> Option<bool>, memo: &mut HashMap<B, Option<bool>>, depth: u32) -> Option<bool> {
        if b == TRUE { return Some(true) }
        if b == FALSE { return Some(false) }
        if let Some(v) = lits(b) { return Some(v) }
        if depth > 2 { if let Some(&v) = memo.get(&b) { return v } }
        let d = depth + 1;
        let r = match tm().bools[b as usize].clone() {
            BN::Not(x) => self.dec(x, lits, memo, d).map(|v| !v),
            BN::And(l) => {
                let mut r = Some(true);
                for &x in l.iter() { match self.dec(x, lits, memo, d) { Some(false) => { r = Some(false); break } Some(true) => {} None => r = None } }
                r
            }
            BN::Or(l) => {
                let mut r = Some(false);
                for &x in l.iter() { match self.dec(x, lits, memo, d) { Some(true) => { r = Some(true); break } Some(false) => {} None => r = None } }
                r
            }
            BN::Ite(c, x, y) => match self.dec(c, lits, memo, d) {
                Some(true) => self.dec(x, lits, memo, d),
                Some(false) => self.dec(y, lits, memo, d),
                None => match self.dec(x, lits, memo, d) { None => None, a => if self.dec(y, lits, memo, d) == a { a } else { None } },
            },
            BN::Ge0(p) => { let (lo, hi) = self.bounds(p); if lo >= 0 { Some(true) } else if hi < 0 { Some(false) } else { None } }
            BN::Eq0(p) => { let (lo, hi) = self.bounds(p); if lo > 0 || hi < 0 { Some(false) } else if lo == 0 && hi == 0 { Some(true) } else { None } }
            _ => None,
        };
        if depth > 2 { memo.insert(b, r); }
        r
    }
}
fn sat(a: i128, b: i128) -> i128 { if a >= INF || b >= INF { INF } else { a.saturating_add(b).clamp(-INF, INF) } }
/// linear form with leading coefficient positive and no constant; true when negated
fn form(pl: &Poly) -> (P, bool) {
    let flip = pl.t[0].1 < 0;
    let t = pl.t.iter().map(|(m, k)| (m.clone(), if flip { -*k } else { *k })).collect();
    (mkp(Poly { c: 0, t }), flip)
}
