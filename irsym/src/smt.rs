//! SMT-LIB2 emission (integers / reals-free, optional IEEE floats) and solver sessions.
use crate::term::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Default)]
pub struct Emit {
    p: HashSet<P>,
    b: HashSet<B>,
    a: HashSet<A>,
    f: HashSet<F>,
    pub fvars: HashSet<u32>,
    pub vars: Vec<u32>,
    pub fvar_list: Vec<u32>,
    pub out: String,
    pub sides: String,
    ufs: HashSet<(u8, bool)>,
    /// real relaxation (only its unsat answers are used)
    pub relax: bool,
    /// 0: integers; otherwise exact bit-vector encoding with this width
    pub bv: u32,
    pub too_wide: bool,
}

fn num(c: i128) -> String { if c < 0 { format!("(- {})", c.unsigned_abs()) } else { format!("{}", c) } }
fn fsort(d: bool) -> &'static str { if d { "(_ FloatingPoint 11 53)" } else { "(_ FloatingPoint 8 24)" } }
fn tofp(d: bool) -> &'static str { if d { "(_ to_fp 11 53)" } else { "(_ to_fp 8 24)" } }

impl Emit {
    fn atom_relaxed(&mut self, a: A) {
        let bounds = |s: &mut Self, a: A| {
            let v = tm().aiv[a as usize];
            if v.0 > -INF { let _ = writeln!(s.sides, "(assert (>= a{} {}))", a, num(v.0)); }
            if v.1 < INF { let _ = writeln!(s.sides, "(assert (<= a{} {}))", a, num(v.1)); }
        };
        match tm().atoms[a as usize].clone() {
            Atom::Ite(c, x, y) => {
                let (c, x, y) = (self.bool(c), self.poly(x), self.poly(y));
                let _ = writeln!(self.out, "(define-fun a{} () Real (ite {} {} {}))", a, c, x, y);
            }
            Atom::FMod(p, k) => {
                let s = self.poly(p);
                let _ = writeln!(self.out, "(declare-const a{a} Real)\n(declare-const ar{a} Real)", a = a);
                let _ = writeln!(self.sides, "(assert (= {s} (+ (* {k} ar{a}) a{a})))", s = s, k = k, a = a);
                bounds(self, a);
            }
            Atom::FDiv(p, k) => {
                let s = self.poly(p);
                let _ = writeln!(self.out, "(declare-const a{a} Real)", a = a);
                let _ = writeln!(self.sides, "(assert (and (<= (* {k} a{a}) {s}) (<= {s} (+ (* {k} a{a}) {k1}))))", s = s, k = k, k1 = k - 1, a = a);
                bounds(self, a);
            }
            Atom::Quo(x, y) => {
                let (vx, vy) = (iv(x), iv(y));
                let (x, y) = (self.poly(x), self.poly(y));
                let _ = writeln!(self.out, "(declare-const a{a} Real)\n(declare-const ar{a} Real)", a = a);
                if vx.0 >= 0 && vy.0 >= 0 {
                    let _ = writeln!(self.sides, "(assert (=> (> {y} 0) (and (= {x} (+ (* a{a} {y}) ar{a})) (<= 0 ar{a}) (<= ar{a} (- {y} 1)) (<= 0 a{a}))))", x = x, y = y, a = a);
                } else {
                    let _ = writeln!(self.sides, "(assert (=> (not (= {y} 0)) (and (= {x} (+ (* a{a} {y}) ar{a})) (<= (ite (< ar{a} 0) (- ar{a}) ar{a}) (- (ite (< {y} 0) (- {y}) {y}) 1)) (ite (< {x} 0) (<= ar{a} 0) (>= ar{a} 0)))))", x = x, y = y, a = a);
                }
                bounds(self, a);
            }
            Atom::UQuo(x, y) => {
                let (x, y) = (self.poly(x), self.poly(y));
                let _ = writeln!(self.out, "(declare-const a{a} Real)\n(declare-const ar{a} Real)", a = a);
                let _ = writeln!(self.sides, "(assert (=> (and (>= {x} 0) (> {y} 0)) (and (= {x} (+ (* a{a} {y}) ar{a})) (<= 0 ar{a}) (<= ar{a} (- {y} 1)))))", x = x, y = y, a = a);
                bounds(self, a);
            }
            _ => { let _ = writeln!(self.out, "(declare-const a{} Real)", a); bounds(self, a); }
        }
    }
    fn bvn(&self, c: i128) -> String {
        let w = self.bv;
        let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        format!("(_ bv{} {})", (c as u128) & m, w)
    }
    fn fits(&mut self, v: i128) { if self.bv > 0 { let lim = 1i128 << (self.bv - 1).min(124); if v >= lim { self.too_wide = true } } }
    fn atom_bv(&mut self, a: A) {
        let w = self.bv;
        let v = tm().aiv[a as usize];
        self.fits(v.0.abs().max(v.1.abs()));
        match tm().atoms[a as usize].clone() {
            Atom::Var(i) => {
                let (_, lo, hi) = tm().vars[i as usize];
                self.fits(lo.abs().max(hi.abs()));
                let _ = writeln!(self.out, "(declare-const a{} (_ BitVec {}))", a, w);
                let _ = writeln!(self.sides, "(assert (and (bvsle {} a{a}) (bvsle a{a} {})))", self.bvn(lo), self.bvn(hi), a = a);
                self.vars.push(a);
            }
            Atom::Ite(c, x, y) => {
                let (c, x, y) = (self.bool(c), self.poly(x), self.poly(y));
                let _ = writeln!(self.out, "(define-fun a{} () (_ BitVec {}) (ite {} {} {}))", a, w, c, x, y);
            }
            Atom::FMod(p, k) => {
                self.fits(k);
                let s = self.poly(p);
                let e = if (k & (k - 1)) == 0 { format!("(bvand {} {})", s, self.bvn(k - 1)) } else { format!("(bvsmod {} {})", s, self.bvn(k)) };
                let _ = writeln!(self.out, "(define-fun a{} () (_ BitVec {}) {})", a, w, e);
            }
            Atom::FDiv(p, k) => {
                self.fits(k);
                let s = self.poly(p);
                let e = if (k & (k - 1)) == 0 { format!("(bvashr {} {})", s, self.bvn(k.trailing_zeros() as i128)) } else { format!("(bvsdiv (bvsub {s} (bvsmod {s} {k})) {k})", s = s, k = self.bvn(k)) };
                let _ = writeln!(self.out, "(define-fun a{} () (_ BitVec {}) {})", a, w, e);
            }
            Atom::Quo(x, y) => {
                let (vx, vy) = (iv(x), iv(y));
                let (x, y) = (self.poly(x), self.poly(y));
                let op = if vx.0 >= 0 && vy.0 >= 0 { "bvudiv" } else { "bvsdiv" };
                let _ = writeln!(self.out, "(define-fun a{} () (_ BitVec {}) (ite (= {y} {z}) {z} ({op} {x} {y})))", a, w, x = x, y = y, z = self.bvn(0), op = op);
            }
            Atom::UQuo(x, y) => {
                let (x, y) = (self.poly(x), self.poly(y));
                let _ = writeln!(self.out, "(define-fun a{} () (_ BitVec {}) (ite (and (bvsge {x} {z}) (bvsgt {y} {z})) (bvudiv {x} {y}) {z}))", a, w, x = x, y = y, z = self.bvn(0));
            }
            Atom::Bit(k, x, y, _) => {
                let (x, y) = (self.poly(x), self.poly(y));
                let _ = writeln!(self.out, "(define-fun a{} () (_ BitVec {}) ({} {} {}))", a, w, ["bvand", "bvor", "bvxor"][k as usize], x, y);
            }
            Atom::FToI(..) | Atom::FBits(..) | Atom::Rem(..) => { self.too_wide = true; let _ = writeln!(self.out, "(declare-const a{} (_ BitVec {}))", a, w); }
        }
    }
    fn poly_bv(&mut self, p: P) -> String {
        let pl = tm().polys[p as usize].clone();
        let mut tot = pl.c.abs();
        for (m, k) in &pl.t {
            let mut pr: i128 = 1;
            for &a in m.iter() { let v = tm().aiv[a as usize]; pr = smul(pr, v.0.abs().max(v.1.abs())); }
            tot = tot.saturating_add(smul(pr, k.abs()));
        }
        self.fits(tot);
        if pl.t.is_empty() { return self.bvn(pl.c) }
        if pl.c == 0 && pl.t.len() == 1 && pl.t[0].1 == 1 && pl.t[0].0.len() == 1 { return self.atom(pl.t[0].0[0]) }
        if self.p.insert(p) {
            let mut e = String::new();
            for (m, k) in &pl.t {
                let names: Vec<String> = m.iter().map(|&a| self.atom(a)).collect();
                let mut t = names[0].clone();
                for n in &names[1..] { t = format!("(bvmul {} {})", t, n) }
                let neg = *k < 0;
                if k.abs() != 1 { t = format!("(bvmul {} {})", self.bvn(k.abs()), t) }
                e = if e.is_empty() { if neg { format!("(bvneg {})", t) } else { t } } else if neg { format!("(bvsub {} {})", e, t) } else { format!("(bvadd {} {})", e, t) };
            }
            if pl.c != 0 { e = format!("(bvadd {} {})", e, self.bvn(pl.c)) }
            let _ = writeln!(self.out, "(define-fun p{} () (_ BitVec {}) {})", p, self.bv, e);
        }
        format!("p{}", p)
    }
    fn bool_relaxed(&mut self, b: B) {
        match tm().bools[b as usize].clone() {
            BN::Ge0(p) => { let s = self.poly(p); let _ = writeln!(self.out, "(declare-const b{} Bool)", b); let _ = writeln!(self.sides, "(assert (ite b{b} (>= {s} 0) (<= {s} (- 1))))", b = b, s = s); }
            BN::Eq0(p) => { let s = self.poly(p); let _ = writeln!(self.out, "(declare-const b{} Bool)", b); let _ = writeln!(self.sides, "(assert (ite b{b} (= {s} 0) (or (>= {s} 1) (<= {s} (- 1)))))", b = b, s = s); }
            _ => { let _ = writeln!(self.out, "(declare-const b{} Bool)", b); }
        }
    }
    fn atom(&mut self, a: A) -> String {
        if self.a.insert(a) {
            if self.bv > 0 { self.atom_bv(a); return format!("a{}", a) }
            if self.relax { self.atom_relaxed(a); return format!("a{}", a) }
            match tm().atoms[a as usize].clone() {
                Atom::Var(i) => {
                    let (_, lo, hi) = tm().vars[i as usize];
                    let _ = writeln!(self.out, "(declare-const a{} Int)", a);
                    let _ = writeln!(self.sides, "(assert (and (<= {} a{a}) (<= a{a} {})))", num(lo), num(hi), a = a);
                    self.vars.push(a);
                }
                Atom::Ite(c, x, y) => {
                    let (c, x, y) = (self.bool(c), self.poly(x), self.poly(y));
                    let _ = writeln!(self.out, "(define-fun a{} () Int (ite {} {} {}))", a, c, x, y);
                }
                Atom::FMod(p, k) => {
                    let v = iv(p);
                    let s = self.poly(p);
                    if v.0 >= -k && v.1 < k {
                        let _ = writeln!(self.out, "(define-fun a{} () Int (ite (< {s} 0) (+ {s} {}) {s}))", a, k, s = s);
                    } else if v.0 >= 0 && v.1 < 2 * k {
                        let _ = writeln!(self.out, "(define-fun a{} () Int (ite (< {s} {k}) {s} (- {s} {k})))", a, k = k, s = s);
                    } else {
                        let _ = writeln!(self.out, "(define-fun a{} () Int (mod {} {}))", a, s, k);
                    }
                }
                Atom::FDiv(p, k) => {
                    let s = self.poly(p);
                    let _ = writeln!(self.out, "(define-fun a{} () Int (div {} {}))", a, s, k);
                }
                Atom::Quo(x, y) => {
                    let (vx, vy) = (iv(x), iv(y));
                    let (x, y) = (self.poly(x), self.poly(y));
                    let _ = writeln!(self.out, "(declare-const a{a} Int)\n(declare-const ar{a} Int)", a = a);
                    if vx.0 >= 0 && vy.0 >= 0 {
                        let _ = writeln!(self.sides, "(assert (=> (not (= {y} 0)) (and (= {x} (+ (* a{a} {y}) ar{a})) (<= 0 ar{a}) (< ar{a} {y}) (<= 0 a{a}))))", x = x, y = y, a = a);
                    } else {
                        let _ = writeln!(self.sides, "(assert (=> (not (= {y} 0)) (and (= {x} (+ (* a{a} {y}) ar{a})) (< (ite (< ar{a} 0) (- ar{a}) ar{a}) (ite (< {y} 0) (- {y}) {y})) (ite (< {x} 0) (<= ar{a} 0) (>= ar{a} 0)))))", x = x, y = y, a = a);
                    }
                    let _ = writeln!(self.sides, "(assert (=> (= {y} 0) (= a{a} 0)))", y = y, a = a);
                }
                Atom::UQuo(x, y) => {
                    let (x, y) = (self.poly(x), self.poly(y));
                    let _ = writeln!(self.out, "(declare-const a{a} Int)\n(declare-const ar{a} Int)", a = a);
                    let _ = writeln!(self.sides, "(assert (ite (and (>= {x} 0) (> {y} 0)) (and (= {x} (+ (* a{a} {y}) ar{a})) (<= 0 ar{a}) (< ar{a} {y}) (<= 0 a{a})) (= a{a} 0)))", x = x, y = y, a = a);
                }
                Atom::Rem(..) => panic!("rem atom"),
                Atom::FToI(f, lo, hi) => {
                    let d = is64(f);
                    let s = self.float(f);
                    let (l, h) = (fc(lo as f64, d), fc(hi as f64, d));
                    let (ls, hs) = (self.float(l), self.float(h));
                    let _ = writeln!(self.out, "(define-fun a{} () Int (ite (fp.isNaN {s}) 0 (ite (fp.leq {s} {ls}) {} (ite (fp.geq {s} {hs}) {} (to_int (fp.to_real (fp.roundToIntegral RTZ {s})))))))", a, num(lo), num(hi), s = s, ls = ls, hs = hs);
                }
                Atom::Bit(k, x, y, w) => {
                    let (x, y) = (self.poly(x), self.poly(y));
                    let op = ["bvand", "bvor", "bvxor"][k as usize];
                    let _ = writeln!(self.out, "(define-fun au{a} () Int (bv2nat ({op} ((_ int2bv {w}) {x}) ((_ int2bv {w}) {y}))))\n(define-fun a{a} () Int (ite (>= au{a} {h}) (- au{a} {m}) au{a}))", a = a, op = op, w = w, x = x, y = y, h = pow2(w - 1), m = pow2(w));
                }
                Atom::FBits(f) => {
                    let d = is64(f);
                    let s = self.float(f);
                    let w = if d { 64 } else { 32 };
                    let _ = writeln!(self.out, "(declare-const fb{} (_ BitVec {}))", a, w);
                    let _ = writeln!(self.sides, "(assert (= ({} fb{}) {}))", tofp(d), a, s);
                    let _ = writeln!(self.out, "(define-fun a{} () Int (bv2nat fb{}))", a, a);
                }
            }
        }
        format!("a{}", a)
    }
    pub fn poly(&mut self, p: P) -> String {
        if self.bv > 0 { return self.poly_bv(p) }
        let pl = tm().polys[p as usize].clone();
        if pl.t.is_empty() { return num(pl.c) }
        if pl.c == 0 && pl.t.len() == 1 && pl.t[0].1 == 1 && pl.t[0].0.len() == 1 { return self.atom(pl.t[0].0[0]) }
        if self.p.insert(p) {
            let mut parts = vec![];
            for (m, k) in &pl.t {
                let names: Vec<String> = m.iter().map(|&a| self.atom(a)).collect();
                if *k == 1 && names.len() == 1 { parts.push(names[0].clone()) }
                else if *k == 1 { parts.push(format!("(* {})", names.join(" "))) }
                else { parts.push(format!("(* {} {})", num(*k), names.join(" "))) }
            }
            if pl.c != 0 { parts.push(num(pl.c)) }
            let e = if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) };
            let _ = writeln!(self.out, "(define-fun p{} () {} {})", p, if self.relax { "Real" } else { "Int" }, e);
        }
        format!("p{}", p)
    }
    pub fn bool(&mut self, b: B) -> String {
        match tm().bools[b as usize].clone() {
            BN::T => return "true".into(),
            BN::F => return "false".into(),
            BN::Not(x) => { let s = self.bool(x); return format!("(not {})", s) }
            _ => {}
        }
        if self.b.insert(b) {
            if self.relax && matches!(tm().bools[b as usize], BN::Ge0(_) | BN::Eq0(_) | BN::FCmp(..)) { self.bool_relaxed(b); return format!("b{}", b) }
            let e = match tm().bools[b as usize].clone() {
                BN::Ge0(p) if self.bv > 0 => { let s = self.poly(p); format!("(bvsge {} {})", s, self.bvn(0)) }
                BN::Eq0(p) if self.bv > 0 => { let s = self.poly(p); format!("(= {} {})", s, self.bvn(0)) }
                BN::FCmp(..) if self.bv > 0 => { self.too_wide = true; "false".into() }
                BN::Ge0(p) => { let s = self.poly(p); format!("(>= {} 0)", s) }
                BN::Eq0(p) => { let s = self.poly(p); format!("(= {} 0)", s) }
                BN::And(l) => { let v: Vec<String> = l.iter().map(|&x| self.bool(x)).collect(); format!("(and {})", v.join(" ")) }
                BN::Or(l) => { let v: Vec<String> = l.iter().map(|&x| self.bool(x)).collect(); format!("(or {})", v.join(" ")) }
                BN::Ite(c, x, y) => { let (c, x, y) = (self.bool(c), self.bool(x), self.bool(y)); format!("(ite {} {} {})", c, x, y) }
                BN::FCmp(k, x, y) => {
                    let (x, y) = (self.float(x), self.float(y));
                    match k { 0 => format!("(fp.eq {} {})", x, y), 1 => format!("(fp.lt {} {})", x, y), 2 => format!("(fp.leq {} {})", x, y), _ => format!("(fp.isNaN {})", x) }
                }
                _ => unreachable!(),
            };
            let _ = writeln!(self.out, "(define-fun b{} () Bool {})", b, e);
        }
        format!("b{}", b)
    }
    pub fn float(&mut self, f: F) -> String {
        let d = is64(f);
        if self.f.insert(f) {
            let e = match tm().floats[f as usize].clone() {
                FN::Const(b, d) => if d { format!("({} #x{:016x})", tofp(d), b) } else { format!("({} #x{:08x})", tofp(d), b as u32) },
                FN::Var(i, d) => {
                    if self.fvars.insert(i) {
                        let _ = writeln!(self.out, "(declare-const fv{} (_ BitVec {}))", i, if d { 64 } else { 32 });
                        self.fvar_list.push(i);
                    }
                    format!("({} fv{})", tofp(d), i)
                }
                FN::Bin(o, x, y) => { let (x, y) = (self.float(x), self.float(y)); format!("({} RNE {} {})", ["fp.add", "fp.sub", "fp.mul", "fp.div"][o as usize], x, y) }
                FN::Un(o, x) => {
                    let x = self.float(x);
                    match o {
                        0 => format!("(fp.neg {})", x), 1 => format!("(fp.abs {})", x), 2 => format!("(fp.sqrt RNE {})", x),
                        3 => format!("(fp.roundToIntegral RTN {})", x), 4 => format!("(fp.roundToIntegral RTP {})", x), 5 => format!("(fp.roundToIntegral RTZ {})", x),
                        6 => format!("(fp.roundToIntegral RNA {})", x), _ => format!("(fp.roundToIntegral RNE {})", x),
                    }
                }
                FN::FromInt(p, d) => { let s = self.poly(p); format!("({} RNE (to_real {}))", tofp(d), s) }
                FN::Dy(p, e, d) => { let s = self.poly(p); if e >= 0 { format!("({} RNE (to_real (* {} {})))", tofp(d), s, pow2(e.min(120) as u32)) } else { format!("({} RNE (/ (to_real {}) {}.0))", tofp(d), s, pow2((-e).min(120) as u32)) } }
                FN::Conv(x, d) => { let x = self.float(x); format!("({} RNE {})", tofp(d), x) }
                FN::Ite(c, x, y) => { let (c, x, y) = (self.bool(c), self.float(x), self.float(y)); format!("(ite {} {} {})", c, x, y) }
                FN::MinMax(k, x, y) => { let (x, y) = (self.float(x), self.float(y)); format!("({} {} {})", if k == 0 { "fp.min" } else { "fp.max" }, x, y) }
                FN::FromBits(p, d) => { let s = self.poly(p); format!("({} ((_ int2bv {}) {}))", tofp(d), if d { 64 } else { 32 }, s) }
                FN::Uf(k, x) => {
                    if self.ufs.insert((k, d)) { let _ = writeln!(self.out, "(declare-fun uf{}_{} ({}) {})", k, d as u8, fsort(d), fsort(d)); }
                    let x = self.float(x);
                    format!("(uf{}_{} {})", k, d as u8, x)
                }
                FN::CopySign(x, y) => { let (x, y) = (self.float(x), self.float(y)); format!("(ite (fp.isNegative {y}) (fp.neg (fp.abs {x})) (fp.abs {x}))", x = x, y = y) }
            };
            let _ = writeln!(self.out, "(define-fun f{} () {} {})", f, fsort(d), e);
        }
        format!("f{}", f)
    }
}

#[derive(Debug)]
pub enum Res { Sat(Model), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub fallback: u64, pub fallback_solved: u64, pub time: f64, pub maxq: f64 }

pub struct Smt {
    ch: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
    em: Emit,
    stack: Vec<B>,
    pub st: Stats,
    timeout_ms: u64,
    fb_timeout_s: u64,
    pub dump: Option<String>,
    bin: String,
    bv: u32,
    wd: Watchdog,
}

/// ends a solver that does not respect its own time limit
#[derive(Default)]
struct Watchdog { owner: u32, sh: std::sync::Arc<(std::sync::atomic::AtomicU64, std::sync::atomic::AtomicU32)> }
fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0) }
impl Watchdog {
    fn arm(&mut self, child: u32, ms: u64) {
        use std::sync::atomic::Ordering::SeqCst;
        if self.owner != std::process::id() {
            self.owner = std::process::id();
            self.sh = Default::default();
            let sh = self.sh.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(250));
                let d = sh.0.load(SeqCst);
                if d != 0 && now_ms() > d {
                    let _ = Command::new("kill").arg("-9").arg(sh.1.load(SeqCst).to_string()).status();
                    sh.0.store(0, SeqCst);
                }
            });
        }
        self.sh.1.store(child, SeqCst);
        self.sh.0.store(now_ms() + ms, SeqCst);
    }
    fn disarm(&self) { self.sh.0.store(0, std::sync::atomic::Ordering::SeqCst) }
}

fn spawn(bin: &str, timeout_ms: u64) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut ch = Command::new(bin).arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
    let mut i = ch.stdin.take().unwrap();
    let o = BufReader::new(ch.stdout.take().unwrap());
    let _ = write!(i, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout {})\n", timeout_ms);
    (ch, i, o)
}

impl Smt {
    pub fn new(timeout_ms: u64, fb_timeout_s: u64, bv: u32) -> Smt {
        let bin = std::env::var("IRSYM_Z3").unwrap_or("z3-new".into());
        let (ch, i, o) = spawn(&bin, timeout_ms);
        Smt { ch, i, o, em: Emit { bv, ..Default::default() }, stack: vec![], st: Stats::default(), timeout_ms, fb_timeout_s, dump: None, bin, bv, wd: Watchdog::default() }
    }
    fn restart(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
        let (ch, i, o) = spawn(&self.bin, self.timeout_ms);
        self.ch = ch;
        self.i = i;
        self.o = o;
        self.em = Emit { bv: self.bv, ..Default::default() };
        self.stack.clear();
    }
    fn send(&mut self, s: &str) { let _ = self.i.write_all(s.as_bytes()); }

    /// is  /\ pc /\ /\ extra  satisfiable?
    pub fn check(&mut self, pc: &[B], extra: &[B]) -> Res {
        if extra.iter().any(|&x| x == FALSE) { return Res::Unsat }
        self.st.queries += 1;
        let t0 = Instant::now();
        let r = self.check_inner(pc, extra);
        let r = match r {
            Res::Unknown => {
                self.st.fallback += 1;
                let r = self.fallback(pc, extra);
                if !matches!(r, Res::Unknown) { self.st.fallback_solved += 1 }
                r
            }
            r => r,
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.maxq { self.st.maxq = dt }
        match r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        r
    }

    fn check_inner(&mut self, pc: &[B], extra: &[B]) -> Res {
        let mut buf = String::new();
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] { k += 1 }
        // names first (may add side constraints)
        let mut names: Vec<String> = vec![];
        for &b in &pc[k..] { names.push(self.em.bool(b)) }
        let en: Vec<String> = extra.iter().map(|&b| self.em.bool(b)).collect();
        if self.em.too_wide { self.restart(); return Res::Unknown }
        let defs = std::mem::take(&mut self.em.out);
        let sides = std::mem::take(&mut self.em.sides);
        if !sides.is_empty() {
            if !self.stack.is_empty() { let _ = writeln!(buf, "(pop {})", self.stack.len()); }
            buf.push_str(&defs);
            buf.push_str(&sides);
            for j in 0..pc.len() {
                let n = if j >= k { names[j - k].clone() } else { self.em.bool(pc[j]) };
                let _ = writeln!(buf, "(push 1)\n(assert {})", n);
            }
        } else {
            if self.stack.len() > k { let _ = writeln!(buf, "(pop {})", self.stack.len() - k); }
            buf.push_str(&defs);
            for n in &names { let _ = writeln!(buf, "(push 1)\n(assert {})", n); }
        }
        self.stack = pc.to_vec();
        let _ = writeln!(buf, "(push 1)");
        for n in &en { let _ = writeln!(buf, "(assert {})", n); }
        let _ = writeln!(buf, "(check-sat)");
        self.send(&buf);
        if let Some(d) = &self.dump { let mut f = std::fs::OpenOptions::new().create(true).append(true).open(d).unwrap(); let _ = f.write_all(buf.as_bytes()); }
        let _ = self.i.flush();
        let mut line = String::new();
        let mut err = false;
        self.wd.arm(self.ch.id(), self.timeout_ms * 2 + 2000);
        loop {
            line.clear();
            if self.o.read_line(&mut line).unwrap_or(0) == 0 { self.wd.disarm(); self.restart(); return Res::Unknown }
            let l = line.trim();
            if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" { break }
            if l.starts_with("(error") { eprintln!("solver: {}", l); err = true; }
        }
        self.wd.disarm();
        let l = line.trim().to_string();
        let r = if err { Res::Unknown } else if l == "unsat" { Res::Unsat } else if l == "sat" {
            let m = self.read_model();
            match m { Some(m) => Res::Sat(m), None => Res::Unknown }
        } else { Res::Unknown };
        self.send("(pop 1)\n");
        if err { self.restart(); }
        r
    }

    fn read_model(&mut self) -> Option<Model> {
        let vars = self.em.vars.clone();
        let fv = self.em.fvar_list.clone();
        let mut m = Model { v: vec![], f: vec![] };
        default_model(&mut m);
        if vars.is_empty() && fv.is_empty() { return Some(m) }
        let mut q = String::from("(get-value (");
        for a in &vars { let _ = write!(q, "a{} ", a); }
        for f in &fv { let _ = write!(q, "fv{} ", f); }
        q.push_str("))\n");
        self.send(&q);
        let _ = self.i.flush();
        let mut txt = String::new();
        let mut depth = 0i32;
        loop {
            let mut line = String::new();
            if self.o.read_line(&mut line).ok()? == 0 { return None }
            for c in line.chars() { if c == '(' { depth += 1 } if c == ')' { depth -= 1 } }
            txt.push_str(&line);
            if depth <= 0 { break }
        }
        if txt.contains("error") { eprintln!("solver: {}", txt); return None }
        parse_model_w(&txt, &mut m, self.bv);
        Some(m)
    }

    fn fallback(&mut self, pc: &[B], extra: &[B]) -> Res {
        if self.fb_timeout_s == 0 { return Res::Unknown }
        let mut em = Emit::default();
        let names: Vec<String> = pc.iter().chain(extra.iter()).map(|&b| em.bool(b)).collect();
        let mut body = String::new();
        body.push_str(&em.out);
        body.push_str(&em.sides);
        for n in &names { let _ = writeln!(body, "(assert {})", n); }
        let mut gv = String::new();
        if !em.vars.is_empty() || !em.fvar_list.is_empty() {
            gv.push_str("(get-value (");
            for a in &em.vars { let _ = write!(gv, "a{} ", a); }
            for f in &em.fvar_list { let _ = write!(gv, "fv{} ", f); }
            gv.push_str("))\n");
        }
        let tmp = std::env::temp_dir().join(format!("irsym_fb_{}", std::process::id()));
        let base = tmp.to_string_lossy().into_owned();
        let f1 = format!("{}.1.smt2", base);
        let f2 = format!("{}.2.smt2", base);
        let _ = std::fs::write(&f1, format!("(set-option :produce-models true)\n{}(check-sat)\n{}", body, gv));
        let _ = std::fs::write(&f2, format!("(set-logic ALL)\n(set-option :produce-models true)\n{}(check-sat)\n{}", body, gv));
        let f3 = format!("{}.3.smt2", base);
        {
            let mut em = Emit { relax: true, ..Default::default() };
            let names: Vec<String> = pc.iter().chain(extra.iter()).map(|&b| em.bool(b)).collect();
            let mut body = String::from("(set-logic QF_NRA)\n");
            body.push_str(&em.out);
            body.push_str(&em.sides);
            for n in &names { let _ = writeln!(body, "(assert {})", n); }
            let _ = std::fs::write(&f3, format!("{}(check-sat)\n", body));
        }
        let f4 = format!("{}.4.smt2", base);
        let mut bvw = 0;
        for w in [16u32, 24, 32, 48, 64, 96] {
            let mut em = Emit { bv: w, ..Default::default() };
            let names: Vec<String> = pc.iter().chain(extra.iter()).map(|&b| em.bool(b)).collect();
            if em.too_wide { continue }
            let mut body = String::from("(set-logic QF_BV)\n(set-option :produce-models true)\n");
            body.push_str(&em.out);
            body.push_str(&em.sides);
            for n in &names { let _ = writeln!(body, "(assert {})", n); }
            let _ = std::fs::write(&f4, format!("{}(check-sat)\n{}", body, gv));
            bvw = w;
            break;
        }
        if self.dump.is_some() { let n = self.st.fallback; for (k, f) in [(1, &f1), (3, &f3), (4, &f4)] { let _ = std::fs::copy(f, format!("{}.{}.{}.smt2", self.dump.as_ref().unwrap(), n, k)); } }
        let t = self.fb_timeout_s;
        let mut kids: Vec<(Child, Option<std::thread::JoinHandle<String>>)> = vec![];
        for (bin, args) in [
            (self.bin.as_str(), vec![format!("-T:{}", t), f1.clone()]),
            ("cvc5", vec![format!("--tlimit={}", t * 1000), "--nl-ext-tplanes".into(), f2.clone()]),
            (self.bin.as_str(), vec![format!("-T:{}", t), f3.clone()]),
            (self.bin.as_str(), vec![format!("-T:{}", t), f4.clone()]),
        ] {
            if args.contains(&f4) && bvw == 0 { continue }
            if let Ok(mut c) = Command::new(bin).args(&args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                let mut so = c.stdout.take().unwrap();
                let h = std::thread::spawn(move || { let mut s = String::new(); use std::io::Read; let _ = so.read_to_string(&mut s); s });
                kids.push((c, Some(h)));
            }
        }
        let mut result = Res::Unknown;
        let t0 = Instant::now();
        'o: loop {
            let mut alive = false;
            for (ki, (_, h)) in kids.iter_mut().enumerate() {
                if h.as_ref().map_or(false, |x| x.is_finished()) {
                    let s = h.take().unwrap().join().unwrap_or_default();
                    let first = s.lines().next().unwrap_or("").trim().to_string();
                    if first == "unsat" { result = Res::Unsat; break 'o }
                    if first == "sat" && ki != 2 {
                        let mut m = Model { v: vec![], f: vec![] };
                        default_model(&mut m);
                        parse_model_w(&s[4..], &mut m, if ki == 3 { bvw } else { 0 });
                        result = Res::Sat(m);
                        break 'o;
                    }
                } else if h.is_some() { alive = true }
            }
            if !alive || t0.elapsed().as_secs() > t + 5 { break }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        for (c, _) in kids.iter_mut() { let _ = c.kill(); let _ = c.wait(); }
        let _ = std::fs::remove_file(&f1);
        let _ = std::fs::remove_file(&f2);
        let _ = std::fs::remove_file(&f3);
        let _ = std::fs::remove_file(&f4);
        result
    }
}
impl Drop for Smt { fn drop(&mut self) { let _ = self.ch.kill(); let _ = self.ch.wait(); } }

pub fn default_model(m: &mut Model) {
    for v in &tm().vars { m.v.push(if v.1 <= 0 && v.2 >= 0 { 0 } else { v.1 }) }
    m.f.resize(tm().fvars.len(), 0);
}

fn parse_model(txt: &str, m: &mut Model) { parse_model_w(txt, m, 0) }
fn parse_model_w(txt: &str, m: &mut Model, w: u32) {
    // ((a1 5) (a2 (- 7)) (fv0 #x...))
    let toks: Vec<String> = txt.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    let mut i = 0;
    while i < toks.len() {
        let t = &toks[i];
        if t.starts_with('a') && t[1..].parse::<u32>().is_ok() {
            let a: u32 = t[1..].parse().unwrap();
            let (v, n) = if toks[i + 1] == "(" { (-(toks[i + 3].parse::<i128>().unwrap_or(0)), 5) } else { (match toks[i + 1].strip_prefix("#x").map(|h| u128::from_str_radix(h, 16)).or(toks[i + 1].strip_prefix("#b").map(|h| u128::from_str_radix(h, 2))) {
                Some(Ok(u)) => if w < 128 && w > 0 && (u >> (w - 1)) & 1 == 1 { u as i128 - (1i128 << w) } else { u as i128 },
                _ => toks[i + 1].parse::<i128>().unwrap_or(0),
            }, 2) };
            if let Atom::Var(id) = tm().atoms[a as usize] {
                while m.v.len() <= id as usize { m.v.push(0) }
                m.v[id as usize] = v;
            }
            i += n;
        } else if t.starts_with("fv") {
            let id: usize = t[2..].parse().unwrap();
            let s = &toks[i + 1];
            let v = if let Some(h) = s.strip_prefix("#x") { u64::from_str_radix(h, 16).unwrap() } else if let Some(b) = s.strip_prefix("#b") { u64::from_str_radix(b, 2).unwrap() } else { 0 };
            while m.f.len() <= id { m.f.push(0) }
            m.f[id] = v;
            i += 2;
        } else { i += 1 }
    }
}
