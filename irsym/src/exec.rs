//! Path-exploring symbolic interpreter for LLVM IR.
use crate::ll::*;
use crate::smt::*;
use crate::term::{self, *};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    P(P),
    B(B),
    F(F),
    Y(Rc<Vec<u64>>),
    A(Rc<Vec<Val>>),
    U,
}

// byte cells
const TAG_U: u64 = 1 << 62;
const TAG_S: u64 = 2 << 62;
const TAG_M: u64 = 3 << 62;
fn scell(id: u32, k: usize, n: usize) -> u64 { TAG_S | id as u64 | ((k as u64) << 32) | ((n as u64) << 40) }
fn sc_id(c: u64) -> u32 { c as u32 }
fn sc_k(c: u64) -> usize { ((c >> 32) & 0xff) as usize }
fn sc_n(c: u64) -> usize { ((c >> 40) & 0xff) as usize }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum SymVal { P(P), F(F) }

pub struct Obj { size: u64, data: Vec<u64>, ro: bool, heap: bool }
impl Clone for Obj { fn clone(&self) -> Self { Obj { size: self.size, data: self.data.clone(), ro: self.ro, heap: self.heap } } }

pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    bb: u32,
    ip: usize,
    allocas: Vec<u64>,
    ret_dst: u32,
    ret_bb: Option<u32>,
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame { f: self.f.clone(), regs: self.regs.clone(), bb: self.bb, ip: self.ip, allocas: self.allocas.clone(), ret_dst: self.ret_dst, ret_bb: self.ret_bb }
    }
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    next: u64,
    pub pc: Vec<B>,
    lits: Rc<HashMap<B, bool>>,
    dbm: Rc<crate::dbm::Dbm>,
    model: Option<Rc<RefCell<EvO>>>,
    pub outs: Vec<(u32, Val)>,
    pub steps: u64,
    pub forks: u32,
    pub covers: Rc<BTreeSet<u32>>,
    pub tainted: bool,
}

pub struct EvO { pub m: Rc<Model>, ev: Ev<'static> }
impl EvO {
    fn new(m: Model) -> Rc<RefCell<EvO>> {
        let m = Rc::new(m);
        // the Rc keeps the model alive as long as the evaluator
        let r: &'static Model = unsafe { &*(Rc::as_ptr(&m)) };
        Rc::new(RefCell::new(EvO { m, ev: Ev::new(r) }))
    }
}

pub enum Stop { Fork(B), End(End) }
#[derive(Clone, Debug)]
pub enum End { Done, Assume, Violation(String, String), Inconclusive(String) }
type R<T> = Result<T, Stop>;

fn viol<T>(kind: &str, msg: String) -> R<T> { Err(Stop::End(End::Violation(kind.into(), msg))) }
fn unsup<T>(msg: String) -> R<T> { Err(Stop::End(End::Inconclusive(msg))) }

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub model: Vec<(u32, i128)>, pub fmodel: Vec<(u32, u64)>, pub trace: Vec<String> }

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub assume_ends: u64,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub covers: BTreeSet<u32>,
    pub steps: u64,
    pub sym_branches: u64,
    pub quick: u64,
    pub assert_queries: u64,
    pub asserts_trivial: u64,
    pub funcs: BTreeSet<String>,
    pub witnesses: Vec<String>,
    pub maxpc: usize,
    pub st: Stats,
}

pub struct Engine {
    pub m: Module,
    pub smt: Smt,
    pub rep: Report,
    symvals: Vec<SymVal>,
    sym_ix: HashMap<SymVal, u32>,
    gconst: HashMap<u64, Rc<Obj>>,
    gindex: BTreeMap<u64, usize>,
    pub max_steps: u64,
    pub conc: Option<HashMap<u32, i128>>,
    pub concf: HashMap<u32, u64>,
    fn_seen: HashSet<*const Func>,
    pub verbose: bool,
    /// fork on value selection instead of building conditional terms
    pub fork_sel: bool,
    icache: HashMap<Rc<str>, Intr>,
    fork_model: Option<(B, Option<Model>)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Intr { None, Nop, Alloc, AllocZ, Dealloc, Realloc, RandKeys, Llvm, Sym, Mem, Math, HashOne, Fmt }

fn has_quo(p: P) -> bool { tm().polys[p as usize].t.iter().any(|(m, _)| m.iter().any(|&a| matches!(tm().atoms[a as usize], Atom::Quo(..) | Atom::UQuo(..)))) }
fn norm_st(st: &State, p: P, w: u32) -> P {
    let b = st.dbm.bounds_ro(p);
    if b.0 >= -pow2(w - 1) && b.1 < pow2(w) { return p }
    norm(p, w)
}
fn sext_c(c: u128, w: u32) -> i128 { if w >= 128 { c as i128 } else { ((c << (128 - w)) as i128) >> (128 - w) } }
fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }

impl Engine {
    pub fn new(m: Module, smt: Smt) -> Engine {
        let mut gindex = BTreeMap::new();
        for (i, g) in m.globals.iter().enumerate() { gindex.insert(g.addr, i); }
        Engine { m, smt, rep: Report::default(), symvals: vec![], sym_ix: HashMap::new(), gconst: HashMap::new(), gindex, max_steps: 20_000_000, conc: None, concf: HashMap::new(), fn_seen: HashSet::new(), fork_sel: false, verbose: std::env::var("IRSYM_VERBOSE").is_ok(), icache: HashMap::new(), fork_model: None }
    }

    pub fn start(&mut self, name: &str) -> State {
        let f = self.m.func(name).unwrap_or_else(|| panic!("no function {}", name));
        self.note(&f);
        let mut model = Model::default();
        default_model(&mut model);
        State {
            frames: vec![Frame { regs: vec![Val::U; f.nregs as usize], f, bb: 0, ip: 0, allocas: vec![], ret_dst: u32::MAX, ret_bb: None }],
            mem: BTreeMap::new(), next: 0x10_0000_0000, pc: vec![], lits: Rc::new(HashMap::new()), dbm: Rc::new(crate::dbm::Dbm::new()), model: Some(EvO::new(model)), outs: vec![], steps: 0, forks: 0,
            covers: Rc::new(BTreeSet::new()), tainted: false,
        }
    }

    fn note(&mut self, f: &Rc<Func>) {
        if self.fn_seen.insert(Rc::as_ptr(f)) { self.rep.funcs.insert(f.name.to_string()); }
    }

    // ---- path condition ----
    fn known(lits: &HashMap<B, bool>, b: B) -> Option<bool> {
        if b == TRUE { return Some(true) }
        if b == FALSE { return Some(false) }
        if let Some(&v) = lits.get(&b) { return Some(v) }
        match &tm().bools[b as usize] {
            BN::Not(x) => Self::known(lits, *x).map(|v| !v),
            BN::And(l) => {
                let mut all = true;
                for &x in l.iter() { match Self::known(lits, x) { Some(false) => return Some(false), Some(true) => {} None => all = false } }
                if all { Some(true) } else { None }
            }
            BN::Or(l) => {
                let mut all = true;
                for &x in l.iter() { match Self::known(lits, x) { Some(true) => return Some(true), Some(false) => {} None => all = false } }
                if all { Some(false) } else { None }
            }
            BN::Ite(c, x, y) => match Self::known(lits, *c) { Some(true) => Self::known(lits, *x), Some(false) => Self::known(lits, *y), None => None },
            _ => None,
        }
    }
    fn learn(lits: &mut HashMap<B, bool>, b: B, v: bool) {
        lits.insert(b, v);
        match (&tm().bools[b as usize].clone(), v) {
            (BN::Not(x), _) => Self::learn(lits, *x, !v),
            (BN::And(l), true) => for &x in l.iter() { Self::learn(lits, x, true) },
            (BN::Or(l), false) => for &x in l.iter() { Self::learn(lits, x, false) },
            _ => {}
        }
    }
    fn assume(st: &mut State, b: B) {
        if b == TRUE { return }
        st.pc.push(b);
        Self::learn(Rc::make_mut(&mut st.lits), b, true);
        Rc::make_mut(&mut st.dbm).add(b, true);
    }
    fn learnt(st: &mut State, b: B, v: bool) {
        Self::learn(Rc::make_mut(&mut st.lits), b, v);
        Rc::make_mut(&mut st.dbm).add(b, v);
    }
    fn quick(&mut self, st: &mut State, b: B) -> Option<bool> {
        if let Some(v) = Self::known(&st.lits, b) { return Some(v) }
        let lits = st.lits.clone();
        let r = Rc::make_mut(&mut st.dbm).decide(b, &|x| lits.get(&x).cloned());
        if let Some(v) = r { self.rep.quick += 1; Self::learn(Rc::make_mut(&mut st.lits), b, v) }
        r
    }
    /// remember consequences of definitions on this path
    fn fact(st: &mut State, p: P, lo: i128, hi: i128) {
        if as_const(p).is_some() { return }
        let b = st.dbm.bounds_ro(p);
        if lo > b.0 && lo > -INF { Rc::make_mut(&mut st.dbm).add_ge(term::sub(p, cst(lo))) }
        if hi < b.1 && hi < INF { Rc::make_mut(&mut st.dbm).add_ge(term::sub(cst(hi), p)) }
    }
    fn sum_fact(st: &mut State, x: P, y: P, s: i128) -> P {
        let r = if s > 0 { term::add(x, y) } else { term::sub(x, y) };
        if as_const(x).is_some() || as_const(y).is_some() { return r }
        let nl = |p: P| tm().polys[p as usize].t.iter().any(|(m, _)| m.len() > 1 || matches!(tm().atoms[m[0] as usize], Atom::Quo(..) | Atom::UQuo(..)));
        if nl(x) || nl(y) {
            let (a, b) = (st.dbm.bounds_ro(x), st.dbm.bounds_ro(y));
            if s > 0 { Self::fact(st, r, a.0.saturating_add(b.0), a.1.saturating_add(b.1)) } else { Self::fact(st, r, a.0.saturating_sub(b.1), a.1.saturating_sub(b.0)) }
        }
        r
    }
    fn mul_fact(st: &mut State, x: P, y: P) -> P {
        let r = term::mul(x, y);
        if as_const(x).is_some() || as_const(y).is_some() { return r }
        let (a, b) = (st.dbm.bounds_ro(x), st.dbm.bounds_ro(y));
        let c = [term::smul(a.0, b.0), term::smul(a.0, b.1), term::smul(a.1, b.0), term::smul(a.1, b.1)];
        Self::fact(st, r, *c.iter().min().unwrap(), *c.iter().max().unwrap());
        r
    }
    fn quo_fact(st: &mut State, u: P, v: P) -> P {
        let (bu, bv) = (st.dbm.bounds_ro(u), st.dbm.bounds_ro(v));
        let nn = bu.0 >= 0 && bv.0 > 0;
        let q = term::quo_nn(u, v, nn);
        if nn && as_const(v).is_none() {
            Self::fact(st, q, bu.0 / bv.1.max(1), bu.1 / bv.0);
            let r = term::sub(u, term::mul(q, v));
            Self::fact(st, r, 0, bv.1 - 1);
            // r <= v - 1
            let d = term::sub(term::sub(v, cst(1)), r);
            Self::fact(st, d, 0, INF);
        }
        q
    }
    /// unsigned / signed view; the path condition may show that no wrap happens
    fn us(&self, st: &State, p: P, w: u32) -> P {
        let v = iv(p);
        if w < 126 && !(v.0 >= 0 && v.1 < pow2(w)) && as_const(p).is_none() {
            let b = st.dbm.bounds_ro(p);
            if b.0 >= 0 && b.1 < pow2(w) { return p }
            let q = reduce(p, pow2(w));
            if q != p { let b = st.dbm.bounds_ro(q); if b.0 >= 0 && b.1 < pow2(w) { return q } }
        }
        as_unsigned(p, w)
    }
    fn sg(&self, st: &State, p: P, w: u32) -> P {
        let v = iv(p);
        if w < 126 && !(v.0 >= -pow2(w - 1) && v.1 < pow2(w - 1)) && as_const(p).is_none() {
            let b = st.dbm.bounds_ro(p);
            if b.0 >= -pow2(w - 1) && b.1 < pow2(w - 1) { return p }
            let q = reduce(p, pow2(w));
            if q != p { let b = st.dbm.bounds_ro(q); if b.0 >= -pow2(w - 1) && b.1 < pow2(w - 1) { return q } }
        }
        as_signed(p, w)
    }
    /// b, or its value when that is already implied on this path
    fn dec(&mut self, st: &mut State, b: B) -> B {
        match self.quick(st, b) { Some(true) => TRUE, Some(false) => FALSE, None => b }
    }
    fn model_ok(&mut self, pc: &[B], extra: &[B], m: &Model) -> bool {
        let mut e = Ev::new(m);
        pc.iter().chain(extra.iter()).all(|&b| e.b(b))
    }
    fn ask(&mut self, st: &State, extra: B) -> Res {
        let t0 = self.smt.st.time;
        let r = self.smt.check(&st.pc, &[extra]);
        if self.verbose && self.smt.st.time - t0 > 3.0 {
            eprintln!("slow {:.1} {}", self.smt.st.time - t0, st.frames.iter().rev().take(6).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < "));
        }
        if let Res::Sat(m) = &r {
            if !st.tainted && !self.model_ok(&st.pc, &[extra], m) {
                // encoding and evaluator disagree: never trust this query (uninterpreted functions are the one legal reason)
                self.rep.inconclusive.push("solver model does not satisfy the terms (encoding mismatch)".into());
                return Res::Unknown;
            }
        }
        r
    }

    /// decide a condition on this path; forks when both outcomes are feasible
    fn need(&mut self, st: &mut State, b: B) -> R<bool> {
        if let Some(v) = self.quick(st, b) { return Ok(v) }
        self.rep.sym_branches += 1;
        if self.verbose {
            let m = st.model.as_ref().map(|_| 1).unwrap_or(0);
            eprintln!("need {} steps {} pc {} model {} {}", std::process::id(), st.steps, st.pc.len(), m, st.frames.iter().rev().take(4).map(|f| f.f.name.chars().rev().take(60).collect::<String>().chars().rev().collect::<String>()).collect::<Vec<_>>().join(" < "));
        }
        if let Some(ev) = st.model.clone() {
            let v = ev.borrow_mut().ev.b(b);
            let other = if v { term::not(b) } else { b };
            match self.ask(st, other) {
                Res::Unsat => { Self::learnt(st, b, v); return Ok(v) }
                Res::Sat(m) => { self.fork_model = Some((other, Some(m))); return Err(Stop::Fork(b)) }
                Res::Unknown => { self.fork_model = Some((other, None)); return Err(Stop::Fork(b)) }
            }
        }
        let r1 = self.ask(st, b);
        let r2 = self.ask(st, term::not(b));
        match (&r1, &r2) {
            (Res::Unsat, Res::Unsat) => Err(Stop::End(End::Assume)),
            (Res::Unsat, _) => { Self::learnt(st, b, false); Ok(false) }
            (_, Res::Unsat) => { Self::learnt(st, b, true); Ok(true) }
            _ => {
                if let Res::Sat(m) = r1 { st.model = Some(EvO::new(m)) } else { st.model = None }
                self.fork_model = Some((term::not(b), if let Res::Sat(m) = r2 { Some(m) } else { None }));
                Err(Stop::Fork(b))
            }
        }
    }
    fn split(&mut self, mut st: State, b: B) -> (State, State) {
        let (other, om) = self.fork_model.take().unwrap();
        st.forks += 1;
        let mut s2 = st.clone();
        let mine = term::not(other);
        let _ = b;
        Self::assume(&mut st, mine);
        Self::assume(&mut s2, other);
        s2.model = om.map(EvO::new);
        (st, s2)
    }

    fn simp(&self, st: &State, p: P) -> P {
        let l = st.lits.clone();
        subst_known(p, &|b| Self::known(&l, b))
    }
    fn concretize(&mut self, st: &mut State, p: P) -> R<i128> {
        let mut p = p;
        loop {
            if let Some(c) = as_const(p) { return Ok(c) }
            let q = self.simp(st, p);
            if let Some(c) = as_const(q) { return Ok(c) }
            p = q;
            if let Some(c) = some_ite(p) {
                self.need(st, c)?;
                continue;
            }
            let v = match &st.model {
                Some(e) => e.borrow_mut().ev.p(p),
                None => match self.ask(st, TRUE) {
                    Res::Sat(m) => { st.model = Some(EvO::new(m)); st.model.as_ref().unwrap().borrow_mut().ev.p(p) }
                    Res::Unsat => return Err(Stop::End(End::Assume)),
                    Res::Unknown => return unsup("concretize: solver unknown".into()),
                },
            };
            if self.need(st, eq0(term::sub(p, cst(v))))? { return Ok(v) }
        }
    }

    // ---- values ----
    fn symid(&mut self, s: SymVal) -> u32 {
        if let Some(&i) = self.sym_ix.get(&s) { return i }
        let i = self.symvals.len() as u32;
        self.symvals.push(s);
        self.sym_ix.insert(s, i);
        i
    }
    fn bool_p(b: B) -> P { term::ite(b, cst(1), cst(0)) }
    fn cells_of(&mut self, v: &Val, n: usize) -> Vec<u64> {
        match v {
            Val::C(c) => (0..n).map(|i| ((c >> (8 * i)) & 0xff) as u64).collect(),
            Val::P(p) => {
                if let Some(c) = as_const(*p) { return (0..n).map(|i| (((c as u128) >> (8 * i)) & 0xff) as u64).collect() }
                let id = self.symid(SymVal::P(*p));
                (0..n).map(|i| scell(id, i, n)).collect()
            }
            Val::B(b) => { let p = Self::bool_p(*b); self.cells_of(&Val::P(p), n) }
            Val::F(f) => {
                if let FN::Const(b, _) = tm().floats[*f as usize] { return (0..n).map(|i| (b >> (8 * i)) & 0xff).collect() }
                let id = self.symid(SymVal::F(*f));
                (0..n).map(|i| scell(id, i, n)).collect()
            }
            Val::Y(y) => { let mut r: Vec<u64> = (**y).clone(); r.resize(n, 0); r }
            Val::U => vec![TAG_U; n],
            Val::A(_) => panic!("cells of aggregate"),
        }
    }
    fn from_cells(&mut self, c: &[u64], fl: Option<bool>) -> Val {
        let n = c.len();
        if c.iter().all(|x| x & TAG_M == 0) {
            let mut r = 0u128;
            for (i, x) in c.iter().enumerate() { r |= (*x as u128 & 0xff) << (8 * i) }
            return Val::C(r);
        }
        if c.iter().any(|x| x & TAG_M == TAG_U) {
            if c.iter().all(|x| x & TAG_M == TAG_U) { return Val::U }
            return Val::Y(Rc::new(c.to_vec()));
        }
        if c[0] & TAG_M == TAG_S && sc_k(c[0]) == 0 && sc_n(c[0]) == n {
            let id = sc_id(c[0]);
            if (1..n).all(|i| c[i] == scell(id, i, n)) {
                return match (self.symvals[id as usize], fl) {
                    (SymVal::P(p), None) => Val::P(p),
                    (SymVal::F(f), Some(_)) => Val::F(f),
                    (SymVal::F(f), None) => Val::P(fbits(f)),
                    (SymVal::P(p), Some(d)) => Val::F(from_bits(as_unsigned(p, if d { 64 } else { 32 }), d)),
                };
            }
        }
        if let Some(d) = fl { let p = self.cells_poly(c); return Val::F(from_bits(as_unsigned(p, if d { 64 } else { 32 }), d)) }
        Val::Y(Rc::new(c.to_vec()))
    }
    fn runs(c: &[u64]) -> Vec<(usize, usize)> {
        let mut r = vec![];
        let mut i = 0;
        while i < c.len() {
            let mut j = i + 1;
            let t = c[i] & TAG_M;
            while j < c.len() && c[j] & TAG_M == t && (t != TAG_S || (sc_id(c[j]) == sc_id(c[i]) && sc_n(c[j]) == sc_n(c[i]) && sc_k(c[j]) == sc_k(c[i]) + (j - i))) { j += 1 }
            r.push((i, j));
            i = j;
        }
        r
    }
    fn cells_poly(&mut self, c: &[u64]) -> P {
        let n = c.len();
        let mut r = cst(0);
        for (i, j) in Self::runs(c) {
            let part = if c[i] & TAG_M == 0 {
                let mut v = 0u128;
                for k in i..j { v |= (c[k] as u128) << (8 * (k - i)) }
                cst(v as i128)
            } else if c[i] & TAG_M == TAG_S {
                let p = match self.symvals[sc_id(c[i]) as usize] { SymVal::P(p) => p, SymVal::F(f) => fbits(f) };
                let k0 = sc_k(c[i]);
                let tot = sc_n(c[i]);
                let u = if k0 == 0 && j == n { p } else if tot == 16 && k0 == 0 { reduce_u(p, 8 * (j - i)) } else { as_unsigned(p, 8 * tot as u32) };
                let u = if k0 > 0 { fdiv(u, pow2(8 * k0 as u32)) } else { u };
                if j == n { u } else { fmod(u, pow2(8 * (j - i) as u32)) }
            } else { cst(0) };
            r = term::add(r, mulc(part, if i == 0 { 1 } else { pow2(8 * i as u32) }));
        }
        r
    }
    fn to_p(&mut self, v: &Val, w: u32) -> P {
        match v {
            Val::C(c) => cst(sext_c(*c, w)),
            Val::P(p) => *p,
            Val::B(b) => Self::bool_p(*b),
            Val::Y(y) => self.cells_poly(y),
            Val::F(f) => fbits(*f),
            Val::U => cst(0),
            Val::A(_) => panic!("to_p aggregate"),
        }
    }
    fn from_p(p: P, w: u32) -> Val {
        if let Some(c) = as_const(p) { return Val::C((c as u128) & mask(w)) }
        Val::P(p)
    }
    fn to_b(&mut self, v: &Val) -> B {
        match v {
            Val::C(c) => if c & 1 == 1 { TRUE } else { FALSE },
            Val::B(b) => *b,
            Val::P(p) => Self::low_bit(*p),
            Val::Y(y) => { let p = self.cells_poly(y); Self::low_bit(p) }
            _ => FALSE,
        }
    }
    fn low_bit(p: P) -> B {
        let v = iv(p);
        if v.0 >= 0 && v.1 <= 1 { return eq0(term::sub(p, cst(1))) }
        eq0(term::sub(fmod(p, 2), cst(1)))
    }
    fn from_b(b: B) -> Val { if b == TRUE { Val::C(1) } else if b == FALSE { Val::C(0) } else { Val::B(b) } }
    fn to_f(&mut self, v: &Val, d: bool) -> F {
        match v {
            Val::C(c) => mkf(FN::Const(*c as u64, d)),
            Val::F(f) => *f,
            Val::P(p) => from_bits(as_unsigned(*p, if d { 64 } else { 32 }), d),
            Val::Y(y) => { let p = self.cells_poly(y); from_bits(as_unsigned(p, if d { 64 } else { 32 }), d) }
            _ => mkf(FN::Const(0, d)),
        }
    }
    fn from_f(f: F) -> Val { if let FN::Const(b, _) = tm().floats[f as usize] { Val::C(b as u128) } else { Val::F(f) } }

    fn op(&mut self, st: &State, o: &Op) -> Val {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::Undef => Val::U,
            Op::Zero(t) => self.zero(*t),
            Op::Agg(v) => Val::A(Rc::new(v.iter().map(|x| self.op(st, x)).collect())),
            Op::Meta => Val::U,
        }
    }
    fn zero(&mut self, t: TyId) -> Val {
        match self.m.tys[t as usize].clone() {
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|&f| self.zero(f)).collect())),
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            _ => Val::C(0),
        }
    }
    fn width(&self, t: TyId) -> u32 { match self.m.tys[t as usize] { Ty::Int(w) => w, Ty::Ptr => 64, Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
    fn set(&mut self, st: &mut State, dst: u32, v: Val) { if dst != u32::MAX { st.frames.last_mut().unwrap().regs[dst as usize] = v; } }

    // ---- memory ----
    fn alloc(st: &mut State, size: u64, align: u64, heap: bool, zero: bool) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size.max(1) + 32;
        st.mem.insert(a, Rc::new(Obj { size, data: vec![if zero { 0 } else { TAG_U }; size as usize], ro: false, heap }));
        a
    }
    fn find(&mut self, st: &State, addr: u64, n: u64) -> R<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr + n <= b + o.size && addr >= *b { return Ok((*b, o.clone())) }
        }
        if let Some((&b, &gi)) = self.gindex.range(..=addr).next_back() {
            let sz = self.m.globals[gi].size;
            if addr + n <= b + sz {
                if let Some(o) = self.gconst.get(&b) { return Ok((b, o.clone())) }
                let bytes = self.m.global_bytes(gi);
                let o = Rc::new(Obj { size: sz, data: bytes.iter().map(|&x| x as u64).collect(), ro: self.m.globals[gi].constant, heap: false });
                self.gconst.insert(b, o.clone());
                return Ok((b, o));
            }
        }
        viol("memory", format!("access of {} bytes outside every live object (address {:#x})", n, addr))
    }
    fn read_cells(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<u64>> {
        if n == 0 { return Ok(vec![]) }
        let (b, o) = self.find(st, addr, n)?;
        let s = (addr - b) as usize;
        Ok(o.data[s..s + n as usize].to_vec())
    }
    fn write_cells(&mut self, st: &mut State, addr: u64, c: &[u64]) -> R<()> {
        if c.is_empty() { return Ok(()) }
        let (b, o) = self.find(st, addr, c.len() as u64)?;
        if o.ro { return viol("memory", "write to constant memory".into()) }
        drop(o);
        if !st.mem.contains_key(&b) { let o = self.gconst[&b].clone(); st.mem.insert(b, o); }
        let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
        let s = (addr - b) as usize;
        o.data[s..s + c.len()].copy_from_slice(c);
        Ok(())
    }
    fn addr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c as u64),
            Val::U => unsup("undef pointer".into()),
            v => { let p = self.to_p(v, 64); Ok(self.concretize(st, p)? as u64) }
        }
    }
    fn load(&mut self, st: &mut State, ty: TyId, a: u64) -> R<Val> {
        match self.m.tys[ty as usize].clone() {
            Ty::Struct(fs, pk) => {
                let mut v = vec![];
                for (i, &f) in fs.iter().enumerate() { let o = self.m.field_off(&fs, pk, i); v.push(self.load(st, f, a + o)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let s = self.m.size(e);
                let mut v = vec![];
                for i in 0..n { v.push(self.load(st, e, a + i * s)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::F64 => { let c = self.read_cells(st, a, 8)?; Ok(self.from_cells(&c, Some(true))) }
            Ty::F32 => { let c = self.read_cells(st, a, 4)?; Ok(self.from_cells(&c, Some(false))) }
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                let c = self.read_cells(st, a, n)?;
                let v = self.from_cells(&c, None);
                if w == 1 { if let Val::C(_) = v { return Ok(v) } let b = self.to_b(&v); return Ok(Self::from_b(b)) }
                Ok(v)
            }
            _ => { let c = self.read_cells(st, a, 8)?; Ok(self.from_cells(&c, None)) }
        }
    }
    fn store(&mut self, st: &mut State, ty: TyId, v: &Val, a: u64) -> R<()> {
        match self.m.tys[ty as usize].clone() {
            Ty::Struct(fs, pk) => {
                let vs = match v { Val::A(x) => x.clone(), _ => return Ok(()) };
                for (i, &f) in fs.iter().enumerate() { let o = self.m.field_off(&fs, pk, i); self.store(st, f, &vs[i], a + o)?; }
                Ok(())
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let s = self.m.size(e);
                match v {
                    Val::A(x) => { let x = x.clone(); for i in 0..n as usize { self.store(st, e, &x[i], a + i as u64 * s)?; } }
                    Val::C(c) => { for i in 0..n { let sh = 8 * s * i; let x = if sh >= 128 { 0 } else { (c >> sh) & mask(8 * s as u32) }; self.store(st, e, &Val::C(x), a + i * s)?; } }
                    _ => { let c = vec![TAG_U; (n * s) as usize]; self.write_cells(st, a, &c)?; }
                }
                Ok(())
            }
            _ => {
                let w = self.width(ty);
                let n = ((w + 7) / 8) as usize;
                let v2 = if let Val::P(p) = v { Val::P(norm(*p, w)) } else { v.clone() };
                let c = self.cells_of(&v2, n);
                self.write_cells(st, a, &c)
            }
        }
    }

    // ---- arithmetic ----
    fn bin(&mut self, st: &mut State, o: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) { return self.bin_c(o, w, *x, *y) }
        if matches!(a, Val::U) || matches!(b, Val::U) { return Ok(Val::U) }
        if w == 1 {
            let (x, y) = (self.to_b(a), self.to_b(b));
            return Ok(Self::from_b(match o {
                Bin::And | Bin::Mul => term::and(x, y),
                Bin::Or | Bin::OrDisjoint => term::or(x, y),
                Bin::Xor | Bin::Add | Bin::Sub => xorb(x, y),
                _ => return unsup(format!("i1 {:?}", o)),
            }));
        }
        // byte-granular shifts of mixed values
        if let (Val::Y(y), Val::C(k)) = (a, b) {
            if o == Bin::LShr && k % 8 == 0 { let mut c: Vec<u64> = y[(*k / 8) as usize..].to_vec(); c.resize(y.len(), 0); return Ok(self.from_cells(&c, None)) }
            if o == Bin::Shl && k % 8 == 0 { let n = y.len(); let mut c = vec![0u64; (*k / 8) as usize]; c.extend_from_slice(&y[..n - (*k / 8) as usize]); return Ok(self.from_cells(&c, None)) }
        }
        if matches!(o, Bin::OrDisjoint | Bin::Or) {
            if let (Val::Y(x), Val::Y(y)) = (a, b) {
                if x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| *p == 0 || *q == 0) {
                    let c: Vec<u64> = x.iter().zip(y.iter()).map(|(p, q)| if *p == 0 { *q } else { *p }).collect();
                    return Ok(self.from_cells(&c, None));
                }
            }
        }
        let x = self.to_p(a, w);
        let y = self.to_p(b, w);
        let r = match o {
            Bin::Add | Bin::OrDisjoint => { let r = Self::sum_fact(st, x, y, 1); norm_st(st, r, w) }
            Bin::Sub => { let r = Self::sum_fact(st, x, y, -1); norm_st(st, r, w) }
            Bin::Mul => { let r = Self::mul_fact(st, x, y); norm_st(st, r, w) }
            Bin::UDiv | Bin::URem => {
                let (u, v) = (self.us(st, x, w), self.us(st, y, w));
                if self.need(st, eq0(v))? { return viol("ub", "division by zero".into()) }
                let q = Self::quo_fact(st, u, v);
                if o == Bin::UDiv { q } else if as_const(v).is_some() { term::rem(u, v) } else { term::sub(u, term::mul(q, v)) }
            }
            Bin::SDiv | Bin::SRem => {
                let (u, v) = (self.sg(st, x, w), self.sg(st, y, w));
                if self.need(st, eq0(v))? { return viol("ub", "division by zero".into()) }
                let q = Self::quo_fact(st, u, v);
                if o == Bin::SDiv { norm_st(st, q, w) } else if as_const(v).is_some() { term::rem(u, v) } else { term::sub(u, term::mul(q, v)) }
            }
            Bin::Shl | Bin::LShr | Bin::AShr => {
                let k = match as_const(y) { Some(c) => c, None => { let u = self.us(st, y, w); self.concretize(st, u)? } };
                let k = k as u32;
                if k >= w { return Ok(Val::U) }
                match o {
                    Bin::Shl => { if k >= 125 { return unsup("wide shl".into()) } norm(mulc(x, pow2(k)), w) }
                    Bin::LShr => {
                        // bytes view for byte multiples keeps identity of packed values
                        fdiv(self.us(st, x, w), pow2(k))
                    }
                    _ => fdiv(self.sg(st, x, w), pow2(k)),
                }
            }
            Bin::And | Bin::Or | Bin::Xor => return self.bitop(st, o, w, x, y),
            _ => return unsup(format!("bin {:?}", o)),
        };
        Ok(Self::from_p(r, w))
    }
    fn and_const(x: P, w: u32, k: u128) -> P {
        let k = k & mask(w);
        let mut r = cst(0);
        let mut i = 0;
        while i < w {
            if (k >> i) & 1 == 0 { i += 1; continue }
            let mut j = i;
            while j < w && (k >> j) & 1 == 1 { j += 1 }
            // bits [i,j)
            let hi = if j == w { x } else { fmod(x, pow2(j)) };
            let lo = if i == 0 { cst(0) } else { fmod(x, pow2(i)) };
            r = term::add(r, term::sub(hi, lo));
            i = j;
        }
        r
    }
    fn bitop(&mut self, st: &mut State, o: Bin, w: u32, x: P, y: P) -> R<Val> {
        if x == y { return Ok(match o { Bin::Xor => Val::C(0), _ => Self::from_p(x, w) }) }
        let (mut x, mut y) = (x, y);
        if as_const(x).is_some() { std::mem::swap(&mut x, &mut y) }
        for _ in 0..2 {
            if let (Some((c, p, q)), true) = (ite_parts(x), true) {
                if leafy(p) && leafy(q) && (as_const(y).is_some() || ite_small(y)) {
                    let a = self.bitop(st, o, w, p, y)?;
                    let b = self.bitop(st, o, w, q, y)?;
                    let (a, b) = (self.to_p(&a, w), self.to_p(&b, w));
                    return Ok(Self::from_p(term::ite(c, a, b), w));
                }
            }
            std::mem::swap(&mut x, &mut y);
        }
        if as_const(x).is_some() { std::mem::swap(&mut x, &mut y) }
        if let Some(k) = as_const(y) {
            let ku = (k as u128) & mask(w);
            if let Some(xc) = as_const(x) {
                let xu = (xc as u128) & mask(w);
                return Ok(Val::C(match o { Bin::And => xu & ku, Bin::Or => xu | ku, _ => xu ^ ku }));
            }
            let a = Self::and_const(x, w, ku);
            let r = match o {
                Bin::And => a,
                Bin::Or => term::sub(term::add(x, cst(sext_c(ku, w))), a),
                _ => if ku == mask(w) { term::sub(cst(-1), x) } else { term::sub(term::add(x, cst(sext_c(ku, w))), mulc(a, 2)) },
            };
            return Ok(Self::from_p(norm(r, w), w));
        }
        // concretize the narrower operand
        let (ux, uy) = (self.us(st, self.simp(st, x), w), self.us(st, self.simp(st, y), w));
        let (vx, vy) = (iv(ux), iv(uy));
        let t = if vx.1 - vx.0 <= vy.1 - vy.0 { ux } else { uy };
        let v = iv(t);
        if v.1 - v.0 > 4096 && some_ite(t).is_none() {
            let (sx, sy) = (self.sg(st, x, w), self.sg(st, y, w));
            return Ok(Self::from_p(term::bit(match o { Bin::And => 0, Bin::Or => 1, _ => 2 }, sx, sy, w), w));
        }
        let c = self.concretize(st, t)?;
        let other = if t == ux { uy } else { ux };
        self.bitop(st, o, w, other, cst(c))
    }
    fn bin_c(&mut self, o: Bin, w: u32, x: u128, y: u128) -> R<Val> {
        let m = mask(w);
        let (sx, sy) = (sext_c(x, w), sext_c(y, w));
        Ok(Val::C(match o {
            Bin::Add => x.wrapping_add(y) & m,
            Bin::Sub => x.wrapping_sub(y) & m,
            Bin::Mul => x.wrapping_mul(y) & m,
            Bin::UDiv => { if y == 0 { return viol("ub", "division by zero".into()) } x / y }
            Bin::URem => { if y == 0 { return viol("ub", "division by zero".into()) } x % y }
            Bin::SDiv => { if y == 0 { return viol("ub", "division by zero".into()) } (sx.wrapping_div(sy)) as u128 & m }
            Bin::SRem => { if y == 0 { return viol("ub", "division by zero".into()) } (sx.wrapping_rem(sy)) as u128 & m }
            Bin::Shl => { if y >= w as u128 { return Ok(Val::U) } (x << y) & m }
            Bin::LShr => { if y >= w as u128 { return Ok(Val::U) } (x >> y) & m }
            Bin::AShr => { if y >= w as u128 { return Ok(Val::U) } ((sx >> y) as u128) & m }
            Bin::And => x & y,
            Bin::Or | Bin::OrDisjoint => x | y,
            Bin::Xor => x ^ y,
            _ => return unsup(format!("bin {:?}", o)),
        }))
    }
    fn icmp(&mut self, st: &State, p: Pred, w: u32, a: &Val, b: &Val) -> R<B> {
        if matches!(a, Val::U) || matches!(b, Val::U) { return unsup("comparison of undefined value".into()) }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (sx, sy) = (sext_c(*x, w), sext_c(*y, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Ok(if r { TRUE } else { FALSE });
        }
        if w == 1 {
            let (x, y) = (self.to_b(a), self.to_b(b));
            return Ok(match p {
                Pred::Eq => iff(x, y),
                Pred::Ne => xorb(x, y),
                Pred::Ult | Pred::Sgt => term::and(term::not(x), y),
                Pred::Ugt | Pred::Slt => term::and(x, term::not(y)),
                Pred::Ule | Pred::Sge => term::or(term::not(x), y),
                Pred::Uge | Pred::Sle => term::or(x, term::not(y)),
            });
        }
        if matches!(p, Pred::Eq | Pred::Ne) {
            let yy = |v: &Val| matches!(v, Val::Y(_));
            if yy(a) || yy(b) {
                let n = ((w + 7) / 8) as usize;
                let (ca, cb) = (self.cells_of(a, n), self.cells_of(b, n));
                let e = self.cells_eq(st, &ca, &cb);
                return Ok(if p == Pred::Eq { e } else { term::not(e) });
            }
        }
        let (x, y) = (self.to_p(a, w), self.to_p(b, w));
        Ok(match p {
            Pred::Eq | Pred::Ne => {
                let e = self.peq(st, x, y, w);
                if p == Pred::Eq { e } else { term::not(e) }
            }
            Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge => {
                let (x, y) = (self.sg(st, x, w), self.sg(st, y, w));
                match p {
                    Pred::Slt => ge0(term::sub(term::sub(y, x), cst(1))),
                    Pred::Sle => ge0(term::sub(y, x)),
                    Pred::Sgt => ge0(term::sub(term::sub(x, y), cst(1))),
                    _ => ge0(term::sub(x, y)),
                }
            }
            _ => {
                let (x, y) = match p { Pred::Ult | Pred::Ule => (x, y), _ => (y, x) };
                let strict = matches!(p, Pred::Ult | Pred::Ugt);
                self.ult(st, x, y, w, strict)
            }
        })
    }
    fn peq(&mut self, st: &State, x: P, y: P, w: u32) -> B {
        let d = term::sub(x, y);
        if w < 126 {
            let v = iv(d);
            let h = pow2(w);
            if v.0 > -h && v.1 < h { return eq0(d) }
            let r = reduce(d, h);
            let v = iv(r);
            if v.0 > -h && v.1 < h { return eq0(r) }
            return eq0(term::sub(self.sg(st, x, w), self.sg(st, y, w)));
        }
        eq0(d)
    }
    fn ult(&mut self, st: &State, x: P, y: P, w: u32, strict: bool) -> B {
        let c = if strict { 1 } else { 0 };
        if w >= 126 {
            let (x, y) = (self.us(st, x, w), self.us(st, y, w));
            return ge0(term::sub(term::sub(y, x), cst(c)));
        }
        // work on signed representatives so that small negative offsets stay linear
        let (sx, sy) = (self.sg(st, x, w), self.sg(st, y, w));
        let (vx, vy) = (iv(sx), iv(sy));
        let lt = ge0(term::sub(term::sub(sy, sx), cst(c)));
        if vx.0 >= 0 && vy.0 >= 0 { return lt }
        if vx.1 < 0 && vy.1 < 0 { return lt }
        let nx = term::not(ge0(sx)); // x "large"
        let ny = term::not(ge0(sy));
        if vx.0 >= 0 { return term::or(ny, lt) }
        if vy.0 >= 0 { return term::and(term::not(nx), lt) }
        iteb(nx, term::and(ny, lt), term::or(ny, lt))
    }
    fn cells_eq(&mut self, st: &State, a: &[u64], b: &[u64]) -> B {
        // cut at the union of run boundaries
        let mut cuts: BTreeSet<usize> = BTreeSet::new();
        for (i, j) in Self::runs(a).into_iter().chain(Self::runs(b)) { cuts.insert(i); cuts.insert(j); }
        let cuts: Vec<usize> = cuts.into_iter().collect();
        let mut r = TRUE;
        for k in 0..cuts.len() - 1 {
            let (i, j) = (cuts[k], cuts[k + 1]);
            let (p, q) = (self.slice_p(&a[i..j]), self.slice_p(&b[i..j]));
            let e = self.peq(st, p, q, 8 * (j - i) as u32);
            r = term::and(r, e);
        }
        r
    }
    fn slice_p(&mut self, c: &[u64]) -> P {
        // a whole symbolic value keeps its own representative
        if c[0] & TAG_M == TAG_S && sc_k(c[0]) == 0 && sc_n(c[0]) == c.len() {
            if let SymVal::P(p) = self.symvals[sc_id(c[0]) as usize] { return p }
        }
        self.cells_poly(c)
    }

    // ---- driver ----
    /// depth-first exploration; `share` may take the oldest pending state away (to another process)
    pub fn run_dfs(&mut self, st: State, stop: &dyn Fn() -> bool, share: &mut dyn FnMut(&mut Engine, &mut Vec<State>)) {
        let mut work = vec![st];
        while let Some(s) = work.pop() {
            let mut s = s;
            let mut n = 0u32;
            loop {
                n += 1;
                if n & 0xffff == 0 && stop() { return }
                match self.step(&mut s) {
                    Ok(()) => {}
                    Err(Stop::Fork(b)) => {
                        if stop() { return }
                        let (a, c) = self.split(s, b);
                        work.push(c);
                        work.push(a);
                        share(self, &mut work);
                        match work.pop() { Some(x) => s = x, None => break }
                    }
                    Err(Stop::End(e)) => { self.finish(s, e); break }
                }
            }
            if stop() { return }
        }
    }

    fn model_of(&self, m: &Model) -> (Vec<(u32, i128)>, Vec<(u32, u64)>) {
        let v = tm().vars.iter().enumerate().map(|(i, v)| (v.0, m.v.get(i).cloned().unwrap_or(if v.1 <= 0 && v.2 >= 0 { 0 } else { v.1 }))).collect();
        let f = tm().fvars.iter().enumerate().map(|(i, v)| (v.0, m.f.get(i).cloned().unwrap_or(0))).collect();
        (v, f)
    }

    fn finish(&mut self, s: State, e: End) {
        self.rep.steps += s.steps;
        self.rep.maxpc = self.rep.maxpc.max(s.pc.len());
        match e {
            End::Done => {
                // a path is only counted (and its cover points credited) when its condition is satisfiable
                let m = match &s.model {
                    Some(e) => Some((*e.borrow().m).clone()),
                    None => match self.ask(&s, TRUE) { Res::Sat(m) => Some(m), Res::Unsat => { self.rep.assume_ends += 1; return } Res::Unknown => None },
                };
                self.rep.paths += 1;
                if let Some(m) = m {
                    for c in s.covers.iter() { self.rep.covers.insert(*c); }
                    if self.rep.paths <= 40 || self.rep.paths % 16 == 0 {
                        let (v, f) = self.model_of(&m);
                        let mut ev = Ev::new(&m);
                        let mut o = vec![];
                        for (id, x) in &s.outs {
                            let val: i128 = match x { Val::C(c) => sext_c(*c, 64), Val::P(p) => as_i64(ev.p(*p)), Val::B(b) => ev.b(*b) as i128, _ => 0 };
                            o.push(format!("{}={}", id, val));
                        }
                        let ins: Vec<String> = v.iter().map(|(i, x)| format!("{}={}", i, x)).chain(f.iter().map(|(i, x)| format!("f{}={}", i, x))).collect();
                        if self.rep.witnesses.len() < 400 { self.rep.witnesses.push(format!("{}|{}", ins.join(","), o.join(","))); }
                    }
                }
            }
            End::Assume => self.rep.assume_ends += 1,
            End::Violation(k, msg) => {
                let m = match &s.model {
                    Some(e) => Some((*e.borrow().m).clone()),
                    None => match self.ask(&s, TRUE) { Res::Sat(m) => Some(m), Res::Unsat => { self.rep.assume_ends += 1; return } Res::Unknown => None },
                };
                match m {
                    Some(m) => {
                        let (v, f) = self.model_of(&m);
                        let trace = s.frames.iter().map(|f| f.f.name.to_string()).collect();
                        self.rep.violations.push(Violation { kind: k, msg, model: v, fmodel: f, trace });
                    }
                    None => self.rep.inconclusive.push(format!("{}: {} (feasibility unknown)", k, msg)),
                }
            }
            End::Inconclusive(m) => {
                // only matters if the path is feasible
                if s.model.is_none() { if let Res::Unsat = self.ask(&s, TRUE) { self.rep.assume_ends += 1; return } }
                let t = s.frames.last().map(|f| f.f.name.to_string()).unwrap_or_default();
                self.rep.inconclusive.push(format!("{} in {}", m, t));
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for ph in &blk.phis {
                let mut v = Val::U;
                for (l, o) in &ph.inc { if *l == from { v = self.op(st, o); break } }
                vals.push((ph.dst, v));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals { fr.regs[d as usize] = v }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.bb = to;
        fr.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        if st.steps > self.max_steps { return unsup("step limit".into()) }
        let (f, bb, ip) = { let fr = st.frames.last().unwrap(); (fr.f.clone(), fr.bb, fr.ip) };
        let ins = &f.blocks[bb as usize].insts[ip];
        macro_rules! next { ($v:expr) => {{ let v = $v; self.set(st, ins.dst, v); st.frames.last_mut().unwrap().ip += 1; return Ok(()) }} }
        match &ins.k {
            K::Bin(o, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                match self.m.tys[*ty as usize].clone() {
                    Ty::Vec(n, e) => {
                        let w = self.width(e);
                        let (xs, ys) = (self.elems(&x, n as usize), self.elems(&y, n as usize));
                        let mut r = vec![];
                        for i in 0..n as usize { r.push(self.bin(st, *o, w, &xs[i], &ys[i])?); }
                        next!(Val::A(Rc::new(r)))
                    }
                    Ty::F64 | Ty::F32 => {
                        let d = self.m.tys[*ty as usize] == Ty::F64;
                        let (x, y) = (self.to_f(&x, d), self.to_f(&y, d));
                        let k = match o { Bin::FAdd => 0, Bin::FSub => 1, Bin::FMul => 2, Bin::FDiv => 3, _ => {
                            if let (Some(a), Some(b)) = (fconst(x), fconst(y)) { next!(Self::from_f(fc(if d { a % b } else { (a as f32 % b as f32) as f64 }, d))) }
                            return unsup("frem".into())
                        } };
                        next!(Self::from_f(fbin_t(k, x, y)))
                    }
                    _ => { let w = self.width(*ty); let v = self.bin(st, *o, w, &x, &y)?; next!(v) }
                }
            }
            K::Icmp(p, ty, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let Ty::Vec(n, e) = self.m.tys[*ty as usize].clone() {
                    let w = self.width(e);
                    let (xs, ys) = (self.elems(&x, n as usize), self.elems(&y, n as usize));
                    let mut r = vec![];
                    for i in 0..n as usize { let b = if matches!(xs[i], Val::U) || matches!(ys[i], Val::U) { Val::U } else { Self::from_b(self.icmp(st, *p, w, &xs[i], &ys[i])?) }; r.push(b); }
                    next!(Val::A(Rc::new(r)))
                }
                if matches!(x, Val::U) || matches!(y, Val::U) { next!(Val::U) }
                let w = self.width(*ty);
                let b = self.icmp(st, *p, w, &x, &y)?;
                next!(Self::from_b(b))
            }
            K::Fcmp(p, ty, a, b) => {
                let d = self.m.tys[*ty as usize] == Ty::F64;
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (x, y) = (self.to_f(&x, d), self.to_f(&y, d));
                let un = term::or(fcmp(3, x, x), fcmp(3, y, y));
                let r = match &**p {
                    "oeq" => fcmp(0, x, y), "olt" => fcmp(1, x, y), "ole" => fcmp(2, x, y), "ogt" => fcmp(1, y, x), "oge" => fcmp(2, y, x),
                    "one" => term::or(fcmp(1, x, y), fcmp(1, y, x)), "ord" => term::not(un), "uno" => un,
                    "ueq" => term::or(un, fcmp(0, x, y)), "ult" => term::or(un, fcmp(1, x, y)), "ule" => term::or(un, fcmp(2, x, y)),
                    "ugt" => term::or(un, fcmp(1, y, x)), "uge" => term::or(un, fcmp(2, y, x)), "une" => term::not(fcmp(0, x, y)),
                    "true" => TRUE, _ => FALSE,
                };
                next!(Self::from_b(r))
            }
            K::Fneg(ty, a) => {
                let d = self.m.tys[*ty as usize] == Ty::F64;
                let x = self.op(st, a);
                let x = self.to_f(&x, d);
                next!(Self::from_f(fun_t(0, x)))
            }
            K::Select(_, c, ty, a, b) => {
                let cv = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                if let Val::A(cs) = &cv {
                    let n = cs.len();
                    let e = match self.m.tys[*ty as usize] { Ty::Vec(_, e) => e, _ => 0 };
                    let (xs, ys) = (self.elems(&x, n), self.elems(&y, n));
                    let mut r = vec![];
                    for i in 0..n { let v = self.select(st, &cs[i].clone(), e, &xs[i], &ys[i])?; r.push(v) }
                    next!(Val::A(Rc::new(r)))
                }
                if self.fork_sel && self.m.tys[*ty as usize] != Ty::Int(1) {
                    if let Val::B(b) = cv {
                        let b = self.need(st, b)?;
                        next!(if b { x } else { y })
                    }
                }
                let v = self.select(st, &cv, *ty, &x, &y)?;
                next!(v)
            }
            K::Cast(c, ft, a, tt) => {
                let x = self.op(st, a);
                let v = self.cast(st, *c, *ft, *tt, &x)?;
                next!(v)
            }
            K::Gep(base, off, dynv) => {
                let b = self.op(st, base);
                if let Val::U = b { next!(Val::U) }
                let mut conc = match &b { Val::C(c) => Some(*c as u64), _ => None };
                let mut parts = vec![];
                for (o, w, s) in dynv {
                    let v = self.op(st, o);
                    if let Val::U = v { next!(Val::U) }
                    if let (Val::C(c), Some(x)) = (&v, conc) { conc = Some(x.wrapping_add((sext_c(*c, *w) as i64).wrapping_mul(*s) as u64)) } else {
                        parts.push((v, *w, *s));
                        // fall back to the general path
                        if conc.is_some() && parts.len() == 1 { /* keep */ }
                    }
                }
                if parts.is_empty() && conc.is_some() { next!(Val::C(conc.unwrap().wrapping_add(*off as u64) as u128)) }
                let mut p = match conc { Some(c) => cst(c as i64 as i128), None => self.to_p(&b, 64) };
                if conc.is_none() { for (o, w, s) in dynv { let v = self.op(st, o); if let Val::C(c) = v { p = term::add(p, cst(sext_c(c, *w).wrapping_mul(*s as i128))) } } }
                for (v, w, s) in parts {
                    if conc.is_none() { if let Val::C(_) = v { continue } }
                    let q = self.to_p(&v, w);
                    let q = if w < 64 { as_signed(q, w) } else { q };
                    p = term::add(p, mulc(q, s as i128));
                }
                p = term::add(p, cst(*off as i128));
                next!(Self::from_p(norm(p, 64), 64))
            }
            K::Load(ty, p) => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let v = self.load(st, *ty, a)?;
                next!(v)
            }
            K::Store(ty, v, p) => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let x = self.op(st, v);
                self.store(st, *ty, &x, a)?;
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
            K::Alloca(sz, al) => {
                let a = Self::alloc(st, *sz, *al, false, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                next!(Val::C(a as u128))
            }
            K::Br(l) => { self.jump(st, *l); Ok(()) }
            K::CondBr(c, a, b) => {
                let v = self.op(st, c);
                let t = match &v {
                    Val::C(x) => x & 1 == 1,
                    Val::U => return unsup("branch on undefined value".into()),
                    v => { let b = self.to_b(v); self.need(st, b)? }
                };
                self.jump(st, if t { *a } else { *b });
                Ok(())
            }
            K::Switch(ty, v, d, cs) => {
                let w = self.width(*ty);
                let x = self.op(st, v);
                match &x {
                    Val::C(c) => {
                        let mut t = *d;
                        for (k, l) in cs { if k == c { t = *l; break } }
                        self.jump(st, t);
                    }
                    Val::U => return unsup("switch on undefined value".into()),
                    x => {
                        let mut t = *d;
                        for (k, l) in cs {
                            let e = self.icmp(st, Pred::Eq, w, x, &Val::C(*k))?;
                            if self.need(st, e)? { t = *l; break }
                        }
                        self.jump(st, t);
                    }
                }
                Ok(())
            }
            K::Ret(_, o) => {
                let v = match o { Some(o) => self.op(st, o), None => Val::U };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.mem.remove(&a); }
                if st.frames.is_empty() { return Err(Stop::End(End::Done)) }
                self.set(st, fr.ret_dst, v);
                match fr.ret_bb { Some(l) => self.jump(st, l), None => st.frames.last_mut().unwrap().ip += 1 }
                Ok(())
            }
            K::Unreachable => viol("ub", "unreachable executed".into()),
            K::ExtractValue(_, a, ix) => {
                let mut v = self.op(st, a);
                for &i in ix { v = match v { Val::A(x) => x[i as usize].clone(), _ => Val::U } }
                next!(v)
            }
            K::InsertValue(ty, a, _, v, ix) => {
                let base = self.op(st, a);
                let x = self.op(st, v);
                let r = self.insert(*ty, base, &x, ix);
                next!(r)
            }
            K::ExtractElement(a, i) => {
                let v = self.op(st, a);
                let i = match self.op(st, i) { Val::C(c) => c as usize, _ => return unsup("extractelement".into()) };
                next!(match v { Val::A(x) => x[i].clone(), _ => Val::U })
            }
            K::InsertElement(a, v, i) => {
                let base = self.op(st, a);
                let x = self.op(st, v);
                let i = match self.op(st, i) { Val::C(c) => c as usize, _ => return unsup("insertelement".into()) };
                let mut b = match base { Val::A(b) => (*b).clone(), _ => vec![Val::U; 16] };
                if b.len() <= i { b.resize(i + 1, Val::U) }
                b[i] = x;
                next!(Val::A(Rc::new(b)))
            }
            K::Shuffle(a, b, mk) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let n = match (&x, &y) { (Val::A(v), _) => v.len(), (_, Val::A(v)) => v.len(), _ => mk.len() };
                let (xs, ys) = (self.elems(&x, n), self.elems(&y, n));
                let r = mk.iter().map(|&i| if i < 0 { Val::U } else if (i as usize) < n { xs[i as usize].clone() } else { ys[i as usize - n].clone() }).collect();
                next!(Val::A(Rc::new(r)))
            }
            K::AtomicRmw(o, p, ty, v) => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let old = self.load(st, *ty, a)?;
                let x = self.op(st, v);
                let w = self.width(*ty);
                let n = match &**o {
                    "xchg" => x,
                    "add" => self.bin(st, Bin::Add, w, &old, &x)?,
                    "sub" => self.bin(st, Bin::Sub, w, &old, &x)?,
                    "and" => self.bin(st, Bin::And, w, &old, &x)?,
                    "or" => self.bin(st, Bin::Or, w, &old, &x)?,
                    _ => return unsup(format!("atomicrmw {}", o)),
                };
                self.store(st, *ty, &n, a)?;
                next!(old)
            }
            K::CmpXchg(p, ty, c, n) => {
                let pv = self.op(st, p);
                let a = self.addr(st, &pv)?;
                let old = self.load(st, *ty, a)?;
                let (cv, nv) = (self.op(st, c), self.op(st, n));
                let w = self.width(*ty);
                let e = self.icmp(st, Pred::Eq, w, &old, &cv)?;
                let t = self.need(st, e)?;
                if t { self.store(st, *ty, &nv, a)?; }
                next!(Val::A(Rc::new(vec![old, Val::C(t as u128)])))
            }
            K::Fence | K::Nop => { st.frames.last_mut().unwrap().ip += 1; Ok(()) }
            K::Freeze(a) => {
                let v = self.op(st, a);
                next!(match v { Val::U => Val::C(0), v => v })
            }
            K::Unsupported(s) => unsup(format!("instruction {}", s)),
            K::Call(callee, rty, args, noret, normal) => {
                let name: Rc<str> = match callee {
                    Callee::Named(n) => n.clone(),
                    Callee::Ind(o) => {
                        let v = self.op(st, o);
                        let a = self.addr(st, &v)?;
                        match self.m.faddr.get(&a) { Some(n) => n.clone(), None => return viol("memory", format!("call through bad pointer {:#x}", a)) }
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args { let v = self.op(st, o); av.push(v) }
                let k = self.intr_kind(&name);
                if k != Intr::None {
                    let v = self.intrinsic(st, k, &name, *rty, args, &av)?;
                    self.set(st, ins.dst, v);
                    match normal { Some(l) => self.jump(st, *l), None => st.frames.last_mut().unwrap().ip += 1 }
                    return Ok(());
                }
                let nr = *noret || self.m.funcs.get(&*name).map_or(false, |f| f.noreturn) || self.m.declared_noreturn.contains(&*name);
                if nr { let msg = self.panic_msg(st, &name, &av); return viol("panic", msg) }
                match self.m.func(&name) {
                    Some(f) => {
                        self.note(&f);
                        if st.frames.len() > 400 { return unsup("call depth".into()) }
                        let mut regs = vec![Val::U; f.nregs as usize];
                        for (i, &r) in f.params.iter().enumerate() { if i < av.len() { regs[r as usize] = std::mem::replace(&mut av[i], Val::U) } }
                        st.frames.push(Frame { f, regs, bb: 0, ip: 0, allocas: vec![], ret_dst: ins.dst, ret_bb: *normal });
                        Ok(())
                    }
                    None => unsup(format!("external function {}", name)),
                }
            }
        }
    }

    fn elems(&mut self, v: &Val, n: usize) -> Vec<Val> { match v { Val::A(x) => (**x).clone(), Val::C(0) => vec![Val::C(0); n], _ => vec![Val::U; n] } }
    fn insert(&mut self, ty: TyId, base: Val, x: &Val, ix: &[u32]) -> Val {
        if ix.is_empty() { return x.clone() }
        let fs: Vec<TyId> = match self.m.tys[ty as usize].clone() { Ty::Struct(f, _) => f, Ty::Arr(n, e) => vec![e; n as usize], _ => vec![] };
        let mut v = match base { Val::A(v) => (*v).clone(), _ => vec![Val::U; fs.len()] };
        let i = ix[0] as usize;
        let b = std::mem::replace(&mut v[i], Val::U);
        v[i] = self.insert(fs[i], b, x, &ix[1..]);
        Val::A(Rc::new(v))
    }
    fn select(&mut self, st: &mut State, c: &Val, ty: TyId, x: &Val, y: &Val) -> R<Val> {
        let b = match c { Val::C(c) => return Ok(if c & 1 == 1 { x.clone() } else { y.clone() }), Val::U => return Ok(Val::U), v => self.to_b(v) };
        if let Some(v) = self.quick(st, b) { return Ok(if v { x.clone() } else { y.clone() }) }
        match (x, y) { (Val::U, v) | (v, Val::U) => return Ok(v.clone()), _ => {} }
        match self.m.tys[ty as usize].clone() {
            Ty::Int(1) => { let (p, q) = (self.to_b(x), self.to_b(y)); Ok(Self::from_b(iteb(b, p, q))) }
            Ty::Int(w) => {
                if matches!(x, Val::Y(_)) || matches!(y, Val::Y(_)) || w >= 126 { let t = self.need(st, b)?; return Ok(if t { x.clone() } else { y.clone() }) }
                let (p, q) = (self.to_p(x, w), self.to_p(y, w));
                Ok(Self::from_p(term::ite(b, p, q), w))
            }
            Ty::F64 | Ty::F32 => {
                let d = self.m.tys[ty as usize] == Ty::F64;
                let (p, q) = (self.to_f(x, d), self.to_f(y, d));
                Ok(Self::from_f(fite(b, p, q)))
            }
            _ => { let t = self.need(st, b)?; Ok(if t { x.clone() } else { y.clone() }) }
        }
    }
    fn cast(&mut self, st: &mut State, c: Cast, ft: TyId, tt: TyId, x: &Val) -> R<Val> {
        if let Val::U = x { return Ok(Val::U) }
        if let (Ty::Vec(n, fe), Ty::Vec(m, te)) = (self.m.tys[ft as usize].clone(), self.m.tys[tt as usize].clone()) {
            if c != Cast::Bitcast || n == m {
                let xs = self.elems(x, n as usize);
                let mut r = vec![];
                for v in xs { r.push(self.cast(st, c, fe, te, &v)?); }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        let (fw, tw) = (self.width(ft), self.width(tt));
        Ok(match c {
            Cast::Trunc => {
                match x {
                    Val::C(v) => Val::C(v & mask(tw)),
                    Val::Y(y) if tw % 8 == 0 => { let c = y[..(tw / 8) as usize].to_vec(); self.from_cells(&c, None) }
                    v => {
                        if tw == 1 { let b = self.to_b(v); return Ok(Self::from_b(b)) }
                        let p = self.to_p(v, fw);
                        let b = st.dbm.bounds_ro(p);
                        let (l, h) = (-pow2(tw - 1), pow2(tw - 1) - 1);
                        if tw == 32 && fw == 64 && (b.0 < l || b.1 > h) && has_quo(p) {
                            // is the value really cut on this path?
                            let ok = term::and(ge0(term::sub(p, cst(l))), ge0(term::sub(cst(h), p)));
                            let skip = match &st.model { Some(e) => !e.borrow_mut().ev.b(ok), None => false };
                            if !skip && self.quick(st, ok).is_none() {
                                if let Res::Unsat = self.ask(st, term::not(ok)) { Self::learnt(st, ok, true); }
                            }
                        }
                        Self::from_p(norm_st(st, p, tw), tw)
                    }
                }
            }
            Cast::ZExt => match x {
                Val::C(v) => Val::C(*v),
                Val::Y(y) => { let mut c = (**y).clone(); c.resize((tw / 8) as usize, 0); self.from_cells(&c, None) }
                Val::B(b) => Val::P(Self::bool_p(*b)),
                v => { let p = self.to_p(v, fw); Self::from_p(self.us(st, p, fw), tw) }
            },
            Cast::SExt => match x {
                Val::C(v) => Val::C((sext_c(*v, fw) as u128) & mask(tw)),
                Val::B(b) => Val::P(term::ite(*b, cst(-1), cst(0))),
                v => { let p = self.to_p(v, fw); Self::from_p(self.sg(st, p, fw), tw) }
            },
            Cast::PtrToInt | Cast::IntToPtr => x.clone(),
            Cast::Bitcast => {
                match (self.m.tys[ft as usize].clone(), self.m.tys[tt as usize].clone()) {
                    (Ty::Vec(n, fe), Ty::Int(_)) => {
                        let xs = self.elems(x, n as usize);
                        let ew = self.width(fe);
                        let mut conc = 0u128;
                        let mut p = cst(0);
                        let mut sym = false;
                        for (i, v) in xs.iter().enumerate() {
                            match v {
                                Val::C(c) => { conc |= (c & mask(ew)) << (i as u32 * ew); }
                                Val::U => {}
                                v => { sym = true; let q = self.to_p(v, ew); p = term::add(p, mulc(as_unsigned(q, ew), pow2(i as u32 * ew))) }
                            }
                        }
                        if sym { Self::from_p(term::add(p, cst(conc as i128)), tw) } else { Val::C(conc) }
                    }
                    (Ty::Int(_), Ty::Vec(n, te)) => {
                        let ew = self.width(te);
                        match x {
                            Val::C(c) => Val::A(Rc::new((0..n).map(|i| Val::C((c >> (i as u32 * ew)) & mask(ew))).collect())),
                            _ => return unsup("bitcast int to vector".into()),
                        }
                    }
                    (Ty::Vec(..), Ty::Vec(..)) => {
                        let a = Self::alloc(st, 64, 16, false, false);
                        self.store(st, ft, x, a)?;
                        let v = self.load(st, tt, a)?;
                        st.mem.remove(&a);
                        v
                    }
                    (Ty::Int(_), Ty::F64) | (Ty::Int(_), Ty::F32) => { let d = tw == 64; if let Val::C(c) = x { Val::C(*c) } else { let f = self.to_f(x, d); Self::from_f(f) } }
                    (Ty::F64, Ty::Int(_)) | (Ty::F32, Ty::Int(_)) => match x { Val::C(c) => Val::C(*c), v => { let p = self.to_p(v, tw); Self::from_p(p, tw) } },
                    _ => x.clone(),
                }
            }
            Cast::SiToFp | Cast::UiToFp => {
                let d = tw == 64;
                if let Val::B(b) = x { let f = fite(*b, fc(1.0, d), fc(0.0, d)); return Ok(Self::from_f(f)) }
                let p = self.to_p(x, fw);
                let p = if c == Cast::SiToFp { self.sg(st, p, fw) } else { self.us(st, p, fw) };
                if let Some(k) = as_const(p) { return Ok(Self::from_f(if d { fc(k as f64, true) } else { fc((k as f32) as f64, false) })) }
                // the value fits the integer type on this path, which the interval of its term need not show
                let (lo, hi) = if c == Cast::SiToFp { (-pow2(fw - 1), pow2(fw - 1) - 1) } else { (0, pow2(fw) - 1) };
                let v = term::iv(p);
                let p = if fw <= 32 && (v.0 < lo || v.1 > hi) {
                    term::clamp(p, lo, hi)
                } else { p };
                Self::from_f(from_int(p, d))
            }
            Cast::FpToSi | Cast::FpToUi => {
                let d = fw == 64;
                let f = self.to_f(x, d);
                let (lo, hi) = if c == Cast::FpToSi { (-pow2(tw - 1), pow2(tw - 1) - 1) } else { (0, pow2(tw) - 1) };
                Self::from_p(ftoi(f, lo, hi), tw)
            }
            Cast::FpExt | Cast::FpTrunc => {
                let f = self.to_f(x, fw == 64);
                if let Some(v) = fconst(f) { return Ok(Self::from_f(fc(v, tw == 64))) }
                Self::from_f(fconv(f, tw == 64))
            }
        })
    }

    fn panic_msg(&mut self, st: &State, name: &str, av: &[Val]) -> String {
        let mut msg = String::new();
        for v in av {
            if let Val::C(a) = v {
                let a = *a as u64;
                if let Some((&b, &gi)) = self.gindex.range(..=a).next_back() {
                    if b == a && self.m.globals[gi].size == 24 && self.m.globals[gi].constant {
                        if let Ok(c) = self.read_cells(st, a, 24) {
                            let rd = |o: usize, n: usize| (0..n).map(|i| (c[o + i] & 0xff) << (8 * i)).sum::<u64>();
                            let (p, l, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
                            if l < 400 {
                                if let Ok(s) = self.read_cells(st, p, l) { msg = format!("{}:{}", s.iter().map(|x| *x as u8 as char).collect::<String>(), line); }
                            }
                        }
                    }
                }
            }
        }
        format!("{} at {}", short_name(name), msg)
    }

    fn intr_kind(&mut self, name: &Rc<str>) -> Intr {
        if let Some(&k) = self.icache.get(name) { return k }
        let k = if name.starts_with("llvm.") { Intr::Llvm }
            else if name.starts_with("sym_") { Intr::Sym }
            else if name.ends_with("___rust_alloc") { Intr::Alloc }
            else if name.ends_with("___rust_alloc_zeroed") { Intr::AllocZ }
            else if name.ends_with("___rust_dealloc") { Intr::Dealloc }
            else if name.ends_with("___rust_realloc") { Intr::Realloc }
            else if name.contains("___rust_no_alloc_shim_is_unstable") { Intr::Nop }
            else if name.contains("hashmap_random_keys") { Intr::RandKeys }
            else if name.contains("8hash_one") { Intr::HashOne }
            else if matches!(&**name, "memcpy" | "memmove" | "memset" | "bcmp" | "memcmp") { Intr::Mem }
            else if matches!(&**name, "sin" | "cos" | "acos" | "log2" | "tan" | "sinf" | "cosf" | "acosf" | "log2f" | "tanf" | "round" | "floor" | "ceil" | "trunc" | "fmod" | "pow" | "powf" | "roundf" | "floorf" | "ceilf" | "truncf" | "rint" | "exp2" | "hypot" | "atan2" | "sincos" | "asin" | "atan") { Intr::Math }
            else if name.starts_with("_RNv") && name.contains("3fmt") && (name.contains("5write") && name.contains("4core3fmt")) { Intr::Fmt }
            else { Intr::None };
        self.icache.insert(name.clone(), k);
        k
    }

    fn clen(&mut self, st: &mut State, v: &Val) -> R<u64> { match v { Val::C(c) => Ok(*c as u64), v => { let p = self.to_p(v, 64); let p = as_unsigned(p, 64); Ok(self.concretize(st, p)? as u64) } } }

    fn intrinsic(&mut self, st: &mut State, k: Intr, name: &Rc<str>, rty: TyId, args: &[(TyId, Op)], a: &[Val]) -> R<Val> {
        match k {
            Intr::Nop | Intr::None | Intr::Fmt => Ok(Val::C(0)),
            Intr::Alloc | Intr::AllocZ => {
                let n = self.clen(st, &a[0])?;
                let al = self.clen(st, &a[1])?;
                if n > (1 << 28) { return unsup(format!("allocation of {} bytes", n)) }
                Ok(Val::C(Self::alloc(st, n, al, true, k == Intr::AllocZ) as u128))
            }
            Intr::Dealloc => {
                let p = self.addr(st, &a[0])?;
                match st.mem.get(&p) { Some(o) if o.heap => { st.mem.remove(&p); Ok(Val::U) } _ => viol("memory", "invalid free".into()) }
            }
            Intr::Realloc => {
                let p = self.addr(st, &a[0])?;
                let old = self.clen(st, &a[1])?;
                let al = self.clen(st, &a[2])?;
                let n = self.clen(st, &a[3])?;
                if n > (1 << 28) { return unsup(format!("allocation of {} bytes", n)) }
                let c = self.read_cells(st, p, old.min(n))?;
                let q = Self::alloc(st, n, al, true, false);
                self.write_cells(st, q, &c)?;
                match st.mem.get(&p) { Some(o) if o.heap => { st.mem.remove(&p); } _ => return viol("memory", "invalid realloc".into()) }
                Ok(Val::C(q as u128))
            }
            Intr::RandKeys => Ok(Val::A(Rc::new(vec![Val::C(0), Val::C(0)]))),
            Intr::HashOne => Ok(Val::C(0)),
            Intr::Mem => match &**name {
                "memset" => { let n = self.clen(st, &a[2])?; let p = self.addr(st, &a[0])?; let b = self.byte(&a[1]); self.write_cells(st, p, &vec![b; n as usize])?; Ok(a[0].clone()) }
                "memcpy" | "memmove" => { let n = self.clen(st, &a[2])?; let (d, s) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?); let c = self.read_cells(st, s, n)?; self.write_cells(st, d, &c)?; Ok(a[0].clone()) }
                "bcmp" => {
                    let n = self.clen(st, &a[2])?;
                    if n == 0 { return Ok(Val::C(0)) }
                    let (x, y) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                    let (cx, cy) = (self.read_cells(st, x, n)?, self.read_cells(st, y, n)?);
                    let e = self.cells_eq(st, &cx, &cy);
                    Ok(Self::from_p(term::ite(e, cst(0), cst(1)), 32))
                }
                _ => {
                    let n = self.clen(st, &a[2])?;
                    let (x, y) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                    let (cx, cy) = (self.read_cells(st, x, n)?, self.read_cells(st, y, n)?);
                    for i in 0..n as usize {
                        if (cx[i] | cy[i]) & TAG_M != 0 { return unsup("memcmp on symbolic bytes".into()) }
                        if cx[i] != cy[i] { return Ok(Val::C(if cx[i] < cy[i] { 0xffff_ffff } else { 1 })) }
                    }
                    Ok(Val::C(0))
                }
            },
            Intr::Math => {
                let d = self.m.tys[rty as usize] == Ty::F64;
                let x = self.to_f(&a[0], d);
                let base = if !d { &name[..name.len() - 1] } else { &name[..] };
                match base {
                    "round" => return Ok(Self::from_f(fun_t(6, x))),
                    "floor" => return Ok(Self::from_f(fun_t(3, x))),
                    "ceil" => return Ok(Self::from_f(fun_t(4, x))),
                    "trunc" => return Ok(Self::from_f(fun_t(5, x))),
                    "rint" => return Ok(Self::from_f(fun_t(7, x))),
                    _ => {}
                }
                let uf = match base { "sin" => 0u8, "cos" => 1, "acos" => 2, "log2" => 3, "tan" => 4, _ => 255 };
                if let Some(v) = fconst(x) {
                    if uf != 255 { return Ok(Self::from_f(fc(ufeval(uf, v, d), d))) }
                    let y = if a.len() > 1 { let f = self.to_f(&a[1], d); fconst(f) } else { Some(0.0) };
                    if let Some(y) = y {
                        let r = match base { "fmod" => v % y, "pow" => v.powf(y), "hypot" => v.hypot(y), "atan2" => v.atan2(y), "asin" => v.asin(), "atan" => v.atan(), "exp2" => v.exp2(), _ => return unsup(format!("math {}", name)) };
                        return Ok(Self::from_f(fc(r, d)));
                    }
                }
                if uf != 255 { st.tainted = true; return Ok(Self::from_f(mkf(FN::Uf(uf, x)))) }
                unsup(format!("math {}", name))
            }
            Intr::Sym => self.sym(st, name, a),
            Intr::Llvm => self.llvm(st, name, rty, args, a),
        }
    }
    fn byte(&mut self, v: &Val) -> u64 { self.cells_of(v, 1)[0] }

    fn sym(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Val> {
        let cid = |v: &Val| -> u32 { if let Val::C(c) = v { *c as u32 } else { panic!("symbolic id") } };
        match name {
            "sym_i32" | "sym_i64" => {
                let w = if name == "sym_i32" { 32 } else { 64 };
                let id = cid(&a[0]);
                let (lo, hi) = match (&a[1], &a[2]) { (Val::C(l), Val::C(h)) => (sext_c(*l, w), sext_c(*h, w)), _ => return unsup("symbolic bounds".into()) };
                if let Some(m) = &self.conc { let v = m.get(&id).cloned().unwrap_or(lo); return Ok(Val::C((v as u128) & mask(w))) }
                let n0 = tm().vars.len();
                let p = var(id, lo, hi);
                if tm().vars.len() != n0 { if let Some(e) = &st.model { let m = (*e.borrow().m).clone(); st.model = Some(EvO::new(m)); } }
                Ok(Self::from_p(p, w))
            }
            "sym_f64" | "sym_f32" => {
                let id = cid(&a[0]);
                let d = name == "sym_f64";
                if self.conc.is_some() { return Ok(Val::C(self.concf.get(&id).cloned().unwrap_or(0) as u128)) }
                let t = tm();
                let ix = if let Some(&i) = t.fvar_ix.get(&id) { i } else { let i = t.fvars.len() as u32; t.fvars.push((id, d)); t.fvar_ix.insert(id, i); i };
                Ok(Val::F(mkf(FN::Var(ix, d))))
            }
            "sym_assume" => {
                let b = self.to_b(&a[0]);
                if let Some(v) = Self::known(&st.lits, b) { return if v { Ok(Val::U) } else { Err(Stop::End(End::Assume)) } }
                let ok = match &st.model { Some(e) => e.borrow_mut().ev.b(b), None => false };
                if !ok {
                    match self.ask(st, b) {
                        Res::Unsat => return Err(Stop::End(End::Assume)),
                        Res::Sat(m) => st.model = Some(EvO::new(m)),
                        Res::Unknown => st.model = None,
                    }
                }
                Self::assume(st, b);
                Ok(Val::U)
            }
            "sym_assert" => {
                let b = self.to_b(&a[0]);
                let id = cid(&a[1]);
                match Self::known(&st.lits, b) {
                    Some(true) => { self.rep.asserts_trivial += 1; return Ok(Val::U) }
                    Some(false) => return viol("assert", format!("assertion {}", id)),
                    None => {}
                }
                self.rep.assert_queries += 1;
                if let Some(e) = &st.model {
                    let v = e.borrow_mut().ev.b(b);
                    if !v && !st.tainted { Self::assume(st, term::not(b)); return viol("assert", format!("assertion {}", id)) }
                }
                match self.ask(st, term::not(b)) {
                    Res::Unsat => { Self::learn(Rc::make_mut(&mut st.lits), b, true); Ok(Val::U) }
                    Res::Sat(m) => { st.model = Some(EvO::new(m)); Self::assume(st, term::not(b)); viol("assert", format!("assertion {}", id)) }
                    Res::Unknown => {
                        if self.rep.inconclusive.len() < 50 { self.rep.inconclusive.push(format!("assertion {}: solver gave no answer", id)); }
                        Self::assume(st, b);
                        st.model = None;
                        Ok(Val::U)
                    }
                }
            }
            "sym_cover" => { let id = cid(&a[0]); Rc::make_mut(&mut st.covers).insert(id); Ok(Val::U) }
            "sym_out" => { let id = cid(&a[0]); let v = match &a[1] { Val::C(c) => Val::C(*c), v => { let p = self.to_p(v, 64); Self::from_p(p, 64) } }; st.outs.push((id, v)); Ok(Val::U) }
            "sym_pick" => {
                // branch on the exact value of a small symbolic integer
                let p = self.to_p(&a[0], 64);
                let v = self.concretize(st, as_signed(p, 64))?;
                Ok(Val::C((v as u128) & mask(64)))
            }
            "sym_known" => Ok(Val::C(1)),
            _ => unsup(format!("unknown {}", name)),
        }
    }

    fn llvm(&mut self, st: &mut State, name: &str, rty: TyId, args: &[(TyId, Op)], a: &[Val]) -> R<Val> {
        let base = &name[5..];
        let parts: Vec<&str> = base.split('.').collect();
        let w = self.width(rty);
        let wa = if args.is_empty() { 0 } else { self.width(args[0].0) };
        match parts[0] {
            "lifetime" | "experimental" | "assume" | "invariant" | "donothing" | "sideeffect" | "dbg" | "prefetch" | "x86" => Ok(Val::U),
            "expect" => Ok(a[0].clone()),
            "is" if parts.get(1) == Some(&"constant") => Ok(Val::C(0)),
            "is" if parts.get(1) == Some(&"fpclass") => {
                let d = wa == 64;
                let f = self.to_f(&a[0], d);
                let m = match &a[1] { Val::C(c) => *c as u32, _ => return unsup("is.fpclass".into()) };
                let isnan = fcmp(3, f, f);
                let absf = fun_t(1, f);
                let inf = fc(f64::INFINITY, d);
                let isinf = fcmp(0, absf, inf);
                let fin = term::not(term::or(isnan, isinf));
                let r = match m {
                    3 => isnan,
                    0x204 => isinf,
                    0x1f8 => fin,
                    0x207 => term::not(fin),
                    0x3fc => term::not(isnan),
                    0xc0 | 0x60 | 0x1fb | _ => return unsup(format!("is.fpclass {:#x}", m)),
                };
                Ok(Self::from_b(r))
            }
            "threadlocal" => Ok(a[0].clone()),
            "memcpy" | "memmove" => {
                let n = self.clen(st, &a[2])?;
                if n == 0 { return Ok(Val::U) }
                let (d, s) = (self.addr(st, &a[0])?, self.addr(st, &a[1])?);
                let c = self.read_cells(st, s, n)?;
                self.write_cells(st, d, &c)?;
                Ok(Val::U)
            }
            "memset" => {
                let n = self.clen(st, &a[2])?;
                if n == 0 { return Ok(Val::U) }
                let p = self.addr(st, &a[0])?;
                let b = self.byte(&a[1]);
                self.write_cells(st, p, &vec![b; n as usize])?;
                Ok(Val::U)
            }
            "trap" | "ubsantrap" | "debugtrap" => viol("panic", "trap (abort)".into()),
            "sadd" | "ssub" | "smul" | "uadd" | "usub" | "umul" => {
                let sat = parts[1] == "sat";
                if matches!(a[0], Val::U) || matches!(a[1], Val::U) { return Ok(if sat { Val::U } else { Val::A(Rc::new(vec![Val::U, Val::U])) }) }
                let signed = parts[0].starts_with('s');
                let (x, y) = (self.to_p(&a[0], wa), self.to_p(&a[1], wa));
                if wa >= 126 { return unsup("128-bit overflow check".into()) }
                let (x, y) = if signed { (self.sg(st, x, wa), self.sg(st, y, wa)) } else { (self.us(st, x, wa), self.us(st, y, wa)) };
                let r = match &parts[0][1..] { "add" => Self::sum_fact(st, x, y, 1), "sub" => Self::sum_fact(st, x, y, -1), _ => Self::mul_fact(st, x, y) };
                let (lo, hi) = if signed { (-pow2(wa - 1), pow2(wa - 1) - 1) } else { (0, pow2(wa) - 1) };
                let ov = term::or(term::not(ge0(term::sub(r, cst(lo)))), term::not(ge0(term::sub(cst(hi), r))));
                if sat {
                    let u = term::ite(term::not(ge0(term::sub(cst(hi), r))), cst(hi), term::ite(term::not(ge0(term::sub(r, cst(lo)))), cst(lo), r));
                    return Ok(Self::from_p(u, wa));
                }
                Ok(Val::A(Rc::new(vec![Self::from_p(norm_st(st, r, wa), wa), Self::from_b(ov)])))
            }
            "umin" | "umax" | "smin" | "smax" => {
                if let Ty::Vec(..) = self.m.tys[rty as usize] { return unsup("vector min/max".into()) }
                let p = match parts[0] { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                if matches!(a[0], Val::U) || matches!(a[1], Val::U) { return Ok(Val::U) }
                let c = self.icmp(st, p, w, &a[0], &a[1])?;
                if c == TRUE { return Ok(a[0].clone()) }
                if c == FALSE { return Ok(a[1].clone()) }
                if self.fork_sel { return Ok(if self.need(st, c)? { a[0].clone() } else { a[1].clone() }) }
                self.select(st, &Val::B(c), rty, &a[0], &a[1])
            }
            "abs" => {
                let x = self.to_p(&a[0], w);
                let x = self.sg(st, x, w);
                let c = self.dec(st, ge0(x));
                Ok(Self::from_p(term::ite(c, x, term::neg(x)), w))
            }
            "scmp" | "ucmp" => {
                let (lt, gt) = if parts[0] == "scmp" { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                if matches!(a[0], Val::U) || matches!(a[1], Val::U) { return Ok(Val::U) }
                let l = self.icmp(st, lt, wa, &a[0], &a[1])?;
                let g = self.icmp(st, gt, wa, &a[0], &a[1])?;
                let (l, g) = (self.dec(st, l), self.dec(st, g));
                let p = term::ite(l, cst(-1), term::ite(g, cst(1), cst(0)));
                Ok(Self::from_p(p, w))
            }
            "ctlz" | "cttz" | "ctpop" => {
                if let Val::C(c) = a[0] {
                    let r = match parts[0] {
                        "ctlz" => if c == 0 { w } else { c.leading_zeros() - (128 - w) },
                        "cttz" => if c == 0 { w } else { c.trailing_zeros() },
                        _ => c.count_ones(),
                    };
                    return Ok(Val::C(r as u128));
                }
                if matches!(a[0], Val::U) { return Ok(Val::U) }
                let x = self.to_p(&a[0], w);
                let u = self.us(st, x, w);
                if parts[0] == "ctlz" {
                    let mut r = cst(0);
                    for k in 0..w { let b = self.dec(st, ge0(term::sub(cst(pow2(k) - 1), u))); r = term::add(r, Self::bool_p(b)) }
                    return Ok(Self::from_p(r, w));
                }
                let v = iv(u);
                if v.1 - v.0 > 65536 { return unsup(format!("{} on wide symbolic", parts[0])) }
                let c = self.concretize(st, u)? as u128;
                let r = if parts[0] == "cttz" { if c == 0 { w } else { c.trailing_zeros() } } else { c.count_ones() };
                Ok(Val::C(r as u128))
            }
            "bswap" | "bitreverse" => {
                if let Val::C(c) = a[0] {
                    let r = if parts[0] == "bswap" { c.swap_bytes() >> (128 - w) } else { c.reverse_bits() >> (128 - w) };
                    return Ok(Val::C(r));
                }
                let n = if parts[0] == "bswap" { 8 } else { 1 };
                if w > 64 { return unsup(parts[0].into()) }
                let p = self.to_p(&a[0], w);
                let u = self.us(st, p, w);
                let mut r = cst(0);
                for k in 0..w / n { r = term::add(r, mulc(fmod(fdiv(u, pow2(k * n)), pow2(n)), pow2(w - n - k * n))); }
                Ok(Self::from_p(norm(r, w), w))
            }
            "fshl" | "fshr" => {
                let s = match &a[2] { Val::C(c) => (*c % w as u128) as u32, v => { let p = self.to_p(v, w); let p = fmod(p, w as i128); self.concretize(st, p)? as u32 } };
                let s = if parts[0] == "fshr" { if s == 0 { return Ok(a[1].clone()) } w - s } else { if s == 0 { return Ok(a[0].clone()) } s };
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) { return Ok(Val::C(((x << s) | (y >> (w - s))) & mask(w))) }
                let (x, y) = (self.to_p(&a[0], w), self.to_p(&a[1], w));
                let r = term::add(mulc(x, pow2(s)), fdiv(self.us(st, y, w), pow2(w - s)));
                Ok(Self::from_p(norm(r, w), w))
            }
            "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
                let d = w == 64;
                let x = self.to_f(&a[0], d);
                let o = match parts[0] { "fabs" => 1, "sqrt" => 2, "floor" => 3, "ceil" => 4, "trunc" => 5, "round" => 6, _ => 7 };
                Ok(Self::from_f(fun_t(o, x)))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let d = w == 64;
                let (x, y) = (self.to_f(&a[0], d), self.to_f(&a[1], d));
                Ok(Self::from_f(fminmax(if parts[0].starts_with("min") { 0 } else { 1 }, x, y)))
            }
            "copysign" => {
                let d = w == 64;
                let (x, y) = (self.to_f(&a[0], d), self.to_f(&a[1], d));
                if let (Some(p), Some(q)) = (fconst(x), fconst(y)) { return Ok(Self::from_f(fc(p.copysign(q), d))) }
                Ok(Self::from_f(mkf(FN::CopySign(x, y))))
            }
            "fptosi" | "fptoui" => {
                let d = wa == 64;
                let f = self.to_f(&a[0], d);
                let (lo, hi) = if parts[0] == "fptosi" { (-pow2(w - 1), pow2(w - 1) - 1) } else { (0, pow2(w) - 1) };
                Ok(Self::from_p(ftoi(f, lo, hi), w))
            }
            "fmuladd" | "fma" => {
                let d = w == 64;
                let (x, y, z) = (self.to_f(&a[0], d), self.to_f(&a[1], d), self.to_f(&a[2], d));
                if parts[0] == "fmuladd" { return Ok(Self::from_f(fbin_t(0, fbin_t(2, x, y), z))) }
                if let (Some(p), Some(q), Some(r)) = (fconst(x), fconst(y), fconst(z)) { return Ok(Self::from_f(fc(if d { p.mul_add(q, r) } else { (p as f32).mul_add(q as f32, r as f32) as f64 }, d))) }
                unsup("fma".into())
            }
            "sin" | "cos" | "log2" | "acos" | "tan" | "pow" | "powi" | "exp2" | "log" | "exp" => {
                let d = w == 64;
                let x = self.to_f(&a[0], d);
                let uf = match parts[0] { "sin" => 0u8, "cos" => 1, "acos" => 2, "log2" => 3, "tan" => 4, _ => 255 };
                if let Some(v) = fconst(x) {
                    if uf != 255 { return Ok(Self::from_f(fc(ufeval(uf, v, d), d))) }
                    if parts[0] == "powi" { if let Val::C(n) = a[1] { return Ok(Self::from_f(fc(v.powi(n as u32 as i32), d))) } }
                    if parts[0] == "exp2" { return Ok(Self::from_f(fc(v.exp2(), d))) }
                }
                if uf != 255 { st.tainted = true; return Ok(Self::from_f(mkf(FN::Uf(uf, x)))) }
                unsup(format!("llvm.{}", base))
            }
            "vector" if parts.get(1) == Some(&"reduce") => {
                let n = match &a[0] { Val::A(v) => v.len(), _ => return Ok(Val::U) };
                let e = match self.m.tys[args[0].0 as usize] { Ty::Vec(_, e) => e, _ => 0 };
                let xs = self.elems(&a[0], n);
                let ew = self.width(e);
                let mut r = xs[0].clone();
                let o = match parts[2] { "or" => Bin::Or, "and" => Bin::And, "add" => Bin::Add, "xor" => Bin::Xor, x => return unsup(format!("reduce {}", x)) };
                for i in 1..n { r = self.bin(st, o, ew, &r, &xs[i])?; }
                Ok(r)
            }
            "ptrmask" => { let v = self.bin(st, Bin::And, 64, &a[0], &a[1])?; Ok(v) }
            "objectsize" => Ok(Val::C(mask(w))),
            _ => unsup(format!("intrinsic {}", name)),
        }
    }
}

fn as_i64(v: i128) -> i128 { v as i64 as i128 }
fn reduce_u(p: P, w: usize) -> P { fmod(p, pow2(w as u32)) }
fn leafy(p: P) -> bool { as_const(p).is_some() || ite_parts(p).map_or(false, |(_, a, b)| leafy(a) && leafy(b)) }
fn ite_small(p: P) -> bool { fn sz(p: P) -> usize { match ite_parts(p) { Some((_, a, b)) => sz(a) + sz(b), None => if as_const(p).is_some() { 1 } else { 1000 } } } sz(p) <= 16 }

pub fn short_name(n: &str) -> String {
    // last readable component of a v0-mangled name
    let b = n.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1 }
            if let Ok(k) = n[i..j].parse::<usize>() {
                let mut s = j;
                if s < b.len() && b[s] == b'_' { s += 1 }
                if k > 1 && s + k <= b.len() && n[s..s + k].chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && n[s..s + 1].chars().all(|c| c.is_ascii_alphabetic() || c == '_') {
                    parts.push(n[s..s + k].to_string());
                    i = s + k;
                    continue;
                }
            }
            i = j;
        } else { i += 1 }
    }
    if parts.is_empty() { n.to_string() } else { let k = parts.len(); parts[k.saturating_sub(3)..].join("::") }
}
