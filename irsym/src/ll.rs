//! Parser for textual LLVM IR (the subset rustc emits). Function bodies are parsed lazily.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u128),
    Undef,
    Agg(Rc<Vec<Op>>),
    Zero(TyId),
    Meta,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, OrDisjoint, Xor, FAdd, FSub, FMul, FDiv, FRem }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Named(Rc<str>), Ind(Op) }

#[derive(Clone, Debug)]
pub enum K {
    Bin(Bin, TyId, Op, Op),
    Icmp(Pred, TyId, Op, Op),
    Fcmp(Rc<str>, TyId, Op, Op),
    Fneg(TyId, Op),
    Select(TyId, Op, TyId, Op, Op),
    Cast(Cast, TyId, Op, TyId),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Load(TyId, Op),
    Store(TyId, Op, Op),
    Alloca(u64, u64),
    Call(Callee, TyId, Vec<(TyId, Op)>, bool, Option<u32>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(TyId, Op, u32, Vec<(u128, u32)>),
    Ret(TyId, Option<Op>),
    Unreachable,
    ExtractValue(TyId, Op, Vec<u32>),
    InsertValue(TyId, Op, TyId, Op, Vec<u32>),
    ExtractElement(Op, Op),
    InsertElement(Op, Op, Op),
    Shuffle(Op, Op, Vec<i64>),
    AtomicRmw(Rc<str>, Op, TyId, Op),
    CmpXchg(Op, TyId, Op, Op),
    Fence,
    Freeze(Op),
    Nop,
    Unsupported(Rc<str>),
}

pub struct Inst { pub dst: u32, pub k: K }

pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Op)> }

pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncSrc { pub header: String, pub lines: Vec<String>, pub noreturn: bool }

pub struct GlobalVar { pub name: String, pub size: u64, pub align: u64, pub addr: u64, pub ty: TyId, pub init: Option<String>, pub constant: bool }

pub struct Module {
    pub tys: Vec<Ty>,
    ty_ix: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: HashMap<Rc<str>, FuncSrc>,
    pub noreturn_groups: std::collections::HashSet<String>,
    pub globals: Vec<GlobalVar>,
    pub gaddr: HashMap<String, u64>,
    pub faddr: HashMap<u64, Rc<str>>,
    pub parsed: HashMap<Rc<str>, Rc<Func>>,
    pub declared_noreturn: std::collections::HashSet<String>,
}

pub struct Tok<'a> { s: &'a [u8], i: usize }

impl<'a> Tok<'a> {
    fn new(s: &'a str) -> Self { Tok { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1 }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("ll: expected '{}' at ...{}", c as char, self.rest()) }
    }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + 120).min(self.s.len())]).into_owned() }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.' || self.s[j] == b'-' || self.s[j] == b'#' || self.s[j]==b'+') { j += 1 }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn word(&mut self) -> &'a str { let w = self.word_at(); self.i += w.len(); w }
    fn try_word(&mut self, w: &str) -> bool { if self.word_at() == w { self.i += w.len(); true } else { false } }
    fn skip_paren(&mut self) {
        if self.peek() != b'(' { return }
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// identifier after % or @ (sigil not included)
    fn ident(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' { self.i += 1 } else { break }
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
}

struct FnCtx { regs: HashMap<String, u32>, labels: HashMap<String, u32> }
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
}

impl Module {
    pub fn load(text: &str) -> Module {
        let mut m = Module {
            tys: vec![], ty_ix: HashMap::new(), named: HashMap::new(), funcs: HashMap::new(),
            noreturn_groups: Default::default(), globals: vec![], gaddr: HashMap::new(), faddr: HashMap::new(),
            parsed: HashMap::new(), declared_noreturn: Default::default(),
        };
        let mut lines = text.lines().peekable();
        let mut glines: Vec<&str> = vec![];
        let mut fsrcs: Vec<(String, Vec<&str>)> = vec![];
        let mut decls: Vec<&str> = vec![];
        while let Some(l) = lines.next() {
            if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    let name = l[1..p].trim_matches('"').to_string();
                    let rest = &l[p + 8..];
                    let mut t = Tok::new(rest);
                    let ty = if rest.starts_with("opaque") { m.mk(Ty::Other) } else { m.ty(&mut t) };
                    m.named.insert(name, ty);
                }
            } else if l.starts_with('@') {
                glines.push(l);
            } else if l.starts_with("define") {
                let mut body = vec![];
                for b in lines.by_ref() {
                    if b == "}" { break }
                    body.push(b);
                }
                fsrcs.push((l.to_string(), body));
            } else if l.starts_with("declare") {
                decls.push(l);
            } else if l.starts_with("attributes #") {
                let id = l["attributes ".len()..].split(' ').next().unwrap();
                let open = l.find('{').unwrap();
                if l[open..].split(' ').any(|w| w == "noreturn") { m.noreturn_groups.insert(id.to_string()); }
            }
        }
        let hdr_name = |h: &str| -> String {
            let p = h.find('@').unwrap();
            let mut t = Tok { s: h.as_bytes(), i: p + 1 };
            t.ident()
        };
        let is_noret = |m: &Module, h: &str| h.split(|c| c == ' ').any(|w| w == "noreturn" || (w.starts_with('#') && m.noreturn_groups.contains(w)));
        let mut addr: u64 = 0x10000;
        for (h, b) in fsrcs {
            let n: Rc<str> = hdr_name(&h).into();
            m.gaddr.insert(n.to_string(), addr);
            m.faddr.insert(addr, n.clone());
            addr += 16;
            let nr = is_noret(&m, &h);
            m.funcs.insert(n, FuncSrc { header: h, lines: b.iter().map(|s| s.to_string()).collect(), noreturn: nr });
        }
        for d in decls {
            let n: Rc<str> = hdr_name(d).into();
            if is_noret(&m, d) { m.declared_noreturn.insert(n.to_string()); }
            m.gaddr.insert(n.to_string(), addr);
            m.faddr.insert(addr, n);
            addr += 16;
        }
        let mut gaddr = 0x1000000u64;
        for l in glines {
            let mut t = Tok::new(l);
            t.i = 1;
            let name = t.ident();
            t.expect(b'=');
            // linkage words until global/constant/alias
            let mut kind = "";
            let mut external = false;
            loop {
                let w = t.word();
                if w == "thread_local" || w == "addrspace" || w == "unnamed_addr" || w == "local_unnamed_addr" {
                    t.skip_paren();
                    continue;
                }
                if w == "external" || w == "extern_weak" { external = true }
                if w == "global" || w == "constant" || w == "alias" || w == "ifunc" { kind = w; break }
                if w.is_empty() { break }
            }
            if kind == "alias" {
                let _ = m.ty(&mut t);
                t.eat(b',');
                let _ = m.ty(&mut t);
                if t.eat(b'@') {
                    let tgt = t.ident();
                    if let Some(&a) = m.gaddr.get(&tgt) { m.gaddr.insert(name.clone(), a); }
                }
                continue;
            }
            if kind.is_empty() || kind == "ifunc" { continue }
            let ty = m.ty(&mut t);
            let size = m.size(ty);
            let init = if external { None } else { Some(String::from_utf8_lossy(&t.s[t.i..]).into_owned()) };
            gaddr = (gaddr + 63) / 64 * 64;
            m.gaddr.insert(name.clone(), gaddr);
            m.globals.push(GlobalVar { name, size, align: 16, addr: gaddr, ty, init, constant: kind == "constant" });
            gaddr += size.max(1) + 64;
        }
        m
    }

    /// evaluate a global initializer into bytes
    pub fn global_bytes(&mut self, gi: usize) -> Vec<u8> {
        let size = self.globals[gi].size as usize;
        let ty = self.globals[gi].ty;
        let mut out = vec![0u8; size];
        if let Some(init) = self.globals[gi].init.clone() {
            let mut t = Tok::new(&init);
            self.init_into(&mut t, ty, &mut out, 0);
        }
        out
    }

    fn init_into(&mut self, t: &mut Tok, ty: TyId, out: &mut [u8], off: usize) {
        let c = t.peek();
        if c == b'c' && t.s[t.i + 1] == b'"' {
            t.i += 2;
            let mut o = off;
            while t.s[t.i] != b'"' {
                if t.s[t.i] == b'\\' && t.s[t.i + 1] == b'\\' {
                    out[o] = b'\\';
                    t.i += 2;
                } else if t.s[t.i] == b'\\' {
                    let h = std::str::from_utf8(&t.s[t.i + 1..t.i + 3]).unwrap();
                    out[o] = u8::from_str_radix(h, 16).unwrap();
                    t.i += 3;
                } else { out[o] = t.s[t.i]; t.i += 1 }
                o += 1;
            }
            t.i += 1;
            return;
        }
        match self.tys[ty as usize].clone() {
            Ty::Struct(fs, packed) => {
                if t.try_word("zeroinitializer") || t.try_word("undef") || t.try_word("poison") { return }
                if packed { t.expect(b'<'); }
                t.expect(b'{');
                let mut k = 0;
                while !t.eat(b'}') {
                    let fty = self.ty(t);
                    let fo = self.field_off(&fs, packed, k) as usize;
                    self.init_into(t, fty, out, off + fo);
                    t.eat(b',');
                    k += 1;
                }
                if packed { t.expect(b'>'); }
            }
            Ty::Arr(..) | Ty::Vec(..) => {
                if t.try_word("zeroinitializer") || t.try_word("undef") || t.try_word("poison") { return }
                let close = if t.eat(b'[') { b']' } else { t.expect(b'<'); b'>' };
                let mut k = 0;
                while !t.eat(close) {
                    let ety = self.ty(t);
                    let es = self.size(ety) as usize;
                    self.init_into(t, ety, out, off + es * k);
                    t.eat(b',');
                    k += 1;
                }
            }
            _ => {
                let mut ctx = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
                let v = self.operand(t, ty, &mut ctx);
                let n = self.size(ty) as usize;
                if let Op::C(x) = v {
                    for i in 0..n { out[off + i] = (x >> (8 * i)) as u8 }
                }
            }
        }
    }

    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.ty_ix.get(&t) { return i }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.ty_ix.insert(t, i);
        i
    }

    fn ty(&mut self, t: &mut Tok) -> TyId {
        let c = t.peek();
        let mut r = match c {
            b'[' => {
                t.i += 1;
                let n: u64 = t.word().parse().unwrap();
                assert!(t.try_word("x"));
                let e = self.ty(t);
                t.expect(b']');
                self.mk(Ty::Arr(n, e))
            }
            b'<' => {
                t.i += 1;
                if t.peek() == b'{' {
                    t.i += 1;
                    let mut fs = vec![];
                    while !t.eat(b'}') { fs.push(self.ty(t)); t.eat(b','); }
                    t.expect(b'>');
                    self.mk(Ty::Struct(fs, true))
                } else {
                    let n: u64 = t.word().parse().unwrap();
                    assert!(t.try_word("x"));
                    let e = self.ty(t);
                    t.expect(b'>');
                    self.mk(Ty::Vec(n, e))
                }
            }
            b'{' => {
                t.i += 1;
                let mut fs = vec![];
                while !t.eat(b'}') { fs.push(self.ty(t)); t.eat(b','); }
                self.mk(Ty::Struct(fs, false))
            }
            b'%' => {
                t.i += 1;
                let n = t.ident();
                *self.named.get(&n).unwrap_or_else(|| panic!("ll: unknown type %{}", n))
            }
            _ => {
                let w = t.word();
                match w {
                    "void" => self.mk(Ty::Void),
                    "ptr" => self.mk(Ty::Ptr),
                    "float" => self.mk(Ty::F32),
                    "double" => self.mk(Ty::F64),
                    "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat" => self.mk(Ty::Other),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => { let n = w[1..].parse().unwrap(); self.mk(Ty::Int(n)) }
                    _ => panic!("ll: bad type '{}' at {}", w, t.rest()),
                }
            }
        };
        // addrspace / function types
        if t.word_at() == "addrspace" { t.word(); t.skip_paren(); }
        if t.peek() == b'(' { t.skip_paren(); r = self.mk(Ty::Other); }
        r
    }

    pub fn size(&self, ty: TyId) -> u64 {
        match &self.tys[ty as usize] {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let mut p = 1;
                while p < b { p *= 2 }
                p
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => { if let Ty::Int(1) = self.tys[*e as usize] { (n + 7) / 8 } else { n * self.size(*e) } }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for &f in fs {
                    let a = if *packed { 1 } else { self.align(f) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + self.size(f);
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self, ty: TyId) -> u64 {
        match &self.tys[ty as usize] {
            Ty::Int(_) => self.size(ty).min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(ty).max(1),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| self.align(*f)).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, fs: &[TyId], packed: bool, k: usize) -> u64 {
        let mut o = 0;
        for (i, &f) in fs.iter().enumerate() {
            let a = if packed { 1 } else { self.align(f) };
            o = (o + a - 1) / a * a;
            if i == k { return o }
            o += self.size(f);
        }
        o
    }

    fn skip_attrs(&mut self, t: &mut Tok) {
        // skip parameter attributes up to the value
        loop {
            let c = t.peek();
            match c {
                b'%' | b'@' | b'<' | b'[' | b'{' | 0 | b')' | b',' | b'!' => return,
                b'0'..=b'9' | b'-' => return,
                b'"' => { // string attr
                    t.i += 1;
                    while t.s[t.i] != b'"' { t.i += 1 }
                    t.i += 1;
                    if t.eat(b'=') { t.expect(b'"'); while t.s[t.i] != b'"' { t.i += 1 } t.i += 1; }
                }
                _ => {
                    let w = t.word_at();
                    match w {
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub" | "c" | "xor" | "none" | "ptrtoaddr" | "splat" => return,
                        "align" => { t.word(); t.skip_paren(); if t.peek().is_ascii_digit() { t.word(); } }
                        "asm" | "nan" | "inf" | "qnan" | "snan" | "pinf" | "ninf" => return,
                        _ if w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") || w.starts_with('+') => return,
                        _ => {
                            if w.is_empty() { panic!("ll: attrs at {}", t.rest()) }
                            t.word();
                            t.skip_paren();
                        }
                    }
                }
            }
        }
    }

    fn mask(&self, ty: TyId) -> u128 {
        match self.tys[ty as usize] { Ty::Int(w) => if w >= 128 { !0 } else { (1u128 << w) - 1 }, Ty::Ptr => u64::MAX as u128, _ => !0 }
    }

    fn operand(&mut self, t: &mut Tok, ty: TyId, ctx: &mut FnCtx) -> Op {
        self.skip_attrs(t);
        let c = t.peek();
        match c {
            b'%' => { t.i += 1; let n = t.ident(); Op::Reg(ctx.reg(&n)) }
            b'@' => {
                t.i += 1;
                let n = t.ident();
                match self.gaddr.get(&n) { Some(&a) => Op::C(a as u128), None => panic!("ll: unknown global @{}", n) }
            }
            b'!' => { t.i = t.s.len(); Op::Meta }
            b'{' | b'<' | b'[' => {
                let mut packed = false;
                t.i += 1;
                let mut close = match c { b'{' => b'}', b'[' => b']', _ => b'>' };
                if c == b'<' && t.peek() == b'{' { t.i += 1; packed = true; close = b'}'; }
                let mut v = vec![];
                while !t.eat(close) {
                    let ety = self.ty(t);
                    v.push(self.operand(t, ety, ctx));
                    t.eat(b',');
                }
                if packed { t.expect(b'>'); }
                Op::Agg(Rc::new(v))
            }
            b'c' if t.s[t.i + 1] == b'"' => {
                let n = self.size(ty) as usize;
                let mut b = vec![0u8; n];
                self.init_into(t, ty, &mut b, 0);
                Op::Agg(Rc::new(b.into_iter().map(|x| Op::C(x as u128)).collect()))
            }
            b'-' | b'0'..=b'9' => {
                let w = t.word();
                match self.tys[ty as usize] {
                    Ty::F64 | Ty::F32 => Op::C(self.float_const(w, ty)),
                    _ => {
                        let v: u128 = if let Some(x) = w.strip_prefix('-') {
                            (x.parse::<u128>().unwrap()).wrapping_neg()
                        } else { w.parse::<u128>().unwrap_or_else(|_| panic!("ll: int '{}'", w)) };
                        Op::C(v & self.mask(ty))
                    }
                }
            }
            _ => {
                let w = t.word();
                match w {
                    "null" | "none" => Op::C(0),
                    "true" => Op::C(1),
                    "false" => Op::C(0),
                    "undef" | "poison" => Op::Undef,
                    "zeroinitializer" => Op::Zero(ty),
                    "getelementptr" => {
                        while t.peek() != b'(' { t.word(); t.eat(b','); }
                        t.expect(b'(');
                        let ety = self.ty(t);
                        t.expect(b',');
                        let bty = self.ty(t);
                        let b = self.operand(t, bty, ctx);
                        let mut a = match b { Op::C(a) => a as i128, _ => panic!("ll: const gep base") };
                        let mut idx = vec![];
                        while t.eat(b',') {
                            let ity = self.ty(t);
                            idx.push((ity, self.operand(t, ity, ctx)));
                        }
                        t.expect(b')');
                        let (off, dynv) = self.gep_offsets(ety, &idx);
                        assert!(dynv.is_empty());
                        a += off as i128;
                        Op::C(a as u64 as u128)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        t.expect(b'(');
                        let fty = self.ty(t);
                        let v = self.operand(t, fty, ctx);
                        assert!(t.try_word("to"));
                        let tty = self.ty(t);
                        t.expect(b')');
                        match v { Op::C(x) => Op::C(x & self.mask(tty)), o => o }
                    }
                    "add" | "sub" | "xor" => {
                        while t.peek() != b'(' { t.word(); }
                        t.expect(b'(');
                        let aty = self.ty(t);
                        let a = self.operand(t, aty, ctx);
                        t.expect(b',');
                        let bty = self.ty(t);
                        let b = self.operand(t, bty, ctx);
                        t.expect(b')');
                        match (a, b) {
                            (Op::C(a), Op::C(b)) => Op::C(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & self.mask(aty)),
                            _ => panic!("ll: const expr"),
                        }
                    }
                    "asm" => { t.i = t.s.len(); Op::Undef }
                    "splat" => { // splat (i32 5)
                        t.expect(b'(');
                        let ety = self.ty(t);
                        let v = self.operand(t, ety, ctx);
                        t.expect(b')');
                        let n = match self.tys[ty as usize] { Ty::Vec(n, _) => n, _ => 1 };
                        Op::Agg(Rc::new(vec![v; n as usize]))
                    }
                    _ if w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") => {
                        let v = u128::from_str_radix(&w[3..], 16).unwrap();
                        Op::C(v & self.mask(ty))
                    }
                    "nan" | "inf" | "qnan" | "snan" | "pinf" | "ninf" | "+inf" | "-inf" | "+qnan" | "-qnan" | "-nan" | "+nan" => { if t.peek()==b'(' {t.skip_paren()} Op::C(self.float_const(w, ty)) }
                    _ if w.starts_with('+') => Op::C(self.float_const(w, ty)),
                    _ => panic!("ll: operand '{}' at {}", w, t.rest()),
                }
            }
        }
    }

    fn float_const(&self, w: &str, ty: TyId) -> u128 {
        let is32 = self.tys[ty as usize] == Ty::F32;
        let v: f64 = if let Some(h) = w.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else {
            match w {
                "nan" | "qnan" | "+qnan" | "+nan" => f64::NAN,
                "-qnan" | "-nan" => -f64::NAN,
                "inf" | "pinf" | "+inf" => f64::INFINITY,
                "-inf" | "ninf" => f64::NEG_INFINITY,
                _ => w.parse().unwrap_or_else(|_| panic!("ll: float '{}'", w)),
            }
        };
        if is32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
    }

    fn gep_offsets(&mut self, ety: TyId, idx: &[(TyId, Op)]) -> (i64, Vec<(Op, u32, i64)>) {
        let mut off = 0i64;
        let mut dynv = vec![];
        let mut cur = ety;
        for (k, (ity, o)) in idx.iter().enumerate() {
            let iw = match self.tys[*ity as usize] { Ty::Int(w) => w, _ => 64 };
            let scale: i64;
            if k == 0 { scale = self.size(cur) as i64; } else {
                match self.tys[cur as usize].clone() {
                    Ty::Struct(fs, p) => {
                        let f = match o { Op::C(c) => *c as usize, Op::Zero(_) => 0, _ => panic!("ll: struct gep") };
                        off += self.field_off(&fs, p, f) as i64;
                        cur = fs[f];
                        continue;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => { cur = e; scale = self.size(e) as i64; }
                    _ => panic!("ll: gep into scalar"),
                }
            }
            match o {
                Op::C(c) => {
                    let s = if iw >= 64 { *c as u64 as i64 } else { ((*c as i64) << (64 - iw)) >> (64 - iw) };
                    off = off.wrapping_add(s.wrapping_mul(scale));
                }
                o => dynv.push((o.clone(), iw, scale)),
            }
        }
        (off, dynv)
    }

    pub fn func(&mut self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.parsed.get(name) { return Some(f.clone()) }
        let (key, src) = self.funcs.remove_entry(name)?;
        let f = Rc::new(self.parse_func(&key, &src));
        self.funcs.insert(key.clone(), src);
        self.parsed.insert(key, f.clone());
        Some(f)
    }

    fn parse_func(&mut self, name: &Rc<str>, src: &FuncSrc) -> Func {
        let mut ctx = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        // header params
        let h = &src.header;
        let at = h.find('@').unwrap();
        let mut t = Tok { s: h.as_bytes(), i: at + 1 };
        let _ = t.ident();
        t.expect(b'(');
        let mut params = vec![];
        let mut pn = 0;
        while !t.eat(b')') {
            if t.peek() == b'.' { t.i += 3; continue }
            let ty = self.ty(&mut t);
            // attrs then optional %name
            loop {
                let c = t.peek();
                if c == b'%' || c == b',' || c == b')' { break }
                if c == b'"' { self.skip_attrs(&mut t); continue }
                let w = t.word();
                if w.is_empty() { panic!("ll: param attrs {} in {}", t.rest(), h) }
                if w == "align" && t.peek().is_ascii_digit() { t.word(); }
                t.skip_paren();
            }
            let _ = ty;
            if t.eat(b'%') { let n = t.ident(); params.push(ctx.reg(&n)); } else { let n = format!("{}", pn); params.push(ctx.reg(&n)); }
            pn += 1;
            t.eat(b',');
        }
        // logical lines, blocks
        let mut blocks: Vec<(Vec<String>,)> = vec![];
        let mut first = true;
        let mut i = 0;
        let ls = &src.lines;
        while i < ls.len() {
            let l = &ls[i];
            if l.is_empty() { i += 1; continue }
            if !l.starts_with(' ') {
                // label
                let lab = l.split(':').next().unwrap().trim_matches('"').to_string();
                if l.starts_with(';') { i += 1; continue }
                let bi = blocks.len() as u32;
                ctx.labels.insert(lab, bi);
                blocks.push((vec![],));
                first = false;
                i += 1;
                continue;
            }
            if first {
                // implicit entry label
                ctx.labels.insert(format!("{}", pn), 0);
                blocks.push((vec![],));
                first = false;
            }
            let mut s = l.trim_start().to_string();
            let is_sw = s.starts_with("switch ");
            if is_sw && s.ends_with('[') {
                loop { i += 1; let x = ls[i].trim(); s.push(' '); s.push_str(x); if x.starts_with(']') { break } }
            } else if (s.starts_with("invoke ") || s.contains("= invoke ")) && !s.contains(" unwind label ") {
                i += 1;
                s.push(' ');
                s.push_str(ls[i].trim());
            } else if s.contains("= landingpad ") {
                while i + 1 < ls.len() && (ls[i + 1].trim_start().starts_with("cleanup") || ls[i + 1].trim_start().starts_with("catch ") || ls[i + 1].trim_start().starts_with("filter ")) { i += 1 }
            }
            blocks.last_mut().unwrap().0.push(s);
            i += 1;
        }
        let mut out = vec![];
        for (lines,) in &blocks {
            let mut b = Block { phis: vec![], insts: vec![] };
            for l in lines { CUR.with(|c| *c.borrow_mut() = l.clone()); self.parse_inst(l, &mut ctx, &mut b); }
            out.push(b);
        }
        Func { name: name.clone(), params, nregs: ctx.regs.len() as u32, blocks: out }
    }

    fn label(&mut self, t: &mut Tok, ctx: &mut FnCtx) -> u32 {
        assert!(t.try_word("label"), "ll: label at {}", t.rest());
        t.expect(b'%');
        let n = t.ident();
        ctx.labels[&n]
    }

    fn parse_inst(&mut self, l: &str, ctx: &mut FnCtx, b: &mut Block) {
        let mut t = Tok::new(l);
        let mut dst = u32::MAX;
        if t.peek() == b'%' {
            let save = t.i;
            t.i += 1;
            let n = t.ident();
            if t.eat(b'=') { dst = ctx.reg(&n); } else { t.i = save; }
        }
        let op = t.word();
        let k = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let mut disjoint = false;
                loop {
                    match t.word_at() {
                        "nuw" | "nsw" | "exact" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => { t.word(); }
                        "disjoint" => { t.word(); disjoint = true; }
                        _ => break,
                    }
                }
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let c = self.operand(&mut t, ty, ctx);
                let o = match op {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr,
                    "and" => Bin::And, "or" => if disjoint { Bin::OrDisjoint } else { Bin::Or }, "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem,
                };
                K::Bin(o, ty, a, c)
            }
            "fneg" => {
                while matches!(t.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { t.word(); }
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                K::Fneg(ty, a)
            }
            "icmp" => {
                t.try_word("samesign");
                let p = match t.word() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x),
                };
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let c = self.operand(&mut t, ty, ctx);
                K::Icmp(p, ty, a, c)
            }
            "fcmp" => {
                while matches!(t.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { t.word(); }
                let p: Rc<str> = t.word().into();
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let c = self.operand(&mut t, ty, ctx);
                K::Fcmp(p, ty, a, c)
            }
            "select" => {
                while matches!(t.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { t.word(); }
                let cty = self.ty(&mut t);
                let c = self.operand(&mut t, cty, ctx);
                t.expect(b',');
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let ty2 = self.ty(&mut t);
                let d = self.operand(&mut t, ty2, ctx);
                K::Select(cty, c, ty, a, d)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                while matches!(t.word_at(), "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "afn" | "reassoc" | "arcp") { t.word(); }
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                assert!(t.try_word("to"), "ll: cast {}", l);
                let tt = self.ty(&mut t);
                let c = match op {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::Bitcast, "fptosi" => Cast::FpToSi, "fptoui" => Cast::FpToUi, "sitofp" => Cast::SiToFp, "uitofp" => Cast::UiToFp,
                    "fpext" => Cast::FpExt, _ => Cast::FpTrunc,
                };
                K::Cast(c, ty, a, tt)
            }
            "getelementptr" => {
                while matches!(t.word_at(), "inbounds" | "nuw" | "nusw" | "inrange") { t.word(); t.skip_paren(); }
                let ety = self.ty(&mut t);
                t.expect(b',');
                let bty = self.ty(&mut t);
                let base = self.operand(&mut t, bty, ctx);
                let mut idx = vec![];
                while t.eat(b',') {
                    if t.peek() == b'!' { break }
                    let ity = self.ty(&mut t);
                    let o = self.operand(&mut t, ity, ctx);
                    idx.push((ity, o));
                }
                let (off, d) = self.gep_offsets(ety, &idx);
                K::Gep(base, off, d)
            }
            "load" => {
                while matches!(t.word_at(), "atomic" | "volatile") { t.word(); }
                let ty = self.ty(&mut t);
                t.expect(b',');
                let pty = self.ty(&mut t);
                let p = self.operand(&mut t, pty, ctx);
                K::Load(ty, p)
            }
            "store" => {
                while matches!(t.word_at(), "atomic" | "volatile") { t.word(); }
                let ty = self.ty(&mut t);
                let v = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let pty = self.ty(&mut t);
                let p = self.operand(&mut t, pty, ctx);
                K::Store(ty, v, p)
            }
            "alloca" => {
                while matches!(t.word_at(), "inalloca") { t.word(); }
                let ty = self.ty(&mut t);
                let mut n = 1u64;
                let mut al = self.align(ty);
                while t.eat(b',') {
                    if t.try_word("align") { al = t.word().parse().unwrap(); } else if t.peek() == b'!' { break } else {
                        let ity = self.ty(&mut t);
                        if let Op::C(c) = self.operand(&mut t, ity, ctx) { n = c as u64 } else { panic!("ll: dyn alloca") }
                    }
                }
                K::Alloca(self.size(ty) * n, al)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { assert!(t.try_word("call")); }
                // calling conv / ret attrs
                let rty;
                loop {
                    let c = t.peek();
                    if c == b'%' || c == b'[' || c == b'{' || c == b'<' { rty = self.ty(&mut t); break }
                    let w = t.word_at();
                    let is_ty = matches!(w, "void" | "ptr" | "float" | "double" | "half" | "token" | "metadata") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                    if is_ty { rty = self.ty(&mut t); break }
                    if c == b'"' { self.skip_attrs(&mut t); continue }
                    if w.is_empty() { panic!("ll: call {}", l) }
                    t.word();
                    if w == "align" && t.peek().is_ascii_digit() { t.word(); }
                    t.skip_paren();
                }
                let callee = match t.peek() {
                    b'@' => { t.i += 1; let n = t.ident(); Callee::Named(n.into()) }
                    b'%' => { t.i += 1; let n = t.ident(); Callee::Ind(Op::Reg(ctx.reg(&n))) }
                    _ => {
                        let w = t.word();
                        if w == "asm" { b.insts.push(Inst { dst, k: K::Unsupported("inline asm".into()) }); return; }
                        panic!("ll: callee {}", l)
                    }
                };
                t.expect(b'(');
                let mut args = vec![];
                while !t.eat(b')') {
                    let aty = self.ty(&mut t);
                    if self.tys[aty as usize] == Ty::Other {
                        // metadata argument: skip to , or ) at depth 0
                        let mut d = 0;
                        loop {
                            match t.peek() { b'(' => d += 1, b')' => { if d == 0 { break } d -= 1 } b',' => if d == 0 { break }, 0 => break, _ => {} }
                            t.i += 1;
                        }
                        args.push((aty, Op::Meta));
                    } else {
                        let o = self.operand(&mut t, aty, ctx);
                        args.push((aty, o));
                    }
                    t.eat(b',');
                }
                // trailing attrs
                let tail = String::from_utf8_lossy(&t.s[t.i..]).into_owned();
                let mut noret = false;
                for w in tail.split(|c: char| c == ' ' || c == ',') {
                    if w.starts_with('#') && self.noreturn_groups.contains(w) || w == "noreturn" { noret = true }
                    if w.starts_with('!') || w == "[" || w == "to" { break }
                }
                let mut normal = None;
                if op == "invoke" {
                    let p = tail.find(" to label ").or_else(|| if tail.starts_with("to label ") { Some(0) } else { None }).expect("invoke");
                    let sub = tail[p..].trim_start().strip_prefix("to ").unwrap().to_string();
                    let mut tt = Tok::new(&sub);
                    normal = Some(self.label(&mut tt, ctx));
                }
                K::Call(callee, rty, args, noret, normal)
            }
            "br" => {
                if t.word_at() == "label" { K::Br(self.label(&mut t, ctx)) } else {
                    let ty = self.ty(&mut t);
                    let c = self.operand(&mut t, ty, ctx);
                    t.expect(b',');
                    let a = self.label(&mut t, ctx);
                    t.expect(b',');
                    let d = self.label(&mut t, ctx);
                    K::CondBr(c, a, d)
                }
            }
            "switch" => {
                let ty = self.ty(&mut t);
                let v = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let d = self.label(&mut t, ctx);
                t.expect(b'[');
                let mut cs = vec![];
                while !t.eat(b']') {
                    let cty = self.ty(&mut t);
                    let c = match self.operand(&mut t, cty, ctx) { Op::C(c) => c, _ => panic!("ll: switch case") };
                    t.expect(b',');
                    cs.push((c, self.label(&mut t, ctx)));
                }
                K::Switch(ty, v, d, cs)
            }
            "ret" => {
                let ty = self.ty(&mut t);
                if self.tys[ty as usize] == Ty::Void { K::Ret(ty, None) } else { let v = self.operand(&mut t, ty, ctx); K::Ret(ty, Some(v)) }
            }
            "unreachable" => K::Unreachable,
            "phi" => {
                while matches!(t.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { t.word(); }
                let ty = self.ty(&mut t);
                let mut inc = vec![];
                loop {
                    if !t.eat(b'[') { break }
                    let v = self.operand(&mut t, ty, ctx);
                    t.expect(b',');
                    t.expect(b'%');
                    let n = t.ident();
                    t.expect(b']');
                    inc.push((ctx.labels[&n], v));
                    if !t.eat(b',') { break }
                }
                b.phis.push(Phi { dst, inc });
                return;
            }
            "extractvalue" => {
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                let mut ix = vec![];
                while t.eat(b',') { if t.peek() == b'!' { break } ix.push(t.word().parse().unwrap()); }
                K::ExtractValue(ty, a, ix)
            }
            "insertvalue" => {
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let vty = self.ty(&mut t);
                let v = self.operand(&mut t, vty, ctx);
                let mut ix = vec![];
                while t.eat(b',') { if t.peek() == b'!' { break } ix.push(t.word().parse().unwrap()); }
                K::InsertValue(ty, a, vty, v, ix)
            }
            "extractelement" => {
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let ity = self.ty(&mut t);
                let i = self.operand(&mut t, ity, ctx);
                K::ExtractElement(a, i)
            }
            "insertelement" => {
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let vty = self.ty(&mut t);
                let v = self.operand(&mut t, vty, ctx);
                t.expect(b',');
                let ity = self.ty(&mut t);
                let i = self.operand(&mut t, ity, ctx);
                K::InsertElement(a, v, i)
            }
            "shufflevector" => {
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let ty2 = self.ty(&mut t);
                let c = self.operand(&mut t, ty2, ctx);
                t.expect(b',');
                let mty = self.ty(&mut t);
                let mk = self.operand(&mut t, mty, ctx);
                let n = match self.tys[mty as usize] { Ty::Vec(n, _) => n, _ => 0 };
                let mv = match mk {
                    Op::Agg(v) => v.iter().map(|o| match o { Op::C(c) => *c as i64, _ => -1 }).collect(),
                    Op::Zero(_) => vec![0i64; n as usize],
                    _ => vec![-1; n as usize],
                };
                K::Shuffle(a, c, mv)
            }
            "atomicrmw" => {
                t.try_word("volatile");
                let o: Rc<str> = t.word().into();
                let pty = self.ty(&mut t);
                let p = self.operand(&mut t, pty, ctx);
                t.expect(b',');
                let ty = self.ty(&mut t);
                let v = self.operand(&mut t, ty, ctx);
                K::AtomicRmw(o, p, ty, v)
            }
            "cmpxchg" => {
                while matches!(t.word_at(), "weak" | "volatile") { t.word(); }
                let pty = self.ty(&mut t);
                let p = self.operand(&mut t, pty, ctx);
                t.expect(b',');
                let ty = self.ty(&mut t);
                let c = self.operand(&mut t, ty, ctx);
                t.expect(b',');
                let ty2 = self.ty(&mut t);
                let n = self.operand(&mut t, ty2, ctx);
                K::CmpXchg(p, ty, c, n)
            }
            "fence" => K::Fence,
            "freeze" => {
                let ty = self.ty(&mut t);
                let a = self.operand(&mut t, ty, ctx);
                K::Freeze(a)
            }
            _ => K::Unsupported(op.into()),
        };
        b.insts.push(Inst { dst, k });
    }
}

thread_local! { pub static CUR: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
