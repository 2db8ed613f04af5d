//! LLVM IR: types, instructions, and a parser of the textual form.
//! Function bodies are parsed lazily, when first called.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Type {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Array(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vector(u32, Ty),
    Label,
    Meta,
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    /// Concrete integer, pointer or float bits.
    I(u128),
    /// Symbolic, an expression of the width of the type.
    S(u32),
    /// Struct, array or vector.
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Op) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { dst: u32, op: Bin, ty: Ty, a: Op, b: Op },
    FNeg { dst: u32, ty: Ty, a: Op },
    Icmp { dst: u32, pred: Pred, ty: Ty, a: Op, b: Op },
    Fcmp { dst: u32, pred: FPred, ty: Ty, a: Op, b: Op },
    Cast { dst: u32, kind: Cast, from: Ty, to: Ty, a: Op },
    Load { dst: u32, ty: Ty, addr: Op, atomic: bool },
    Store { ty: Ty, val: Op, addr: Op, atomic: bool },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Alloca { dst: u32, size: u64, align: u64, count: Op },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32> },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Op)>),
    Select { dst: u32, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Extract { dst: u32, a: Op, path: Vec<u32> },
    Insert { dst: u32, ty: Ty, a: Op, ety: Ty, v: Op, path: Vec<u32> },
    ExtractElem { dst: u32, ty: Ty, a: Op, i: Op },
    InsertElem { dst: u32, ty: Ty, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, ty: Ty, a: Op, b: Op, mask: Vec<i64> },
    Rmw { dst: u32, op: Rmw, ty: Ty, addr: Op, v: Op },
    CmpXchg { dst: u32, ty: Ty, addr: Op, cmp: Op, new: Op, weak: bool },
    Copy { dst: u32, a: Op },
    Nop,
    Unreachable,
    Unsupported(String),
}

pub struct Phi { pub dst: u32, pub ty: Ty, pub inc: Vec<(u32, Op)> }
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }
pub struct Body { pub blocks: Vec<Block>, pub nregs: usize, pub params: Vec<u32> }

pub struct Func {
    pub name: String,
    pub text: (usize, usize), // body text, empty for declarations
    pub header: (usize, usize),
    pub body: Option<Rc<Body>>,
    pub ret: Ty,
    pub demangled: String,
}

pub struct Global { pub name: String, pub ty: Ty, pub addr: u64, pub init: (usize, usize), pub is_const: bool, pub tls: bool, pub external: bool }

pub struct Module {
    pub src: Rc<Vec<u8>>,
    pub types: Vec<Type>,
    tymap: HashMap<Type, Ty>,
    pub named: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub symaddr: HashMap<String, u64>,
    pub aliases: HashMap<String, String>,
    pub demangle: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub fn fn_addr(i: u32) -> u64 { FN_BASE + (i as u64) * 16 }

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

pub struct Cur<'a> { pub s: &'a [u8], pub p: usize }

impl<'a> Cur<'a> {
    pub fn new(s: &'a [u8], p: usize) -> Self { Cur { s, p } }
    pub fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } }
                _ => break,
            }
        }
    }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("expected {:?} at: {}", c as char, self.context()) }
    }
    pub fn context(&self) -> String {
        let a = self.p.saturating_sub(80);
        let e = (self.p + 120).min(self.s.len());
        format!("{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.p.min(self.s.len())]), String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..e]))
    }
    fn is_word(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    /// A bare word (keywords, numbers).
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && (Self::is_word(self.s[self.p]) || self.s[self.p] == b'+') { self.p += 1; }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str { self.ws(); let p = self.p; let w = self.word(); self.p = p; w }
    pub fn eat_word(&mut self, w: &str) -> bool {
        self.ws();
        let p = self.p;
        if self.word() == w { true } else { self.p = p; false }
    }
    /// Name after a sigil: bare or quoted.
    pub fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).to_string();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && Self::is_word(self.s[self.p]) { self.p += 1; }
            String::from_utf8_lossy(&self.s[st..self.p]).to_string()
        }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.p];
            if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } }
            else if c == b'(' { d += 1 } else if c == b')' { d -= 1; if d == 0 { self.p += 1; return; } }
            self.p += 1;
        }
    }
}

impl Module {
    pub fn intern(&mut self, t: Type) -> Ty {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.types.len() as Ty;
        self.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn align_of(&self, t: Ty) -> u64 {
        match &self.types[t as usize] {
            Type::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16).max(1) }
            Type::Float => 4,
            Type::Double | Type::Ptr => 8,
            Type::Array(_, e) => self.align_of(*e),
            Type::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|x| self.align_of(*x)).max().unwrap_or(1) },
            Type::Vector(n, e) => { (self.bits(*e) as u64 * *n as u64 / 8).max(1).next_power_of_two() }
            _ => 1,
        }
    }
    pub fn store_size(&self, t: Ty) -> u64 {
        match &self.types[t as usize] {
            Type::Int(w) => ((*w as u64) + 7) / 8,
            Type::Vector(n, e) => ((self.bits(*e) as u64) * (*n as u64) + 7) / 8,
            _ => self.alloc_size(t),
        }
    }
    pub fn alloc_size(&self, t: Ty) -> u64 {
        match &self.types[t as usize] {
            Type::Int(_) | Type::Vector(..) => { let s = self.store_size(t); let a = self.align_of(t); (s + a - 1) / a * a }
            Type::Float => 4,
            Type::Double | Type::Ptr => 8,
            Type::Array(n, e) => n * self.alloc_size(*e),
            Type::Struct(f, packed) => {
                let mut o = 0u64;
                for x in f {
                    if !*packed { let a = self.align_of(*x); o = (o + a - 1) / a * a; }
                    o += self.alloc_size(*x);
                }
                if !*packed { let a = self.align_of(t); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, t: Ty, i: u64) -> (u64, Ty) {
        match &self.types[t as usize] {
            Type::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, x) in f.iter().enumerate() {
                    if !*packed { let a = self.align_of(*x); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return (o, *x); }
                    o += self.alloc_size(*x);
                }
                panic!("field")
            }
            Type::Array(_, e) => (i * self.alloc_size(*e), *e),
            Type::Vector(_, e) => (i * self.alloc_size(*e), *e),
            _ => panic!("field of scalar"),
        }
    }
    /// Width in bits of a scalar type.
    pub fn bits(&self, t: Ty) -> u32 {
        match &self.types[t as usize] { Type::Int(w) => *w, Type::Float => 32, Type::Double | Type::Ptr => 64, _ => 0 }
    }
    pub fn nfields(&self, t: Ty) -> Option<usize> {
        match &self.types[t as usize] {
            Type::Array(n, _) => Some(*n as usize), Type::Vector(n, _) => Some(*n as usize), Type::Struct(f, _) => Some(f.len()), _ => None }
    }
    pub fn elem(&self, t: Ty, i: usize) -> Ty {
        match &self.types[t as usize] { Type::Array(_, e) | Type::Vector(_, e) => *e, Type::Struct(f, _) => f[i], _ => panic!("elem") }
    }
    pub fn zero(&self, t: Ty) -> Val {
        match self.nfields(t) { None => Val::I(0), Some(n) => Val::A(Rc::new((0..n).map(|i| self.zero(self.elem(t, i))).collect())) }
    }

    pub fn is_type_start(c: &mut Cur) -> bool {
        match c.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            b'i' => { let w = c.peek_word(); w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) }
            _ => { let w = c.peek_word(); matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "half" | "fp128" | "x86_fp80" | "token") }
        }
    }
    pub fn ty(&mut self, c: &mut Cur) -> Ty {
        match c.peek() {
            b'{' => { c.p += 1; let f = self.tylist(c, b'}'); self.intern(Type::Struct(f, false)) }
            b'[' => {
                c.p += 1;
                let n: u64 = c.word().parse().unwrap();
                assert!(c.eat_word("x"));
                let e = self.ty(c);
                c.expect(b']');
                self.intern(Type::Array(n, e))
            }
            b'<' => {
                c.p += 1;
                if c.eat(b'{') { let f = self.tylist(c, b'}'); c.expect(b'>'); return self.intern(Type::Struct(f, true)); }
                let n: u32 = c.word().parse().unwrap();
                assert!(c.eat_word("x"));
                let e = self.ty(c);
                c.expect(b'>');
                self.intern(Type::Vector(n, e))
            }
            b'%' => { c.p += 1; let n = c.name(); *self.named.get(&n).unwrap_or_else(|| panic!("type {}", n)) }
            _ => {
                let w = c.word();
                let t = match w {
                    "void" => Type::Void, "ptr" => Type::Ptr, "float" => Type::Float, "double" => Type::Double,
                    "metadata" => Type::Meta, "label" => Type::Label,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Type::Int(w[1..].parse().unwrap()),
                    "half" | "fp128" | "x86_fp80" | "token" => Type::Other,
                    _ => panic!("type {:?} at {}", w, c.context()),
                };
                let r = self.intern(t);
                // ptr addrspace(n)
                if c.eat_word("addrspace") { c.ws(); c.skip_parens(); }
                r
            }
        }
    }
    fn tylist(&mut self, c: &mut Cur, end: u8) -> Vec<Ty> {
        let mut f = Vec::new();
        if c.eat(end) { return f; }
        loop { f.push(self.ty(c)); if c.eat(end) { return f; } c.expect(b','); }
    }

    fn int_lit(w: &str, bits: u32) -> u128 {
        if let Some(h) = w.strip_prefix("u0x") { return u128::from_str_radix(h, 16).unwrap() & mask(bits); }
        if let Some(h) = w.strip_prefix("s0x") { return u128::from_str_radix(h, 16).unwrap() & mask(bits); }
        if let Some(n) = w.strip_prefix('-') { let v: u128 = n.parse().unwrap(); return v.wrapping_neg() & mask(bits); }
        w.parse::<u128>().unwrap_or_else(|_| panic!("int {:?}", w)) & mask(bits)
    }

    /// Parses a constant of type `t`. `%reg` is not handled here.
    pub fn constant(&mut self, c: &mut Cur, t: Ty) -> Val {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                Val::I(self.sym(&n) as u128)
            }
            b'c' if { c.ws(); c.s.get(c.p + 1) == Some(&b'"') } => {
                c.p += 2;
                let mut v = Vec::new();
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' && c.s[c.p + 1] == b'\\' { v.push(Val::I(92)); c.p += 2; }
                    else if c.s[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        v.push(Val::I(u8::from_str_radix(h, 16).unwrap() as u128));
                        c.p += 3;
                    } else { v.push(Val::I(c.s[c.p] as u128)); c.p += 1; }
                }
                c.p += 1;
                Val::A(Rc::new(v))
            }
            b'{' | b'[' => { let end = if c.s[c.p] == b'{' { b'}' } else { b']' }; c.p += 1; self.constlist(c, end) }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' { c.p += 1; let v = self.constlist(c, b'}'); c.expect(b'>'); v } else { self.constlist(c, b'>') }
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => Val::I(1),
                    "false" => Val::I(0),
                    "null" | "none" => Val::I(0),
                    "undef" | "poison" | "zeroinitializer" => self.zero(t),
                    "splat" => {
                        c.expect(b'(');
                        let et = self.ty(c);
                        let v = self.constant(c, et);
                        c.expect(b')');
                        let n = self.nfields(t).unwrap();
                        Val::A(Rc::new(vec![v; n]))
                    }
                    "getelementptr" => {
                        loop { let x = c.peek_word(); if matches!(x, "inbounds" | "nuw" | "nusw") { c.word(); } else if x == "inrange" { c.word(); c.ws(); c.skip_parens(); } else { break; } }
                        c.expect(b'(');
                        let et = self.ty(c);
                        c.expect(b',');
                        let bt = self.ty(c);
                        let base = self.constant(c, bt);
                        let mut addr = match base { Val::I(x) => x as u64, _ => panic!() };
                        let mut cur = et;
                        let mut first = true;
                        while c.eat(b',') {
                            let it = self.ty(c);
                            let iv = match self.constant(c, it) { Val::I(x) => sext(x, self.bits(it)), _ => panic!() };
                            if first { addr = addr.wrapping_add((iv as i64).wrapping_mul(self.alloc_size(cur) as i64) as u64); first = false; }
                            else { let (o, ft) = self.gep_field(cur, iv as i64); addr = addr.wrapping_add(o as u64); cur = ft; }
                        }
                        c.expect(b')');
                        Val::I(addr as u128)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                        c.expect(b'(');
                        let ft = self.ty(c);
                        let v = self.constant(c, ft);
                        assert!(c.eat_word("to"));
                        let tt = self.ty(c);
                        c.expect(b')');
                        match v {
                            Val::I(x) => {
                                let x = if w == "sext" { sext(x, self.bits(ft)) as u128 } else { x };
                                let b = self.bits(tt);
                                Val::I(x & mask(if b == 0 { 128 } else { b }))
                            }
                            v => v,
                        }
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                        while matches!(c.peek_word(), "nuw" | "nsw" | "disjoint" | "exact") { c.word(); }
                        c.expect(b'(');
                        let t1 = self.ty(c);
                        let a = match self.constant(c, t1) { Val::I(x) => x, _ => panic!() };
                        c.expect(b',');
                        let t2 = self.ty(c);
                        let b = match self.constant(c, t2) { Val::I(x) => x, _ => panic!() };
                        c.expect(b')');
                        let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "shl" => a << b, _ => a >> b };
                        Val::I(r & mask(self.bits(t1)))
                    }
                    _ => match self.types[t as usize].clone() {
                        Type::Int(b) => Val::I(Self::int_lit(w, b)),
                        Type::Double => {
                            if let Some(h) = w.strip_prefix("f0x").or(w.strip_prefix("0x")) { Val::I(u64::from_str_radix(h, 16).unwrap() as u128) }
                            else { Val::I(w.parse::<f64>().unwrap_or_else(|_| panic!("double {:?}", w)).to_bits() as u128) }
                        }
                        Type::Float => {
                            if let Some(h) = w.strip_prefix("f0x") { Val::I(u32::from_str_radix(h, 16).unwrap() as u128) }
                            else if let Some(h) = w.strip_prefix("0x") { let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap()); Val::I((d as f32).to_bits() as u128) }
                            else { Val::I((w.parse::<f64>().unwrap() as f32).to_bits() as u128) }
                        }
                        _ => panic!("constant {:?} of type {:?} at {}", w, self.types[t as usize], c.context()),
                    },
                }
            }
        }
    }
    fn constlist(&mut self, c: &mut Cur, end: u8) -> Val {
        let mut v = Vec::new();
        if c.eat(end) { return Val::A(Rc::new(v)); }
        loop {
            let t = self.ty(c);
            v.push(self.constant(c, t));
            if c.eat(end) { break; }
            c.expect(b',');
        }
        Val::A(Rc::new(v))
    }
    pub fn gep_field(&self, t: Ty, i: i64) -> (i64, Ty) {
        match &self.types[t as usize] {
            Type::Array(_, e) | Type::Vector(_, e) => (i * self.alloc_size(*e) as i64, *e),
            _ => { let (o, f) = self.field(t, i as u64); (o as i64, f) }
        }
    }
    pub fn sym(&mut self, n: &str) -> u64 {
        if let Some(a) = self.symaddr.get(n) { return *a; }
        if let Some(t) = self.aliases.get(n).cloned() { return self.sym(&t); }
        if let Some(i) = self.fmap.get(n) { return fn_addr(*i); }
        panic!("unknown symbol @{}", n)
    }

    pub fn load(path: &str) -> Module {
        let src = Rc::new(std::fs::read(path).expect("read ir"));
        let mut m = Module { src: src.clone(), types: vec![], tymap: HashMap::new(), named: HashMap::new(), funcs: vec![], fmap: HashMap::new(), globals: vec![], symaddr: HashMap::new(), aliases: HashMap::new(), demangle: HashMap::new() };
        let s: &[u8] = &src;
        let mut p = 0;
        let mut glines = Vec::new();
        // pass 1: find everything at top level
        while p < s.len() {
            let e = s[p..].iter().position(|&b| b == b'\n').map(|x| p + x).unwrap_or(s.len());
            let line = &s[p..e];
            if line.starts_with(b"define ") {
                let endf = find(s, e, b"\n}\n").map(|x| x + 1).unwrap_or(s.len());
                m.add_func((p, e), (e + 1, endf));
                p = endf + 2;
                continue;
            } else if line.starts_with(b"declare ") {
                m.add_func((p, e), (0, 0));
            } else if line.starts_with(b"@") {
                glines.push((p, e));
            } else if line.starts_with(b"%") {
                let mut c = Cur::new(s, p + 1);
                let n = c.name();
                c.expect(b'=');
                assert!(c.eat_word("type"));
                if c.peek_word() != "opaque" { let t = m.ty(&mut c); m.named.insert(n, t); }
            }
            p = e + 1;
        }
        // comments "; call <demangled>" precede calls; collect a demangling map from "; name" + "define"
        // globals: first addresses, then initializers (on demand by the executor)
        let mut pend = Vec::new();
        for (p, e) in glines {
            let mut c = Cur::new(&s[..e], p + 1);
            let n = c.name();
            c.expect(b'=');
            let mut tls = false;
            let mut external = false;
            let is_const;
            let mut alias = false;
            loop {
                let w = c.peek_word();
                match w {
                    "thread_local" => { c.word(); tls = true; c.ws(); if c.peek() == b'(' { c.skip_parens(); } }
                    "external" | "extern_weak" => { c.word(); external = true; }
                    "global" => { c.word(); is_const = false; break; }
                    "constant" => { c.word(); is_const = true; break; }
                    "alias" => { c.word(); alias = true; is_const = true; break; }
                    "addrspace" => { c.word(); c.ws(); c.skip_parens(); }
                    "" => panic!("global line {}", c.context()),
                    _ => { c.word(); }
                }
            }
            let t = m.ty(&mut c);
            if alias {
                c.expect(b',');
                m.ty(&mut c);
                c.ws();
                if c.peek() == b'@' { c.p += 1; let tgt = c.name(); m.aliases.insert(n, tgt); }
                continue;
            }
            pend.push((n, t, c.p, e, is_const, tls, external));
        }
        for (i, (n, t, a, e, is_const, tls, external)) in pend.into_iter().enumerate() {
            let addr = ((i as u64) + 1) << 32;
            m.symaddr.insert(n.clone(), addr);
            m.globals.push(Global { name: n, ty: t, addr, init: (a, e), is_const, tls, external });
        }
        m
    }

    fn add_func(&mut self, header: (usize, usize), text: (usize, usize)) {
        let src = self.src.clone();
        let mut c = Cur::new(&src[..header.1], header.0);
        c.word();
        let ret;
        loop {
            if Self::is_type_start(&mut c) {
                let t = self.ty(&mut c);
                if c.peek() == b'@' { ret = t; break; }
                continue;
            }
            let w = c.word();
            if w.is_empty() {
                if c.peek() == b'"' { c.name(); if c.peek() == b'=' { c.p += 1; c.ws(); c.name(); } continue; }
                panic!("header {}", c.context());
            }
            if c.peek() == b'(' { c.skip_parens(); }
        }
        c.expect(b'@');
        let name = c.name();
        let i = self.funcs.len() as u32;
        // demangled name: comment line just before the definition
        let mut dem = String::new();
        if text.1 > 0 && header.0 > 2 {
            let prev_end = header.0 - 1;
            let mut st = prev_end;
            // attributes line "; Function Attrs: ..." may sit between
            for _ in 0..2 {
                let e = st;
                let b = src[..e].iter().rposition(|&x| x == b'\n').map(|x| x + 1).unwrap_or(0);
                let l = &src[b..e];
                if l.starts_with(b"; ") && !l.starts_with(b"; Function Attrs") { dem = String::from_utf8_lossy(&l[2..]).to_string(); break; }
                if b == 0 { break; }
                st = b - 1;
            }
        }
        self.fmap.insert(name.clone(), i);
        if dem.is_empty() { dem = name.clone(); }
        self.funcs.push(Func { name, text, header, body: None, ret, demangled: dem });
    }

    pub fn body(&mut self, f: u32) -> Option<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body { return Some(b.clone()); }
        if self.funcs[f as usize].text.1 == 0 { return None; }
        let b = Rc::new(self.parse_body(f));
        self.funcs[f as usize].body = Some(b.clone());
        Some(b)
    }

    fn parse_body(&mut self, f: u32) -> Body {
        let src = self.src.clone();
        let (hs, he) = self.funcs[f as usize].header;
        let (bs, be) = self.funcs[f as usize].text;
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = Vec::new();
        // parameters
        let mut unnamed = 0;
        {
            let mut c = Cur::new(&src[..he], hs);
            // find the name
            while c.s[c.p] != b'@' { if c.s[c.p] == b'(' { c.skip_parens(); } else { c.p += 1; } }
            c.p += 1;
            c.name();
            c.expect(b'(');
            if !c.eat(b')') {
                loop {
                    if c.peek() == b'.' { c.p += 3; c.expect(b')'); break; }
                    self.ty(&mut c);
                    self.skip_attrs(&mut c);
                    c.expect(b'%');
                    let n = c.name();
                    if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
                    let r = regs.len() as u32;
                    regs.insert(n, r);
                    params.push(r);
                    if c.eat(b')') { break; }
                    c.expect(b',');
                }
            }
        }
        // split in lines; collect labels first
        let text = &src[bs..be];
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut items: Vec<(u32, usize, usize)> = Vec::new(); // block, start, end (absolute, one instruction)
        let mut cur_block: Option<u32> = None;
        let mut p = bs;
        while p < be {
            let mut e = src[p..be].iter().position(|&b| b == b'\n').map(|x| p + x).unwrap_or(be);
            let line = &src[p..e];
            if line.is_empty() || line[0] == b';' || line.starts_with(b"  ;") || line.starts_with(b"    #dbg") { p = e + 1; continue; }
            if line[0] != b' ' {
                let mut c = Cur::new(&src[..e], p);
                let n = c.name();
                let i = labels.len() as u32;
                labels.insert(n, i);
                cur_block = Some(i);
                p = e + 1;
                continue;
            }
            if cur_block.is_none() {
                labels.insert(unnamed.to_string(), 0);
                cur_block = Some(0);
            }
            // multi-line: switch ... [ ... ], landingpad clauses, call args never split
            let t = trim(line);
            if t.starts_with(b"switch") && t.ends_with(b"[") {
                let q = find(&src, e, b"]").unwrap();
                e = src[q..be].iter().position(|&b| b == b'\n').map(|x| q + x).unwrap_or(be);
            } else if t.starts_with(b"invoke") || find(t, 0, b"= invoke ").is_some() {
                // "          to label %x unwind label %y" on the next line
                e = src[e + 1..be].iter().position(|&b| b == b'\n').map(|x| e + 1 + x).unwrap_or(be);
            } else if t.starts_with(b"catch ") || t.starts_with(b"cleanup") || t.starts_with(b"filter ") {
                p = e + 1;
                continue;
            }
            items.push((cur_block.unwrap(), p, e));
            p = e + 1;
        }
        let mut blocks: Vec<Block> = (0..labels.len()).map(|_| Block { phis: vec![], insts: vec![] }).collect();
        for (b, s, e) in items {
            let mut c = Cur::new(&src[..e], s);
            self.parse_inst(&mut c, &mut regs, &labels, &mut blocks[b as usize]);
        }
        Body { blocks, nregs: regs.len(), params }
    }

    pub fn skip_attrs(&mut self, c: &mut Cur) {
        loop {
            match c.peek() {
                b'%' | b'@' | b',' | b')' | b'(' | b'{' | b'[' | b'<' | b'-' | b'!' | 0 => return,
                b'"' => { c.name(); if c.peek() == b'=' { c.p += 1; c.ws(); c.name(); } }
                x if x.is_ascii_digit() => return,
                _ => {
                    let w = c.peek_word();
                    match w {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "trunc" | "add" | "sub" | "none" | "c" | "xor" | "mul" => return,
                        "align" => { c.word(); if c.peek() == b'(' { c.skip_parens(); } else { c.word(); } }
                        "" => panic!("attr at {}", c.context()),
                        _ if w.starts_with("0x") || w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") => return,
                        _ => { c.word(); if c.s.get(c.p) == Some(&b'(') { c.skip_parens(); } }
                    }
                }
            }
        }
    }

    fn reg(regs: &mut HashMap<String, u32>, n: String) -> u32 {
        let k = regs.len() as u32;
        *regs.entry(n).or_insert(k)
    }
    fn operand(&mut self, c: &mut Cur, t: Ty, regs: &mut HashMap<String, u32>) -> Op {
        if c.peek() == b'%' { c.p += 1; let n = c.name(); return Op::Reg(Self::reg(regs, n)); }
        if self.types[t as usize] == Type::Meta { // metadata operand
            while !matches!(c.peek(), b',' | b')' | 0) { if c.s[c.p] == b'(' { c.skip_parens() } else { c.p += 1; } }
            return Op::K(Val::I(0));
        }
        Op::K(self.constant(c, t))
    }
    fn label(&mut self, c: &mut Cur, labels: &HashMap<String, u32>) -> u32 {
        assert!(c.eat_word("label"), "label at {}", c.context());
        c.expect(b'%');
        let n = c.name();
        *labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }

    fn parse_inst(&mut self, c: &mut Cur, regs: &mut HashMap<String, u32>, labels: &HashMap<String, u32>, out: &mut Block) {
        let mut dst = None;
        let start = c.p;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            c.expect(b'=');
            dst = Some(Self::reg(regs, n));
        }
        let d = dst.unwrap_or(u32::MAX);
        let w = c.word();
        let inst = match w {
            "phi" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); }
                let t = self.ty(c);
                let mut inc = Vec::new();
                loop {
                    c.expect(b'[');
                    let v = self.operand(c, t, regs);
                    c.expect(b',');
                    c.expect(b'%');
                    let n = c.name();
                    c.expect(b']');
                    inc.push((*labels.get(&n).unwrap_or_else(|| panic!("phi label {}", n)), v));
                    if c.peek() != b',' { break; }
                    let p = c.p;
                    c.p += 1;
                    if c.peek() != b'[' { c.p = p; break; }
                }
                out.phis.push(Phi { dst: d, ty: t, inc });
                return;
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); }
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let b = self.operand(c, t, regs);
                let op = match w {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem,
                    "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem };
                Inst::Bin { dst: d, op, ty: t, a, b }
            }
            "fneg" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); }
                let t = self.ty(c); let a = self.operand(c, t, regs); Inst::FNeg { dst: d, ty: t, a } }
            "icmp" => {
                c.eat_word("samesign");
                let p = match c.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let b = self.operand(c, t, regs);
                Inst::Icmp { dst: d, pred: p, ty: t, a, b }
            }
            "fcmp" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); }
                let p = match c.word() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, x => panic!("fcmp {}", x) };
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let b = self.operand(c, t, regs);
                Inst::Fcmp { dst: d, pred: p, ty: t, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); }
                let from = self.ty(c);
                let a = self.operand(c, from, regs);
                assert!(c.eat_word("to"));
                let to = self.ty(c);
                let kind = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" | "addrspacecast" => Cast::Bitcast, "uitofp" => Cast::UIToFP, "sitofp" => Cast::SIToFP, "fptoui" => Cast::FPToUI, "fptosi" => Cast::FPToSI, "fpext" => Cast::FPExt, _ => Cast::FPTrunc };
                Inst::Cast { dst: d, kind, from, to, a }
            }
            "load" => {
                let mut atomic = false;
                loop { match c.peek_word() { "atomic" => { c.word(); atomic = true; } "volatile" => { c.word(); } _ => break } }
                let t = self.ty(c);
                c.expect(b',');
                let pt = self.ty(c);
                let addr = self.operand(c, pt, regs);
                Inst::Load { dst: d, ty: t, addr, atomic }
            }
            "store" => {
                let mut atomic = false;
                loop { match c.peek_word() { "atomic" => { c.word(); atomic = true; } "volatile" => { c.word(); } _ => break } }
                let t = self.ty(c);
                let val = self.operand(c, t, regs);
                c.expect(b',');
                let pt = self.ty(c);
                let addr = self.operand(c, pt, regs);
                Inst::Store { ty: t, val, addr, atomic }
            }
            "getelementptr" => {
                loop { let x = c.peek_word(); if matches!(x, "inbounds" | "nuw" | "nusw") { c.word(); } else { break; } }
                let et = self.ty(c);
                c.expect(b',');
                let bt = self.ty(c);
                let base = self.operand(c, bt, regs);
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut cur = et;
                let mut first = true;
                let vec_gep = matches!(self.types[bt as usize], Type::Vector(..));
                while c.peek() == b',' {
                    let p = c.p;
                    c.p += 1;
                    if !Self::is_type_start(c) || c.peek() == b'!' { c.p = p; break; }
                    let it = self.ty(c);
                    let iv = self.operand(c, it, regs);
                    let w = self.bits(it);
                    let scale;
                    if first { scale = self.alloc_size(cur) as i64; first = false; }
                    else {
                        match self.types[cur as usize].clone() {
                            Type::Struct(..) => {
                                let k = match &iv { Op::K(Val::I(x)) => *x as u64, _ => panic!("struct gep") };
                                let (o, f) = self.field(cur, k);
                                off += o as i64;
                                cur = f;
                                continue;
                            }
                            Type::Array(_, e) | Type::Vector(_, e) => { scale = self.alloc_size(e) as i64; cur = e; }
                            _ => panic!("gep into scalar at {}", c.context()),
                        }
                    }
                    match &iv {
                        Op::K(Val::I(x)) => off = off.wrapping_add((sext(*x, w) as i64).wrapping_mul(scale)),
                        _ => idx.push((iv, w, scale)),
                    }
                }
                if vec_gep { Inst::Unsupported("vector gep".into()) } else { Inst::Gep { dst: d, base, off, idx } }
            }
            "alloca" => {
                c.eat_word("inalloca");
                let t = self.ty(c);
                let mut align = self.align_of(t);
                let mut count = Op::K(Val::I(1));
                while c.eat(b',') {
                    if c.eat_word("align") { align = c.word().parse().unwrap(); }
                    else if c.peek() == b'!' { break; }
                    else if c.eat_word("addrspace") { c.ws(); c.skip_parens(); }
                    else { let ct = self.ty(c); count = self.operand(c, ct, regs); }
                }
                Inst::Alloca { dst: d, size: self.alloc_size(t), align, count }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" { assert!(c.eat_word("call")); }
                let invoke = w == "invoke";
                let ret;
                loop {
                    if Self::is_type_start(c) {
                        // "i8" cannot be an attribute; the first type is the return type
                        ret = self.ty(c);
                        break;
                    }
                    let x = c.word();
                    if x.is_empty() { panic!("call at {}", c.context()); }
                    if c.s.get(c.p) == Some(&b'(') { c.skip_parens(); }
                    else if x == "cc" || x == "align" { c.word(); }
                }
                if c.peek() == b'(' { c.skip_parens(); }
                let callee;
                match c.peek() {
                    b'@' => { c.p += 1; let n = c.name(); let n = self.aliases.get(&n).cloned().unwrap_or(n); callee = Callee::Direct(*self.fmap.get(&n).unwrap_or_else(|| panic!("callee {}", n))); }
                    b'%' => { c.p += 1; let n = c.name(); callee = Callee::Indirect(Op::Reg(Self::reg(regs, n))); }
                    _ => {
                        let x = c.peek_word();
                        if x == "asm" {
                            // empty asm (black_box barrier) only
                            let text = String::from_utf8_lossy(&c.s[start..]).to_string();
                            let empty = text.contains("asm sideeffect \"\"") || text.contains("asm \"\"") || text.contains("asm sideeffect alignstack");
                            if text.contains("cpuid") { if let Some(d) = dst { let z = self.zero(ret); out.insts.push(Inst::Copy { dst: d, a: Op::K(z) }); return; } }
                            out.insts.push(if empty && dst.is_none() { Inst::Nop } else { Inst::Unsupported(format!("inline asm {}", text)) });
                            return;
                        }
                        let pt = self.intern(Type::Ptr);
                        let v = self.constant(c, pt);
                        callee = Callee::Indirect(Op::K(v));
                    }
                }
                c.expect(b'(');
                let mut args = Vec::new();
                if !c.eat(b')') {
                    loop {
                        let t = self.ty(c);
                        if self.types[t as usize] == Type::Meta {
                            while !matches!(c.peek(), b',' | b')') { if c.s[c.p] == b'(' { c.skip_parens() } else { c.p += 1; } }
                            args.push((t, Op::K(Val::I(0))));
                        } else {
                            self.skip_attrs(c);
                            let v = self.operand(c, t, regs);
                            args.push((t, v));
                        }
                        if c.eat(b')') { break; }
                        c.expect(b',');
                    }
                }
                let mut normal = None;
                if invoke {
                    // skip attributes up to "to label"
                    loop {
                        c.ws();
                        if c.eat_word("to") { break; }
                        if c.peek() == b'#' { c.p += 1; c.word(); } else if c.peek() == b'[' { while c.s[c.p] != b']' { c.p += 1; } c.p += 1; }
                        else { let x = c.word(); if x.is_empty() { c.p += 1; } }
                    }
                    normal = Some(self.label(c, labels));
                }
                Inst::Call { dst, ret, callee, args, normal }
            }
            "br" => {
                if c.peek_word() == "label" { let l = self.label(c, labels); Inst::Br(l) }
                else {
                    let t = self.ty(c);
                    let v = self.operand(c, t, regs);
                    c.expect(b',');
                    let a = self.label(c, labels);
                    c.expect(b',');
                    let b = self.label(c, labels);
                    Inst::CondBr { c: v, t: a, f: b }
                }
            }
            "switch" => {
                let t = self.ty(c);
                let v = self.operand(c, t, regs);
                c.expect(b',');
                let default = self.label(c, labels);
                c.expect(b'[');
                let mut cases = Vec::new();
                while !c.eat(b']') {
                    let ct = self.ty(c);
                    let cv = match self.constant(c, ct) { Val::I(x) => x, _ => panic!() };
                    c.expect(b',');
                    let l = self.label(c, labels);
                    cases.push((cv, l));
                }
                Inst::Switch { ty: t, v, default, cases }
            }
            "ret" => {
                let t = self.ty(c);
                if self.types[t as usize] == Type::Void { Inst::Ret(None) } else { let v = self.operand(c, t, regs); Inst::Ret(Some((t, v))) }
            }
            "select" => {
                while matches!(c.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { c.word(); }
                let ct = self.ty(c);
                let cv = self.operand(c, ct, regs);
                c.expect(b',');
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let t2 = self.ty(c);
                let b = self.operand(c, t2, regs);
                Inst::Select { dst: d, cty: ct, c: cv, ty: t, a, b }
            }
            "extractvalue" => {
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                let mut path = Vec::new();
                while c.peek() == b',' { let p = c.p; c.p += 1; if c.peek() == b'!' { c.p = p; break; } path.push(c.word().parse().unwrap()); }
                Inst::Extract { dst: d, a, path }
            }
            "insertvalue" => {
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let et = self.ty(c);
                let v = self.operand(c, et, regs);
                let mut path = Vec::new();
                while c.peek() == b',' { let p = c.p; c.p += 1; if c.peek() == b'!' { c.p = p; break; } path.push(c.word().parse().unwrap()); }
                Inst::Insert { dst: d, ty: t, a, ety: et, v, path }
            }
            "extractelement" => {
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let it = self.ty(c);
                let i = self.operand(c, it, regs);
                Inst::ExtractElem { dst: d, ty: t, a, i }
            }
            "insertelement" => {
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let et = self.ty(c);
                let v = self.operand(c, et, regs);
                c.expect(b',');
                let it = self.ty(c);
                let i = self.operand(c, it, regs);
                Inst::InsertElem { dst: d, ty: t, a, v, i }
            }
            "shufflevector" => {
                let t = self.ty(c);
                let a = self.operand(c, t, regs);
                c.expect(b',');
                let t2 = self.ty(c);
                let b = self.operand(c, t2, regs);
                c.expect(b',');
                let mt = self.ty(c);
                let m = match self.constant(c, mt) { Val::A(v) => v, _ => panic!() };
                let mask = m.iter().map(|x| match x { Val::I(k) => *k as i64, _ => 0 }).collect();
                Inst::Shuffle { dst: d, ty: t, a, b, mask }
            }
            "atomicrmw" => {
                c.eat_word("volatile");
                let op = match c.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => panic!("rmw {}", x) };
                let pt = self.ty(c);
                let addr = self.operand(c, pt, regs);
                c.expect(b',');
                let t = self.ty(c);
                let v = self.operand(c, t, regs);
                Inst::Rmw { dst: d, op, ty: t, addr, v }
            }
            "cmpxchg" => {
                let mut weak = false;
                loop { match c.peek_word() { "weak" => { weak = true; c.word(); } "volatile" => { c.word(); } _ => break } }
                let pt = self.ty(c);
                let addr = self.operand(c, pt, regs);
                c.expect(b',');
                let t = self.ty(c);
                let cmp = self.operand(c, t, regs);
                c.expect(b',');
                let t2 = self.ty(c);
                let new = self.operand(c, t2, regs);
                Inst::CmpXchg { dst: d, ty: t, addr, cmp, new, weak }
            }
            "freeze" => { let t = self.ty(c); let a = self.operand(c, t, regs); Inst::Copy { dst: d, a } }
            "fence" => Inst::Nop,
            "unreachable" => Inst::Unreachable,
            "landingpad" | "resume" => Inst::Unsupported(w.to_string()),
            _ => Inst::Unsupported(format!("{} in {}", w, String::from_utf8_lossy(&c.s[start..]))),
        };
        out.insts.push(inst);
    }
}

pub fn sext(x: u128, bits: u32) -> i128 {
    if bits >= 128 || bits == 0 { return x as i128; }
    let s = 128 - bits;
    ((x << s) as i128) >> s
}
pub fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && (s[0] == b' ' || s[0] == b'\t') { s = &s[1..]; }
    while !s.is_empty() && (s[s.len() - 1] == b' ' || s[s.len() - 1] == b'\r') { s = &s[..s.len() - 1]; }
    s
}
pub fn find(s: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    if s.len() < pat.len() { return None; }
    let mut i = from;
    while i + pat.len() <= s.len() {
        match s[i..=s.len() - pat.len()].iter().position(|&b| b == pat[0]) {
            None => return None,
            Some(k) => { i += k; if &s[i..i + pat.len()] == pat { return Some(i); } i += 1; }
        }
    }
    None
}
