//! Hash-consed bit-vector / floating-point expressions with simplification on construction.
use crate::ir::{mask, sext};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, // 1 bit
    ZExt, SExt, Extract, Concat, Ite,
    // floating point on bit patterns (width 32 or 64)
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FNan, FCvt, // FCvt: f32 <-> f64
    UToF, SToF, FToU, FToS, // saturating
    Uf, // uninterpreted function c(a, b)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub k: K, pub w: u32, pub a: u32, pub b: u32, pub c: u32, pub v: u128 }

pub type E = u32;
const NONE: u32 = u32::MAX;

#[derive(Default)]
pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    /// Sorted list of variables per expression (interned).
    pub vars: Vec<std::rc::Rc<Vec<u32>>>,
    pub var_width: Vec<u32>,
    eval_memo: HashMap<E, u128>,
    ext_memo: HashMap<(E, u32, u32), E>,
    uf: Vec<bool>,
    /// number of leaves of a tree of choices between constants (0: something else)
    leaves: Vec<u8>,
    /// alternations of addition and xor below a node, ending with either
    mix: Vec<(u8, u8)>,
}

impl Exprs {
    fn mk(&mut self, n: Node) -> E {
        assert!(n.k != K::Const || n.w <= 128, "a constant wider than 128 bits");
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let vars = match n.k {
            K::Const => std::rc::Rc::new(vec![]),
            K::Var => std::rc::Rc::new(vec![n.a]),
            _ => {
                let mut kids = vec![];
                for x in [n.a, n.b, n.c] { if x != NONE && (x as usize) < self.nodes.len() { kids.push(x); } }
                if n.k == K::Uf { kids.pop(); if n.b == NONE { kids = vec![n.a]; } else { kids = vec![n.a, n.b]; } }
                if n.k == K::Extract { kids = vec![n.a]; }
                let mut v: Vec<u32> = vec![];
                let first = self.vars[kids[0] as usize].clone();
                let mut same = true;
                for k in &kids[1..] { let o = &self.vars[*k as usize]; if !o.is_empty() && !std::rc::Rc::ptr_eq(o, &first) { same = false; } }
                if same { first } else {
                    for k in kids { v.extend_from_slice(&self.vars[k as usize]); }
                    v.sort_unstable();
                    v.dedup();
                    if v.len() == first.len() { first } else { std::rc::Rc::new(v) }
                }
            }
        };
        self.nodes.push(n);
        self.vars.push(vars);
        let u = n.k == K::Uf || self.kids(e).iter().any(|&x| self.uf[x as usize]);
        self.uf.push(u);
        let l = match n.k {
            K::Const => 1,
            K::Ite => { let (x, y) = (self.leaves[n.b as usize], self.leaves[n.c as usize]); if x > 0 && y > 0 && x as u32 + y as u32 <= 16 { x + y } else { 0 } }
            _ => 0,
        };
        self.leaves.push(l);
        let (mut ma, mut mx) = (0u8, 0u8);
        for k in self.kids(e) { let (a, x) = self.mix[k as usize]; ma = ma.max(a); mx = mx.max(x); }
        if n.w >= 32 && matches!(n.k, K::Add | K::Sub) { ma = ma.max(mx.saturating_add(1)); }
        if n.k == K::Xor { mx = mx.max(ma.saturating_add(1)); }
        if n.w <= 8 { ma = 0; mx = 0; } // single bits and bytes start afresh: counters of hash bits are not mixing
        self.mix.push((ma, mx));
        self.map.insert(n, e);
        e
    }
    pub fn kids(&self, e: E) -> Vec<E> {
        let n = self.nodes[e as usize];
        match n.k {
            K::Const | K::Var => vec![],
            K::Extract => vec![n.a],
            K::Uf => if n.b == NONE { vec![n.a] } else { vec![n.a, n.b] },
            _ => [n.a, n.b, n.c].into_iter().filter(|&x| x != NONE).collect(),
        }
    }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn konst(&self, e: E) -> Option<u128> { let n = self.nodes[e as usize]; if n.k == K::Const { Some(n.v) } else { None } }
    pub fn c(&mut self, v: u128, w: u32) -> E { self.mk(Node { k: K::Const, w, a: NONE, b: NONE, c: NONE, v: v & mask(w) }) }
    pub fn var(&mut self, i: u32, w: u32) -> E {
        while self.var_width.len() <= i as usize { self.var_width.push(0); }
        self.var_width[i as usize] = w;
        self.mk(Node { k: K::Var, w, a: i, b: NONE, c: NONE, v: 0 })
    }
    fn op2(&mut self, k: K, w: u32, a: E, b: E) -> E { self.mk(Node { k, w, a, b, c: NONE, v: 0 }) }

    pub fn fold(k: K, w: u32, a: u128, b: u128, wa: u32) -> u128 {
        let m = mask(w);
        match k {
            K::Add => a.wrapping_add(b) & m,
            K::Sub => a.wrapping_sub(b) & m,
            K::Mul => a.wrapping_mul(b) & m,
            K::UDiv => if b == 0 { m } else { a / b },
            K::URem => if b == 0 { a } else { a % b },
            K::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
            K::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
            K::And => a & b,
            K::Or => a | b,
            K::Xor => a ^ b,
            K::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
            K::LShr => if b >= w as u128 { 0 } else { a >> b },
            K::AShr => { let s = sext(a, w); let sh = if b >= w as u128 { w - 1 } else { b as u32 }; ((s >> sh.min(127)) as u128) & m }
            K::Eq => (a == b) as u128,
            K::Ult => (a < b) as u128,
            K::Slt => (sext(a, wa) < sext(b, wa)) as u128,
            _ => unreachable!(),
        }
    }

    pub fn bin(&mut self, k: K, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        debug_assert_eq!(na.w, nb.w);
        let rw = if matches!(k, K::Eq | K::Ult | K::Slt) { 1 } else { w };
        let (ca, cb) = (na.k == K::Const, nb.k == K::Const);
        if ca && cb { let v = Self::fold(k, rw, na.v, nb.v, w); return self.c(v, rw); }
        let (la, lb) = (self.leaves[a as usize] as u32, self.leaves[b as usize] as u32);
        if la > 0 && lb > 0 && (la * lb <= 16 || (na.k == K::Ite && nb.k == K::Ite && na.a == nb.a)) && w > 1 {
            if na.k == K::Ite {
                let (b1, b2) = if nb.k == K::Ite && nb.a == na.a { (nb.b, nb.c) } else { (b, b) };
                let x = self.bin(k, na.b, b1);
                let y = self.bin(k, na.c, b2);
                return self.ite(na.a, x, y);
            }
            let x = self.bin(k, a, nb.b);
            let y = self.bin(k, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        // canonical: constant on the right for commutative operators
        if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) && (ca || (!cb && a > b)) { return self.bin_c(k, b, a, w, rw); }
        self.bin_c(k, a, b, w, rw)
    }
    fn bin_c(&mut self, k: K, a: E, b: E, w: u32, rw: u32) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let cb = nb.k == K::Const;
        let m = mask(w);
        if a == b {
            match k {
                K::Sub | K::Xor => return self.c(0, w),
                K::And | K::Or => return a,
                K::Eq => return self.c(1, 1),
                K::Ult | K::Slt => return self.c(0, 1),
                K::URem => {}
                _ => {}
            }
        }
        if k == K::Xor && !cb {
            if na.k == K::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
            if nb.k == K::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
        }
        if cb {
            let v = nb.v;
            match k {
                K::Add | K::Sub | K::Or | K::Xor | K::Shl | K::LShr | K::AShr if v == 0 => return a,
                K::Mul if v == 1 => return a,
                K::Mul if v == 0 => return b,
                K::Mul if v.is_power_of_two() => { let s = self.c(v.trailing_zeros() as u128, w); return self.bin(K::Shl, a, s); }
                K::UDiv if v == 1 => return a,
                K::UDiv if v.is_power_of_two() => { let s = self.c(v.trailing_zeros() as u128, w); return self.bin(K::LShr, a, s); }
                K::URem if v.is_power_of_two() => { let s = self.c(v - 1, w); return self.bin(K::And, a, s); }
                K::And if v == 0 => return b,
                K::And if v == m => return a,
                K::Or if v == m => return b,
                K::Shl | K::LShr if v >= w as u128 => return self.c(0, w),
                K::Ult if v == 0 => return self.c(0, 1),
                K::Ult if v == 1 => { let z = self.c(0, w); return self.bin(K::Eq, a, z); }
                K::Sub => { let nv = self.c(v.wrapping_neg(), w); return self.bin(K::Add, a, nv); }
                K::Add if na.k == K::Add => {
                    if let Some(x) = self.konst(na.b) { let s = self.c(x.wrapping_add(v), w); return self.bin(K::Add, na.a, s); }
                }
                _ => {}
            }
            // masks: and with low-bit mask -> zext(extract)
            if k == K::And && v != 0 && (v & (v + 1)) == 0 && w > 1 {
                let lw = 128 - v.leading_zeros();
                if lw < w { let x = self.extract(a, 0, lw); return self.zext(x, w); }
            }
            if k == K::LShr { let sh = v as u32; let x = self.extract(a, sh, w - sh); return self.zext(x, w); }
            if k == K::Shl { let sh = v as u32; let x = self.extract(a, 0, w - sh); let z = self.c(0, sh); return self.concat(x, z); }
            if k == K::Eq {
                if w == 1 { return if v == 1 { a } else { self.not(a) }; }
                match na.k {
                    K::ZExt => { let iw = self.w(na.a); if v > mask(iw) { return self.c(0, 1); } let cc = self.c(v, iw); return self.bin(K::Eq, na.a, cc); }
                    K::SExt => { let iw = self.w(na.a); let low = v & mask(iw); if (sext(low, iw) as u128) & m != v { return self.c(0, 1); } let cc = self.c(low, iw); return self.bin(K::Eq, na.a, cc); }
                    K::Concat => {
                        let lw = self.w(na.b);
                        let hi = self.c(v >> lw, w - lw);
                        let lo = self.c(v & mask(lw), lw);
                        let x = self.bin(K::Eq, na.a, hi);
                        let y = self.bin(K::Eq, na.b, lo);
                        return self.bin(K::And, x, y);
                    }
                    K::Ite => {
                        let (t, e) = (self.konst(na.b), self.konst(na.c));
                        if t.is_some() || e.is_some() {
                            let x = self.bin(K::Eq, na.b, b);
                            let y = self.bin(K::Eq, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                    K::Add => if let Some(x) = self.konst(na.b) { let cc = self.c(v.wrapping_sub(x), w); return self.bin(K::Eq, na.a, cc); },
                    K::Xor => if let Some(x) = self.konst(na.b) { let cc = self.c(v ^ x, w); return self.bin(K::Eq, na.a, cc); },
                    _ => {}
                }
            }
            if k == K::Ult {
                match na.k {
                    K::ZExt => { let iw = self.w(na.a); if v > mask(iw) { return self.c(1, 1); } let cc = self.c(v, iw); return self.bin(K::Ult, na.a, cc); }
                    K::Ite if self.konst(na.b).is_some() && self.konst(na.c).is_some() => {
                        let x = self.bin(K::Ult, na.b, b);
                        let y = self.bin(K::Ult, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    _ => {}
                }
            }
            if matches!(k, K::Xor) && w == 1 && v == 1 {
                // not
                if na.k == K::Xor { if let Some(1) = self.konst(na.b) { return na.a; } }
            }
            if matches!(k, K::Add | K::And | K::Or | K::Xor | K::Mul) && na.k == K::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() && rw > 1 {
                let x = self.bin(k, na.b, b);
                let y = self.bin(k, na.c, b);
                return self.ite(na.a, x, y);
            }
        } else if na.k == K::Const {
            // constant on the left (non-commutative)
            match k {
                K::Ult => {
                    let v = na.v;
                    if v == m { return self.c(0, 1); }
                    if nb.k == K::ZExt { let iw = self.w(nb.a); if v >= mask(iw) { return self.c(0, 1); } let cc = self.c(v, iw); return self.bin(K::Ult, cc, nb.a); }
                    if v == 0 { let z = self.c(0, w); let e = self.bin(K::Eq, b, z); return self.not(e); }
                    if nb.k == K::Ite && self.konst(nb.b).is_some() && self.konst(nb.c).is_some() {
                        let x = self.bin(K::Ult, a, nb.b);
                        let y = self.bin(K::Ult, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                K::Shl | K::LShr | K::UDiv | K::URem if na.v == 0 => return a,
                _ => {}
            }
        }
        // a comparison with a minimum or maximum the operand is part of
        if k == K::Ult && nb.k == K::Ite && (nb.b == a || nb.c == a) {
            return if nb.c == a { let x = self.bin(K::Ult, a, nb.b); self.bin(K::And, nb.a, x) } else { let x = self.bin(K::Ult, a, nb.c); let n = self.not(nb.a); self.bin(K::And, n, x) };
        }
        if k == K::Ult && na.k == K::Ite && (na.b == b || na.c == b) {
            return if na.c == b { let x = self.bin(K::Ult, na.b, b); self.bin(K::And, na.a, x) } else { let x = self.bin(K::Ult, na.c, b); let n = self.not(na.a); self.bin(K::And, n, x) };
        }
        if w == 1 {
            match k {
                K::Eq => { let x = self.bin(K::Xor, a, b); return self.not(x); }
                K::And if na.k == K::Ult && nb.k == K::Ult && na.a == nb.b && na.b == nb.a => return self.c(0, 1),
                // y < x and not x < y
                K::And if na.k == K::Ult && self.is_not_ult(b, na.b, na.a) => return a,
                K::And if nb.k == K::Ult && self.is_not_ult(a, nb.b, nb.a) => return b,
                K::And if self.not_ult(a).is_some() && self.not_ult(a) == self.not_ult(b).map(|(x, y)| (y, x)) => { let (x, y) = self.not_ult(a).unwrap(); return self.bin(K::Eq, x, y); }
                K::And | K::Or => {
                    // x & !x
                    if self.is_not(a, b) { return self.c(if k == K::And { 0 } else { 1 }, 1); }
                }
                K::Add | K::Sub => return self.bin(K::Xor, a, b),
                _ => {}
            }
        }
        if matches!(k, K::And | K::Or | K::Xor) && na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.bin(k, na.a, nb.a);
            return self.zext(x, w);
        }
        if k == K::Or || k == K::Add {
            // (x << s) | zext(y) with disjoint bits -> concat
            if let Some(r) = self.try_disjoint(a, b) { return r; }
            if let Some(r) = self.try_disjoint(b, a) { return r; }
        }
        if matches!(k, K::Eq | K::Ult) {
            if na.k == K::ZExt && nb.k == K::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let mw = wa.max(wb);
                let x = self.zext(na.a, mw);
                let y = self.zext(nb.a, mw);
                return self.bin(k, x, y);
            }
            if k == K::Eq && na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.bin(K::Eq, na.a, nb.a);
                let y = self.bin(K::Eq, na.b, nb.b);
                return self.bin(K::And, x, y);
            }
        }
        self.op2(k, rw, a, b)
    }
    /// e = not x < y
    fn not_ult(&self, e: E) -> Option<(E, E)> {
        let n = self.n(e);
        if n.k != K::Xor || self.konst(n.b) != Some(1) { return None; }
        let u = self.n(n.a);
        if u.k == K::Ult { Some((u.a, u.b)) } else { None }
    }
    fn is_not_ult(&self, e: E, x: E, y: E) -> bool { self.not_ult(e) == Some((x, y)) }
    fn is_not(&self, a: E, b: E) -> bool {
        let f = |x: E, y: E| { let n = self.n(x); n.k == K::Xor && n.a == y && self.konst(n.b) == Some(1) };
        f(a, b) || f(b, a)
    }
    fn try_disjoint(&mut self, hi: E, lo: E) -> Option<E> {
        // hi = concat(x, 0_s), lo = zext(y), width(y) <= s
        let nh = self.n(hi);
        if nh.k != K::Concat || self.konst(nh.b) != Some(0) { return None; }
        let s = self.w(nh.b);
        let nl = self.n(lo);
        if nl.k == K::ZExt && self.w(nl.a) <= s { let y = self.zext(nl.a, s); return Some(self.concat(nh.a, y)); }
        if nl.k == K::Concat && self.w(nl.b) < s && self.known_zero_above(lo, s) { let y = self.extract(lo, 0, s); return Some(self.concat(nh.a, y)); }
        None
    }
    fn known_zero_above(&self, e: E, s: u32) -> bool {
        let n = self.n(e);
        match n.k {
            K::Const => n.v >> s == 0,
            K::ZExt => self.w(n.a) <= s,
            K::Concat => { let lw = self.w(n.b); if s <= lw { self.konst(n.a) == Some(0) && self.known_zero_above(n.b, s) } else { self.known_zero_above(n.a, s - lw) } }
            _ => false,
        }
    }
    pub fn not(&mut self, a: E) -> E { let one = self.c(1, 1); self.bin(K::Xor, a, one) }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        debug_assert!(w > n.w);
        if n.k == K::Const { return self.c(n.v, w); }
        if n.k == K::ZExt { return self.zext(n.a, w); }
        if n.k == K::Ite && self.leaves[a as usize] > 0 { let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y); }
        self.mk(Node { k: K::ZExt, w, a, b: NONE, c: NONE, v: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        if n.k == K::Const { return self.c(sext(n.v, n.w) as u128, w); }
        if n.k == K::ZExt { return self.zext(n.a, w); }
        if n.k == K::Ite && self.leaves[a as usize] > 0 { let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y); }
        self.mk(Node { k: K::SExt, w, a, b: NONE, c: NONE, v: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w { return a; }
        debug_assert!(lo + w <= n.w);
        if matches!(n.k, K::Const | K::Extract) { return self.extract1(n, a, lo, w); }
        if let Some(&r) = self.ext_memo.get(&(a, lo, w)) { return r; }
        let r = self.extract1(n, a, lo, w);
        self.ext_memo.insert((a, lo, w), r);
        r
    }
    fn extract1(&mut self, n: Node, a: E, lo: u32, w: u32) -> E {
        match n.k {
            K::Const => return self.c(n.v >> lo, w),
            K::Extract => return self.extract(n.a, n.b + lo, w),
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.c(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            K::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } }
            K::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            K::And | K::Or | K::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.k, x, y); }
            K::Add | K::Sub | K::Mul if lo == 0 && !self.deep(a) => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.k, x, y); }
            K::Ite if self.konst(n.b).is_some() || self.konst(n.c).is_some() => { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y); }
            _ => {}
        }
        self.mk(Node { k: K::Extract, w, a, b: lo, c: NONE, v: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if nh.k == K::Const && nl.k == K::Const { return self.c((nh.v << nl.w) | nl.v, w); }
        if nh.k == K::Const && nh.v == 0 { return self.zext(lo, w); }
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + nl.w { return self.extract(nh.a, nl.b, w); }
        if nl.k == K::Extract && nl.a != hi && nh.k == K::Concat {
            let h2 = self.n(nh.b);
            if h2.k == K::Extract && h2.a == nl.a && h2.b == nl.b + nl.w { let x = self.extract(nl.a, nl.b, nl.w + h2.w); return self.concat(nh.a, x); }
        }
        if nh.k == K::ZExt { let x = self.concat(nh.a, lo); return self.zext(x, w); }
        self.mk(Node { k: K::Concat, w, a: hi, b: lo, c: NONE, v: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if let Some(v) = self.konst(c) { return if v == 1 { t } else { e }; }
        if t == e { return t; }
        let nc = self.n(c);
        if nc.k == K::Xor && self.konst(nc.b) == Some(1) { return self.ite(nc.a, e, t); }
        let (nt, ne) = (self.n(t), self.n(e));
        if nt.w == 1 {
            match (self.konst(t), self.konst(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(K::Or, c, e),
                (Some(0), None) => { let n = self.not(c); return self.bin(K::And, n, e); }
                (None, Some(0)) => return self.bin(K::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(K::Or, n, t); }
                _ => {}
            }
        }
        if nt.k == K::Ite && nt.a == c { return self.ite(c, nt.b, e); }
        if ne.k == K::Ite && ne.a == c { return self.ite(c, t, ne.c); }
        self.mk(Node { k: K::Ite, w: nt.w, a: c, b: t, c: e, v: 0 })
    }
    pub fn fp(&mut self, k: K, w: u32, a: E, b: E) -> E {
        let n = Node { k, w, a, b, c: NONE, v: 0 };
        if let Some(x) = self.konst(a) {
            let y = if b == NONE { Some(0) } else { self.konst(b) };
            if let Some(y) = y { let v = self.fold_fp(n, x, y); return self.c(v, w); }
        }
        self.mk(n)
    }
    pub fn uf(&mut self, name: u32, w: u32, a: E, b: E) -> E { self.mk(Node { k: K::Uf, w, a, b, c: NONE, v: name as u128 }) }
    fn fold_fp(&self, n: Node, x: u128, y: u128) -> u128 {
        let wa = self.w(n.a);
        let d = |v: u128| f64::from_bits(v as u64);
        let s = |v: u128| f32::from_bits(v as u32);
        if wa == 32 && !matches!(n.k, K::UToF | K::SToF) {
            let (a, b) = (s(x), s(y));
            return match n.k {
                K::FAdd => (a + b).to_bits() as u128, K::FSub => (a - b).to_bits() as u128, K::FMul => (a * b).to_bits() as u128, K::FDiv => (a / b).to_bits() as u128,
                K::FEq => (a == b) as u128, K::FLt => (a < b) as u128, K::FLe => (a <= b) as u128, K::FNan => a.is_nan() as u128,
                K::FCvt => (a as f64).to_bits() as u128,
                K::FToU => f2u(a as f64, n.w), K::FToS => f2s(a as f64, n.w),
                _ => unreachable!(),
            };
        }
        let (a, b) = (d(x), d(y));
        match n.k {
            K::FAdd => (a + b).to_bits() as u128, K::FSub => (a - b).to_bits() as u128, K::FMul => (a * b).to_bits() as u128, K::FDiv => (a / b).to_bits() as u128,
            K::FEq => (a == b) as u128, K::FLt => (a < b) as u128, K::FLe => (a <= b) as u128, K::FNan => a.is_nan() as u128,
            K::FCvt => (a as f32).to_bits() as u128,
            K::UToF => if n.w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 },
            K::SToF => { let v = sext(x, wa); if n.w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 } }
            K::FToU => f2u(a, n.w), K::FToS => f2s(a, n.w),
            _ => unreachable!(),
        }
    }

    /// Value of `e` under an assignment of the variables.
    pub fn eval(&mut self, e: E, m: &[u128]) -> u128 {
        self.eval_memo.clear();
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u128]) -> u128 {
        let n = self.nodes[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Var => return m.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = self.eval_memo.get(&e) { return v; }
        let r = match n.k {
            K::ZExt => self.ev(n.a, m),
            K::SExt => { let iw = self.w(n.a); (sext(self.ev(n.a, m), iw) as u128) & mask(n.w) }
            K::Extract => (self.ev(n.a, m) >> n.b) & mask(n.w),
            K::Concat => { let lw = self.w(n.b); (self.ev(n.a, m) << lw) | self.ev(n.b, m) }
            K::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            K::FAdd | K::FSub | K::FMul | K::FDiv | K::FEq | K::FLt | K::FLe => { let x = self.ev(n.a, m); let y = self.ev(n.b, m); self.fold_fp(n, x, y) }
            K::FNan | K::FCvt | K::UToF | K::SToF | K::FToU | K::FToS => { let x = self.ev(n.a, m); self.fold_fp(n, x, 0) }
            K::Uf => 0,
            _ => { let wa = self.w(n.a); let x = self.ev(n.a, m); let y = self.ev(n.b, m); Self::fold(n.k, n.w, x, y, wa) }
        };
        self.eval_memo.insert(e, r);
        r
    }
    pub fn has_uf(&self, e: E) -> bool { self.uf[e as usize] }
    /// An addition deep in a hash function's mixing.
    pub fn deep(&self, e: E) -> bool { let n = self.n(e); n.w >= 32 && matches!(n.k, K::Add | K::Sub) && self.mix[e as usize].0 >= 6 }
    pub fn none() -> E { NONE }
}

pub fn f2u(a: f64, w: u32) -> u128 { if a.is_nan() || a <= 0.0 { 0 } else { let v = a as u128; if w < 128 && v > mask(w) { mask(w) } else { v } } }
pub fn f2s(a: f64, w: u32) -> u128 {
    if a.is_nan() { return 0; }
    let v = a as i128;
    let hi = (mask(w) >> 1) as i128;
    let lo = -hi - 1;
    (v.clamp(lo, hi) as u128) & mask(w)
}
