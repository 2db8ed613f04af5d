//! Byte-addressed memory of separate objects, copy-on-write between states.
//! Object `i` occupies addresses `i << 32 ..`; its contents are concrete bytes with an optional
//! overlay of symbolic bytes.
use crate::expr::{Exprs, E};
use crate::ir::Val;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<u64>>, pub kind: u8, pub ro: bool }
pub const HEAP: u8 = 0;
pub const STACK: u8 = 1;
pub const GLOBAL: u8 = 2;

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Chunk>>, next: u64 }

impl Mem {
    pub fn new(first: u64) -> Mem {
        let mut m = Mem { chunks: vec![], next: first };
        m.grow(first);
        m
    }
    fn grow(&mut self, idx: u64) {
        while self.chunks.len() <= idx as usize / CH { self.chunks.push(Rc::new(vec![None; CH])); }
    }
    pub fn put(&mut self, idx: u64, o: Obj) {
        self.grow(idx);
        Rc::make_mut(&mut self.chunks[idx as usize / CH])[idx as usize % CH] = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: u64, kind: u8) -> u64 {
        let i = self.next;
        self.next += 1;
        self.put(i, Obj { data: vec![0; size as usize], sym: None, kind, ro: false });
        i << 32
    }
    pub fn get(&self, idx: u64) -> Option<&Rc<Obj>> {
        self.chunks.get(idx as usize / CH).and_then(|c| c[idx as usize % CH].as_ref())
    }
    pub fn get_mut(&mut self, idx: u64) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(idx as usize / CH)?;
        if c[idx as usize % CH].is_none() { return None; }
        Rc::make_mut(c)[idx as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, idx: u64) {
        if let Some(c) = self.chunks.get_mut(idx as usize / CH) { if c[idx as usize % CH].is_some() { Rc::make_mut(c)[idx as usize % CH] = None; } }
    }
    /// Makes the contents `if c { self } else { other }`. False when the objects differ in shape.
    pub fn join(&mut self, ex: &mut Exprs, other: &Mem, c: E) -> bool {
        let n = self.chunks.len().max(other.chunks.len());
        let mut todo = vec![];
        for ci in 0..n {
            if let (Some(a), Some(b)) = (self.chunks.get(ci), other.chunks.get(ci)) { if Rc::ptr_eq(a, b) { continue; } }
            for k in 0..CH {
                let (a, b) = (self.chunks.get(ci).and_then(|x| x[k].as_ref()), other.chunks.get(ci).and_then(|x| x[k].as_ref()));
                match (a, b) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        if Rc::ptr_eq(a, b) { continue; }
                        if a.data.len() != b.data.len() { return false; }
                        todo.push((ci * CH + k) as u64);
                    }
                    _ => return false,
                }
            }
        }
        self.next = self.next.max(other.next);
        for idx in todo {
            let a = self.get(idx).unwrap().clone();
            let b = other.get(idx).unwrap().clone();
            let at = |o: &Obj, i: usize| -> (u8, u64) { match &o.sym { Some(s) if s[i] != 0 => (0, s[i]), _ => (o.data[i], 0) } };
            let len = a.data.len();
            let mut i = 0;
            while i < len {
                if at(&a, i) == at(&b, i) { i += 1; continue; }
                // the smallest aligned word around the differing bytes
                let mut j = i;
                while j < len && j < (i / 8 + 1) * 8 && at(&a, j) != at(&b, j) { j += 1; }
                let mut size = 1;
                let mut start = i;
                while start + size < j { size *= 2; start = i / size * size; }
                while start + size > len { size /= 2; start = i / size * size; }
                let base = idx << 32 | start as u64;
                let (va, vb) = (self.read(ex, base, size), other.read(ex, base, size));
                let w = 8 * size as u32;
                let ea = match va { Val::I(x) => ex.c(x, w), Val::S(e) => e, _ => return false };
                let eb = match vb { Val::I(x) => ex.c(x, w), Val::S(e) => e, _ => return false };
                let r = ex.ite(c, ea, eb);
                let v = match ex.konst(r) { Some(x) => Val::I(x), None => Val::S(r) };
                self.write(base, size, &v);
                i = start + size;
            }
        }
        true
    }
    pub fn live_heap(&self) -> usize { self.chunks.iter().map(|c| c.iter().filter(|o| o.as_ref().map_or(false, |o| o.kind == HEAP)).count()).sum() }

    /// Bounds check. Err(description) when the access is invalid.
    pub fn check(&self, addr: u64, size: u64, write: bool) -> Result<(), String> {
        let idx = addr >> 32;
        let off = addr & 0xffff_ffff;
        match self.get(idx) {
            None => Err(if idx == 0 { format!("access through invalid pointer {:#x}", addr) } else { "access to freed or unallocated memory (use after free)".to_string() }),
            Some(o) => {
                if off + size > o.data.len() as u64 { Err(format!("out-of-bounds access: offset {} size {} in object of {} bytes", off, size, o.data.len())) }
                else if write && o.ro { Err("write to constant memory".to_string()) }
                else { Ok(()) }
            }
        }
    }
    /// Reads `n` bytes (n <= 16), already bounds-checked, as a value of `8n` bits.
    pub fn read(&self, ex: &mut Exprs, addr: u64, n: usize) -> Val {
        let o = self.get(addr >> 32).unwrap();
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|&x| x != 0) {
                // whole expression?
                let e0 = s[off];
                if e0 != 0 && (e0 & 0xff) == 0 {
                    let e = (e0 >> 8) as u32 - 1;
                    if ex.w(e) as usize == 8 * n && (1..n).all(|k| s[off + k] == e0 + k as u64) { return Val::S(e); }
                }
                let mut acc: Option<E> = None;
                for k in (0..n).rev() {
                    let b = Self::byte_e(ex, o.data[off + k], s[off + k]);
                    acc = Some(match acc { None => b, Some(a) => ex.concat(a, b) });
                }
                let e = acc.unwrap();
                return match ex.konst(e) { Some(v) => Val::I(v), None => Val::S(e) };
            }
        }
        let mut v: u128 = 0;
        for k in (0..n).rev() { v = (v << 8) | o.data[off + k] as u128; }
        Val::I(v)
    }
    fn byte_e(ex: &mut Exprs, d: u8, s: u64) -> E {
        if s == 0 { ex.c(d as u128, 8) } else { let e = (s >> 8) as u32 - 1; let i = (s & 0xff) as u32; ex.extract(e, 8 * i, 8) }
    }
    pub fn byte(&self, ex: &mut Exprs, addr: u64) -> Val { self.read(ex, addr, 1) }
    pub fn write(&mut self, addr: u64, n: usize, v: &Val) {
        let o = self.get_mut(addr >> 32).unwrap();
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::I(x) => {
                let mut x = *x;
                for k in 0..n { o.data[off + k] = x as u8; x >>= 8; }
                if let Some(s) = &mut o.sym { for k in 0..n { s[off + k] = 0; } }
            }
            Val::S(e) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for k in 0..n { s[off + k] = ((*e as u64 + 1) << 8) | k as u64; }
            }
            Val::A(_) => unreachable!(),
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) {
        if n == 0 { return; }
        let so = self.get(src >> 32).unwrap().clone();
        let s = (src & 0xffff_ffff) as usize;
        let o = self.get_mut(dst >> 32).unwrap();
        let d = (dst & 0xffff_ffff) as usize;
        o.data[d..d + n].copy_from_slice(&so.data[s..s + n]);
        match &so.sym {
            Some(x) => {
                let len = o.data.len();
                if o.sym.is_some() || x[s..s + n].iter().any(|&y| y != 0) {
                    let t = o.sym.get_or_insert_with(|| vec![0; len]);
                    t[d..d + n].copy_from_slice(&x[s..s + n]);
                }
            }
            None => if let Some(t) = &mut o.sym { for k in 0..n { t[d + k] = 0; } },
        }
    }
}
