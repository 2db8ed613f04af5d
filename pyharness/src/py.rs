//! Calling the extension module as Python does: classes and methods by name.
use pyo3::types::PyModule;
pub use pyo3::Obj;
use pyo3::{Instance, PyResult};
use std::boxed::Box;
use std::string::String;
use std::vec::Vec;

pub struct Index { pub ix: Box<dyn Instance> }
pub fn create(module: &str, class: &str, args: &[Obj], kw: &[(&str, Obj)]) -> PyResult<Index> {
    let root = PyModule::root("gaoya");
    pygaoya::__verif_module(root)?;
    let new = match root.class(module, class) { Some(n) => n, None => panic!("the class is not registered") };
    Ok(Index { ix: new(args, kw)? })
}
impl Index {
    pub fn call(&mut self, m: &str, args: &[Obj]) -> Obj {
        match self.ix.call(m, args) { Ok(o) => o, Err(_) => panic!("a call raises an exception") }
    }
    pub fn ids(&mut self, m: &str, args: &[Obj]) -> Vec<i64> { ids(&self.call(m, args)) }
}
pub fn s(x: &[u8]) -> Obj { Obj::Str(unsafe { String::from_utf8_unchecked(x.to_vec()) }) }
pub fn words(d: &[&str]) -> Obj { Obj::List(d.iter().map(|w| Obj::Str(String::from(*w))).collect()) }
pub fn int(x: usize) -> Obj { Obj::Int(x as i128) }
pub fn list(v: Vec<Obj>) -> Obj { Obj::List(v) }
pub fn range(r: Option<(usize, usize)>) -> Obj { match r { None => Obj::None, Some((a, b)) => Obj::Tuple(std::vec![int(a), int(b)]) } }
pub fn items(o: &Obj) -> &Vec<Obj> { match o { Obj::List(v) | Obj::Tuple(v) => v, _ => panic!("not a list") } }
pub fn num(o: &Obj) -> i128 { match o { Obj::Int(x) => *x, _ => panic!("not an int") } }
pub fn flt(o: &Obj) -> f64 { match o { Obj::Float(x) => *x, _ => panic!("not a float") } }
pub fn ids(o: &Obj) -> Vec<i64> { items(o).iter().map(|x| num(x) as i64).collect() }

/// The words of a document, as the documentation defines them.
pub fn split(d: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut cur = Vec::new();
    for &b in d {
        if b.is_ascii_punctuation() || b.is_ascii_whitespace() { if !cur.is_empty() { out.push(cur); cur = Vec::new(); } } else { cur.push(b) }
    }
    if !cur.is_empty() { out.push(cur) }
    out
}
fn chars(d: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    for &b in d { if b & 0xc0 == 0x80 { out.last_mut().unwrap().push(b) } else { out.push(std::vec![b]) } }
    out
}
/// A document in lower case, if `lower`.
pub fn low(d: &[u8], lower: bool) -> Vec<u8> {
    let mut d = d.to_vec();
    if lower {
        let mut i = 0;
        while i < d.len() {
            if d[i] >= b'A' && d[i] <= b'Z' { d[i] += 32 }
            if d[i] == 0xc3 && d[i + 1] >= 0x80 && d[i + 1] <= 0x9e { d[i + 1] += 32; i += 1 } // À .. Þ
            i += 1;
        }
    }
    d
}
/// The n-grams of a document, with repetitions, sorted.
pub fn grams(d: &[u8], by_char: bool, range: (usize, usize), lower: bool) -> Vec<Vec<u8>> {
    let d = low(d, lower);
    let units = if by_char { chars(&d) } else { split(&d) };
    let mut out = Vec::new();
    for n in range.0..=range.1 {
        let mut i = 0;
        while i + n <= units.len() {
            let mut g = std::vec![n as u8];
            for u in &units[i..i + n] { g.extend_from_slice(u); g.push(0); }
            out.push(g);
            i += 1;
        }
    }
    out.sort();
    out
}
pub fn set(mut v: Vec<Vec<u8>>) -> Vec<Vec<u8>> { v.dedup(); v }
pub fn same(a: &Vec<Vec<u8>>, b: &Vec<Vec<u8>>) -> bool {
    if a.len() != b.len() { return false; }
    for i in 0..a.len() {
        if a[i].len() != b[i].len() { return false; }
        for j in 0..a[i].len() { if a[i][j] != b[i][j] { return false; } }
    }
    true
}
pub fn has(v: &Vec<i64>, id: i64) -> bool { let mut r = false; for &x in v { r |= x == id; } r }
/// The same ids, each once.
pub fn same_ids(a: &Vec<i64>, b: &Vec<i64>) -> bool {
    let mut r = a.len() == b.len();
    for &x in a { let mut n = 0; for &y in b { n += (x == y) as usize; } r &= n == 1; }
    r
}
