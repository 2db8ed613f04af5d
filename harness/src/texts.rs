use crate::sym::{self, check};
use gaoya::text::*;
use std::string::String;
use std::vec::Vec;

/// A text of known characters: the bytes, where each character starts, and whether it separates.
struct Text { s: String, start: Vec<usize>, sep: Vec<bool> }
fn sep(b: u8) -> bool {
    (b >= 33) & (b <= 47) | (b >= 58) & (b <= 64) | (b >= 91) & (b <= 96) | (b >= 123) & (b <= 126) | (b == 32) | (b == 9) | (b == 10) | (b == 12) | (b == 13)
}
impl Text {
    fn new() -> Text { Text { s: String::new(), start: std::vec![0], sep: Vec::new() } }
    fn raw(&mut self, bytes: &[u8], sep: bool) {
        unsafe { self.s.as_mut_vec().extend_from_slice(bytes); }
        self.start.push(self.s.len());
        self.sep.push(sep);
    }
    fn ascii(&mut self) { let b = sym::bits(7) as u8; self.raw(&[b], sep(b)); }
    /// Any character of 1 to `classes` bytes.
    fn any(&mut self, classes: usize) {
        let c = || 0x80 | sym::bits(6) as u8;
        match sym::choose(classes) {
            0 => self.ascii(),
            1 => { let b = 0xc0 | sym::bits(5) as u8; sym::assume(b >= 0xc2); self.raw(&[b, c()], false) }
            2 => { let b = 0xe0 | sym::bits(4) as u8; let d = c(); sym::assume(((b != 0xe0) | (d >= 0xa0)) & ((b != 0xed) | (d < 0xa0))); self.raw(&[b, d, c()], false) }
            _ => { let b = 0xf0 | sym::bits(3) as u8; let d = c(); sym::assume((b <= 0xf4) & ((b != 0xf0) | (d >= 0x90)) & ((b != 0xf4) | (d < 0x90))); self.raw(&[b, d, c(), c()], false) }
        }
    }
    fn n(&self) -> usize { self.sep.len() }
    /// Start and length of a piece in the text.
    fn at(&self, p: &str) -> (usize, usize) { ((p.as_ptr() as usize).wrapping_sub(self.s.as_ptr() as usize), p.len()) }
    fn check_split<'a, I: Iterator<Item = &'a str>>(&self, mut got: I) {
        let mut i = 0;
        let n = self.n();
        while i < n {
            if self.sep[i] { i += 1; continue; }
            let from = i;
            while i < n && !self.sep[i] { i += 1; }
            match got.next() {
                Some(p) => check(self.at(p) == (self.start[from], self.start[i] - self.start[from]), "each token is a maximal run of characters without a separator"),
                None => check(false, "no token is missing"),
            }
        }
        check(got.next().is_none(), "nothing else is a token");
    }
    fn check_shingles<'a, I: Iterator<Item = &'a str>>(&self, mut got: I, from: usize, to: usize) {
        for i in 0..self.n() {
            for size in from..=to {
                if i + size > self.n() { continue; }
                match got.next() {
                    Some(p) => check(self.at(p) == (self.start[i], self.start[i + size] - self.start[i]), "each shingle is a window of whole characters, in order"),
                    None => check(false, "no shingle is missing"),
                }
            }
        }
        check(got.next().is_none(), "there are no other shingles");
    }
}
fn any_text(n: usize, classes: usize) -> Text { let mut t = Text::new(); for _ in 0..n { t.any(classes); } t }
fn split(n: usize, classes: usize) {
    let t = any_text(n, classes);
    sym::observe(whitespace_split(&t.s).count() as u64);
    t.check_split(whitespace_split(&t.s));
    t.check_split(whitespace_split_boxed(&t.s));
}
fn shingles(n: usize, classes: usize) {
    let t = any_text(sym::choose(n + 1), classes);
    let k = 1 + sym::choose(3);
    t.check_shingles(shingle_text(&t.s, k), k, k);
    t.check_shingles(shingle_text_boxed(&t.s, k), k, k);
}
fn ranges(n: usize, classes: usize, to: usize) {
    let t = any_text(sym::choose(n + 1), classes);
    let from = 1 + sym::choose(to);
    let to = from + sym::choose(to - from + 1);
    t.check_shingles(shingle_text_range(&t.s, from, to), from, to);
    t.check_shingles(MultiShingles::new(t.s.as_str(), from, to), from, to);
}

harnesses! {
    fn t_split_ascii() { let mut t = Text::new(); for _ in 0..5 { t.ascii(); } sym::observe(whitespace_split(&t.s).count() as u64); t.check_split(whitespace_split(&t.s)); t.check_split(whitespace_split_boxed(&t.s)); }
    fn t_split_any() { split(4, 4) }
    fn t_split_empty() { split(0, 1); split(1, 4) }
    /// A long text: runs of letters around any characters.
    fn t_split_long() {
        let mut t = Text::new();
        for k in 0..3 { for _ in 0..(1 + sym::choose(2) * 150) { t.raw(b"a", false); } t.any(2); if k == 1 { for _ in 0..100 { t.raw(b" ", true); } } }
        t.check_split(whitespace_split(&t.s));
        t.check_split(whitespace_split_boxed(&t.s));
    }
    /// Many tokens.
    fn t_split_many() {
        let mut t = Text::new();
        let n = [300, 1500][sym::choose(2)];
        for i in 0..n { t.raw(&[b'a' + (i % 26) as u8], false); if i == 5 || i + 2 == n { t.any(2) } t.raw(&[[b' ', b'.', b'\n'][i % 3]], true); }
        t.check_split(whitespace_split(&t.s));
        t.check_split(whitespace_split_boxed(&t.s));
    }
    fn t_shingle() { shingles(4, 3) }
    fn t_shingle4() { shingles(3, 4) }
    fn t_shingle_long() {
        let mut t = Text::new();
        let n = 60 + sym::choose(3) * 40;
        for i in 0..n { if i % 7 == 3 { t.raw("é".as_bytes(), false) } else { t.raw(&[b'a' + (i % 26) as u8], false) } if i % 50 == 20 { t.any(4); } }
        let k = [1, 40, n, n + 5][sym::choose(4)];
        t.check_shingles(shingle_text(&t.s, k), k, k);
        t.check_shingles(shingle_text_boxed(&t.s, k), k, k);
        let from = [1, 9][sym::choose(2)];
        let to = from + [0, 2, 12][sym::choose(3)];
        t.check_shingles(shingle_text_range(&t.s, from, to), from, to);
    }
    fn t_range() { ranges(4, 3, 4) }
    fn t_range4() { ranges(3, 4, 4) }
    fn t_range_ascii() { let mut t = Text::new(); for _ in 0..8 { t.ascii(); } let from = 1 + sym::choose(4); let to = from + sym::choose(5); t.check_shingles(shingle_text_range(&t.s, from, to), from, to); }
    /// Windows of any elements.
    fn t_range_slice() {
        let d: [u8; 6] = sym::bytes();
        let d = &d[..sym::choose(7)];
        let from = 1 + sym::choose(4);
        let to = from + sym::choose(4);
        let mut got = MultiShingles::new(d, from, to);
        for i in 0..d.len() {
            for size in from..=to {
                if i + size > d.len() { continue; }
                match got.next() {
                    Some(w) => check(w.as_ptr() == d[i..].as_ptr() && w.len() == size, "each window is in its place"),
                    None => check(false, "no window is missing"),
                }
            }
        }
        check(got.next().is_none(), "there are no other windows");
    }
    /// Long windows of many elements.
    fn t_range_slice_long() {
        let any: [u8; 3] = sym::bytes();
        let d: Vec<u8> = (0..[20, 300][sym::choose(2)]).map(|i| if i % 7 == 2 { any[i % 3] } else { i as u8 }).collect();
        let d = &d[..];
        let from = [1, 5, 19][sym::choose(3)];
        let to = from + [0, 1, 12][sym::choose(3)];
        let mut got = MultiShingles::new(d, from, to);
        for i in 0..d.len() {
            for size in from..=to {
                if i + size > d.len() { continue; }
                match got.next() {
                    Some(w) => check(w.as_ptr() == d[i..].as_ptr() && w.len() == size, "each window is in its place"),
                    None => check(false, "no window is missing"),
                }
            }
        }
        check(got.next().is_none(), "there are no other windows");
    }
    /// Many tokens, long shingles.
    fn t_tokens_many() {
        let t = any_text(3, 2);
        let n = [12, 70][sym::choose(2)];
        let mut tokens: Vec<&str> = Vec::new();
        for i in 0..n { tokens.push(if i == 4 || i + 1 == n { &t.s[..] } else { ["a", "bc", "", "def"][i % 4] }); }
        let k = [1, 5, 9, 12][sym::choose(4)];
        let mut got = shingle_tokens(&tokens, k);
        for i in 0..n {
            if i + k > n { break; }
            match got.next() {
                Some(w) => {
                    let mut want: Vec<u8> = Vec::new();
                    for j in i..i + k { want.extend_from_slice(tokens[j].as_bytes()); }
                    check(w.len() == want.len(), "a token shingle is as long as its tokens");
                    let mut same = true;
                    for (x, y) in w.as_bytes().iter().zip(want.iter()) { same &= x == y; }
                    check(same, "a token shingle is the concatenation of adjacent tokens");
                }
                None => check(false, "no token shingle is missing"),
            }
        }
        check(got.next().is_none(), "there are no other token shingles");
    }
    fn t_tokens() {
        let t = any_text(4, 2);
        // tokens of 0 to 2 characters
        let mut cuts = [0usize; 4];
        let mut tokens: Vec<&str> = Vec::new();
        let mut at = 0;
        for c in cuts.iter_mut() { let n = sym::choose(3).min(t.n() - at); tokens.push(&t.s[t.start[at]..t.start[at + n]]); *c = at; at += n; }
        let n = sym::choose(5);
        tokens.truncate(n);
        let k = 1 + sym::choose(3);
        let mut got = shingle_tokens(&tokens, k);
        for i in 0..n {
            if i + k > n { break; }
            match got.next() {
                Some(w) => {
                    let mut want: Vec<u8> = Vec::new();
                    for j in i..i + k { want.extend_from_slice(tokens[j].as_bytes()); }
                    check(w.len() == want.len(), "a token shingle is as long as its tokens");
                    let mut same = true;
                    for (x, y) in w.as_bytes().iter().zip(want.iter()) { same &= x == y; }
                    check(same, "a token shingle is the concatenation of adjacent tokens");
                }
                None => check(false, "no token shingle is missing"),
            }
        }
        check(got.next().is_none(), "there are no other token shingles");
    }
}
