use crate::env;
use crate::oracle::{self, Thr};
use crate::sym::{self, check};
use gaoya::minhash::{MinHashStringIndex, MinHasher, MinHasher64V1};
use gaoya::text::whitespace_split;
use std::io::{self, BufReader, Read};
use std::string::String;
use std::vec::Vec;

fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
fn ascii(n: usize) -> Vec<u8> { (0..n).map(|_| sym::bits(7) as u8).collect() }
/// Lines as `BufRead::lines` defines them: ended by \n or \r\n, the last one maybe not ended.
fn lines(c: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    for &b in c {
        if b == b'\n' {
            if let Some(&b'\r') = cur.last() { cur.pop(); }
            out.push(cur);
            cur = Vec::new();
        } else { cur.push(b) }
    }
    if !cur.is_empty() { out.push(cur) }
    out
}
/// The history so far, and what it means.
struct Spec { ix: MinHashStringIndex, docs: Vec<Vec<u8>>, bands: usize, width: usize, thr: Thr }
impl Spec {
    fn new(bands: usize, width: usize, thr: Thr) -> Spec { Spec { ix: MinHashStringIndex::new(bands, width, thr.f64()), docs: Vec::new(), bands, width, thr } }
    fn add(&mut self, route: usize, content: &[u8]) {
        let new = lines(content);
        match route {
            0 => for l in &new { self.ix.insert(text(l)); },
            1 => self.ix.load_from_lines(&mut BufReader::new(content)),
            2 => { let ix = &mut self.ix; let r = env::with_file(Some(content), |p| ix.load_from_file(p)); check(matches!(r, Ok(n) if n == new.len()), "loading a file reports the number of its lines"); }
            _ => { let ix = &mut self.ix; let r = env::with_file(Some(content), |p| ix.load_from_file_parallel(p)); check(matches!(r, Ok(n) if n == new.len()), "parallel loading of a file reports the number of its lines"); }
        }
        self.docs.extend(new);
        check(self.ix.size() == self.docs.len(), "every line is a document");
    }
    fn no_file(&mut self) {
        let ix = &mut self.ix;
        check(env::with_file(None, |p| ix.load_from_file(p)).is_err(), "a missing file is an error");
        check(env::with_file(None, |p| ix.load_from_file_parallel(p)).is_err(), "a missing file is an error when loading in parallel");
        check(self.ix.size() == self.docs.len(), "a missing file adds no document");
    }
    fn broken_file(&mut self) {
        let ix = &mut self.ix;
        check(env::with_broken_file(|p| ix.load_from_file(p)).is_err(), "a file that cannot be read is an error");
        check(env::with_broken_file(|p| ix.load_from_file_parallel(p)).is_err(), "a file that cannot be read is an error when loading in parallel");
        check(self.ix.size() == self.docs.len(), "a file that cannot be read adds no document");
    }
    /// The answer is the multiset of the texts whose signature qualifies.
    fn query(&self, q: &[u8]) {
        let h = MinHasher64V1::new(self.bands * self.width);
        let qs = h.create_signature(whitespace_split(&text(q)));
        let want: Vec<bool> = self.docs.iter().map(|d| oracle::answers(&h.create_signature(whitespace_split(&text(d))), &qs, self.bands, self.width, self.thr)).collect();
        let got = self.ix.query(&text(q));
        let mut n = 0;
        for &w in &want { n += w as usize; }
        check(got.len() == n, "the answer has as many texts as there are similar documents");
        for (i, d) in self.docs.iter().enumerate() {
            // how often this text was stored in a similar document, and how often it is in the answer
            let mut stored = 0;
            for (e, &w) in self.docs.iter().zip(want.iter()) { stored += (w & same(d, e)) as usize; }
            let mut found = 0;
            for g in got.iter() { found += same(d, g.as_bytes()) as usize; }
            check(!want[i] | (found == stored), "a stored text that is similar is in the answer, as often as it was stored");
        }
        for g in got.iter() {
            let mut any = false;
            for d in &self.docs { any |= same(d, g.as_bytes()); }
            check(any, "the answer has stored texts only");
        }
        sym::observe(got.len() as u64);
    }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut s = true;
    for i in 0..a.len() { s &= a[i] == b[i]; }
    s
}

/// A reader that fails after its data, every time.
struct Failing<'a> { data: &'a [u8] }
impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.data.is_empty() { return Err(io::Error::from(io::ErrorKind::ConnectionReset)); }
        let n = self.data.len().min(buf.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
/// Characters that matter to the loaders: letters, separators, line ends; each explored.
fn chars(n: usize) -> Vec<u8> { (0..n).map(|_| b"ab \n\r."[sym::choose(6)]).collect() }
fn letter() -> u8 { b'a' + sym::choose(3) as u8 }

harnesses! {
    /// A file of 3 characters, after one insertion.
    fn n_load3() {
        let mut s = Spec::new(2, 1, Thr { num: 1, den: 2 });
        s.add(0, &[letter()]);
        s.add(sym::choose(4), &chars(3));
        s.query(&[b'a']);
        s.query(&[b'b', b' ', b'a']);
    }
    /// Loading twice, by any routes.
    fn n_twice() {
        let mut s = Spec::new(1, 1, Thr { num: 1, den: 2 });
        for _ in 0..2 { let mut c = std::vec![letter()]; if sym::flag() { c.push(b'\n'); c.push(letter()); } s.add(sym::choose(4), &c); }
        s.query(&[b'a']);
        s.query(&[b'b']);
    }
    /// Any one-character document and query.
    fn n_any() {
        let mut s = Spec::new(2, 1, Thr { num: 1, den: 2 });
        s.add(sym::choose(4), &ascii(1));
        s.query(&ascii(1));
    }
    fn n_empty() {
        let mut s = Spec::new(2, 1, Thr { num: 1, den: 2 });
        s.no_file();
        s.add(sym::choose(4), &[]);
        s.query(&chars(1));
        s.add(sym::choose(4), b"a b\n\nc");
        s.no_file();
        s.query(&chars(1));
        s.query(b"a b");
    }
    /// Documents of two tokens, partial agreement.
    fn n_partial() {
        let thr = Thr::choose(&[(1, 4), (1, 2), (3, 4), (1, 1)]);
        let mut s = Spec::new(2, 2, thr);
        s.add(0, &[b'a', b' ', letter()]);
        s.add(sym::choose(4), b"a b\nc d\r\na\na b c\n");
        s.query(&[b'b', b'-', b'a' + sym::choose(5) as u8]);
    }
    /// More lines than a batch of 100.
    fn n_many() {
        let mut s = Spec::new(1, 2, Thr { num: 1, den: 2 });
        let mut c: Vec<u8> = Vec::new();
        for i in 0..110u8 { c.extend_from_slice(&[b'a' + i % 20, b' ', b'a' + i / 20, b'\n']); }
        let at = sym::choose(3) * 50;
        s.add(1 + sym::choose(3), &c);
        s.docs.truncate(0);
        let got = s.ix.query(&text(&c[4 * at..4 * at + 3]));
        let mut n = 0;
        for g in got.iter() { n += same(g.as_bytes(), &c[4 * at..4 * at + 3]) as usize; }
        check(n == 1, "a line of a long file is found");
        sym::observe(got.len() as u64);
    }
    /// Readers and files that fail.
    fn n_broken() {
        let mut s = Spec::new(2, 1, Thr { num: 1, den: 2 });
        s.add(0, &[letter()]);
        s.broken_file();
        if sym::flag() {
            // the lines before the failure are documents
            s.ix.load_from_lines(&mut BufReader::new(Failing { data: b"b\na b\n" }));
            s.docs.push(b"b".to_vec());
            s.docs.push(b"a b".to_vec());
            check(s.ix.size() == 3, "a failing reader ends the loading after the lines before");
        }
        s.query(&[letter()]);
        s.query(b"a b");
    }
    /// Lines that are no valid text are skipped by every loader, the others kept.
    fn n_invalid() {
        let mut s = Spec::new(2, 1, Thr { num: 1, den: 2 });
        let c = [&b"a\n\xff\nb\n"[..], &b"\xc3\na\nb"[..], &b"a\nb\n\xe9\x80"[..]][sym::choose(3)];
        let ix = &mut s.ix;
        match sym::choose(3) {
            0 => ix.load_from_lines(&mut BufReader::new(c)),
            1 => check(matches!(env::with_file(Some(c), |p| ix.load_from_file(p)), Ok(2)), "the valid lines are counted"),
            _ => check(matches!(env::with_file(Some(c), |p| ix.load_from_file_parallel(p)), Ok(2)), "the valid lines are counted when loading in parallel"),
        }
        s.docs.push(b"a".to_vec());
        s.docs.push(b"b".to_vec());
        check(s.ix.size() == 2, "the valid lines are documents");
        s.add(sym::choose(4), b"c");
        s.query(&[letter()]);
    }
    /// Characters of all kinds in documents and queries.
    fn n_chars() {
        const T: [&str; 12] = ["a", "A", "\u{feff}a", "a\u{a0}b", "b a", "\u{3000}", "\u{e9}", "e\u{301}", "\u{10ffff}a", "_a", "\u{85}", "a\u{b}b"];
        let mut s = Spec::new(1, 2, Thr { num: 1, den: 2 });
        s.add(sym::choose(4), T[sym::choose(12)].as_bytes());
        s.query(T[sym::choose(12)].as_bytes());
    }
    /// A line longer than the reader's buffer, and a file of several buffers.
    fn n_long() {
        let mut s = Spec::new(1, 1, Thr { num: 1, den: 2 });
        let mut c: Vec<u8> = Vec::new();
        let end: &[u8] = if sym::flag() { b"\n" } else { b"\r\n" };
        for i in 0..9000 { c.push(if i % 9 == 8 { b' ' } else { b'a' + (i % 26) as u8 }); }
        c.extend_from_slice(end);
        for _ in 0..2 { for _ in 0..5000 { c.push(b'x'); } c.extend_from_slice(end); }
        c.push(letter());
        s.add(sym::choose(4), &c);
        s.query(&[letter()]);
        s.query(&c[..9000].to_vec());
        s.query(&c[9000 + end.len()..14000 + end.len()].to_vec());
    }
}
