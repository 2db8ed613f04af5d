use crate::oracle::{self, Thr};
use crate::py::{self, *};
use crate::sym::{self, check};
use std::string::String;
use std::vec::Vec;

const CLASSES: [&str; 12] = [
    "MinHash64StringIntIndexHashSet", "MinHash64StringIntIndexVec", "MinHash64StringIntIndexSmallVec",
    "MinHash32StringIntIndexHashSet", "MinHash32StringIntIndexVec", "MinHash32StringIntIndexSmallVec",
    "MinHash16StringIntIndexHashSet", "MinHash16StringIntIndexVec", "MinHash16StringIntIndexSmallVec",
    "MinHash8StringIntIndexHashSet", "MinHash8StringIntIndexVec", "MinHash8StringIntIndexSmallVec",
];
fn index(class: usize, thr: f64, bands: usize, width: usize, analyzer: &str, lower: bool, r: Option<(usize, usize)>) -> Index {
    match py::create("minhash", CLASSES[class], &[Obj::Float(thr), int(bands), int(width), Obj::None, s(analyzer.as_bytes()), Obj::Bool(lower), range(r)], &[]) {
        Ok(i) => i,
        Err(_) => { check(false, "a valid configuration is accepted"); panic!() }
    }
}
fn sig(ix: &mut Index, d: &[u8]) -> Vec<i128> { items(&ix.call("tokenize_and_minhash", &[s(d)])).iter().map(num).collect() }

/// Ranked answers: pairs of id and similarity, best first.
fn ranked(o: &Obj) -> Vec<(i64, f64)> {
    let v: Vec<(i64, f64)> = items(o).iter().map(|p| (num(&items(p)[0]) as i64, flt(&items(p)[1]))).collect();
    for w in v.windows(2) { check(w[0].1 >= w[1].1, "answers with similarities are ordered best first"); }
    v
}
/// All forms of the query for one document agree; returns the ids and the similarities.
fn ask(ix: &mut Index, tokens: bool, q: &str) -> (Vec<i64>, Vec<(i64, f64)>) {
    let ws: Vec<&str> = q.split(' ').filter(|w| !w.is_empty()).collect();
    ask_words(ix, tokens, q, ws)
}
fn ask_words(ix: &mut Index, tokens: bool, q: &str, ws: Vec<&str>) -> (Vec<i64>, Vec<(i64, f64)>) {
    let (one, two, bulk, bulk2) = if tokens { ("query_tokens", "query_tokens_return_similarity", "par_bulk_query_tokens", "par_bulk_query_tokens_return_similarity") } else { ("query", "query_return_similarity", "par_bulk_query", "par_bulk_query_return_similarity") };
    let arg = if tokens { words(&ws) } else { s(q.as_bytes()) };
    let other = if tokens { words(&["zz"]) } else { s(b"zz") };
    let got = ix.ids(one, &[arg.clone()]);
    let r = ranked(&ix.call(two, &[arg.clone()]));
    let rid: Vec<i64> = r.iter().map(|p| p.0).collect();
    check(same_ids(&got, &rid), "the forms with and without similarities return the same ids, each once");
    let b = ix.call(bulk, &[list(std::vec![other.clone(), arg.clone()])]);
    check(items(&b).len() == 2 && same_ids(&ids(&items(&b)[1]), &got), "a bulk query answers each query as the single query does");
    let b = ix.call(bulk2, &[list(std::vec![arg, other])]);
    let br = ranked(&items(&b)[0]);
    let mut ok = items(&b).len() == 2 && br.len() == r.len();
    for (id, x) in &r { let mut f = false; for (id2, y) in &br { f |= id == id2 && x == y; } ok &= f; }
    check(ok, "a bulk query with similarities answers each query as the single query does");
    (got, r)
}
fn insert(ix: &mut Index, route: usize, docs: &[&str], from: i64) {
    let ids: Vec<Obj> = (0..docs.len()).map(|i| Obj::Int((from + i as i64) as i128)).collect();
    let tok: Vec<Obj> = docs.iter().map(|d| { let ws: Vec<&str> = d.split(' ').filter(|w| !w.is_empty()).collect(); words(&ws) }).collect();
    let txt: Vec<Obj> = docs.iter().map(|d| s(d.as_bytes())).collect();
    match route {
        0 => for i in 0..docs.len() { ix.call("insert_document", &[ids[i].clone(), txt[i].clone()]); },
        1 => { ix.call("par_bulk_insert_docs", &[list(ids), list(txt)]); }
        2 => for i in 0..docs.len() { ix.call("insert_tokens", &[ids[i].clone(), tok[i].clone()]); },
        3 => { ix.call("bulk_insert_tokens", &[list(ids), list(tok)]); }
        _ => { ix.call("par_bulk_insert_tokens", &[list(ids), list(tok)]); }
    }
}
fn forms(class: usize) {
    let thr = Thr::choose(&[(1, 4), (1, 2), (1, 1)]);
    let bands = 2;
    let width = 2;
    let mut ix = index(class, thr.f64(), bands, width, "word", false, None);
    let last = ["a b", "b c", "d e", ""][sym::choose(4)];
    let docs = ["a b", "c a", last];
    let route = sym::choose(5);
    let tokens = sym::flag();
    insert(&mut ix, route, &docs, 10);
    check(num(&ix.call("size", &[])) == 3, "size counts the documents");
    let gone = [1, 3][sym::choose(2)];
    if gone < 3 { ix.call("remove", &[Obj::Int(10 + gone as i128)]); }
    for q in ["b a", "a c", "e", "d e", ""] {
        let (got, r) = ask(&mut ix, tokens, q);
        for (i, d) in docs.iter().enumerate() {
            let id = 10 + i as i64;
            let there = has(&got, id);
            if i == gone { check(!there, "a removed document is not returned"); continue; }
            // tokens are the words of a document
            let (a, b) = (sig(&mut ix, d.as_bytes()), sig(&mut ix, q.as_bytes()));
            check(there == oracle::answers(&a, &b, bands, width, thr), "exactly the similar documents are returned");
            let m = oracle::matches(&a, &b) as f64 / 4.0;
            for p in &r { check(p.0 != id || p.1 == m, "the similarity is the fraction of equal positions"); }
        }
        for id in &got { check(*id >= 10 && *id < 13, "only inserted ids are returned"); }
        sym::observe(got.len() as u64);
    }
}
/// The signature of a document is the minimum over its n-grams (each as a document of its own).
fn gram_sets(by_char: bool, d: &[u8], q: &[u8], class: usize) {
    let r = [(1, 1), (1, 2), (2, 2), (2, 3), (1, 3)][sym::choose(5)];
    let lower = sym::flag();
    let analyzer = if by_char { "char" } else { "word" };
    let mut ix = index(class, 1.0, 1, 3, analyzer, lower, Some(r));
    ix.call("insert_document", &[int(7), s(d)]);
    ix.call("par_bulk_insert_docs", &[list(std::vec![int(8)]), list(std::vec![s(d)])]);
    let (gd, gq) = (set(grams(d, by_char, r, lower)), set(grams(q, by_char, r, lower)));
    // the index lowers the case of documents, not of what tokenize_and_minhash is given
    let (sd, sq) = (sig(&mut ix, &low(d, lower)), sig(&mut ix, &low(q, lower)));
    let same = sd[0] == sq[0] && sd[1] == sq[1] && sd[2] == sq[2];
    check(same || !py::same(&gd, &gq), "documents with the same n-grams have the same signature");
    let mut least: Vec<i128> = Vec::new();
    for n in r.0..=r.1 {
        let mut one = index(class, 1.0, 1, 3, analyzer, lower, Some((n, n)));
        for g in &gd {
            if g[0] as usize != n { continue; }
            let mut doc = Vec::new();
            for &b in &g[1..] { if b == 0 { if !by_char { doc.push(b' ') } } else { doc.push(b) } }
            let sg = sig(&mut one, &doc);
            if least.is_empty() { least = sg } else { for i in 0..3 { if sg[i] < least[i] { least[i] = sg[i] } } }
        }
    }
    check(least.is_empty() || least[0] == sd[0] && least[1] == sd[1] && least[2] == sd[2], "the signature is made of exactly the n-grams of the document");
    let both = |v: &Vec<i64>| if same { v.len() == 2 && has(v, 7) && has(v, 8) } else { v.is_empty() };
    check(both(&ix.ids("query", &[s(q)])), "a document is found with threshold one exactly if its signature is the same");
    let p = ix.call("query_return_similarity", &[s(q)]);
    check(items(&p).len() == 2 * same as usize, "the form with similarities likewise");
    let p = ix.call("par_bulk_query", &[list(std::vec![s(q)])]);
    check(items(&p).len() == 1 && both(&ids(&items(&p)[0])), "the bulk form likewise");
    let p = ix.call("par_bulk_query_return_similarity", &[list(std::vec![s(q)])]);
    check(items(&p).len() == 1 && items(&items(&p)[0]).len() == 2 * same as usize, "the bulk form with similarities likewise");
    sym::observe(same as u64);
}
fn word_doc(n: usize, ws: &[&str]) -> Vec<u8> {
    let mut d = Vec::new();
    for i in 0..n { if i > 0 { d.extend_from_slice(if i == 1 { b" " } else { b", " }); } d.extend_from_slice(ws[sym::choose(ws.len())].as_bytes()); }
    d
}
fn char_doc(n: usize, cs: &[&str]) -> Vec<u8> { let mut d = Vec::new(); for _ in 0..n { d.extend_from_slice(cs[sym::choose(cs.len())].as_bytes()); } d }
fn many(class: usize) {
    let lower = sym::flag();
    let n = [99, 100, 101, 301][sym::choose(4)];
    let at = [0, 50, n - 1][sym::choose(3)];
    let mut ix = index(class, 1.0, 1, 6, "word", lower, None);
    let route = if lower { 0 } else { sym::choose(3) };
    let mut txt = Vec::new();
    let mut ids = Vec::new();
    for i in 0..n {
        ids.push(int(1000 + i));
        let (a, b) = ([b'a' + (i / 26) as u8], [b'z', b'a' + (i % 26) as u8]);
        txt.push(if route == 0 { if i == at { s(b"Needle in hay") } else { s(&[a[0], b' ', b[0], b[1]]) } } else if i == at { words(&["Needle", "in", "hay"]) } else { list(std::vec![s(&a), s(&b)]) });
    }
    ix.call(["par_bulk_insert_docs", "bulk_insert_tokens", "par_bulk_insert_tokens"][route], &[list(ids), list(txt)]);
    check(num(&ix.call("size", &[])) == n as i128, "a batch of any size is stored completely");
    let got = ix.ids("query", &[s(b"hay, in Needle")]);
    check(got.len() == 1 && got[0] == 1000 + at as i64, "a document of a large batch is found under its id");
    let got = ix.ids("query", &[s(b"HAY, IN nEEDLE")]);
    check(got.len() == lower as usize, "lower casing applies to large batches exactly if configured");
}
/// Eighty words, or characters.
pub fn long_doc(by_char: bool) -> Vec<u8> {
    let mut d = Vec::new();
    for i in 0..80u8 {
        d.push(b'a' + i / 9);
        if !by_char { d.push(b'a' + i % 9); d.push(if i % 10 == 9 { b'-' } else { b' ' }); }
    }
    d.push(b"xy"[sym::choose(2)]);
    d
}

/// Any ids, any one-character documents and query; documents or tokens, single or bulk.
fn any(class: usize, lower: bool, route: usize, letters: &[u8]) {
    let mut ix = index(class, 0.5, 1, 1, "word", lower, Some((1, 1)));
    let ids = [sym::u64() as i64, sym::u64() as i64];
    sym::assume(ids[0] != ids[1]);
    let c = || [if letters.is_empty() { sym::bits(7) as u8 } else { letters[sym::choose(letters.len())] }];
    let (d, q) = ([c(), c()], c());
    let o = |i: usize| Obj::Int(ids[i] as i128);
    let t = |x: &[u8]| list(std::vec![s(x)]);
    match route {
        0 => for i in 0..2 { ix.call("insert_document", &[o(i), s(&d[i])]); },
        1 => { ix.call("par_bulk_insert_docs", &[list(std::vec![o(0), o(1)]), list(std::vec![s(&d[0]), s(&d[1])])]); }
        2 => for i in 0..2 { ix.call("insert_tokens", &[o(i), t(&d[i])]); },
        3 => { ix.call("bulk_insert_tokens", &[list(std::vec![o(0), o(1)]), list(std::vec![t(&d[0]), t(&d[1])])]); }
        _ => { ix.call("par_bulk_insert_tokens", &[list(std::vec![o(0), o(1)]), list(std::vec![t(&d[0]), t(&d[1])])]); }
    }
    let gone = sym::choose(3);
    if gone < 2 { ix.call("remove", &[o(gone)]); }
    check(num(&ix.call("size", &[])) == if gone < 2 { 1 } else { 2 }, "size counts the documents that are left");
    let got = if route < 2 { ix.ids("query", &[s(&q)]) } else { ix.ids("query_tokens", &[t(&q)]) };
    let up = |b: u8| b + if lower & (b >= b'A') & (b <= b'Z') { 32 } else { 0 };
    let mut n = 0;
    for i in 0..2 {
        let there = has(&got, ids[i]);
        n += there as usize;
        if i == gone { check(!there, "a removed document is not returned"); continue; }
        if route < 2 { check(there == (sig(&mut ix, &[up(d[i][0])])[0] == sig(&mut ix, &[up(q[0])])[0]), "a document is returned exactly if its signature is similar"); }
        else { check(there | (d[i][0] != q[0]), "a document with the same token is returned"); }
    }
    check(got.len() == n, "nothing else is returned");
}

harnesses! {
    fn e_any64() { any(sym::choose(3), sym::flag(), 0, b"aAb") }
    fn e_any32() { any(3 + sym::choose(3), false, 1, b"") }
    fn e_any16() { any(6 + sym::choose(3), false, 2 + sym::choose(3), b"ab") }
    fn e_any8() { any(9 + sym::choose(3), false, sym::choose(5), b"ab") }
    fn e_forms64() { forms(sym::choose(3)) }
    fn e_forms32() { forms(3 + sym::choose(3)) }
    fn e_forms16() { forms(6 + sym::choose(3)) }
    fn e_forms8() { forms(9 + sym::choose(3)) }
    fn e_words() { gram_sets(false, &word_doc(3, &["a", "b", "A"]), &word_doc(2, &["a", "b"]), 0) }
    fn e_words3() { gram_sets(false, &word_doc(4, &["a", "b"]), b"b, a;A", 3) }
    fn e_chars() { gram_sets(true, &char_doc(3, &["a", "é", "A", " "]), &char_doc(2, &["a", "É"]), 3) }
    fn e_chars4() { gram_sets(true, &char_doc(4, &["a", "B"]), &char_doc(1, &["a", "b"]), 0) }
    /// Any one-character document and query.
    fn e_any() {
        let mut ix = index(9, 0.5, 1, 1, "word", false, Some((1, 1)));
        let (d, q) = ([sym::bits(7) as u8], [sym::bits(7) as u8]);
        ix.call("insert_document", &[int(3), s(&d)]);
        let want = sig(&mut ix, &d)[0] == sig(&mut ix, &q)[0];
        check(has(&ix.ids("query", &[s(&q)]), 3) == want, "a document is returned exactly if its signature is similar");
        check(want | (d[0] != q[0]), "a document is similar to itself");
    }
    fn e_new() {
        let c = sym::choose(12);
        let (b, w) = (1 + sym::choose(3), 1 + sym::choose(3));
        let mut ix = index(c, 0.5, b, w, "word", false, None);
        check(sig(&mut ix, b"a").len() == b * w, "a signature has bands times width positions");
        check(num(&ix.call("size", &[])) == 0, "a new index is empty");
        let mut ix = match py::create("minhash", CLASSES[c], &[], &[("num_bands", Obj::None), ("num_hashes", int(12)), ("jaccard_threshold", Obj::Float(0.5))]) { Ok(i) => i, Err(_) => { check(false, "num_hashes alone is enough"); return } };
        let n = sig(&mut ix, b"a").len();
        check(n > 0 && n <= 12, "num_hashes bounds the signature");
        ix.call("insert_document", &[int(1), s(b"a b")]);
        check(has(&ix.ids("query", &[s(b"b a")]), 1), "the index with calculated bands works");
        check(py::create("minhash", CLASSES[c], &[Obj::Float(0.5), Obj::None, int(3), Obj::None], &[]).is_err(), "neither bands nor hashes is an error");
    }
    fn e_default() {
        let c = sym::choose(12);
        let mut ix = match py::create("minhash", CLASSES[c], &[], &[]) { Ok(i) => i, Err(_) => { check(false, "the defaults are accepted"); return } };
        check(sig(&mut ix, b"a").len() == 126, "the default is 42 bands of 3");
        ix.call("insert_document", &[int(1), s(b"a b c")]);
        ix.call("insert_document", &[int(2), s(b"x y z")]);
        let got = ix.ids("query", &[s(b"c b a")]);
        check(got.len() == 1 && got[0] == 1, "the default index finds a document by its words");
        check(ix.ids("query", &[s(b"A B C")]).is_empty(), "the default does not lower the case");
    }
    fn e_many() { many(3) }
    fn e_many_vec() { many(10) }
    fn e_long_words() { gram_sets(false, &long_doc(false), b"b, a;A", 0) }
    fn e_long_chars() { gram_sets(true, &long_doc(true), b"ab", 3) }
    /// Tokens of any kind, empty ones too.
    fn e_tokens() {
        const T: [&str; 4] = ["", "a", "B c", "."];
        let mut ix = index(sym::choose(3), 1.0, 1, 6, "word", sym::flag(), None);
        let d = [sym::choose(4), sym::choose(4)];
        let q = [sym::choose(4), sym::choose(4)];
        let w = words(&[T[d[0]], T[d[1]]]);
        match sym::choose(3) {
            0 => { ix.call("insert_tokens", &[int(5), w]); }
            1 => { ix.call("bulk_insert_tokens", &[list(std::vec![int(4), int(5)]), list(std::vec![words(&["x"]), w])]); }
            _ => { ix.call("par_bulk_insert_tokens", &[list(std::vec![int(5), int(4)]), list(std::vec![w, words(&["x"])])]); }
        }
        let (got, _) = ask_words(&mut ix, true, "", std::vec![T[q[0]], T[q[1]]]);
        let same = (d[0] == q[0] || d[0] == q[1]) && (d[1] == q[0] || d[1] == q[1]) && (q[0] == d[0] || q[0] == d[1]) && (q[1] == d[0] || q[1] == d[1]);
        check(got.len() == same as usize, "with threshold one a document is found exactly if it has the same tokens");
        check(ix.ids("query_tokens", &[words(&[])]).is_empty(), "no tokens are not like some");
    }
    /// Characters are taken three and four at a time unless told otherwise.
    fn e_default_char() {
        let c = sym::choose(12);
        let d: &[u8] = [&b"ab"[..], b"abc", b"abcd", b"a bcde", "aébcÉ".as_bytes()][sym::choose(5)];
        let a = sig(&mut index(c, 0.5, 2, 3, "char", false, None), d);
        let b = sig(&mut index(c, 0.5, 2, 3, "char", false, Some((3, 4))), d);
        let mut same = a.len() == b.len();
        for i in 0..a.len() { same &= a[i] == b[i]; }
        check(same, "the default range for characters is three to four");
    }
    /// The bands are those calculated by the library.
    fn e_calculated() {
        let c = sym::choose(12);
        let (t, n) = ([0.05, 0.1, 0.3, 0.5, 0.75, 0.9][sym::choose(6)], [1, 12, 60, 128][sym::choose(4)]);
        let mut ix = match py::create("minhash", CLASSES[c], &[], &[("num_bands", Obj::None), ("num_hashes", int(n)), ("jaccard_threshold", Obj::Float(t))]) { Ok(i) => i, Err(_) => { check(false, "num_hashes alone is enough"); return } };
        let (b, r) = gaoya::minhash::calculate_minhash_params(t, n);
        check(sig(&mut ix, b"a").len() == b * r, "the signature is as long as calculated from the threshold and the number of hashes");
        // a document is found by the calculated bands, not by others
        if n == 128 && c % 5 != 0 { return; }
        ix.call("insert_document", &[int(7), s(b"a b c d e f g h i j")]);
        let d = sig(&mut ix, b"a b c d e f g h i j");
        for q in [&b"a b"[..], b"a x", b"c d e f g x y", b"a b c d e f g h i z", b"j i w"] {
            let x = sig(&mut ix, q);
            let mut any = false;
            let mut m = 0;
            for i in 0..b { let mut all = true; for j in i * r..i * r + r { all &= d[j] == x[j]; m += (d[j] == x[j]) as usize; } any |= all; }
            check(has(&ix.ids("query", &[s(q)]), 7) == (any && m as f64 / (b * r) as f64 >= t), "the index has the calculated bands");
        }
    }
}
