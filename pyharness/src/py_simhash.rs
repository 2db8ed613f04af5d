use crate::py::{self, *};
use crate::sym::{self, check};
use std::vec::Vec;

const CLASSES: [&str; 2] = ["SimHash64StringIntIndex", "SimHash128StringIntIndex"];
fn index(class: usize, blocks: usize, dist: usize, analyzer: &str, lower: bool, r: Option<(usize, usize)>) -> Index {
    match py::create("simhash", CLASSES[class], &[int(blocks), int(dist), s(analyzer.as_bytes()), Obj::Bool(lower), range(r)], &[]) {
        Ok(i) => i,
        Err(_) => { check(false, "a valid configuration is accepted"); panic!() }
    }
}
fn sig(ix: &mut Index, d: &[u8]) -> u128 { num(&ix.call("tokenize_and_simhash", &[s(d)])) as u128 }
fn ranked(o: &Obj) -> Vec<(i64, i128)> {
    let v: Vec<(i64, i128)> = items(o).iter().map(|p| (num(&items(p)[0]) as i64, num(&items(p)[1]))).collect();
    for w in v.windows(2) { check(w[0].1 <= w[1].1, "answers with distances are ordered nearest first"); }
    v
}
fn ask(ix: &mut Index, tokens: bool, q: &str) -> (Vec<i64>, Vec<(i64, i128)>) {
    let ws: Vec<&str> = q.split(' ').filter(|w| !w.is_empty()).collect();
    ask_words(ix, tokens, q, ws)
}
fn ask_words(ix: &mut Index, tokens: bool, q: &str, ws: Vec<&str>) -> (Vec<i64>, Vec<(i64, i128)>) {
    let (one, two, bulk, bulk2) = if tokens { ("query_tokens", "query_tokens_return_distance", "par_bulk_query_tokens", "par_bulk_query_tokens_return_similarity") } else { ("query", "query_return_distance", "par_bulk_query", "par_bulk_query_return_distance") };
    let arg = if tokens { words(&ws) } else { s(q.as_bytes()) };
    let other = if tokens { words(&["zz"]) } else { s(b"zz") };
    let got = ix.ids(one, &[arg.clone()]);
    let r = ranked(&ix.call(two, &[arg.clone()]));
    let rid: Vec<i64> = r.iter().map(|p| p.0).collect();
    check(same_ids(&got, &rid), "the forms with and without distances return the same ids, each once");
    let b = ix.call(bulk, &[list(std::vec![other.clone(), arg.clone()])]);
    check(items(&b).len() == 2 && same_ids(&ids(&items(&b)[1]), &got), "a bulk query answers each query as the single query does");
    let b = ix.call(bulk2, &[list(std::vec![arg, other])]);
    let br = ranked(&items(&b)[0]);
    let mut ok = items(&b).len() == 2 && br.len() == r.len();
    for (id, x) in &r { let mut f = false; for (id2, y) in &br { f |= id == id2 && x == y; } ok &= f; }
    check(ok, "a bulk query with distances answers each query as the single query does");
    (got, r)
}
fn insert(ix: &mut Index, route: usize, docs: &[&str], from: i64) {
    let ids: Vec<Obj> = (0..docs.len()).map(|i| Obj::Int((from + i as i64) as i128)).collect();
    let tok: Vec<Obj> = docs.iter().map(|d| { let ws: Vec<&str> = d.split(' ').filter(|w| !w.is_empty()).collect(); words(&ws) }).collect();
    let txt: Vec<Obj> = docs.iter().map(|d| s(d.as_bytes())).collect();
    match route {
        0 => for i in 0..docs.len() { ix.call("insert_document", &[ids[i].clone(), txt[i].clone()]); },
        1 => { ix.call("par_bulk_insert_docs", &[list(ids), list(txt)]); }
        2 => for i in 0..docs.len() { ix.call("insert_tokens", &[ids[i].clone(), tok[i].clone()]); },
        _ => { ix.call("par_bulk_insert_tokens", &[list(ids), list(tok)]); }
    }
}
fn forms(class: usize) {
    let (blocks, dist) = [(3, 1), (4, 3)][sym::choose(2)];
    let mut ix = index(class, blocks, dist, "word", false, None);
    // documents of one token repeated with another: distances between them are small or zero
    let last = ["a a b", "b c", "a b c a a a a", ""][sym::choose(4)];
    let docs = ["a b b", "c a", last];
    let route = sym::choose(4);
    let tokens = sym::flag();
    insert(&mut ix, route, &docs, 10);
    for q in ["b a b", "a c", "e", "a a a a", ""] {
        let (got, r) = ask(&mut ix, tokens, q);
        for (i, d) in docs.iter().enumerate() {
            let id = 10 + i as i64;
            let there = has(&got, id);
            // tokens are the words of a document
            let far = (sig(&mut ix, d.as_bytes()) ^ sig(&mut ix, q.as_bytes())).count_ones() as i128;
            check(there == (far <= dist as i128), "exactly the documents within the distance are returned");
            for p in &r { check(p.0 != id || p.1 == far, "the distance is the number of different bits"); }
        }
        for id in &got { check(*id >= 10 && *id < 13, "only inserted ids are returned"); }
        sym::observe(got.len() as u64);
    }
}
/// The signature of a document is the majority over its n-grams (each as a document of its own).
fn gram_bags(by_char: bool, d: &[u8], q: &[u8], class: usize) {
    let r = [(1, 1), (1, 2), (2, 2), (2, 3), (1, 3)][sym::choose(5)];
    let lower = sym::flag();
    let analyzer = if by_char { "char" } else { "word" };
    let mut ix = index(class, 3, 0, analyzer, lower, Some(r));
    ix.call("insert_document", &[int(7), s(d)]);
    ix.call("par_bulk_insert_docs", &[list(std::vec![int(8)]), list(std::vec![s(d)])]);
    let (gd, gq) = (grams(d, by_char, r, lower), grams(q, by_char, r, lower));
    let (sd, sq) = (sig(&mut ix, &low(d, lower)), sig(&mut ix, &low(q, lower)));
    let same = sd == sq;
    check(same || !py::same(&gd, &gq), "documents with the same n-grams have the same signature");
    let mut votes = [0i32; 128];
    for n in r.0..=r.1 {
        let mut one = index(class, 3, 0, analyzer, lower, Some((n, n)));
        for g in &gd {
            if g[0] as usize != n { continue; }
            let mut doc = Vec::new();
            for &b in &g[1..] { if b == 0 { if !by_char { doc.push(b' ') } } else { doc.push(b) } }
            let sg = sig(&mut one, &doc);
            for i in 0..128 { votes[i] += if sg >> i & 1 == 1 { 1 } else { -1 }; }
        }
    }
    let mut major = 0u128;
    for i in 0..128 { if votes[i] > 0 { major |= 1 << i; } }
    check(major == sd, "the signature is the majority of exactly the n-grams of the document");
    let both = |v: &Vec<i64>| if same { v.len() == 2 && has(v, 7) && has(v, 8) } else { v.is_empty() };
    check(both(&ix.ids("query", &[s(q)])), "a document is found at distance zero exactly if its signature is the same");
    check(items(&ix.call("query_return_distance", &[s(q)])).len() == 2 * same as usize, "the form with distances likewise");
    let p = ix.call("par_bulk_query", &[list(std::vec![s(q)])]);
    check(items(&p).len() == 1 && both(&ids(&items(&p)[0])), "the bulk form likewise");
    let p = ix.call("par_bulk_query_return_distance", &[list(std::vec![s(q)])]);
    check(items(&p).len() == 1 && items(&items(&p)[0]).len() == 2 * same as usize, "the bulk form with distances likewise");
    sym::observe(same as u64);
}
fn word_doc(n: usize, ws: &[&str]) -> Vec<u8> {
    let mut d = Vec::new();
    for i in 0..n { if i > 0 { d.extend_from_slice(if i == 1 { b" " } else { b", " }); } d.extend_from_slice(ws[sym::choose(ws.len())].as_bytes()); }
    d
}
fn char_doc(n: usize, cs: &[&str]) -> Vec<u8> { let mut d = Vec::new(); for _ in 0..n { d.extend_from_slice(cs[sym::choose(cs.len())].as_bytes()); } d }

/// Any ids, any one-character documents and query.
fn any(class: usize, lower: bool, route: usize, letters: &[u8]) {
    let mut ix = index(class, 3, 0, "word", lower, Some((1, 1)));
    let ids = [sym::u64() as i64, sym::u64() as i64];
    sym::assume(ids[0] != ids[1]);
    let c = || [letters[sym::choose(letters.len())]];
    let (d, q) = ([c(), c()], c());
    let o = |i: usize| Obj::Int(ids[i] as i128);
    let t = |x: &[u8]| list(std::vec![s(x)]);
    match route {
        0 => for i in 0..2 { ix.call("insert_document", &[o(i), s(&d[i])]); },
        1 => { ix.call("par_bulk_insert_docs", &[list(std::vec![o(0), o(1)]), list(std::vec![s(&d[0]), s(&d[1])])]); }
        2 => for i in 0..2 { ix.call("insert_tokens", &[o(i), t(&d[i])]); },
        _ => { ix.call("par_bulk_insert_tokens", &[list(std::vec![o(0), o(1)]), list(std::vec![t(&d[0]), t(&d[1])])]); }
    }
    let got = if route < 2 { ix.ids("query", &[s(&q)]) } else { ix.ids("query_tokens", &[t(&q)]) };
    let up = |b: u8| b + if lower & (b >= b'A') & (b <= b'Z') { 32 } else { 0 };
    let mut n = 0;
    for i in 0..2 {
        let there = has(&got, ids[i]);
        n += there as usize;
        check(there == (up(d[i][0]) == up(q[0])), "a document is returned exactly if its signature is the same");
    }
    check(got.len() == n, "nothing else is returned");
}

harnesses! {
    fn f_any64() { any(0, sym::flag(), sym::choose(2), b"aAb") }
    fn f_any64_tokens() { any(0, false, 2 + sym::choose(2), b"ab") }
    fn f_any128() { any(1, false, sym::choose(4), b"ab") }
    fn f_forms64() { forms(0) }
    fn f_forms128() { forms(1) }
    fn f_words() { let c = sym::choose(2); gram_bags(false, &word_doc(2, &["a", "b", "A"]), &word_doc(2, &["a", "b"]), c) }
    fn f_words3() { gram_bags(false, &word_doc(4, &["a", "b"]), b"b, a;A", 0) }
    fn f_chars() { gram_bags(true, &char_doc(3, &["a", "é", "A"]), &char_doc(1, &["a", "É"]), 0) }
    fn f_chars3() { gram_bags(true, &char_doc(4, &["a", "B"]), b"aBa", 1) }
    fn f_default() {
        let c = sym::choose(2);
        let mut ix = match py::create("simhash", CLASSES[c], &[], &[]) { Ok(i) => i, Err(_) => { check(false, "the defaults are accepted"); return } };
        ix.call("insert_document", &[int(1), s(b"a b c")]);
        ix.call("insert_document", &[int(2), s(b"x y z")]);
        let got = ix.ids("query", &[s(b"c b a")]);
        check(got.len() == 1 && got[0] == 1, "the default index finds a document by its words");
        check(ix.ids("query", &[s(b"A B C")]).is_empty(), "the default does not lower the case");
    }
    fn f_many() {
        let lower = sym::flag();
        let n = [99, 100, 101, 301][sym::choose(4)];
        let at = [0, 50, n - 1][sym::choose(3)];
        let mut ix = index(0, 3, 0, "word", lower, None);
        let route = if lower { 0 } else { sym::choose(2) };
        let mut txt = Vec::new();
        let mut ids = Vec::new();
        for i in 0..n {
            ids.push(int(1000 + i));
            let (a, b) = ([b'a' + (i / 26) as u8], [b'z', b'a' + (i % 26) as u8]);
            txt.push(if route == 0 { if i == at { s(b"Needle in hay") } else { s(&[a[0], b' ', b[0], b[1]]) } } else if i == at { words(&["Needle", "in", "hay"]) } else { list(std::vec![s(&a), s(&b)]) });
        }
        ix.call(["par_bulk_insert_docs", "par_bulk_insert_tokens"][route], &[list(ids), list(txt)]);
        let got = ix.ids("query", &[s(b"hay, in Needle")]);
        check(got.len() == 1 && got[0] == 1000 + at as i64, "a document of a large batch is found under its id");
        let got = ix.ids("query", &[s(b"HAY, IN nEEDLE")]);
        check(got.len() == lower as usize, "lower casing applies to large batches exactly if configured");
    }
    fn f_long_words() { gram_bags(false, &crate::py_minhash::long_doc(false), b"b, a;A", 0) }
    fn f_long_chars() { gram_bags(true, &crate::py_minhash::long_doc(true), b"ab", 1) }
    /// Tokens of any kind, empty ones too.
    fn f_tokens() {
        const T: [&str; 4] = ["", "a", "B c", "."];
        let mut ix = index(sym::choose(2), 3, 0, "word", sym::flag(), None);
        let d = [sym::choose(4), sym::choose(4)];
        let q = [sym::choose(4), sym::choose(4)];
        let w = words(&[T[d[0]], T[d[1]]]);
        if sym::flag() { ix.call("insert_tokens", &[int(5), w]); } else { ix.call("par_bulk_insert_tokens", &[list(std::vec![int(5), int(4)]), list(std::vec![w, words(&["x"])])]); }
        let (got, _) = ask_words(&mut ix, true, "", std::vec![T[q[0]], T[q[1]]]);
        let same = (d[0] == q[0] && d[1] == q[1]) || (d[0] == q[1] && d[1] == q[0]);
        check(got.len() == same as usize, "at distance zero a document is found exactly if it has the same tokens");
    }
    /// Documents at many distances, and many blocks.
    fn f_wide() {
        let (blocks, dist) = [(4, 3), (10, 9), (12, 10), (19, 18)][sym::choose(4)];
        let class = sym::choose(2);
        let mut ix = index(class, blocks, dist, "word", false, None);
        let doc = |n: usize, x: bool| { let mut d = Vec::new(); for i in 0..n { d.extend_from_slice(&[b'a' + (i * 7 % 26) as u8, b'a' + (i * 3 % 25) as u8, b' ']); } if x { d.push(b'x'); } d };
        let docs: Vec<Vec<u8>> = (0..12).map(|i| doc(24 + i, i % 3 == 2)).collect();
        for (i, d) in docs.iter().enumerate() { ix.call("insert_document", &[int(i), s(d)]); }
        let q = doc([24, 30, 36][sym::choose(3)], sym::flag());
        let (got, r) = ask(&mut ix, sym::flag(), std::str::from_utf8(&q).unwrap());
        let sq = sig(&mut ix, &q);
        for (i, d) in docs.iter().enumerate() {
            let far = (sig(&mut ix, d) ^ sq).count_ones() as i128;
            check(has(&got, i as i64) == (far <= dist as i128), "exactly the documents within the distance are returned");
            for p in &r { check(p.0 != i as i64 || p.1 == far, "the distance is the number of different bits"); }
        }
        sym::observe(got.len() as u64);
    }
    fn f_default_char() {
        let c = sym::choose(2);
        let d: &[u8] = [&b"ab"[..], b"abc", b"abcd", b"a bcde", "aébcÉ".as_bytes()][sym::choose(5)];
        let a = sig(&mut index(c, 4, 1, "char", false, None), d);
        let b = sig(&mut index(c, 4, 1, "char", false, Some((3, 4))), d);
        check(a == b, "the default range for characters is three to four");
    }
}
