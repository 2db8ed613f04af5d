"""The facade against the native classes it stands for: every call must answer as the native class
of the requested width and container, configured as requested, answers for the analysed document.

Each function is a harness: its arguments are symbolic, its preconditions the bounds, and it fails
by an exception or a false result. The result names the case reached (the witness of the run).
"""
from typing import Optional, Tuple
from gaoya.gaoya import minhash as nm, simhash as ns
from gaoya.minhash import MinHashStringIndex
from gaoya.simhash import SimHashStringIndex

SUFFIX = {"set": "HashSet", "vec": "Vec", "smallvec": "SmallVec"}
CONTAINERS = ("set", "vec", "smallvec")
HARNESSES = {}


def harness(cases, bounds):
    def add(f):
        HARNESSES[f.__name__] = dict(fn=f, cases=cases, bounds=bounds)
        return f
    return add


def check(ok, what):
    if not ok:
        raise AssertionError(what)


class Splitter:
    """An analyzer of the user's."""
    def __call__(self, doc):
        return [doc, "." + doc]


def split(doc):
    return [doc + ".", doc]


def analyzer_of(k):
    return "word" if k == 0 else "char" if k == 1 else split if k == 2 else Splitter()


def same_score(a, b):
    return a == b and getattr(a, "made_by", None) == getattr(b, "made_by", None)


def same_ids(a, b):
    return isinstance(a, list) and len(a) == len(b) and all(sum(1 for y in a if y == x) == sum(1 for y in b if y == x) for x in a)


def same_ranked(a, b):
    """Best first; documents of the same score in any order."""
    if not (isinstance(a, list) and len(a) == len(b)):
        return False
    for x, y in zip(a, b):
        if not same_score(x[1], y[1]):
            return False
    return same_ids([x[0] for x in a], [x[0] for x in b])


def same_bulk(a, b, one):
    return isinstance(a, list) and len(a) == len(b) and all(one(x, y) for x, y in zip(a, b))


class MinRef:
    """The native MinHash class, with the analyzer applied as documented."""
    def __init__(self, size, container, threshold, bands, width, hashes, analyzer, lower, grams):
        self.tok = analyzer if callable(analyzer) else None
        self.ix = getattr(nm, "MinHash%dStringIntIndex%s" % (size, SUFFIX[container]))(threshold, bands, width, hashes, "word" if self.tok else analyzer, lower, grams)

    def insert(self, i, d):
        if self.tok:
            self.ix.insert_tokens(i, self.tok(d))
        else:
            self.ix.insert_document(i, d)

    def query(self, d):
        return self.ix.query_tokens(self.tok(d)) if self.tok else self.ix.query(d)

    def ranked(self, d):
        return self.ix.query_tokens_return_similarity(self.tok(d)) if self.tok else self.ix.query_return_similarity(d)


class SimRef:
    def __init__(self, size, blocks, distance, analyzer, lower, grams):
        self.tok = analyzer if callable(analyzer) else None
        self.ix = getattr(ns, "SimHash%dStringIntIndex" % size)(blocks, distance, "word" if self.tok else analyzer, lower, grams)

    insert = MinRef.insert
    query = MinRef.query

    def ranked(self, d):
        return self.ix.query_tokens_return_distance(self.tok(d)) if self.tok else self.ix.query_return_distance(d)


def agree_min(f, r, *queries):
    for q in queries:
        check(same_ids(f.query(q), r.query(q)), "query answers as the native index for the analysed document")
        check(same_ranked(f.query(q, True), r.ranked(q)), "query with similarities answers as the configured native index")
    check(same_bulk(f.par_bulk_query(list(queries)), [r.query(q) for q in queries], same_ids), "par_bulk_query answers each query in order")
    check(same_bulk(f.par_bulk_query(list(queries), return_similarity=True), [r.ranked(q) for q in queries], same_ranked), "par_bulk_query with similarities answers each query in order")
    check(f.size() == r.ix.size(), "size is the number of documents")
    check(len(str(f)) > 0 and len(repr(f)) > 0, "an index has a description")


def agree_sim(f, r, *queries):
    for q in queries:
        check(same_ids(f.query(q), r.query(q)), "query answers as the native index for the analysed document")
        check(same_ranked(f.query(q, True), r.ranked(q)), "query with distances answers as the configured native index")
    check(same_bulk(f.par_bulk_query(list(queries)), [r.query(q) for q in queries], same_ids), "par_bulk_query answers each query in order")
    check(same_bulk(f.par_bulk_query(list(queries), return_similarity=True), [r.ranked(q) for q in queries], same_ranked), "par_bulk_query with distances answers each query in order")


def refused(make):
    try:
        make()
    except ValueError:
        return True
    return False


@harness(["used", "refused"], "any integer hash size")
def z_size(hash_size: int) -> str:
    """ post: _ """
    if hash_size == 8 or hash_size == 16 or hash_size == 32 or hash_size == 64:
        f, r = MinHashStringIndex(hash_size, 0.5, 3, 2), MinRef(hash_size, "set", 0.5, 3, 2, None, "word", False, None)
        f.insert_document(1, "a")
        r.insert(1, "a")
        agree_min(f, r, "a")
        return "used"
    check(refused(lambda: MinHashStringIndex(hash_size)), "an unsupported hash size is refused")
    return "refused"


@harness(["used", "refused"], "any threshold but NaN, any supported hash size and container")
def z_threshold(size: int, container: int, threshold: float) -> str:
    """
    pre: 0 <= size < 4 and 0 <= container < 3 and threshold == threshold
    post: _
    """
    w, c = (8, 16, 32, 64)[size], CONTAINERS[container]
    if threshold < 0 or threshold > 1:
        check(refused(lambda: MinHashStringIndex(w, threshold, id_container=c)), "a threshold outside 0..1 is refused")
        return "refused"
    f, r = MinHashStringIndex(w, threshold, 2, 3, id_container=c), MinRef(w, c, threshold, 2, 3, None, "word", False, None)
    for i, d in ((1, "ab"), (2, "ac"), (3, "b")):
        f.insert_document(i, d)
        r.insert(i, d)
    agree_min(f, r, "ab", "b")
    return "used"


@harness(["used", "refused"], "any container name of at most 9 characters, any supported hash size")
def z_container(size: int, container: str) -> str:
    """
    pre: 0 <= size < 4 and len(container) < 10
    post: _
    """
    w = (8, 16, 32, 64)[size]
    for c in CONTAINERS:
        if container == c:
            f, r = MinHashStringIndex(w, 0.5, 3, 2, id_container=container), MinRef(w, c, 0.5, 3, 2, None, "word", False, None)
            f.insert_document(1, "a")
            r.insert(1, "a")
            agree_min(f, r, "a")
            return "used"
    check(refused(lambda: MinHashStringIndex(w, id_container=container)), "an unknown container is refused")
    return "refused"


@harness(["positional", "named"], "any numbers of bands, widths and hashes, any n-gram range, lower case or not, word or char analyzer, all hash sizes and containers, arguments by position and by name")
def z_params(size: int, container: int, bands: int, width: int, hashes: Optional[int], char: bool, lower: bool, grams: Optional[Tuple[int, int]], named: bool) -> str:
    """
    pre: 0 <= size < 4 and 0 <= container < 3
    pre: 0 < bands < 100 and 0 < width < 20 and (hashes is None or 0 < hashes < 1000)
    pre: grams is None or 0 < grams[0] <= grams[1] < 20
    post: _
    """
    w, c, a = (8, 16, 32, 64)[size], CONTAINERS[container], "char" if char else "word"
    if named:
        f = MinHashStringIndex(id_container=c, ngram_range=grams, lowercase=lower, analyzer=a, num_hashes=hashes, band_size=width, num_bands=bands, jaccard_threshold=0.6, hash_size=w)
    else:
        f = MinHashStringIndex(w, 0.6, bands, width, hashes, a, lower, grams, c)
    r = MinRef(w, c, 0.6, bands, width, hashes, a, lower, grams)
    for i, d in ((1, "Ab cd ef gh ij"), (2, "xyz uvw")):
        f.insert_document(i, d)
        r.insert(i, d)
    agree_min(f, r, "Ab cd ef gh ij", "xyz uvw")
    return "named" if named else "positional"


@harness(["calculated", "refused"], "any number of hashes, no number of bands, no band width or neither")
def z_hashes(hashes: Optional[int], bands: Optional[int], width: Optional[int]) -> str:
    """
    pre: bands is None or width is None
    pre: (hashes is None or 3 < hashes < 1000) and (bands is None or 0 < bands < 100) and (width is None or 0 < width < 100)
    post: _
    """
    if hashes is None:
        check(refused(lambda: MinHashStringIndex(16, 0.5, bands, width, None)), "neither bands nor hashes is refused")
        return "refused"
    f, r = MinHashStringIndex(16, 0.5, bands, width, hashes), MinRef(16, "set", 0.5, bands, width, hashes, "word", False, None)
    f.insert_document(1, "a b")
    r.insert(1, "a b")
    agree_min(f, r, "a b")
    return "calculated"


@harness(["end"], "the defaults, with any one argument given")
def z_default(which: int) -> str:
    """
    pre: 0 <= which < 9
    post: _
    """
    size, threshold, bands, width, hashes, analyzer, lower, grams, c = 32, 0.75, 20, 5, None, "word", False, None, "set"
    kw = {}
    if which == 1: kw["hash_size"] = size = 64
    if which == 2: kw["jaccard_threshold"] = threshold = 0.25
    if which == 3: kw["num_bands"] = bands = 33
    if which == 4: kw["band_size"] = width = 4
    if which == 5: kw["analyzer"] = analyzer = "char"
    if which == 6: kw["lowercase"] = lower = True
    if which == 7: kw["ngram_range"] = grams = (1, 2)
    if which == 8: kw["id_container"] = c = "smallvec"
    f, r = MinHashStringIndex(**kw), MinRef(size, c, threshold, bands, width, hashes, analyzer, lower, grams)
    for i, d in ((1, "Ab cd ef gh ij"), (2, "Ab cd xy"), (3, "zz")):
        f.insert_document(i, d)
        r.insert(i, d)
    agree_min(f, r, "Ab cd ef gh ij", "ab cd ef gh ij", "zz")
    return "end"


@harness(["built-in", "callable"], "any two ids and documents, any query; inserted singly; every analyzer, also callables and callable objects")
def z_single(analyzer: int, i: int, j: int, d: str, e: str, q: str) -> str:
    """
    pre: 0 <= analyzer < 4
    pre: -2**63 <= i < 2**63 and -2**63 <= j < 2**63 and len(d) < 3 and len(e) < 3 and len(q) < 3
    post: _
    """
    a = analyzer_of(analyzer)
    f, r = MinHashStringIndex(16, 0.6, 5, 2, None, a, False, (1, 2), "vec"), MinRef(16, "vec", 0.6, 5, 2, None, a, False, (1, 2))
    for x, y in ((i, d), (j, e)):
        f.insert_document(x, y)
        r.insert(x, y)
    agree_min(f, r, q)
    return "callable" if analyzer > 1 else "built-in"


@harness(["built-in", "callable"], "a bulk insertion of any two ids and documents, any query; word analyzer or callable")
def z_bulk(analyzer: int, i: int, j: int, d: str, e: str, q: str) -> str:
    """
    pre: 0 <= analyzer < 4
    pre: -2**63 <= i < 2**63 and -2**63 <= j < 2**63 and len(d) < 3 and len(e) < 3 and len(q) < 3
    post: _
    """
    a = analyzer_of(analyzer)
    f, r = MinHashStringIndex(32, 0.7, 5, 2, None, a, True, None, "vec"), MinRef(32, "vec", 0.7, 5, 2, None, a, True, None)
    f.par_bulk_insert_docs([i, j], [d, e])
    for x, y in ((i, d), (j, e)):
        r.insert(x, y)
    agree_min(f, r, q)
    return "callable" if analyzer > 1 else "built-in"


@harness(["end"], "three documents under any ids, any id removed, any of the documents searched; single and bulk insertion")
def z_remove(analyzer: int, bulk: bool, i: int, j: int, k: int, gone: int) -> str:
    """
    pre: 0 <= analyzer < 3
    pre: -2**63 <= i < 2**63 and -2**63 <= j < 2**63 and -2**63 <= k < 2**63 and -2**63 <= gone < 2**63
    post: _
    """
    a = analyzer_of(analyzer)
    f, r = MinHashStringIndex(64, 0.7, 5, 2, None, a), MinRef(64, "set", 0.7, 5, 2, None, a, False, None)
    docs = [(i, "ab cd"), (j, "ef gh"), (k, "ab cd")]
    if bulk:
        f.par_bulk_insert_docs([x for x, _ in docs], [y for _, y in docs])
    for x, y in docs:
        if not bulk:
            f.insert_document(x, y)
        r.insert(x, y)
    f.remove(gone)
    r.ix.remove(gone)
    agree_min(f, r, "ab cd", "ef gh")
    return "end"


@harness(["used", "refused"], "any integers as hash size, number of blocks and distance; 3..32 blocks and a distance below them are accepted")
def x_new(hash_size: int, blocks: int, distance: int) -> str:
    """
    pre: distance >= 0
    post: _
    """
    if (hash_size == 64 or hash_size == 128) and 3 <= blocks <= 32 and distance < blocks:
        f = SimHashStringIndex(hash_size, blocks, distance)
        if blocks <= 8: # the native tables get too many to build in a replay
            r = SimRef(hash_size, blocks, distance, "word", False, None)
            for i, d in ((1, "ab"), (2, "ac"), (3, "b")):
                f.insert_document(i, d)
                r.insert(i, d)
            agree_sim(f, r, "ab", "b")
        return "used"
    check(refused(lambda: SimHashStringIndex(hash_size, blocks, distance)), "unsupported parameters are refused")
    return "refused"


@harness(["used", "refused"], "any analyzer name of at most 5 characters")
def x_analyzer(hash_size: int, analyzer: str) -> str:
    """
    pre: hash_size == 64 or hash_size == 128
    pre: len(analyzer) < 6
    post: _
    """
    for a in ("word", "char"):
        if analyzer == a:
            f, r = SimHashStringIndex(hash_size, analyzer=analyzer), SimRef(hash_size, 6, 5, a, False, None)
            f.insert_document(1, "Ab cd ef")
            r.insert(1, "Ab cd ef")
            agree_sim(f, r, "Ab cd ef")
            return "used"
    check(refused(lambda: SimHashStringIndex(hash_size, analyzer=analyzer)), "an unknown analyzer is refused")
    return "refused"


@harness(["positional", "named"], "any n-gram range, lower case or not, word or char analyzer, both hash sizes, 3..8 blocks, any smaller distance, arguments by position and by name")
def x_params(wide: bool, blocks: int, distance: int, char: bool, lower: bool, grams: Optional[Tuple[int, int]], named: bool) -> str:
    """
    pre: 3 <= blocks <= 8 and 0 <= distance < blocks
    pre: grams is None or 0 < grams[0] <= grams[1] < 20
    post: _
    """
    w, a = 128 if wide else 64, "char" if char else "word"
    if named:
        f = SimHashStringIndex(ngram_range=grams, lowercase=lower, analyzer=a, hamming_distance=distance, num_blocks=blocks, hash_size=w)
    else:
        f = SimHashStringIndex(w, blocks, distance, a, lower, grams)
    r = SimRef(w, blocks, distance, a, lower, grams)
    for i, d in ((1, "Ab cd ef gh ij"), (2, "xyz uvw"), (3, "Ab ef")):
        f.insert_document(i, d)
        r.insert(i, d)
    agree_sim(f, r, "Ab cd ef gh ij", "xyz uvw")
    return "named" if named else "positional"


@harness(["end"], "the defaults, with any one argument given")
def x_default(which: int) -> str:
    """
    pre: 0 <= which < 7
    post: _
    """
    size, blocks, distance, analyzer, lower, grams = 64, 6, 5, "word", False, None
    kw = {}
    if which == 1: kw["hash_size"] = size = 128
    if which == 2: kw["num_blocks"] = blocks = 7
    if which == 3: kw["hamming_distance"] = distance = 1
    if which == 4: kw["analyzer"] = analyzer = "char"
    if which == 5: kw["lowercase"] = lower = True
    if which == 6: kw["ngram_range"] = grams = (1, 2)
    f, r = SimHashStringIndex(**kw), SimRef(size, blocks, distance, analyzer, lower, grams)
    for i, d in ((1, "Ab cd ef gh ij"), (2, "Ab cd xy"), (3, "zz")):
        f.insert_document(i, d)
        r.insert(i, d)
    agree_sim(f, r, "Ab cd ef gh ij", "ab cd ef gh ij", "zz")
    return "end"


@harness(["built-in", "callable"], "any two ids and documents, any query; every analyzer, also callables and callable objects")
def x_single(analyzer: int, i: int, j: int, d: str, e: str, q: str) -> str:
    """
    pre: 0 <= analyzer < 4
    pre: -2**63 <= i < 2**63 and -2**63 <= j < 2**63 and len(d) < 3 and len(e) < 3 and len(q) < 3
    post: _
    """
    a = analyzer_of(analyzer)
    f, r = SimHashStringIndex(128, 4, 3, a, False, (1, 2)), SimRef(128, 4, 3, a, False, (1, 2))
    for x, y in ((i, d), (j, e)):
        f.insert_document(x, y)
        r.insert(x, y)
    agree_sim(f, r, q)
    return "callable" if analyzer > 1 else "built-in"


def numbered(n, lower=False):
    return ["%s%d %s%d" % ("W" if k % 3 else "w", k, "x", k % 7) for k in range(n)]


@harness(["end"], "bulk insertions of 0, 1, 55 documents, bulk queries of several documents, some of them twice; every analyzer")
def z_many(analyzer: int, size: int) -> str:
    """
    pre: 0 <= analyzer < 4 and 0 <= size < 3
    post: _
    """
    a = analyzer_of(analyzer)
    n = (0, 1, 55)[int(size)]
    f, r = MinHashStringIndex(16, 0.7, 4, 2, None, a), MinRef(16, "set", 0.7, 4, 2, None, a, False, None)
    docs = numbered(n)
    f.par_bulk_insert_docs([10 + k for k in range(n)], docs)
    for k in range(n):
        r.insert(10 + k, docs[k])
    check(f.size() == n, "every document of a bulk insertion is stored")
    q = docs[n // 2] if n else "w0 x0"
    agree_min(f, r, q, "", q)
    some = docs[-2:] + docs[:3] + docs[-1:]
    check(same_bulk(f.par_bulk_query(some), [r.query(d) for d in some], same_ids), "a long bulk query answers each query in order")
    check(same_bulk(f.par_bulk_query(some, return_similarity=True), [r.ranked(d) for d in some], same_ranked), "a long bulk query with similarities answers each query in order")
    return "end"


@harness(["end"], "insertions of 0, 1, 40 documents, bulk queries of several documents, some of them twice; every analyzer")
def x_many(analyzer: int, size: int) -> str:
    """
    pre: 0 <= analyzer < 4 and 0 <= size < 3
    post: _
    """
    a = analyzer_of(analyzer)
    n = (0, 1, 40)[int(size)]
    f, r = SimHashStringIndex(64, 4, 2, a), SimRef(64, 4, 2, a, False, None)
    docs = numbered(n)
    for k in range(n):
        f.insert_document(10 + k, docs[k])
        r.insert(10 + k, docs[k])
    q = docs[n // 2] if n else "w0 x0"
    agree_sim(f, r, q, "", q)
    some = docs[-2:] + docs[:3] + docs[-1:]
    check(same_bulk(f.par_bulk_query(some), [r.query(d) for d in some], same_ids), "a long bulk query answers each query in order")
    check(same_bulk(f.par_bulk_query(some, return_similarity=True), [r.ranked(d) for d in some], same_ranked), "a long bulk query with distances answers each query in order")
    return "end"
