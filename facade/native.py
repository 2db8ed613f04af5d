"""A model of the native extension module gaoya.gaoya, for the symbolic runs of the facade.

A class stores documents and token lists and answers like an index whose similarity is 1 for equal
ones, 2/3 for ones that begin alike and 0 otherwise (distances: 0, 2, 9). Every similarity carries
the class and the effective configuration that produced it. Argument names, defaults and types are
those of the pyo3 signatures; the real extension takes the model's place in replays.
"""
import sys
import types


class Sim(float):
    made_by = None


class Dist(int):
    made_by = None


def _int(x, signed=True):
    if not isinstance(x, int):
        raise TypeError("an int is required")
    if not signed and x < 0:
        raise OverflowError("can't convert negative int to unsigned")
    return x


def _str(x):
    if not isinstance(x, str):
        raise TypeError("a str is required")
    return x


def _seq(x):
    if isinstance(x, str) or not hasattr(x, "__len__") or not hasattr(x, "__getitem__"):
        raise TypeError("a sequence is required")
    return x


def _tokens(x):
    return ("tokens",) + tuple(_str(t) for t in _seq(x))


def _doc(x):
    return ("doc", _str(x))


class _Index:
    def _analysis(self, analyzer, lowercase, ngram_range):
        kind = "char" if analyzer is not None and _str(analyzer) == "char" else "word"
        if ngram_range is None:
            ngram_range = (3, 4) if kind == "char" else (1, 1)
        a, b = ngram_range
        return (kind, bool(lowercase) if lowercase is not None else False, _int(a, False), _int(b, False))

    def _put(self, id, key):
        self.docs = [(i, k) for i, k in self.docs if i != id] + [(_int(id), key)]

    def _rank(self, key):
        best, rest = [], []
        for i, k in self.docs:
            if k == key:
                best.append((i, 0))
            elif k[0] == key[0] and len(k) > 1 and len(key) > 1 and k[1][:1] == key[1][:1]:
                rest.append((i, 1))
        return [r for r in best + rest if self._near(r[1])]

    def _scored(self, key):
        return [(i, self._score(g)) for i, g in self._rank(key)]

    def insert_document(self, id, doc):
        self._put(id, _doc(doc))

    def insert_tokens(self, id, tokens):
        self._put(id, _tokens(tokens))

    def par_bulk_insert_docs(self, ids, docs):
        ids, keys = [_int(i) for i in _seq(ids)], [_doc(d) for d in _seq(docs)]
        for i, k in zip(ids, keys):
            self._put(i, k)

    def par_bulk_insert_tokens(self, ids, tokens):
        ids, keys = [_int(i) for i in _seq(ids)], [_tokens(d) for d in _seq(tokens)]
        for i, k in zip(ids, keys):
            self._put(i, k)

    def query(self, doc):
        return [i for i, _ in self._rank(_doc(doc))]

    def query_tokens(self, tokens):
        return [i for i, _ in self._rank(_tokens(tokens))]

    def par_bulk_query(self, docs):
        return [self.query(d) for d in _seq(docs)]

    def par_bulk_query_tokens(self, tokens):
        return [self.query_tokens(t) for t in _seq(tokens)]


class _MinHash(_Index):
    def __init__(self, jaccard_threshold=0.5, num_bands=42, band_width=3, num_hashes=126, analyzer="word", lowercase=False, ngram_range=(1, 1)):
        self.threshold = jaccard_threshold
        if num_bands is not None and band_width is not None:
            bands = (_int(num_bands, False), _int(band_width, False))
        elif num_hashes is not None:
            bands = ("calculated", _int(num_hashes, False))
        else:
            raise ValueError("num_bands and band_width or num_hashes must be specified")
        self.config = (type(self).__name__, jaccard_threshold, bands, self._analysis(analyzer, lowercase, ngram_range))
        self.docs = []

    def _near(self, g):
        return g == 0 or self.threshold <= 2 / 3

    def _score(self, g):
        s = Sim(1.0 if g == 0 else 2 / 3)
        s.made_by = self.config
        return s

    def bulk_insert_tokens(self, ids, tokens):
        self.par_bulk_insert_tokens(ids, tokens)

    def query_return_similarity(self, doc):
        return self._scored(_doc(doc))

    def query_tokens_return_similarity(self, tokens):
        return self._scored(_tokens(tokens))

    def par_bulk_query_return_similarity(self, docs):
        return [self.query_return_similarity(d) for d in _seq(docs)]

    def par_bulk_query_tokens_return_similarity(self, tokens):
        return [self.query_tokens_return_similarity(t) for t in _seq(tokens)]

    def remove(self, id):
        self.docs = [(i, k) for i, k in self.docs if i != _int(id)]

    def size(self):
        return len(self.docs)

    def __str__(self):
        return "%s with %d documents" % (self.config[0], len(self.docs))

    __repr__ = __str__


class _SimHash(_Index):
    def __init__(self, num_blocks=6, max_distance=5, analyzer="word", lowercase=False, ngram_range=(1, 1)):
        self.distance = _int(max_distance, False)
        self.config = (type(self).__name__, _int(num_blocks, False), max_distance, self._analysis(analyzer, lowercase, ngram_range))
        self.docs = []

    def _near(self, g):
        return g == 0 or self.distance >= 2

    def _score(self, g):
        s = Dist(0 if g == 0 else 2)
        s.made_by = self.config
        return s

    def query_return_distance(self, doc):
        return self._scored(_doc(doc))

    def query_tokens_return_distance(self, tokens):
        return self._scored(_tokens(tokens))

    def par_bulk_query_return_distance(self, docs):
        return [self.query_return_distance(d) for d in _seq(docs)]

    def par_bulk_query_tokens_return_similarity(self, tokens):
        return [self.query_tokens_return_distance(t) for t in _seq(tokens)]


def module():
    ext = types.ModuleType("gaoya.gaoya")
    ext.minhash = types.ModuleType("minhash")
    ext.simhash = types.ModuleType("simhash")
    for w in (8, 16, 32, 64):
        for c in ("HashSet", "Vec", "SmallVec"):
            n = "MinHash%dStringIntIndex%s" % (w, c)
            setattr(ext.minhash, n, type(n, (_MinHash,), {}))
    for w in (64, 128):
        n = "SimHash%dStringIntIndex" % w
        setattr(ext.simhash, n, type(n, (_SimHash,), {}))
    return ext


def install():
    sys.modules["gaoya.gaoya"] = module()
