"""C12 cross-validation folds partition the corpus"""
import types
from symx.harness import Case

MODS = ['sidetopics.model.common']
BOUNDS = ("fold arithmetic: corpus size symbolic in 1..40 (quick 1..16), folds 2..5 (thorough 2..7), every fold pair; "
          "row selection: corpora of 3..7 documents with symbolic entries, folds 2..5, words/features/links/labels/order")


class Stub:
    """stands in for a corpus of symbolic size"""

    def __init__(self, D):
        self.doc_count = D

    def __len__(self):
        return int(self.doc_count)


def indices(h, K, f, lo, hi):
    """fold f of K against every other fold, for a symbolic number of documents"""
    common = h.mod('sidetopics.model.common')
    D = h.int('D', lo, hi)
    S = common.DataSet
    train, query = S.cross_valid_split_indices(Stub(D), f, K)
    train, query = h.flat(train), h.flat(query)
    h.check("indices in range", h.and_(*[h.and_(h.le_(0, x), h.lt(x, D)) for x in train + query]))
    h.check("train and query sizes add up to the corpus size", h.is_eq(len(train) + len(query), D))
    for i, x in enumerate(query):
        h.check("no document twice in a query part", h.and_(*[h.not_(h.is_eq(x, y)) for y in query[i + 1:]]))
        h.check("train and query parts are disjoint", h.and_(*[h.not_(h.is_eq(x, y)) for y in train]))
    for i, x in enumerate(train):
        h.check("no document twice in a training part", h.and_(*[h.not_(h.is_eq(x, y)) for y in train[i + 1:]]))
    n = len(query)
    for g in range(K):
        if g == f:
            continue
        q2 = h.flat(S.cross_valid_split_indices(Stub(D), g, K)[1])
        n += len(q2)
        h.check("query parts of different folds are disjoint", h.and_(*[h.not_(h.is_eq(x, y)) for x in query for y in q2]))
    h.check("the query parts of all folds together have the size of the corpus", h.is_eq(n, D))
    h.observe('query', query)


def rows(h, D, K, feats, links, cats, order):
    common = h.mod('sidetopics.model.common')
    V = 3
    pat = [[1 if (d + v) % 3 != 1 or v == d % V else 0 for v in range(V)] for d in range(D)]
    n = sum(map(sum, pat))
    W = h.from_dense(pat, h.ints('w', n, 1, 9))
    F = L = C = O = None
    if feats:
        F = h.from_dense([[1, d % 2] for d in range(D)], h.reals('f', 2 * D))
    if links:
        lp = [[1 if (i * j + i) % 2 else 0 for j in range(links)] for i in range(D)]
        L = h.from_dense(lp, h.ints('l', sum(map(sum, lp)), 1, 5))
    if cats:
        C = [['c%d' % d] for d in range(D)]
        if cats == 'array':
            import numpy
            a = numpy.empty(D, dtype=object)
            a[:] = C
            C = a
    if order:
        O = h.np.array([10 + 3 * d for d in range(D)])
    ds = common.DataSet(W, F, L, None, C, O, debug=True)
    ids = [10 + 3 * d for d in range(D)] if order else list(range(D))
    seen = []
    for f in range(K):
        train, query = ds.cross_valid_split(f, K, debug=True)
        to, qo = [int(x) for x in h.flat(train.order)], [int(x) for x in h.flat(query.order)]
        h.check("train and query documents are the whole corpus", sorted(to + qo) == sorted(ids))
        seen += qo
        for part, o in ((train, to), (query, qo)):
            r = [ids.index(x) for x in o]
            h.eq("words are the rows of the part's documents", h.dense(part.words), h.dense(W)[r])
            if feats:
                h.eq("features are the rows of the part's documents", h.dense(part.feats), h.dense(F)[r])
            else:
                h.check("no features appear", part.feats is None)
            if links:
                h.eq("links are the rows of the part's documents", h.dense(part.links), h.dense(L)[r])
            else:
                h.check("no links appear", part.links is None)
            if cats:
                h.check("categories are those of the part's documents", [list(c) for c in part.doc_categories] == [['c%d' % i] for i in r])
            else:
                h.check("no categories appear", part.doc_categories is None)
    h.check("every document is queried exactly once", sorted(seen) == sorted(ids))
    h.eq("the corpus itself is unchanged", ds.words, W)


def cases(tier):
    out = []
    hi = 16 if tier == 'quick' else 40
    for K in range(2, 6 if tier == 'quick' else 8):
        for f in range(K):
            out.append(Case('indices_K%d_f%d' % (K, f), indices, dict(K=K, f=f, lo=1, hi=hi)))
    for D, K in [(4, 2), (5, 2), (5, 3), (7, 4), (6, 5)] + ([(7, 2), (7, 3), (8, 3), (9, 4), (9, 5)] if tier != 'quick' else []):
        out.append(Case('rows_%d_%d_all' % (D, K), rows, dict(D=D, K=K, feats=True, links=D, cats='array', order=True)))
    for feats, links, cats, order in [(0, 0, 0, 0), (1, 0, 0, 1), (0, 2, 0, 0), (0, 5, 'list', 0), (1, 0, 'list', 1), (0, 0, 'array', 0)]:
        out.append(Case('rows_5_3_%d%d%s%d' % (feats, links, cats, order), rows,
                        dict(D=5, K=3, feats=feats, links=links, cats=cats, order=order)))
    return out
