"""C13 document completion splits conserve word counts"""
from symx.harness import Case

MODS = ['sidetopics.model.common']
BOUNDS = ("counts symbolic in 1..12 or, stored zeros, 0..12 (whole numbers), every jitter draw symbolic within 6 standard deviations, proportion symbolic "
          "in (0,1) or one of .1 .25 .5 .75 .9; corpora of up to 3 documents and 6 stored entries; minimum of 0..3 unique words")
ASSUMPTIONS = ["scipy.sparse is replaced by a model with a fixed sparsity pattern and symbolic data"]

PATS = {
    'a': [[1, 0, 1], [0, 0, 0], [1, 1, 1]],
    'b': [[1, 1], [0, 1], [1, 0]],
    'c': [[1, 1, 1, 1]],
    'd': [[0, 1, 1, 0], [1, 0, 0, 1]],
}


def split(h, pat, prop, dtype, minw, seedarg, cats, lo=1):
    common = h.mod('sidetopics.model.common')
    pat = PATS[pat]
    D, V = len(pat), len(pat[0])
    n = sum(map(sum, pat))
    W = h.from_dense(pat, h.ints('w', n, lo, 12, dtype=h.np.int32), dtype=getattr(h.np, dtype))
    if prop == 'sym':
        prop = h.real('prop', 0.01, 0.99)
    C = [['c%d' % d] for d in range(D)] if cats else None
    before = h.snap(W)
    ds = common.DataSet(W, doc_categories=C, debug=True)
    kw = {} if seedarg is None else {'seed': seedarg}
    est, evl = None, None

    def go():
        nonlocal est, evl
        est, evl = ds.doc_completion_split(min_unique_word_count=minw, est_prop=prop, debug=True, **kw)
    e = h.raises(go, AssertionError)
    h.same("the corpus itself is unchanged", W, before)
    if e is not None:
        h.check("only a corpus none of whose documents is long enough may be rejected", 'No rows' in str(e))
        h.check("only a positive minimum can drop every document", minw > 0)
        return
    a, b, w = h.dense(est.words), h.dense(evl.words), h.dense(W)
    h.check("both parts hold the same documents", est.words.shape == evl.words.shape and a.shape[1] == V)
    h.ge("no negative counts in the first part", a, 0)
    h.ge("no negative counts in the second part", b, 0)
    h.check("whole counts", h.and_(*[h.is_eq(x, h.floor(x)) for x in h.flat(a)]))
    h.check("the dtype of the counts is kept", est.words.dtype == W.dtype and evl.words.dtype == W.dtype)
    if minw == 0:
        h.eq("the parts add up to the corpus", a + b, w)
        h.check("all documents are kept", est.doc_count == D and evl.doc_count == D)
    else:
        # documents are identified by their categories
        h.check("categories follow their documents", len(est.doc_categories) == a.shape[0] and len(evl.doc_categories) == a.shape[0])
        rows = [int(c[0][1:]) for c in est.doc_categories]
        h.check("categories agree between the parts", [list(c) for c in est.doc_categories] == [list(c) for c in evl.doc_categories])
        h.check("documents stay in order", rows == sorted(set(rows)))
        h.eq("the parts add up to the kept documents", a + b, w[rows])
        for i in range(len(rows)):
            for part, nm in ((a, 'first'), (b, 'second')):
                u = h.sum([h.ite(h.is_eq(x, 0), 0, 1) for x in h.flat(part[i])])
                h.check("a kept document has enough distinct words in the %s part" % nm, h.le_(minw, u))
    h.observe('est', a)


def minimum(h, pat, prop, minw):
    """which documents are dropped: the split of the same draws without a minimum decides"""
    common = h.mod('sidetopics.model.common')
    pat = PATS[pat]
    D = len(pat)
    n = sum(map(sum, pat))
    W = h.from_dense(pat, h.ints('w', n, 1, 12, dtype=h.np.int32), dtype=h.np.int32)
    C = [['c%d' % d] for d in range(D)]
    h.rewind_random()
    est0, evl0 = common.DataSet(h.snap(W), doc_categories=C, debug=True).doc_completion_split(0, est_prop=prop, debug=True)
    h.rewind_random()
    out = []
    e = h.raises(lambda: out.extend(common.DataSet(h.snap(W), doc_categories=C, debug=True).doc_completion_split(minw, est_prop=prop, debug=True)), AssertionError)
    kept = [int(c[0][1:]) for c in out[0].doc_categories] if out else []
    a0, b0 = h.dense(est0.words), h.dense(evl0.words)
    for d in range(D):
        ua = h.sum([h.ite(h.is_eq(x, 0), 0, 1) for x in h.flat(a0[d])])
        ub = h.sum([h.ite(h.is_eq(x, 0), 0, 1) for x in h.flat(b0[d])])
        good = h.and_(h.le_(minw, ua), h.le_(minw, ub))
        h.check("exactly the documents with enough distinct words on both sides are kept", good if d in kept else h.not_(good))
    if out:
        h.eq("first part of the kept documents", h.dense(out[0].words), a0[kept])
        h.eq("second part of the kept documents", h.dense(out[1].words), b0[kept])


def features(h):
    common = h.mod('sidetopics.model.common')
    W = h.from_dense(PATS['b'], h.ints('w', 4, 1, 12))
    F = h.from_dense([[1, 0], [1, 1], [0, 1]], h.reals('f', 4))
    ds = common.DataSet(W, F, debug=True)
    w0, f0 = h.snap(W), h.snap(F)
    a, b = ds.doc_completion_split(debug=True)
    for x in (a, b):
        h.same("a corpus with features is returned whole (words)", x.words, w0)
        h.same("a corpus with features is returned whole (features)", x.feats, f0)


def links(h):
    common = h.mod('sidetopics.model.common')
    W = h.from_dense(PATS['b'], h.ints('w', 4, 1, 12))
    L = h.from_dense([[1, 0], [1, 1], [0, 1]], h.ints('l', 4, 1, 5))
    l0 = h.snap(L)
    ds = common.DataSet(W, None, L, debug=True)
    a, b = ds.doc_completion_split(debug=True)
    h.eq("the parts add up to the corpus", h.dense(a.words) + h.dense(b.words), h.dense(W))
    for x in (a, b):
        h.same("links stay with their documents", x.links, l0)


def cases(tier):
    out = []
    for prop in (0.1, 0.25, 0.5, 0.75, 0.9, 'sym'):
        for dt in ('int32', 'float64', 'float32') if tier != 'quick' else ('int32', 'float64'):
            if prop == 'sym' and dt == 'float32':
                continue
            out.append(Case('split_%s_%s' % (prop, dt), split, dict(pat='a' if prop != 'sym' else 'd', prop=prop, dtype=dt, minw=0, seedarg=None, cats=False)))
    for pat, dt in (('a', 'int32'), ('b', 'float64'), ('c', 'int32')):
        out.append(Case('zeros_%s' % pat, split, dict(pat=pat, prop=0.75 if pat == 'b' else 0.5, dtype=dt, minw=0, seedarg=None, cats=False, lo=0)))
    for pat in 'bcd':
        for m in (1, 2) if tier == 'quick' else (1, 2, 3):
            out.append(Case('min_%s_%d' % (pat, m), split, dict(pat=pat, prop=0.5, dtype='int32', minw=m, seedarg=7, cats=True)))
            out.append(Case('which_%s_%d' % (pat, m), minimum, dict(pat=pat, prop=0.5, minw=m)))
    out.append(Case('features', features))
    out.append(Case('links', links))
    return out
