"""C14 link splits conserve links"""
from symx.harness import Case

MODS = ['sidetopics.model.common']
BOUNDS = ("link counts symbolic in 1..9 on fixed patterns of up to 6x6; random splits: every shuffle of up to 5 stored links "
          "(thorough 6); folded splits: minimum link count symbolic in 0..6, 2..4 folds, every fold")
ASSUMPTIONS = ["scipy.sparse is replaced by a model with a fixed sparsity pattern and symbolic data"]

PATS = {
    'r2': [[0, 1, 0], [1, 0, 0]],
    'r3': [[1, 0, 1], [0, 0, 0], [0, 1, 0]],
    'r4': [[1, 0, 1, 0], [0, 1, 0, 0], [1, 0, 0, 0]],
    'r5': [[1, 1, 0], [0, 1, 0], [1, 0, 1]],
    'one': [[0, 0], [0, 1]],
    'none': [[0, 0], [0, 0]],
    's3': [[0, 1, 0], [1, 1, 1], [0, 1, 0]],
    's4': [[1, 1, 0, 0], [1, 0, 0, 1], [0, 0, 0, 1], [0, 1, 1, 0]],
    's5': [[1, 1, 0, 1], [1, 0, 1, 0], [0, 1, 1, 0], [1, 0, 0, 0]],
    's0': [[0, 1], [1, 0]],
    'f': [[1, 1, 1, 1, 1], [0, 0, 0, 0, 0], [1, 0, 1, 0, 0], [0, 1, 1, 1, 0], [0, 0, 0, 0, 1], [1, 1, 0, 1, 1]],
    'g': [[1, 1, 1, 1, 1, 1], [0, 1, 1, 1, 1, 1], [0, 0, 0, 0, 1, 0], [1, 1, 1, 0, 0, 0]],
}


def links(h, pat, symm, dtype='int32'):
    n = sum(map(sum, pat))
    v = h.ints('l', n, 1, 9)
    if symm:
        # mirror the values of the lower triangle
        idx, vals, k = {}, [], 0
        for i, r in enumerate(pat):
            for j, x in enumerate(r):
                if x:
                    idx[i, j] = k
                    k += 1
        v = h.array([v[idx[max(i, j), min(i, j)]] for (i, j) in sorted(idx)], dtype=h.np.int32)
    return h.from_dense(pat, v, dtype=getattr(h.np, dtype))


def random_split(h, pat, symm, dtype='int32'):
    common = h.mod('sidetopics.model.common')
    p = PATS[pat]
    D = len(p)
    L = links(h, p, symm, dtype)
    W = h.from_dense([[1, 1]] * D, h.ints('w', 2 * D, 1, 5))
    F = h.from_dense([[1]] * D, h.reals('f', D))
    before, w0, f0 = h.snap(L), h.snap(W), h.snap(F)
    ds = common.DataSet(W, F, L, None, ['c%d' % d for d in range(D)], debug=True)
    a, b = ds.link_prediction_split(symmetric=symm)
    h.same("the corpus's own links are unchanged", L, before)
    for x in (a, b):
        h.check("same shape", x.links.shape == L.shape)
        h.same("the words are those of the corpus", x.words, w0)
        h.same("the features are those of the corpus", x.feats, f0)
        h.check("the categories are those of the corpus", list(x.doc_categories) == ['c%d' % d for d in range(D)])
    A, B, X = h.dense(a.links), h.dense(b.links), h.dense(before)
    h.eq("the parts add up to the links", A + B, X)
    h.check("no link is in both parts", h.and_(*[h.or_(h.is_eq(x, 0), h.is_eq(y, 0)) for x, y in zip(h.flat(A), h.flat(B))]))
    if symm:
        h.eq("the first part is symmetric", A, A.T)
        h.eq("the second part is symmetric", B, B.T)
    na = sum(1 for i in range(D) for j in range(len(p[0])) if p[i][j] and (not symm or i >= j) and not h.is_zero(A[i, j]))
    n = sum(1 for i in range(D) for j in range(len(p[0])) if p[i][j] and (not symm or i >= j))
    h.check("half of the links go to each part", na == n // 2)
    h.observe('a', A)


def folded(h, pat, folds, dtype='int32'):
    common = h.mod('sidetopics.model.common')
    p = PATS[pat]
    D = len(p)
    L = links(h, p, False, dtype)
    W = h.from_dense([[1, 1]] * D, h.ints('w', 2 * D, 1, 5))
    before = h.snap(L)
    m = h.int('m', 0, 6)
    ds = common.DataSet(W, None, L, debug=True)
    X = h.dense(before)
    held = h.zeros(X.shape)
    for f in range(folds):
        a, b, docs = ds.folded_link_prediction_split(m, f, folds)
        h.same("the corpus's own links are unchanged", L, before)
        h.check("same shape", a.links.shape == L.shape and b.links.shape == L.shape)
        A, B = h.dense(a.links), h.dense(b.links)
        h.eq("the parts add up to the links", A + B, X)
        h.check("no link is in both parts", h.and_(*[h.or_(h.is_eq(x, 0), h.is_eq(y, 0)) for x, y in zip(h.flat(A), h.flat(B))]))
        docs = [int(d) for d in docs]
        for d in range(D):
            n = sum(p[d])
            h.check("exactly the documents with enough links are listed", h.le_(m, n) if d in docs else h.not_(h.le_(m, n)))
            nb = [0 if h.is_zero(x) else 1 for x in h.flat(B[d])]
            if d in docs:
                h.check("a fold's share of the links is held out", sum(nb) == n // folds)
                held[d] = held[d] + h.array(nb, dtype=float)
            else:
                h.check("documents with few links keep them all", sum(nb) == 0)
    h.check("no link is held out by two folds", h.and_(*[h.le_(x, 1) for x in h.flat(held)]))
    h.check("every link is held out by some fold when the folds divide a document's links",
            h.and_(*[h.or_(h.is_eq(held[d, j], 1), h.not_(h.le_(m, sum(p[d]))))
                     for d in range(D) if sum(p[d]) % folds == 0 for j in range(len(p[0])) if p[d][j]]))


def symm_folded(h):
    common = h.mod('sidetopics.model.common')
    L = links(h, PATS['s3'], True)
    W = h.from_dense([[1, 1]] * 3, h.ints('w', 6, 1, 5))
    ds = common.DataSet(W, None, L, debug=True)
    e = h.raises(lambda: ds.folded_link_prediction_split(1, 0, 2, symmetric=True))
    h.check("symmetric folds are refused", type(e).__name__ == 'ValueError')


def cases(tier):
    out = []
    for p in ['none', 'one', 'r2', 'r3', 'r4'] + (['r5'] if tier != 'quick' else []):
        out.append(Case('random_' + p, random_split, dict(pat=p, symm=False)))
    out.append(Case('random_r3_f8', random_split, dict(pat='r3', symm=False, dtype='float64')))
    for p in ['s0', 's3', 's4'] + (['s5'] if tier != 'quick' else []):
        out.append(Case('symm_' + p, random_split, dict(pat=p, symm=True)))
    out.append(Case('symm_s3_f8', random_split, dict(pat='s3', symm=True, dtype='float64')))
    for p in 'fg':
        for k in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 6):
            out.append(Case('folded_%s_%d' % (p, k), folded, dict(pat=p, folds=k)))
    out.append(Case('folded_f_3_f8', folded, dict(pat='f', folds=3, dtype='float64')))
    out.append(Case('folded_symmetric', symm_folded))
    return out
