"""C15 document rows stay aligned"""
from symx.harness import Case

MODS = ['sidetopics.model.common']
BOUNDS = ("corpora of 3 or 4 documents with symbolic counts, features and links on fixed patterns; every shuffle; minimum distinct "
          "words 0..3, minimum link totals symbolic in 0..8")
ASSUMPTIONS = ["scipy.sparse is replaced by a model with a fixed sparsity pattern and symbolic data"]

WP = {2: [[1, 0, 1], [1, 1, 0]], 3: [[1, 0, 1], [0, 1, 0], [1, 1, 1]], 4: [[1, 0, 1], [0, 1, 0], [1, 1, 1], [0, 1, 1]]}
LP = {2: [[0, 1], [1, 1]], 3: [[0, 1, 1], [1, 0, 0], [0, 1, 1]], 4: [[0, 1, 1, 0], [1, 0, 0, 0], [0, 1, 1, 1], [1, 0, 0, 1]]}
LR = {3: [[0, 1], [1, 0], [1, 1]], 4: [[0, 1], [1, 0], [1, 1], [0, 0]]}


def corpus(h, D, feats=True, links='square', cats='list', order=None, wdict=False, limit=0, zeros=False):
    common = h.mod('sidetopics.model.common')
    W = h.from_dense(WP[D], h.ints('w', sum(map(sum, WP[D])), 0 if zeros else 1, 9), dtype=h.np.int32)
    F = h.from_dense([[1, 1]] * D, h.reals('f', 2 * D)) if feats else None
    L = None
    if links:
        p = (LP if links == 'square' else LR)[D]
        L = h.from_dense(p, h.ints('l', sum(map(sum, p)), 1, 4), dtype=h.np.int32)
    C = ['c%d' % d for d in range(D)] if cats else None
    if cats == 'array':
        import numpy
        C = numpy.array(C)
    wd = ['w%d' % v for v in range(3)] if wdict else None
    o = None if order is None else h.np.array(order)
    ds = common.DataSet(W, F, L, wd, C, o, limit, debug=True)
    return ds, h.snap(h.dense(W)), None if F is None else h.snap(h.dense(F)), None if L is None else h.snap(h.dense(L)), C


def aligned(h, ds, rows, W, F, L, C, square):
    h.eq("words follow their documents", h.dense(ds.words), W[rows])
    if F is not None:
        h.eq("features follow their documents", h.dense(ds.feats), F[rows])
    else:
        h.check("no features appear", ds.feats is None)
    if L is not None:
        want = L[rows]
        if square:
            want = want[:, rows]
        h.eq("links follow their documents on every axis they index", h.dense(ds.links), want)
    else:
        h.check("no links appear", ds.links is None)
    if C is not None:
        h.check("categories follow their documents", list(ds.doc_categories) == [C[r] for r in rows])
    else:
        h.check("no categories appear", ds.doc_categories is None)


def prune(h, D, minw, links, cats, sym_links, feats=True, perms=None, zeros=False):
    if perms:
        h.perm_filter(lambda p: p in perms)
    ds, W, F, L, C = corpus(h, D, feats, links, cats, zeros=zeros)
    m = h.int('m', 0, 8) if sym_links else 0
    order = []
    order.extend(int(x) for x in h.flat(ds.prune_and_shuffle(minw, m, seed=5)))
    h.check("no document appears twice", len(set(order)) == len(order))
    h.check("the recorded order is the one returned", [int(x) for x in h.flat(ds.order)] == order)
    aligned(h, ds, order, W, F, L, C, links == 'square')
    # exactly the documents meeting the criteria remain
    ok = [h.le_(minw, h.sum([h.ite(h.is_eq(x, 0), 0, 1) for x in h.flat(W[d])])) for d in range(D)]
    for d in order:
        h.check("every remaining document has enough distinct words", ok[d])
    if not sym_links:
        for d in range(D):
            if d not in order:
                h.check("a document with enough distinct words is kept", h.not_(ok[d]))
        return
    active = h.not_(h.is_eq(m, 0))
    for d in order:
        cols = order if links == 'square' else range(L.shape[1])
        h.check("every remaining document has enough links", h.or_(h.not_(active), h.le_(m, h.sum([L[d, j] for j in cols]))))
    # greatest set: removing in rounds
    if not h.truth(active):
        for d in range(D):
            if d not in order:
                h.check("a document with enough distinct words is kept", h.not_(ok[d]))
        return
    alive = [d for d in range(D) if h.truth(ok[d])]
    while True:
        cols = alive if links == 'square' else range(L.shape[1])
        nxt = [d for d in alive if h.truth(h.le_(m, h.sum([L[d, j] for j in cols])))]
        if nxt == alive:
            break
        alive = nxt
    h.check("exactly the documents that can keep enough links remain", sorted(order) == sorted(alive))


def reorder(h, D, order, links, cats, feats=True):
    ds, W, F, L, C = corpus(h, D, feats, links, cats)
    ds._reorder(h.np.array(order))
    aligned(h, ds, order, W, F, L, C, links == 'square')


def limited(h, D, limit, links, cats, order, feats=True):
    ds, W, F, L, C = corpus(h, D, feats, links, cats, order, limit=limit)
    n = limit if 0 < limit < D else D
    aligned(h, ds, list(range(n)), W, F, L, C, links == 'square')
    h.check("as many documents as asked for", ds.doc_count == n and len(ds) == n)
    h.check("the order names the documents", [int(x) for x in h.flat(ds.order)] == list(order or range(D))[:n])


def on_feature(h, D, nf, links, cats, dtype='float64'):
    common = h.mod('sidetopics.model.common')
    W = h.from_dense(WP[D], h.ints('w', sum(map(sum, WP[D])), 1, 9), dtype=h.np.int32)
    pat = [[1, 1, 1] for d in range(D)]
    f = h.ints('f', 3 * D, -1, 1, dtype=h.np.int32)
    F = h.from_dense(pat, f, dtype=getattr(h.np, dtype))
    L = None
    if links:
        L = h.from_dense(LP[D], h.ints('l', sum(map(sum, LP[D])), 1, 4), dtype=h.np.int32)
    C = ['c%d' % d for d in range(D)] if cats else None
    o = [7 + 2 * d for d in range(D)]
    ds = common.DataSet(W, F, L, None, C, h.np.array(o), debug=True)
    Wd, Fd, Ld = h.snap(h.dense(W)), h.snap(h.dense(F)), None if L is None else h.snap(h.dense(L))
    feats = [1, 2, 0][:nf]
    res = []
    e = h.raises(lambda: res.extend(ds.split_on_feature(feats)), AssertionError)
    none = [h.and_(*[h.is_eq(Fd[d, k], 0) for k in feats]) for d in range(D)]
    first = [h.lt(0, Fd[d, feats[0]]) for d in range(D)]
    if e is not None:
        h.check("a side without documents is refused", h.or_(h.not_(h.or_(*none)), h.not_(h.or_(*first))))
        return
    a, b, docs = res
    ao, bo = [o.index(int(x)) for x in h.flat(a.order)], [o.index(int(x)) for x in h.flat(b.order)]
    h.check("the listed documents are those on the left", [int(d) for d in docs] == ao)
    for d in range(D):
        h.check("left: exactly the documents with none of the features", none[d] if d in ao else h.not_(none[d]))
        h.check("right: exactly the documents with the first feature", first[d] if d in bo else h.not_(first[d]))
    h.check("documents stay in order", ao == sorted(ao) and bo == sorted(bo))
    for part, rows in ((a, ao), (b, bo)):
        h.eq("words follow their documents", h.dense(part.words), Wd[rows])
        h.eq("features follow their documents", h.dense(part.feats), Fd[rows])
        if L is not None:
            h.eq("links keep the rows of the part and the columns of the training part", h.dense(part.links), Ld[rows][:, ao])
        if cats:
            h.check("categories follow their documents", list(part.doc_categories) == ['c%d' % r for r in rows])


def min_freq(h, D, wdict, feats, links):
    ds, W, F, L, C = corpus(h, D, feats, links, 'list', wdict=wdict, zeros=True)
    m = h.int('m', 0, D + 1)
    res = ds.words_with_min_freq(m)
    got = h.dense(res.words)
    cnt = [h.sum([h.ite(h.is_eq(W[d, v], 0), 0, 1) for d in range(D)]) for v in range(3)]
    keep = [v for v in range(3) if h.truth(h.le_(m, cnt[v]))]
    h.eq("exactly the words in enough documents remain, in order", got, W[:, keep])
    if wdict:
        h.check("the word list follows the words", list(res.word_dict) == ['w%d' % v for v in keep])
    if feats:
        h.eq("features stay", h.dense(res.feats), F)
    if links:
        h.eq("links stay", h.dense(res.links), L)
    h.check("categories stay", list(res.doc_categories) == C)
    h.eq("the corpus itself is unchanged", h.dense(ds.words), W)


def drop(h, which, idx):
    common = h.mod('sidetopics.model.common')
    pat = [[1, 0, 1, 1, 0], [0, 1, 1, 0, 1], [0, 0, 0, 1, 0]]
    M = h.from_dense(pat, h.reals('m', sum(map(sum, pat))))
    before = h.snap(h.dense(M))
    got = getattr(common, which)(M, list(idx))
    keep = [j for j in range(5) if j not in idx]
    h.eq("exactly the columns not dropped remain, in order", h.dense(got), before[:, keep])
    h.check("shape", tuple(got.shape) == (3, len(keep)))
    h.eq("the matrix itself is unchanged", h.dense(M), before)


def misc(h, D):
    """in-place conversions and copies keep rows in place"""
    ds, W, F, L, C = corpus(h, D, True, 'square', 'list', order=[9, 4, 7, 5][:D], wdict=True)
    cp = ds.copy()
    dp = ds.copy(deep=True)
    for c in (cp, dp):
        aligned(h, c, list(range(D)), W, F, L, C, True)
        h.check("order is copied", [int(x) for x in h.flat(c.order)] == [9, 4, 7, 5][:D])
        h.check("word list is copied", list(c.word_dict) == ['w0', 'w1', 'w2'])
    nw = h.from_dense(WP[D], h.ints('n', sum(map(sum, WP[D])), 1, 9), dtype=h.np.int32)
    ch = ds.copy_with_changes(words=nw)
    aligned(h, ch, list(range(D)), h.dense(nw), F, L, C, True)
    h.check("order is kept with changed words", [int(x) for x in h.flat(ch.order)] == [9, 4, 7, 5][:D])
    h.eq("document lengths", ds.doc_lens, h.np.array([h.sum(h.flat(W[d])) for d in range(D)]))
    h.eq("word count", ds.word_count, h.sum(h.flat(W)))
    h.eq("link count", ds.link_count, h.sum(h.flat(L)))
    h.eq("word and link count", ds.word_and_link_count, h.sum(h.flat(W)) + h.sum(h.flat(L)))
    ds.convert_to_dtype(h.np.float64)
    aligned(h, ds, list(range(D)), W, F, L, C, True)
    ds.convert_to_undirected_graph()
    h.eq("undirected links", h.dense(ds.links), L + L.T)
    ds.convert_to_binary_link_matrix()
    U = h.flat(h.dense(ds.links))
    for x, l, t in zip(U, h.flat(L), h.flat(L.T)):
        h.check("a link in either direction is a link of weight one", h.is_eq(x, h.ite(h.lt(0, h.sum([l, t])), 1, 0)))
    dp.words.data[...] = 0
    dp.links.data[...] = 0
    h.eq("a deep copy shares no words", h.dense(ch.copy().words), h.dense(nw))
    h.eq("a deep copy shares no words with the original", h.dense(cp.words), W)


def intercept(h, D, const):
    common = h.mod('sidetopics.model.common')
    W = h.from_dense(WP[D], h.ints('w', sum(map(sum, WP[D])), 1, 9), dtype=h.np.int32)
    f = h.reals('f', 2 * D, lo=0, hi=1)
    F = h.from_dense([[1, 1]] * D, f)
    if const:
        for d in range(D):
            h.assume(h.is_eq(F[d, 1], 1))
    Fd = h.snap(h.dense(F))
    ds = common.DataSet(W, F, debug=True)
    r = ds.add_intercept_to_feats_if_required()
    full = h.or_(*[h.and_(*[h.is_eq(Fd[d, k], 1) for d in range(D)]) for k in range(2)])
    N = h.dense(ds.feats)
    h.eq("existing features stay in their rows", N[:, :2], Fd)
    if N.shape[1] == 3:
        h.eq("the added feature is one for every document", N[:, 2], h.np.ones(D))
        h.check("a feature is added only when there is no intercept", h.not_(full))
        h.check("adding is reported", bool(r))
    else:
        h.check("nothing is added only when there is an intercept", full)
        h.check("not adding is reported", not r)


def cases(tier):
    out = []
    P = {(0, 1, 2), (2, 0, 1)}
    for minw in (0.5, 2, 3):
        for links, cats in (('square', 'list'), (None, None), ('rect', 'array')):
            out.append(Case('prune_%s_%s_%s' % (minw, links, cats), prune, dict(D=3, minw=minw, links=links, cats=cats, sym_links=False)))
    out.append(Case('prune_zeros', prune, dict(D=3, minw=2, links=None, cats='list', sym_links=False, zeros=True, perms={(0, 1, 2), (2, 0, 1), (1, 0), (0, 1), (0,), ()})))
    for links in ('square', 'rect'):
        out.append(Case('prune_links_%s' % links, prune, dict(D=3, minw=0.5, links=links, cats='list', sym_links=True, perms=P)))
        out.append(Case('prune_both_%s' % links, prune, dict(D=3, minw=2, links=links, cats=None, sym_links=True, feats=False)))
    if tier != 'quick':
        out.append(Case('prune_links_4', prune, dict(D=4, minw=0.5, links='square', cats='list', sym_links=True, perms={(0, 1, 2, 3), (3, 1, 0, 2)})))
        out.append(Case('prune_4', prune, dict(D=4, minw=2, links='square', cats='list', sym_links=False)))
    for i, (o, l, c) in enumerate([((2, 0, 1), 'square', 'list'), ((1, 2), 'square', 'array'), ((2,), 'rect', None), ((0, 2), None, 'list'), ((1, 0, 2), 'rect', 'list')]):
        out.append(Case('reorder_%d' % i, reorder, dict(D=3, order=list(o), links=l, cats=c)))
    for i, (lim, l, c, o) in enumerate([(2, 'square', 'list', None), (1, 'rect', 'array', None), (3, 'square', 'list', None), (5, None, None, None),
                                        (2, 'square', None, [5, 1, 3]), (0, 'rect', 'list', [4, 2, 8])]):
        out.append(Case('limit_%d' % i, limited, dict(D=3, limit=lim, links=l, cats=c, order=o)))
    for nf, l, c, dt in [(1, True, True, 'float64'), (2, True, True, 'float64'), (2, False, False, 'float64'), (2, True, False, 'int32')]:
        out.append(Case('feature_%d_%s_%s_%s' % (nf, l, c, dt), on_feature, dict(D=3 if nf == 1 or tier != 'quick' else 2 + (nf == 1), nf=nf, links=l, cats=c, dtype=dt)
                        if True else None))
    for wd, f, l in [(True, True, 'square'), (False, False, None), (True, False, 'rect')]:
        out.append(Case('minfreq_%s_%s_%s' % (wd, f, l), min_freq, dict(D=3, wdict=wd, feats=f, links=l)))
    for which in ('dropcols_fancy', 'dropcols_coo'):
        for idx in [(), (0,), (4, 1), (3, 3, 2), (0, 1, 2, 3)]:
            out.append(Case('%s_%s' % (which, ''.join(map(str, idx)) or 'none'), drop, dict(which=which, idx=idx)))
    out.append(Case('misc', misc, dict(D=3)))
    out.append(Case('intercept', intercept, dict(D=2, const=False)))
    out.append(Case('intercept_const', intercept, dict(D=3, const=True)))
    return out
