"""C22 link predictors keep every expected link and the true minimum"""
from symx.harness import Case

M = 'sidetopics.model.'
MODS = [M + m for m in ('sim_based_rec', 'rtm', 'lro_vb', 'mtm2', 'mtm3', 'lda_vb_python')]
BOUNDS = ("up to 3 documents and 2 topics or words (thorough: 4 documents), every pattern of expected links listed in the check, subsets of documents in any order; "
          "representations, weights and scales symbolic; the minima handed back to the predictor carry a symbolic rounding error of the model's precision")
ASSUMPTIONS = ["scipy.sparse is replaced by a model with a fixed sparsity pattern and symbolic data",
               "erfc is an arbitrary function with values in (0, 2)"]

LINKS = {
    'pair': [[0, 1], [1, 0]],
    'both': [[1, 1], [0, 0]],
    'one': [[0, 1, 1], [0, 0, 0], [0, 0, 0]],
    'three': [[0, 0, 1], [1, 0, 0], [0, 0, 0]],
    'self': [[1, 0, 0], [0, 0, 1], [0, 0, 0]],
    'full': [[1, 1, 1], [0, 0, 0], [0, 0, 0]],
    'none': [[0, 0], [0, 0]],
    'four': [[0, 1, 0, 1], [0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]],
    'single': [[1]],
}


def rows_of(h, P):
    ptr, idx = [int(x) for x in h.flat(P.indptr)], [int(x) for x in h.flat(P.indices)]
    dat = h.flat(P.data)
    return [{idx[i]: dat[i] for i in range(ptr[r], ptr[r + 1])} for r in range(len(ptr) - 1)]


def judge(h, pat, subset, prob, mins, predict, dtype, none, cols=None, tol=1e-9, blank=None):
    """prob(src, dst): the probability of the model"""
    links = [[c for c in range(len(pat[0])) if pat[s][c]] for s in subset]
    mins_ = h.flat(mins)
    h.check("one minimum for each document asked for", len(mins_) == len(subset))
    h.check("type of the minima", h.np.dtype(mins.dtype).kind == 'f')
    P = {}
    for i, s in enumerate(subset):
        for c in links[i]:
            P[s, c] = prob(s, c)
        if not links[i]:
            h.check("no expected link, no minimum", none(mins_[i]))
            continue
        for c in links[i]:
            h.le("the minimum is no more than any expected link's probability", mins_[i], P[s, c] + (0 if h.symbolic else tol * abs(P[s, c]) + 1e-12))
        h.check("the minimum is attained", h.or_(*[h.le_(P[s, c], mins_[i] + (0 if h.symbolic else 1e-4 * abs(mins_[i]) + 1e-12)) for c in links[i]]))
    # the minima are held in the model's own precision
    given = h.snap(mins)
    if h.symbolic:
        u = 1e-7 if dtype == 'float32' else 1e-13
        for i in range(len(subset)):
            if links[i]:
                given[i] = given[i] * (1 + h.real('round%d' % i, -u, u))
    tight = [i for i in range(len(subset)) if links[i]][-1:]
    for i in range(len(subset)):
        if not links[i] and blank is not None:
            given[i] = blank
        elif links[i] and i not in tight:
            given[i] = -100.            # everything is above that
    got = predict(given)
    h.check("one row for each document asked for", tuple(got.shape) == (len(subset), cols or len(pat[0])))
    R = rows_of(h, got)
    for i, s in enumerate(subset):
        for c in links[i]:
            h.check("every expected link is kept", c in R[i])
            h.eq("with the probability of the model", R[i][c], P[s, c], tol=tol)
        if links[i] and i not in tight:
            h.check("every link above the minimum is kept", sorted(R[i]) == list(range(got.shape[1])))
            for c, v in R[i].items():
                h.eq("probability of the model", v, prob(s, c), tol=tol)
            continue
        for c, v in R[i].items():
            if c not in links[i]:
                h.eq("probability of the model", v, prob(s, c), tol=tol)
                if links[i]:
                    m = mins_[i]
                    h.check("no link below the minimum", h.le_(m - 1e-3 * h.ite(h.le_(0, m), m, -m) - 1e-6, v))


def reals_sp(h, name, pat, lo, hi, dtype):
    n = sum(map(sum, pat))
    return h.from_dense(pat, h.reals(name, n, lo, hi, dtype=dtype), dtype=dtype)


def links_of(h, pat):
    n = sum(map(sum, pat))
    dt = h.np.float64
    return h.from_dense(pat, h.array([1.] * n, dtype=dt) if n else h.zeros((0,)), dtype=dt)


def subset_of(pat, sub):
    return list(range(len(pat))) if sub is None else sub


def tfidf_vectors(h, link, dtype, sub, rep):
    """cosine similarity of the stored representations"""
    m = h.mod(M + 'sim_based_rec')
    pat = LINKS[link]
    dt = getattr(h.np, dtype)
    D = len(pat)
    src, dst = [reals_sp(h, n, rep, 0.1, 3, dt) for n in ('src', 'dst')]
    model = m.ModelState(None, 2, m.TF_IDF, dt, 'sim')
    q, t = m.QueryState(src, None), m.QueryState(dst, None)
    A, B = h.flat(h.dense(src)), h.flat(h.dense(dst))
    T = len(rep[0])
    L = links_of(h, pat)

    def prob(s, c):
        a, b = A[s * T:(s + 1) * T], B[c * T:(c + 1) * T]
        na, nb = h.sum([x * x for x in a]), h.sum([x * x for x in b])
        top = h.sum([x * y for x, y in zip(a, b)])
        if not any(rep[s]) or not any(rep[c]):
            return 0
        return top / (h.sqrt(na) * h.sqrt(nb))
    mins = m.min_link_probs(model, t, q, L, sub)
    judge(h, pat, subset_of(pat, sub), prob, mins, lambda g: m.link_probs(model, t, q, g, sub), dtype, lambda v: h.le_(v, 0),
          tol=1e-5 if dtype == 'float32' else 1e-9)


def lda_vectors(h, link, dtype, sub, same):
    """inverse Hellinger distance of the square roots of the topic distributions"""
    m = h.mod(M + 'sim_based_rec')
    pat = LINKS[link]
    dt = getattr(h.np, dtype)
    D, K = len(pat), 2
    src = h.reals('src', (D, K), 0.01, 1, dtype=dt)
    dst = src if same else h.reals('dst', (D, K), 0.01, 1, dtype=dt)
    model = m.ModelState(None, K, m.LDA, dt, 'sim')
    q, t = m.QueryState(src, None), m.QueryState(dst, None)
    L = links_of(h, pat)
    bs = [h.snap(src), h.snap(dst)]
    A, B = h.flat(src), h.flat(dst)

    def prob(s, c):
        d2 = h.sum([(x - y) * (x - y) for x, y in zip(A[s * K:(s + 1) * K], B[c * K:(c + 1) * K])])
        return 1.414213562 / h.max(h.sqrt(d2), 1e-30)
    mins = m.min_link_probs(model, t, q, L, sub)
    judge(h, pat, subset_of(pat, sub), prob, mins, lambda g: m.link_probs(model, t, q, g, sub), dtype, lambda v: h.le_(v, 0),
          tol=1e-4 if dtype == 'float32' else 1e-9)
    for x, y in zip(bs, (src, dst)):
        h.same("the representations are unchanged", x, y)


def tfidf_train(h, wpat, dtype, words):
    """the representation is the term frequency times the inverse document frequency"""
    m = h.mod(M + 'sim_based_rec')
    dt, wt = getattr(h.np, dtype), getattr(h.np, words)
    n = sum(map(sum, wpat))
    D, T = len(wpat), len(wpat[0])
    W = h.from_dense(wpat, h.ints('w', n, 1, 50, dtype=wt), dtype=wt)
    data = h.mod(M + 'common').DataSet(W)
    lda = h.mod(M + 'lda_vb_python')
    lm = lda.ModelState(2, h.array([.5, .5]), .1, None, True, dt, 'lda')
    before = h.snap(W)
    model, q, _ = m.train(data, m.ModelState(lm, 2, m.TF_IDF, dt, 'sim'), m.QueryState(None, None), m.newTrainPlan())
    w = h.flat(h.dense(W))
    r = h.flat(h.dense(q.reps))
    h.check("shape", tuple(q.reps.shape) == (D, T))
    for d in range(D):
        tot = h.sum(w[d * T:(d + 1) * T])
        for t in range(T):
            idf = h.log(h.np.float64(D) / (1 + sum(wpat[e][t] for e in range(D))))
            h.eq("term frequency times inverse document frequency", r[d * T + t], w[d * T + t] / tot * idf if wpat[d][t] else 0,
                 tol=1e-5 if dtype == 'float32' else 1e-9)
    h.same("the corpus is unchanged", W, before)


def rtm(h, link, dtype):
    m = h.mod(M + 'rtm')
    pat = LINKS[link]
    dt = getattr(h.np, dtype)
    D, K = len(pat), 2
    lens = h.ints('len', D, 1, 40)
    a = h.pos('alpha', 0.05, 2)
    prior = h.array([a, a, 0.], dtype=dt)
    z = h.reals('z', (D, K), 0, 1, dtype=dt)
    tops = h.array([[z[d, k] * lens[d] + a for k in range(K)] + [0.] for d in range(D)], dtype=dt)
    w = h.reals('w', K + 1, -3, 3, dtype=dt)
    model = m.ModelState(K, prior, 0.1, None, w, 1, 0.1, dt, 'rtm')
    q = m.QueryState(lens, tops)
    before = h.snap(tops)
    L = links_of(h, pat)
    phi = {}

    def prob(s, c):
        x = h.sum([z[s, k] * z[c, k] * w[k] for k in range(K)])
        A = h.array([x], dtype=h.np.float64)
        return h.flat(m.fns.erfc(A * -0.7071067811865475))[0] / 2
    mins = m.min_link_probs(model, q, L)
    judge(h, pat, list(range(D)), prob, mins, lambda g: m.link_probs(model, q, g), dtype, lambda v: h.le_(v, 1e-6),
          blank=2., tol=1e-4 if dtype == 'float32' else 1e-9)
    for x, y in zip(h.flat(before), h.flat(tops)):
        h.eq("the topics are as they were", x, y, tol=1e-4 if dtype == 'float32' else 1e-9)


def lro(h, link, dtype, sub):
    m = h.mod(M + 'lro_vb')
    lda = h.mod(M + 'lda_vb_python')
    pat = LINKS[link]
    dt = getattr(h.np, dtype)
    D, K = len(pat), 2
    t = h.reals('t', (D, K), 0.1, 9, dtype=dt)
    o = h.reals('o', (D, K), -2, 2, dtype=h.np.float64)
    s = h.real('scale', -3, 3)
    model = m.ModelState(None, K, 9, h.array([.01, 1.]), s, dt, 'lro')
    q = m.QueryState(lda.QueryState(h.ints('len', D, 1, 9), t, True), o)
    L = links_of(h, pat)
    bs = h.snap(t), h.snap(o)

    def prob(i, j):
        return s * h.sum([t[i, k] * o[j, k] for k in range(K)]) / h.sum([t[i, k] for k in range(K)])
    mins = m.min_link_probs(model, q, q, L, sub)
    judge(h, pat, subset_of(pat, sub), prob, mins, lambda g: m.link_probs(model, q, q, g, sub), dtype, lambda v: h.le_(v, 0),
          tol=1e-3 if dtype == 'float32' else 1e-9)
    h.same("the topics are unchanged", t, bs[0])
    h.same("the offsets are unchanged", o, bs[1])


def matrix(h, link, mod, dtype, sub):
    """the topic of the source, then the target given the topic"""
    m = h.mod(M + mod)
    pat = LINKS[link]
    dt = getattr(h.np, dtype)
    D, K = len(pat), 2
    out = h.reals('out', (D, K), -3, 3, dtype=dt)
    L = links_of(h, pat)
    if mod == 'mtm2':
        ins = out
        model = m.ModelState(K, None, None, None, None, dt, 'mtm')
        q = m.QueryState(out, None, None)
        args, extra = (model, q), ()
    else:
        ins = h.reals('in', (D, K), -3, 3, dtype=dt)
        model = m.ModelState(K, None, None, None, None, None, False, dt, 'mtm')
        q = m.QueryState(out, None, ins, None, None, None)
        args, extra = (model, q, q), (sub,)
    before = h.snap(out), h.snap(ins)
    O, I = h.flat(out), h.flat(ins)
    eo, ei = [h.exp(x) for x in O], [h.exp(x) for x in I]

    def prob(s, c):
        row = eo[s * K:(s + 1) * K]
        return h.sum([row[k] / h.sum(row) * ei[c * K + k] / h.sum([ei[d * K + k] for d in range(D)]) for k in range(K)])
    mins = m.min_link_probs(*args, L, *extra)
    judge(h, pat, subset_of(pat, sub), prob, mins, lambda g: m.link_probs(*args, g, *extra), dtype, lambda v: h.le_(v, 0),
          tol=1e-4 if dtype == 'float32' else 1e-9)
    h.same("the topics are unchanged", out, before[0])
    h.same("the topics are unchanged", ins, before[1])


def cases(tier):
    out = []
    big = tier == 'thorough'

    def add(name, f, **kw):
        opt = {k: kw.pop(k) for k in ('budget', 'timeout', 'branch_timeout') if k in kw}
        opt.setdefault('branch_timeout', 700)
        out.append(Case(name, f, kw, **opt))
    for dt in ('float64', 'float32'):
        small = dt == 'float32'
        for link, sub in (('pair', [0]), ('pair', [1, 0]), ('both', [0]), ('none', [1]), ('one', [0]), ('three', [2, 1]), ('self', [1]), ('single', None)) + \
                ((('full', [0]), ('pair', None), ('four', [0])) if big else ()):
            if small and link in ('three', 'self', 'none') and not big:
                continue
            D = len(LINKS[link])
            tag = '%s:%s:%s' % (dt, link, 'all' if sub is None else ''.join(map(str, sub)))
            for rn, rep in (('dense', [[1, 1]] * D), ('holes', ([[1, 0], [0, 1], [1, 1], [1, 0]])[:D]), ('blank', ([[1, 1], [0, 0], [1, 0], [0, 1]])[:D])):
                add('tfidf:%s:%s' % (tag, rn), tfidf_vectors, link=link, dtype=dt, sub=sub, rep=rep)
            for same in (False, True):
                add('lda:%s:%s' % (tag, same), lda_vectors, link=link, dtype=dt, sub=sub, same=same)
            add('lro:' + tag, lro, link=link, dtype=dt, sub=sub)
            add('mtm3:' + tag, matrix, link=link, mod='mtm3', dtype=dt, sub=sub)
        for link in ('pair', 'both', 'none', 'single') + (('one', 'three', 'self', 'full') if big else ('one',)):
            add('rtm:%s:%s' % (dt, link), rtm, link=link, dtype=dt)
            add('mtm2:%s:%s' % (dt, link), matrix, link=link, mod='mtm2', dtype=dt, sub=None)
        for words in ('int32', 'float64', 'float32'):
            for i, wp in enumerate(([[1, 1], [1, 0]], [[1]], [[1, 0, 1], [1, 1, 0], [1, 0, 0]])):
                add('train:%s:%s:%d' % (dt, words, i), tfidf_train, wpat=wp, dtype=dt, words=words)
    return out
