"""C25 logistic-normal topic models: training updates follow the model, documents keep their rows, queries return what they infer"""
from symx.harness import Case

BOHNING = ('ctm_bohning', 'ctm_grad_arb')
FEAT = ('stm_uv_vecy_bohning', 'stm_yv_bohning', 'stm_yv')
MODS = ['sidetopics.model.' + m for m in BOHNING + FEAT + ('ctm', 'common')]
BOUNDS = ("2..3 documents (some without words), 2..3 words, 2 topics, 1 feature, 1 latent feature; one training or query round from an "
          "arbitrary state: symbolic word counts or lengths, means, variances, topic-word probabilities, priors and prior covariance; or given parameters and means up to 2000 in size")
ASSUMPTIONS = ["exp is uninterpreted with its algebraic laws", "matrix inverses are exact (adjugate over determinant)"]


def mat(h, x):
    return [list(r) for r in h.dense(x)]


def spd(h, name, K):
    """a symmetric positive definite matrix"""
    d = h.reals(name + 'd', (K,), 0.1, 4)
    c = h.real(name + 'c', -0.05, 0.05)
    return h.array([[d[i] if i == j else c for j in range(K)] for i in range(K)])


def corpus(h, pat, feats=None, counts=None):
    n = sum(map(sum, pat))
    W = h.from_dense(pat, h.ints('n', n, 1, 9) if counts is None else counts, dtype=h.np.float64)
    X = None
    if feats:
        X = h.from_dense([[1] * feats for _ in pat], h.reals('x', len(pat) * feats, 0.1, 2), dtype=h.np.float64)
    return h.mod('sidetopics.model.common').DataSet(W, X, None, debug=True)


def pick(h, data, order):
    common = h.mod('sidetopics.model.common')
    W = h.dense(data.words)
    D, T = W.shape
    pat = [[int(not h.is_zero(W[d, t])) for t in range(T)] for d in order]
    vals = [W[d, t] for i, d in enumerate(order) for t in range(T) if pat[i][t]]
    X = None
    if data.feats is not None:
        F = h.dense(data.feats)
        X = h.from_dense([[1] * F.shape[1] for _ in order], [F[d, j] for d in order for j in range(F.shape[1])], dtype=h.np.float64)
    return common.DataSet(h.from_dense(pat, vals, dtype=h.np.float64), X, None, debug=True)


def exps(h, row):
    """exponentials up to a factor (the one the code uses when the row is known)"""
    c = [getattr(x, 'c', x) for x in row]
    if any(x is None for x in c):
        return [h.exp(x) for x in row]
    return [h.exp(x - max(c)) for x in c]


def softmax(h, row):
    e = exps(h, row)
    return [x / h.sum(e) for x in e]


def assigned(h, w, row, vocab):
    """words of a document expected to be drawn from each topic"""
    K, T = len(row), len(w)
    e = exps(h, row)
    out = [0] * K
    for t in range(T):
        z = h.sum([e[j] * vocab[j][t] for j in range(K)])
        for k in range(K):
            out[k] = out[k] + w[t] * e[k] * vocab[k][t] / z
    return out


def new_vocab(h, W, means, vocab, prior):
    K, T = len(vocab), len(vocab[0])
    num = [[prior] * T for _ in range(K)]
    for d in range(len(W)):
        e = exps(h, means[d])
        for t in range(T):
            z = h.sum([e[j] * vocab[j][t] for j in range(K)])
            for k in range(K):
                num[k][t] = num[k][t] + W[d][t] * e[k] * vocab[k][t] / z
    return [[x / h.sum(r) for x in r] for r in num]


def model_of(h, name, K, T, F=1, P=1):
    m = h.mod('sidetopics.model.' + name)
    f = m.ModelState._fields
    A = h.array([[0.5 * ((i == j) - 1 / (K + 1)) for j in range(K)] for i in range(K)])
    v = dict(K=K, vocab=h.simplex('v', (K, T)), vocabPrior=h.pos('b', hi=3), sigT=spd(h, 's', K), dtype=h.np.float64, name='x')
    if 'topicMean' in f:
        v['topicMean'] = h.reals('mu', (K,), -2, 2)
    if name in FEAT:
        v.update(F=F, P=P, fv=0.5, lfv=0.25, A=h.reals('A', (K, F), -2, 2), R_A=h.array([[1.0] * F] * F), Y=h.reals('Y', (K, P), -2, 2),
                 R_Y=h.array([[4.0 * (i == j) for j in range(P)] for i in range(P)]), V=h.reals('V', (P, F), -2, 2))
        if 'Ab' in f:
            v['Ab'] = A
    elif 'A' in f:
        v['A'] = A
    return m, m.ModelState(**v)


def state_of(h, m, data, D, K, tag='', rows=None):
    """arbitrary means and variances (of these documents)"""
    q = dict(means=h.reals('m' + tag, (D, K), -3, 3), expMeans=h.reals('e' + tag, (D, K), 0.1, 2), varcs=h.reals('r' + tag, (D, K), 0.1, 2),
             docLens=h.array([h.sum(list(r)) for r in h.dense(data.words)]))
    if 'lxi' in m.QueryState._fields:
        q['lxi'] = h.reals('l' + tag, (D, K), 0.05, 0.25)
        q['s'] = h.array([0.0] * D)
    return m.QueryState(**q)


def rows(h, q, order):
    return type(q)(*[h.array([x[d] for d in order]) if x.ndim == 1 else h.array([list(x[d]) for d in order]) for x in q])


def copy(h, q):
    return rows(h, q, range(q.means.shape[0]))


class Regular:
    """scipy.linalg for matrices that have an inverse"""

    def __init__(self, h, la):
        self.h, self.la = h, la

    def __getattr__(self, n):
        return getattr(self.la, n)

    def inv(self, x, *a, **k):
        if self.h.symbolic:
            self.h.assume(self.h.not_(self.h.is_eq(self.la.det(x), 0)))
        return self.la.inv(x, *a, **k)


def quiet(h, m):
    m.print = lambda *a, **k: None
    m.la = Regular(h, m.la)
    m.var_bound = lambda *a, **k: 0.0
    m.log_likelihood = lambda *a, **k: -1.0


def train(h, name, pat, diag=False, apart=None):
    """one round; apart: by how much the documents' means differ from each other"""
    D, T, K = len(pat), len(pat[0]), 2
    m, model = model_of(h, name, K, T)
    quiet(h, m)
    data = corpus(h, pat)
    q = state_of(h, m, data, D, K)
    if apart:
        at = h.reals('at', (K,), -2, 2)
        q = q._replace(means=h.array([[at[k] + apart[d][k] for k in range(K)] for d in range(D)]), varcs=h.array([[0.5 + d + k for k in range(K)] for d in range(D)]))
    W, m0, r0, v0 = mat(h, data.words), mat(h, h.snap(q.means)), mat(h, h.snap(q.varcs)), mat(h, h.snap(model.vocab))
    A, words = mat(h, h.snap(model.A)), h.snap(data.words)
    out, qs, _ = m.train(data, model, q, m.newTrainPlan(iterations=1, logFrequency=0, fastButInaccurate=diag))
    h.same("the corpus", data.words, words)
    n = [h.sum(r) for r in W]
    mu = [h.sum([m0[d][k] for d in range(D)]) / D for k in range(K)]
    h.eq("the prior mean is the average of the documents' means", out.topicMean, mu)
    cov = [[h.sum([(m0[d][i] - mu[i]) * (m0[d][j] - mu[j]) for d in range(D)]) / (D - 1) +
            (h.sum([r0[d][i] for d in range(D)]) / D if i == j else 0) for j in range(K)] for i in range(K)]
    if diag:
        cov = [[cov[i][j] if i == j else 0 for j in range(K)] for i in range(K)]
    h.eq("the prior covariance is that of the means plus the average variance", out.sigT, cov)
    v1 = new_vocab(h, W, m0, v0, model.vocabPrior)
    h.eq("topic-word probabilities: expected counts plus prior, normalised", out.vocab, v1)
    det = cov[0][0] * cov[1][1] - cov[0][1] * cov[1][0]
    for d in range(D):
        for k in range(K):
            h.eq("variance of a document's topic weight", qs.varcs[d][k], 1 / (n[d] * (K - 1) / K + cov[1 - k][1 - k] / det))
        if apart:
            S, p, mn = assigned(h, W[d], m0[d], v1), softmax(h, m0[d]), list(qs.means[d])
            u = [S[k] - n[d] * p[k] - n[d] * h.sum([A[k][j] * (mn[j] - m0[d][j]) for j in range(K)]) for k in range(K)]
            for k in range(K):
                a, b = mn[k] - mu[k], h.sum([cov[k][j] * u[j] for j in range(K)])
                h.eq("the new mean of a document maximises its bound", a, b)
    h.eq("document lengths", qs.docLens, n)


class Sparse:
    """scipy.sparse with a least-squares solver that returns a given answer"""

    class linalg:
        pass

    def __init__(self, h, ssp, answers):
        self.ssp = ssp
        self.linalg = type('linalg', (), {'lsqr': staticmethod(lambda a, b, **k: [h.array([answers[next(self.turn) % len(answers)]])])})
        self.restart()

    def restart(self):
        import itertools
        self.turn = itertools.count()

    def __getattr__(self, n):
        return getattr(self.ssp, n)


def feat_model(h, name, K, T, N, means=None):
    m, model = model_of(h, name, K, T)
    quiet(h, m)
    cst = lambda a: h.array([[float(x) for x in r] for r in a])
    model = model._replace(A=cst([[0.5], [-0.25]]), Y=cst([[1], [0.5]]), V=cst([[0.75]]))
    reset = lambda: None
    if name == 'stm_yv_bohning':
        m.range = lambda *a: range(1) if a == (10,) else range(*a)      # of ten rounds of the inner loop
        m.ssp = Sparse(h, m.ssp, [0.5, -0.5])
        reset = m.ssp.restart
    return m, model, reset


def far(h, name, what, D, T):
    """documents whose means are far apart still weigh the topics"""
    K = 2
    if name in FEAT:
        m, model, _ = feat_model(h, name, K, T, D)
    else:
        m, model = model_of(h, name, K, T)
        quiet(h, m)
    m.max = lambda *a: 1 if len(a) == 2 and 100 in a else max(*a)
    c = lambda a: h.array([[float(x) for x in r] for r in a])
    model = model._replace(vocab=c([[0.25, 0.75], [0.5, 0.5]]), vocabPrior=1.5, sigT=c([[1, 0], [0, 2]]))
    if 'topicMean' in model._fields:
        model = model._replace(topicMean=h.array([0.0, 0.25]))
    data = corpus(h, [[1] * T] * D, feats=1 if name in FEAT else None, counts=[1 + i % 3 for i in range(D * T)])
    q = state_of(h, m, data, D, K)
    q = q._replace(means=h.reals('far', (D, K), -2000, 2000), expMeans=c([[1] * K] * D), varcs=c([[1] * K] * D))
    plan = m.newTrainPlan(iterations=1, logFrequency=1 if name in FEAT else 0, fastButInaccurate=True)
    if what == 'train':
        h.finite("the words of topics", h.no_overflow(lambda: m.train(data, model, q, plan)[0].vocab))
    else:
        h.finite("the topics of documents", h.no_overflow(lambda: m.query(data, model, q, plan)[1].means))


def feat_train(h, name, pat, order=None, counts=None):
    """one round of a model whose prior means come from the documents' features"""
    D, T, K = len(pat), len(pat[0]), 2
    m, model, reset = feat_model(h, name, K, T, D)
    X = [[1 + d / 4] for d in range(D)]
    n = sum(map(sum, pat))
    W = h.from_dense(pat, h.ints('n', n, 1, 9) if counts is None else counts, dtype=h.np.float64)
    data = h.mod('sidetopics.model.common').DataSet(W, h.from_dense([[1] for _ in pat], [x[0] for x in X], dtype=h.np.float64), None, debug=True)
    q = state_of(h, m, data, D, K)
    q = q._replace(means=h.array([[0.5 * d - 0.25 * k for k in range(K)] for d in range(D)]), varcs=h.array([[0.5 + d + k for k in range(K)] for d in range(D)]))
    plan = m.newTrainPlan(iterations=1, logFrequency=1)
    if order is not None:
        m2, q2, d2 = m.newModelFromExisting(model), rows(h, q, order), pick(h, data, order)
        a, qa, _ = m.train(data, model, q, plan)
        reset()
        b, qb, _ = m.train(d2, m2, q2, plan)
        for f in ('vocab', 'sigT', 'A', 'Y', 'V'):
            h.eq("the model does not depend on the order of the documents: " + f, getattr(a, f), getattr(b, f))
        for f in qa._fields:
            if f == 'expMeans' and name == 'stm_yv_bohning':
                continue        # see train
            h.eq("a document's row does not depend on its place: " + f, getattr(rows(h, qa, order), f), getattr(qb, f))
        return
    Wd, m0, e0, v0 = mat(h, W), mat(h, h.snap(q.means)), mat(h, h.snap(q.expMeans)), mat(h, h.snap(model.vocab))
    out, qs, _ = m.train(data, model, q, plan)
    n = [h.sum(r) for r in Wd]
    h.eq("document lengths", qs.docLens, n)
    for k in range(K):
        h.eq("word probabilities of a topic sum to one", h.sum(list(out.vocab[k])), 1)
        for t in range(T):
            h.check("and are positive", h.lt(0, out.vocab[k][t]))
    if name == 'stm_yv_bohning':
        for d in range(D):
            h.eq("exponentiated means belong to their documents", qs.expMeans[d][0] * h.exp(qs.means[d][1]), qs.expMeans[d][1] * h.exp(qs.means[d][0]))
    else:
        v1 = new_vocab(h, Wd, m0, v0, model.vocabPrior)
        h.eq("topic-word probabilities: expected counts plus prior, normalised", out.vocab, v1)
        for d in range(D):
            top = max(m0[d][k].c if hasattr(m0[d][k], 'c') else m0[d][k] for k in range(K))
            h.eq("exponentiated means belong to their documents", qs.expMeans[d], [h.exp(m0[d][k] - top) for k in range(K)])
    if name == 'stm_yv':
        return
    A, S = mat(h, out.Ab), mat(h, out.sigT)
    v1 = mat(h, out.vocab)
    det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
    for d in range(D):
        for k in range(K):
            h.eq("variance of a document's topic weight", qs.varcs[d][k], 1 / (n[d] * (K - 1) / K + S[1 - k][1 - k] / det))
        if name == 'stm_yv_bohning':
            e = [[e0[d][k] for k in range(K)]]
            got = [0] * K
            for t in range(T):
                z = h.sum([e[0][j] * v1[j][t] for j in range(K)])
                got = [got[k] + Wd[d][t] * e[0][k] * v1[k][t] / z for k in range(K)]
        else:
            got = assigned(h, Wd[d], m0[d], v1)
        p, mn = softmax(h, m0[d]), list(qs.means[d])
        mu = [X[d][0] * out.A[k][0] for k in range(K)]
        u = [got[k] - n[d] * p[k] - n[d] * h.sum([A[k][j] * (mn[j] - m0[d][j]) for j in range(K)]) for k in range(K)]
        for k in range(K):
            h.eq("the new mean of a document maximises its bound", mn[k] - mu[k], h.sum([S[k][j] * u[j] for j in range(K)]))


def asked(h, name, pat, alone=None, diag=False, rounds=1):
    """querying"""
    D, T, K = len(pat), len(pat[0]), 2
    m, model = model_of(h, name, K, T)
    quiet(h, m)
    m.max = lambda *a: rounds if len(a) == 2 and 100 in a else max(*a)          # some models do a hundred rounds at least
    data = corpus(h, pat, feats=1 if name in FEAT else None, counts=[1 + i % 3 for i in range(sum(map(sum, pat)))] if name in FEAT[:2] else None)
    q = state_of(h, m, data, D, K)
    if diag:
        model = model._replace(sigT=h.array([[model.sigT[0, 0], 0], [0, model.sigT[1, 1]]]))
    q0, mod0, words = h.snap(copy(h, q)), h.snap(model), h.snap(data.words)
    plan = m.newTrainPlan(iterations=rounds, fastButInaccurate=diag)
    one = None
    if alone is not None:
        one = m.query(pick(h, data, [alone]), model, rows(h, q, [alone]), plan)[1]
    m1, qs = m.query(data, model, q, plan)
    h.same("the model is unchanged", m1, mod0)
    h.same("the model given is unchanged", model, mod0)
    h.same("the corpus is unchanged", data.words, words)
    W = mat(h, data.words)
    h.eq("document lengths", qs.docLens, [h.sum(r) for r in W])
    if one is not None:
        for f in ('means', 'varcs'):
            h.eq("what is inferred for a document depends on its own words only: " + f, getattr(qs, f)[alone], getattr(one, f)[0])
        return
    S, A = mat(h, model.sigT), mat(h, model.Ab if 'Ab' in model._fields else model.A)
    det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
    v, m0 = mat(h, model.vocab), mat(h, q0.means)
    X = None if name not in FEAT else mat(h, data.feats)
    for d in range(D):
        n = h.sum(W[d])
        var = [1 / (n * (K - 1) / K + S[1 - k][1 - k] / det) for k in range(K)]
        h.eq("variance of a document's topic weight", qs.varcs[d], var)
        p, mn, a = softmax(h, m0[d]), list(qs.means[d]), assigned(h, W[d], m0[d], v)
        mu = list(model.topicMean) if X is None else [h.sum([X[d][j] * model.A[k][j] for j in range(len(X[d]))]) for k in range(K)]
        if diag:
            for k in range(K):
                h.eq("the new mean of a document", mn[k], var[k] * (a[k] - n * p[k] + n * h.sum([A[k][j] * m0[d][j] for j in range(K)]) + mu[k] / S[k][k]))
            continue
        u = [a[k] - n * p[k] - n * h.sum([A[k][j] * (mn[j] - m0[d][j]) for j in range(K)]) for k in range(K)]
        for k in range(K):
            h.eq("the new mean of a document maximises its bound", mn[k] - mu[k], h.sum([S[k][j] * u[j] for j in range(K)]))


def cases(tier):
    out = []

    def add(cname, f, **kw):
        opt = {k: kw.pop(k) for k in ('fast', 'budget', 'tiers', 'max_paths', 'timeout', 'div0', 'validate', 'branch_timeout') if k in kw}
        out.append(Case(cname, f, kw, **opt))
    for mod in BOHNING:
        add('train:%s' % mod, train, name=mod, pat=[[1, 0], [1, 1]])
        add('train:diag:%s' % mod, train, name=mod, pat=[[1, 0], [1, 1]], diag=True)
        add('train:mean:%s' % mod, train, name=mod, pat=[[1, 1], [0, 1]], apart=[[0.5, -1], [-0.25, 0.5]])
    for mod in BOHNING + ('stm_uv_vecy_bohning', 'stm_yv_bohning'):
        add('query:%s' % mod, asked, name=mod, pat=[[1, 1], [0, 1]])
    for mod in BOHNING:
        add('query:diag:%s' % mod, asked, name=mod, pat=[[1, 1], [0, 1]], diag=True)
    for mod in BOHNING + FEAT + ('ctm',):
        add('alone:%s' % mod, asked, name=mod, pat=[[1, 1], [0, 1]], alone=1)
    for mod in BOHNING:
        for what in ('train', 'query'):
            for D, T in ((1, 2), (2, 2)):
                if what == 'query' or D > 1:
                    add('far:%s:%s:%d' % (what, mod, D), far, name=mod, what=what, D=D, T=T)
    for mod in ('stm_uv_vecy_bohning', 'stm_yv_bohning'):
        add('far:query:%s' % mod, far, name=mod, what='query', D=2, T=2)
        add('far:train:%s' % mod, far, name=mod, what='train', D=2, T=2)
    for mod in FEAT:
        uv = mod == 'stm_uv_vecy_bohning'       # keeps inverses by document length: lengths are given
        add('train:%s' % mod, feat_train, name=mod, pat=[[1, 1], [0, 1]], counts=[2, 4, 5] if uv else None)
        add('order:%s' % mod, feat_train, name=mod, pat=[[1, 1], [0, 1]], order=[1, 0], counts=[2, 4, 5] if uv else None)
    for mod in FEAT:
        add('order3:%s' % mod, feat_train, name=mod, pat=[[1, 1], [0, 1], [1, 0]], order=[1, 2, 0], counts=[2, 4, 1, 5])
        if mod != 'stm_yv':
            add('train3:%s' % mod, feat_train, name=mod, pat=[[1, 1], [0, 1], [1, 0]], counts=[2, 4, 1, 5])
    return out
