"""C10 mixture models assign each document a distribution over clusters"""
from symx.harness import Case
from checks.gibbs_common import Spy

EM, MG = 'sidetopics.model.mom_em', 'sidetopics.model.mom_gibbs'
MODS = [EM, MG]
BOUNDS = ("2..3 clusters, 1..3 words, 1..3 documents with symbolic counts in 1..5, arbitrary positive priors and parameters (expectation-maximisation) or "
          "word distributions (Gibbs), any responsibilities to start from; 1..3 iterations, every outcome of every draw; documents of 1..3000 occurrences of each word under given parameters")
ASSUMPTIONS = ["digamma and exp are uninterpreted (exp positive, exp(a-b) = exp(a)/exp(b))",
               "a multinomial draw returns a one-hot row, a Dirichlet draw a point of the simplex with positive coordinates"]
PAT = {'one': [[1, 1]], 'lone': [[0, 1]], 'two': [[1, 0], [1, 1]], 'swap': [[0, 1], [1, 0]], 'three': [[1, 0], [0, 1], [1, 1]],
       'wide': [[1, 0, 1], [0, 1, 0]], 'single': [[1]], 'same': [[1], [1]]}


def corpus(h, pat, dtype='float64', hi=5):
    dt = getattr(h.np, dtype)
    W = h.from_dense(PAT[pat], h.ints('n', sum(map(sum, PAT[pat])), 1, hi, dtype=dt), dtype=dt)
    ds = h.mod('sidetopics.model.common').DataSet(W, debug=True)
    n = h.snap(h.dense(W))
    return ds, n, h.array([h.sum(list(n[d])) for d in range(len(n))], dtype=h.np.float64)


def distribution(h, label, rows):
    h.ge("%s is not negative" % label, rows, 0)
    for d in range(rows.shape[0]):
        h.eq("%s sums to one" % label, h.sum(list(rows[d])), 1)


def e_step(h, m, n, cluster, words):
    """normalised product of cluster weight and word likelihoods, both by their exponentiated expectations"""
    dg = m.fns.digamma
    D, T, K = n.shape[0], n.shape[1], len(cluster)
    out = []
    for d in range(D):
        s = []
        for k in range(K):
            x = dg(cluster[k]) - dg(h.sum(list(cluster)))
            for t in range(T):
                if h.symbolic or n[d, t] != 0:
                    x = x + n[d, t] * (dg(words[k, t]) - dg(h.sum(list(words[k, :]))))
            s.append(x)
        if not h.symbolic:
            top = max(s)
            s = [x - top for x in s]
        s = [h.exp(x) for x in s]
        tot = h.sum(s)
        out.append([x / tot for x in s])
    return h.array(out, dtype=h.np.float64)


class EMSt:
    def __init__(self, h, pat, K, dtype='float64'):
        self.h, self.K, self.m = h, K, h.mod(EM)
        self.ds, self.n, self.lens = corpus(h, pat, dtype)
        self.D, self.T = self.n.shape
        self.a, self.b = h.poss('a', (K,), hi=9), h.poss('b', (self.T,), hi=9)
        self.w, self.c = h.poss('w', (K, self.T), hi=50), h.poss('c', (K,), hi=50)
        self.q = h.simplex('q', (self.D, K))

    def state(self):
        h = self.h
        return (self.m.ModelState(self.K, h.snap(self.a), h.snap(self.b), h.snap(self.w), h.snap(self.c), True, h.np.float64, 'x'),
                self.m.QueryState(h.snap(self.lens), h.snap(self.q), False))

    def m_step(self, r):
        h = self.h
        c = h.array([self.a[k] + h.sum([r[d, k] for d in range(self.D)]) for k in range(self.K)], dtype=h.np.float64)
        w = h.array([[self.b[t] + h.sum([r[d, k] * self.n[d, t] for d in range(self.D)]) for t in range(self.T)] for k in range(self.K)], dtype=h.np.float64)
        return c, w

    def still(self, old, new):
        h = self.h
        move = h.sum([h.max(x - y, y - x) for x, y in zip(h.flat(old), h.flat(new))])
        return h.truth(h.lt(move, self.m.CHANGE_TOLERANCE * self.D * self.K))


def em_train(h, pat, K, iters, dtype='float64', log=0):
    s = EMSt(h, pat, K, dtype)
    m = s.m
    words = h.snap(s.ds.words)
    model0, query0 = s.state()
    model, query, _ = m.train(s.ds, model0, query0, m.newTrainPlan(iters, logFrequency=log))
    r, c, w = s.q, s.c, s.w
    for _ in range(iters):
        new = e_step(h, m, s.n, c, w)
        stop = s.still(r, new)
        r = new
        if stop:
            break
        c, w = s.m_step(r)
    distribution(h, "a document's distribution over clusters", query.topicDists)
    h.eq("responsibilities are the normalised product of cluster weight and word likelihoods", query.topicDists, r)
    h.eq("cluster weights are the smoothed responsibilities", model.corpusTopicDistParam, c)
    h.eq("word parameters are the smoothed responsibility-weighted counts", model.wordDistParam, w)
    distribution(h, "a cluster's word distribution", m.wordDists(model))
    distribution(h, "the distribution over clusters", m.corpusTopicDist(model)[h.np.newaxis, :])
    h.eq("cluster weights, normalised", m.corpusTopicDist(model), c / h.sum(list(c)))
    h.eq("the topic prior", model.topicPrior, s.a)
    h.eq("the word prior", model.vocabPrior, s.b)
    h.same("the words", s.ds.words, words)
    h.eq("document lengths", query.docLens, s.lens)


def em_query(h, pat, K, iters, dtype='float64'):
    s = EMSt(h, pat, K, dtype)
    model0, query0 = s.state()
    model, query = s.m.query(s.ds, model0, query0, s.m.newTrainPlan(iters))
    distribution(h, "a document's distribution over clusters", query.topicDists)
    want = e_step(h, s.m, s.n, s.c, s.w) if iters else s.q
    h.eq("responsibilities are the normalised product of cluster weight and word likelihoods", query.topicDists, want)
    h.eq("document lengths", query.docLens, s.lens)


def lengths(h, what, D, T):
    """documents of very different lengths each keep a distribution over clusters"""
    m = h.mod(EM)
    W = h.from_dense([[1] * T] * D, h.ints('n', D * T, 1, 3000), dtype=h.np.float64)
    ds = h.mod('sidetopics.model.common').DataSet(W, None, None, debug=True)
    c = lambda a: h.array([[float(x) for x in r] for r in a])
    model = m.ModelState(2, h.array([1.5, 1.25]), h.array([1.5] * T), c([[3, 1, 2][:T], [1, 4, 1][:T]]), h.array([3.0, 2.0]), True, h.np.float64, 'x')
    q = m.QueryState(h.array([1.0] * D), c([[0.5, 0.5]] * D), True)
    plan = m.newTrainPlan(1, logFrequency=0)
    r = h.no_overflow(lambda: (m.train if what == 'train' else m.query)(ds, model, q, plan))[1]
    distribution(h, what, r.topicDists)


def em_start(h, pat, K):
    """a fresh query state assigns distributions; one round of training from it gives proper distributions"""
    s = EMSt(h, pat, K)
    q = s.m.newQueryState(s.ds, s.state()[0], False)
    distribution(h, "the initial distribution over clusters", q.topicDists)
    h.eq("document lengths", q.docLens, s.lens)
    model, q, _ = s.m.train(s.ds, s.state()[0], q, s.m.newTrainPlan(1, logFrequency=0))
    distribution(h, "a document's distribution over clusters", q.topicDists)
    distribution(h, "a cluster's word distribution", s.m.wordDists(model))


class Draws:
    """records what the sampler asks of the random number generator"""

    def __init__(self, h, m):
        self.multi, self.dir, self.m, self.rd = [], [], m, m.rd
        rd, snap = m.rd, h.snap

        def multinomial(n, p, size=None):
            self.multi.append(snap(p))
            return rd.multinomial(n, p, size=size)

        def dirichlet(a, size=None):
            self.dir.append(snap(a))
            return rd.dirichlet(a) if size is None else rd.dirichlet(a, size=size)
        m.rd = Spy(rd, multinomial=multinomial, dirichlet=dirichlet)

    def done(self):
        self.m.rd = self.rd


def onehot(h, row):
    return h.and_(h.and_(*[h.or_(h.is_eq(x, 0), h.is_eq(x, 1)) for x in row]), h.is_eq(h.sum(row), 1))


def weights(h, n, a, w, others, d):
    """the normalised product of smoothed cluster weight and word likelihoods"""
    K, T = w.shape
    s = []
    for k in range(K):
        x = h.log(a[k] + others[k])
        for t in range(T):
            if h.symbolic or n[d, t] != 0:
                x = x + n[d, t] * h.log(w[k, t])
        s.append(x)
    if not h.symbolic:
        top = max(s)
        s = [x - top for x in s]
    s = [h.exp(x) for x in s]
    tot = h.sum(s)
    return h.array([x / tot for x in s], dtype=h.np.float64)


def sweep(h, m, n, a, w, z, draws, at, tiny=False):
    """follow one sweep over the documents; draws.multi[at:] are the weights used, in order. Returns the new memberships given by the caller"""
    D, K = z.shape
    for d in range(D):
        p = draws.multi[at + d]
        others = [h.sum([z[e, k] for e in range(D) if e != d]) for k in range(K)]
        h.ge("sampling weights are not negative", p, 0)
        h.eq("sampling weights sum to one", h.sum(h.flat(p)), 1)
        if tiny:
            yield d
            continue
        h.eq("sampling weights are the normalised product of smoothed cluster weight and word likelihoods", p, weights(h, n, a, w, others, d))
        yield d


def members(h, pat, K, dtype='float64', frac=False, tiny=False):
    """one sweep of sample_memberships from any state"""
    m = h.mod(MG)
    ds, n, lens = corpus(h, pat, dtype, hi=3)
    D, T = n.shape
    a, w = h.poss('a', (K,), hi=9), h.simplex('w', (K, T))
    if not tiny:
        for x in h.flat(w):
            h.assume(h.le_(1e-6, x))
        for x in a:
            h.assume(h.le_(1e-3, x))
    if frac:
        z0 = h.simplex('z', (D, K))
    else:
        z0 = h.zeros((D, K))
        for d in range(D):
            z0[d, h.choose('z%d' % d, list(range(K)))] = 1
    z, w0, words = h.snap(z0), h.snap(w), h.snap(ds.words)
    dr = Draws(h, m)
    try:
        out = m.sample_memberships(ds.words, a, w, z)
    finally:
        dr.done()
    h.same("the words", ds.words, words)
    h.eq("the word distributions are kept", w, w0)
    h.check("one draw per document", len(dr.multi) == D)
    cur = h.snap(z0)
    for d in sweep(h, m, n, a, w0, cur, dr, 0, tiny):
        h.check("a document belongs to one cluster", onehot(h, list(out[d])))
        cur[d, :] = out[d, :]


def dirichlets(h, pat, K, dtype='float64', vec=False, given=True):
    """word distributions are drawn with the smoothed counts of the documents in the cluster"""
    m = h.mod(MG)
    ds, n, lens = corpus(h, pat, dtype)
    D, T = n.shape
    b = h.poss('b', (T,), hi=9) if vec else h.pos('b', hi=9)
    z = h.zeros((D, K))
    for d in range(D):
        z[d, h.choose('z%d' % d, list(range(K)))] = 1
    out0 = h.simplex('w', (K, T)) if given else None
    z0 = h.snap(z)
    dr = Draws(h, m)
    try:
        out = m.sample_dirichlet(ds.words, b, z, out0)
    finally:
        dr.done()
    h.eq("memberships are kept", z, z0)
    h.check("one draw per cluster", len(dr.dir) == K)
    for k in range(K):
        want = [(b[t] if vec else b) + h.sum([z[d, k] * n[d, t] for d in range(D)]) for t in range(T)]
        h.eq("the Dirichlet parameter is the smoothed count", dr.dir[k], h.array(want, dtype=h.np.float64))
    distribution(h, "a cluster's word distribution", out)
    h.check("shape", tuple(out.shape) == (K, T))


def gibbs(h, pat, K, iters, burn, thin, update=True):
    """whole training and query runs: memberships and word distributions stay proper, the last model belongs to the last memberships"""
    m = h.mod(MG)
    ds, n, lens = corpus(h, pat, hi=2)
    D, T = n.shape
    a, b, w = h.poss('a', (K,), hi=9), h.pos('b', hi=9), h.simplex('w', (K, T))
    for x in h.flat(w):
        h.assume(h.le_(1e-6, x))
    for x in a:
        h.assume(h.le_(1e-3, x))
    model0 = m.ModelState(K, h.snap(a), b, h.snap(w), True, h.np.float64, 'x')
    q0 = m.QueryState(h.snap(lens), h.simplex('z', (D, K)), False)
    plan = m.newTrainPlan(iters, logFrequency=0, burnIn=burn, thinning=thin)
    dr = Draws(h, m)
    try:
        if update:
            model, query, _ = m.train(ds, model0, q0, plan)
        else:
            model, query = m.query(ds, model0, q0, plan)
    finally:
        dr.done()
    distribution(h, "a document's distribution over clusters", query.topicDists)
    distribution(h, "a cluster's word distribution", m.wordDists(model))
    for p in dr.multi:
        h.ge("sampling weights are not negative", p, 0)
        h.eq("sampling weights sum to one", h.sum(h.flat(p)), 1)
    if update:
        h.check("every sweep draws every document and every cluster", len(dr.multi) == D * (iters + burn) and len(dr.dir) == K * (iters + burn))
        for k in range(K):
            want = [b + h.sum([query.topicDists[d, k] * n[d, t] for d in range(D)]) for t in range(T)]
            h.eq("the last word distributions are drawn with the counts of the last memberships", dr.dir[-K + k], h.array(want, dtype=h.np.float64))
    else:
        h.check("a query draws no word distribution", len(dr.dir) == 0 and len(dr.multi) == D * iters)
        h.eq("the word distributions are kept", model.wordDists, w)


def cases(tier):
    out, TH = [], ('thorough',)

    def add(name, fn, th=0, **k):
        out.append(Case(name, fn, k, tiers=TH if th else ('quick',) + TH))
    for p, K, it, th in (('one', 2, 1, 0), ('two', 2, 1, 0), ('single', 3, 1, 0), ('swap', 2, 1, 0), ('wide', 2, 1, 0), ('three', 2, 1, 1), ('lone', 2, 2, 0),
                         ('one', 2, 2, 0), ('single', 2, 3, 1), ('one', 2, 0, 0)):
        add('em:train:%s:%d:%d' % (p, K, it), em_train, th, pat=p, K=K, iters=it)
    add('em:train:int', em_train, pat='two', K=2, iters=1, dtype='int32')
    add('em:train:log', em_train, pat='single', K=2, iters=1, log=1)
    for p, K, it, th in (('one', 2, 1, 0), ('two', 2, 1, 0), ('single', 3, 1, 0), ('wide', 3, 1, 1), ('lone', 2, 2, 0), ('swap', 2, 3, 0), ('one', 2, 0, 0)):
        add('em:query:%s:%d:%d' % (p, K, it), em_query, th, pat=p, K=K, iters=it)
    add('em:query:int', em_query, pat='two', K=2, iters=1, dtype='int32')
    for p in ('one', 'two'):
        add('em:start:%s' % p, em_start, pat=p, K=2)
    for p, K, th in (('one', 2, 0), ('single', 3, 0), ('same', 2, 0), ('swap', 2, 0), ('two', 2, 0), ('three', 2, 1)):
        add('gibbs:members:%s:%d' % (p, K), members, th, pat=p, K=K)
    add('gibbs:members:tiny', members, pat='same', K=2, tiny=True)
    add('gibbs:members:frac', members, pat='swap', K=2, frac=True)
    add('gibbs:members:int', members, pat='swap', K=2, dtype='int32')
    for p, K in (('one', 2), ('two', 2), ('three', 2), ('wide', 3)):
        add('gibbs:words:%s:%d' % (p, K), dirichlets, pat=p, K=K)
    add('gibbs:words:vec', dirichlets, pat='two', K=2, vec=True)
    add('gibbs:words:new', dirichlets, pat='two', K=2, given=False)
    add('gibbs:words:int', dirichlets, pat='two', K=2, dtype='int32')
    for p, it, bu, th, up, deep in (('one', 1, 0, 1, 1, 0), ('swap', 1, 0, 1, 1, 1), ('lone', 1, 1, 1, 1, 0), ('lone', 2, 1, 1, 1, 1), ('one', 1, 0, 1, 0, 0), ('lone', 3, 0, 1, 0, 0), ('lone', 4, 1, 2, 0, 0),
                                    ('single', 5, 1, 3, 0, 0)):
        add('gibbs:%s:%s:%d:%d:%d' % ('train' if up else 'query', p, it, bu, th), gibbs, deep, pat=p, K=2, iters=it, burn=bu, thin=th, update=bool(up))
    for what in ('train', 'query'):
        for D, T in ((1, 2), (2, 2), (2, 3), (3, 2)):
            add('em:lengths:%s:%dx%d' % (what, D, T), lengths, D * T > 4, what=what, D=D, T=T)
    return [c for c in out if tier in c.tiers]
