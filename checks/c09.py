"""C09 variational Dirichlet LDA conserves mass in its updates"""
from symx.harness import Case

M = 'sidetopics.model.lda_vb_python'
MODS = [M]
BOUNDS = ("2..3 topics, 2..3 words, 1..3 documents of 1..2 distinct words with symbolic counts in 1..9, symbolic priors (scalar and vector), topic-word "
          "and document-topic parameters in (0, 50]; one document update from any state, batch training of 1..2 iterations, "
          "mini-batches of 1..3 documents for up to 4 updates with symbolic step-size settings")
ASSUMPTIONS = ["digamma and exp are uninterpreted (exp positive, exp(a-b) = exp(a)/exp(b)): the conclusions hold for any such functions",
               "in the amari schedule the bound of the corpus is any real number (var_bound is replaced)"]

PAT = {'one': [[1, 1]], 'lone': [[0, 1]], 'two': [[1, 0], [1, 1]], 'swap': [[0, 1], [1, 0]], 'three': [[1, 0], [0, 1], [1, 1]],
       'wide': [[1, 0, 1]], 'wide2': [[0, 1, 1], [1, 0, 0]], 'four': [[1, 0], [0, 1], [1, 0], [0, 1]], 'single': [[1]]}


class St:
    def __init__(self, h, pat, K, vec=False, dtype='float64', hi=9):
        self.h, self.m, self.K = h, h.mod(M), K
        self.pat = PAT[pat]
        self.D, self.T = len(self.pat), len(self.pat[0])
        n = sum(map(sum, self.pat))
        dt = getattr(h.np, dtype)
        W = h.from_dense(self.pat, h.ints('n', n, 1, hi, dtype=dt), dtype=dt)
        self.data = h.mod('sidetopics.model.common').DataSet(W, debug=True)
        self.n = h.snap(h.dense(W))
        self.lens = h.array([h.sum(list(self.n[d])) for d in range(self.D)], dtype=h.np.float64)
        self.a = h.poss('a', (K,), hi=9)
        self.b = h.poss('b', (self.T,), hi=9) if vec else h.pos('b', hi=9)
        self.bt = self.b if vec else [self.b] * self.T
        self.w = h.poss('w', (K, self.T), hi=50)
        self.mean = h.simplex('q', (self.D, K))
        self.zs = None

    def model(self):
        h = self.h
        return self.m.ModelState(self.K, h.snap(self.a), h.snap(self.b), h.snap(self.w), True, h.np.float64, 'x')

    def query(self):
        return self.m.QueryState(self.h.snap(self.lens), self.a[self.h.np.newaxis, :] + self.mean * self.lens[:, self.h.np.newaxis], False)

    def any_z(self):
        """let every document update return any responsibilities"""
        h, self.zs, self.turn = self.h, [], 0
        self.real_update = self.m._update_topics_at_d

        def update(d, data, docLens, topicMeans, *rest):
            idx = data.words[d, :].indices
            z = h.simplex('z%d' % len(self.zs), (len(idx), self.K)).T
            self.zs.append(z)
            topicMeans[d, :] = h.np.dot(z, data.words[d, :].data) / docLens[d]
            return idx, z
        self.m._update_topics_at_d = update

    def z(self, d, mean, w):
        """responsibilities of the words of one document, given its mean assignment and the topics' parameters"""
        h, dg, K = self.h, self.m.fns.digamma, self.K
        out = {}
        if self.zs:
            self.turn += 1
            ts = [t for t in range(self.T) if self.pat[d][t]]
            return {t: list(self.zs[self.turn - 1][:, j]) for j, t in enumerate(ts)}
        for t in range(self.T):
            if self.pat[d][t]:
                s = [h.exp(dg(w[k, t]) - dg(h.sum(list(w[k, :]))) + dg(self.a[k] + self.lens[d] * mean[k])) for k in range(K)]
                tot = h.sum(s)
                out[t] = [x / tot for x in s]
        return out

    def step(self, d, mean, w, grad):
        """the coordinate update of one document; adds its expected counts to grad"""
        h = self.h
        z = self.z(d, mean[d], w)
        new = [0] * self.K
        for t in z:
            for k in range(self.K):
                grad[k, t] = grad[k, t] + self.n[d, t] * z[t][k]
                new[k] = new[k] + self.n[d, t] * z[t][k]
        for k in range(self.K):
            mean[d, k] = new[k] / self.lens[d]

    def prior(self):
        h = self.h
        return h.array([[self.bt[t] for t in range(self.T)] for _ in range(self.K)], dtype=h.np.float64)

    def mass(self, label, model, query):
        h = self.h
        tot = h.sum(list(self.a))
        for d in range(self.D):
            h.eq("%s: a document's parameters sum to the prior mass and its length" % label, h.sum(list(query.topicDists[d])), tot + self.lens[d])
        h.check("%s: shape" % label, tuple(query.topicDists.shape) == (self.D, self.K))
        h.eq("%s: document lengths" % label, query.docLens, self.lens)
        h.eq("%s: the topic prior" % label, model.topicPrior, self.a)
        h.eq("%s: the word prior" % label, model.vocabPrior, self.b)


def doc(h, pat, K):
    """one document's coordinate update, from any state of the others"""
    s = St(h, pat, K)
    m, np = s.m, h.np
    di, dis = m.fns.digamma(s.w), m.fns.digamma(np.sum(s.w, axis=1))
    for d in range(s.D):
        means, data = h.snap(s.mean), h.snap(s.data.words)
        di0, dis0 = h.snap(di), h.snap(dis)
        idx, z = m._update_topics_at_d(d, s.data, s.lens, means, s.a, di, dis)
        h.same("the words", s.data.words, data)
        h.eq("the expectations of the words are kept", di, di0)
        h.eq("the expectations of the totals are kept", dis, dis0)
        ts = [t for t in range(s.T) if s.pat[d][t]]
        h.check("the words of the document", [int(i) for i in h.flat(idx)] == ts)
        ref = s.z(d, s.mean[d], s.w)
        for j, t in enumerate(ts):
            h.ge("responsibilities are not negative", z[:, j], 0)
            h.eq("responsibilities of a word sum to one", h.sum(list(z[:, j])), 1)
            h.eq("responsibilities are proportional to word times document expectation", z[:, j], h.array(ref[t], dtype=np.float64))
        h.eq("the document's mean assignment", means[d], h.array([h.sum([s.n[d, t] * ref[t][k] for t in ts]) / s.lens[d] for k in range(K)], dtype=np.float64))
        h.eq("the document's mean assignment sums to one", h.sum(list(means[d])), 1)
        h.ge("the document's mean assignment is not negative", means[d], 0)
        for e in range(s.D):
            if e != d:
                h.eq("other documents are left alone", means[e], s.mean[e])


def batch(h, pat, K, iters, exact=True, vec=False, update=True, dtype='float64', log=0):
    s = St(h, pat, K, vec, dtype)
    m = s.m
    plan = m.newTrainPlan(iters, logFrequency=log)
    model, query, _ = m.train(s.data, s.model(), s.query(), plan, updateVocab=update)
    s.mass('batch', model, query)
    h.ge("parameters of a document are at least the prior", query.topicDists, s.a[h.np.newaxis, :])
    if not update:
        h.eq("the word parameters are kept", model.wordDists, s.w)
    elif iters:
        for t in range(s.T):
            h.eq("a word's parameters sum to the prior mass and its count", h.sum(list(model.wordDists[:, t])),
                 K * s.bt[t] + h.sum([s.n[d, t] for d in range(s.D)]))
        h.eq("the word parameters sum to the prior mass and the corpus length", h.sum(h.flat(model.wordDists)),
             K * h.sum(list(s.bt)) + h.sum(list(s.lens)))
        h.ge("word parameters are at least the prior", model.wordDists, s.prior())
    if exact:
        mean, w = h.snap(s.mean), h.snap(s.w)
        for _ in range(iters):
            g = s.prior()
            for d in range(s.D):
                s.step(d, mean, w, g)
            if update:
                w = g
        h.eq("documents: prior plus expected counts", query.topicDists, s.a[h.np.newaxis, :] + mean * s.lens[:, h.np.newaxis])
        h.eq("words: prior plus expected counts", model.wordDists, w)
    h.observe('w', model.wordDists)


def stoch(h, pat, algor, size, iters=1, K=2, delay=None, forget=None, vec=False, anyz=False):
    """mini-batches: w' = (1 - rho) w + rho (prior + the batch's expected counts)"""
    s = St(h, pat, K, vec)
    m, kw = s.m, {}
    bounds = []
    if algor == 'kappa':
        delay = h.real('delay', 1, 5) if delay is None else delay
        forget = forget if forget is not None else 1
        kw = dict(rate_delay=delay, forgetting_rate=forget)
    elif algor == 'amari':
        kw = dict(rate_a=h.real('ra', 0.1, 2), rate_b=h.real('rb', 0.1, 2))

        def bound(*a, **k):
            bounds.append(h.real('bound%d' % len(bounds), -9, 0))
            return bounds[-1]
        old, m.var_bound = m.var_bound, bound
    plan = m.newTrainPlan(iters, logFrequency=0, batchSize=size, rate_algor=algor, **kw)
    if anyz:
        s.any_z()
    try:
        model, query, _ = m.train(s.data, s.model(), s.query(), plan)
    finally:
        if algor == 'amari':
            m.var_bound = old
        if anyz:
            m._update_topics_at_d = s.real_update
    s.mass('stochastic', model, query)
    mean, w, d, rho = h.snap(s.mean), h.snap(s.w), -1, 1
    tau, eg, gg, new_avg, new_sq = [size] * K, None, None, [], []
    for b in range((s.D // size + 1) * iters):
        g = s.prior()
        for _ in range(size):
            d = (d + 1) % s.D
            s.step(d, mean, w, g)
        if algor == 'kappa':
            base = b + delay
            rho = 1 / base if forget == 1 else base ** (-forget)
        elif algor == 'variance':
            rho = []
            for k in range(K):
                old = eg[k] if eg else [0] * s.T
                avg = [(1 - 1 / tau[k]) * old[t] + g[k, t] / tau[k] for t in range(s.T)]
                sq = (1 - 1 / tau[k]) * (gg[k] if eg else 0) + h.sum([x * x for x in g[k]]) / tau[k]
                rho.append(h.sum([x * x for x in avg]) / sq)
                tau[k] = tau[k] * (1 - rho[k]) + 1
                new_avg.append(avg)
                new_sq.append(sq)
            eg, gg = new_avg[-K:], new_sq[-K:]
            for k in range(K):
                h.check("the step size is positive and at most one", h.and_(h.lt(0, rho[k]), h.le_(rho[k], 1)))
        elif algor == 'amari':
            rho = rho * h.exp(kw['rate_a'] * (kw['rate_b'] * -bounds[b] - rho))
        new = h.zeros((K, s.T))
        for k in range(K):
            for t in range(s.T):
                r = rho[k] if algor == 'variance' else rho
                new[k, t] = w[k, t] + r * (g[k, t] - w[k, t])
        w = new
    h.eq("words: a step of the stated size towards the batch estimate", model.wordDists, w)
    h.eq("documents: prior plus expected counts", query.topicDists, s.a[h.np.newaxis, :] + mean * s.lens[:, h.np.newaxis])


def convert(h, pat, K):
    """Dirichlet parameters to mean assignments and back"""
    s = St(h, pat, K)
    m, np = s.m, h.np
    q = h.poss('p', (s.D, K), hi=50)
    x = h.snap(q)
    r = m._convertDirichletParamToMeans(s.lens, x, s.a)
    h.eq("means", r, (q - s.a[np.newaxis, :]) / s.lens[:, np.newaxis])
    h.eq("back to the parameters", m._convertMeansToDirichletParam(s.lens, h.snap(r), s.a), q)
    y = h.snap(s.mean)
    p = m._convertMeansToDirichletParam(s.lens, y, s.a)
    for d in range(s.D):
        h.eq("mass of the parameters", h.sum(list(p[d])), h.sum(list(s.a)) + s.lens[d])
    h.eq("back to the means", m._convertDirichletParamToMeans(s.lens, h.snap(p), s.a), s.mean)


def start(h, pat, K):
    """a fresh query state has the prior mass and the document lengths"""
    s = St(h, pat, K)
    q = s.m.newQueryState(s.data, s.model())
    for d in range(s.D):
        h.eq("initial mass", h.sum(list(q.topicDists[d])), h.sum(list(s.a)) + s.lens[d])
    h.eq("document lengths", q.docLens, s.lens)
    model, q, _ = s.m.train(s.data, s.model(), q, s.m.newTrainPlan(1, logFrequency=0))
    s.mass('after training', model, q)


def cases(tier):
    out, TH = [], ('thorough',)

    def add(name, fn, th=0, **k):
        out.append(Case(name, fn, k, tiers=TH if th else ('quick',) + TH))
    for p, K, th in (('one', 2, 0), ('two', 2, 0), ('wide', 3, 0), ('swap', 3, 0), ('wide2', 2, 0), ('single', 2, 0), ('three', 3, 1), ('wide2', 4, 1)):
        add('doc:%s:%d' % (p, K), doc, th, pat=p, K=K)
    for p, K, it, ex, th in (('one', 2, 1, 1, 0), ('two', 2, 1, 1, 0), ('wide2', 2, 1, 1, 0), ('lone', 3, 1, 1, 0), ('three', 2, 1, 1, 0),
                             ('swap', 2, 2, 1, 0), ('one', 2, 2, 0, 0), ('two', 2, 2, 0, 0), ('single', 2, 0, 1, 0), ('wide2', 3, 2, 0, 1), ('two', 2, 3, 0, 1)):
        add('batch:%s:%d:%d' % (p, K, it), batch, th, pat=p, K=K, iters=it, exact=bool(ex))
    add('batch:vec', batch, pat='two', K=2, iters=1, vec=True)
    add('batch:int', batch, pat='two', K=2, iters=1, dtype='int32')
    add('batch:log', batch, pat='one', K=2, iters=1, log=1)
    add('query:two', batch, pat='two', K=2, iters=1, update=False)
    add('query:twice', batch, pat='one', K=2, iters=2, update=False)
    for p, alg, sz, it, th in (('single', 'kappa', 1, 1, 0), ('two', 'kappa', 2, 1, 0), ('swap', 'kappa', 2, 1, 0), ('lone', 'kappa', 1, 1, 0), ('three', 'kappa', 2, 1, 0),
                               ('swap', 'kappa', 3, 1, 0), ('swap', 'kappa', 1, 1, 1),
                               ('lone', 'amari', 1, 1, 0), ('single', 'variance', 1, 1, 0), ('lone', 'variance', 2, 1, 0), ('swap', 'variance', 3, 1, 0), ('two', 'variance', 3, 1, 0), ('swap', 'amari', 2, 1, 0), ('one', 'amari', 2, 1, 0)):
        add('%s:%s:%d:%d' % (alg, p, sz, it), stoch, th, pat=p, algor=alg, size=sz, iters=it)
    add('kappa:default', stoch, pat='two', algor='kappa', size=3, delay=0.6, forget=0.6)
    for p, sz, it, th in (('single', 2, 2, 0), ('single', 1, 2, 0), ('lone', 2, 2, 0), ('swap', 2, 1, 1)):
        add('variance:any:%s:%d:%d' % (p, sz, it), stoch, th, pat=p, algor='variance', size=sz, iters=it, anyz=True)
    add('kappa:vec', stoch, pat='two', algor='kappa', size=3, vec=True)
    for p, K in (('two', 2), ('wide2', 3)):
        add('convert:%s:%d' % (p, K), convert, pat=p, K=K)
        add('start:%s:%d' % (p, K), start, pat=p, K=K)
    return [c for c in out if tier in c.tiers]
