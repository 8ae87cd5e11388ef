"""C24 the scikit-learn style wrapper reports what the underlying model reports"""
from symx.harness import Case
from checks.gibbs_common import Spy

M = 'sidetopics.model.'
KINDS = {'LDA_CVB0': 'lda_cvb0', 'LDA_CVB': 'lda_cvb', 'LDA_VB': 'lda_vb', 'LDA_VB_PYTHON_IMPL': 'lda_vb_python', 'LDA_GIBBS': 'lda_gibbs',
         'MOM_VB': 'mom_em', 'MOM_GIBBS': 'mom_gibbs'}
MODS = [M + 'sklearn.lda_cvb', M + 'common', M + 'evals'] + [M + x for x in KINDS.values()]
BOUNDS = ("every algorithm but LDA_SVB; every history of up to 3 calls (thorough: 4) of fit, transform, fit_transform and copy with and without persisting and resuming, on "
          "two corpora; all settings symbolic; scores of 1..2 documents, 2 topics and 2 words with every weighting, component and count symbolic (counts of 1 or 2 for mixtures; up to 3000 with given weightings)")
ASSUMPTIONS = ["in the histories the model modules' own functions are replaced by stand-ins that record their arguments and return fresh values",
               "scikit-learn's and gensim's own models are not encoded: only the scores worked out from their components and topics are"]


def words(h, dtype='float64', pat=((1, 1),), tag='w', lo=1, hi=9):
    n = sum(map(sum, pat))
    gen = h.ints if dtype.startswith('int') else h.ints
    return h.from_dense([list(r) for r in pat], gen(tag, n, lo, hi, dtype=getattr(h.np, dtype)), dtype=getattr(h.np, dtype))


class World:
    """a model module with recording stand-ins"""

    def __init__(self, h, kind):
        self.h, self.kind = h, kind
        self.m = h.mod(M + 'sklearn.lda_cvb')
        self.mod = h.mod(M + KINDS[kind])
        self.calls, self.n, self.seeds = [], 0, []
        mod = self.mod
        self.Model, self.Query = mod.ModelState, mod.QueryState
        self.plan0 = mod.newTrainPlan
        for n in ('newModelAtRandom', 'newQueryState', 'newTrainPlan', 'train', 'query', 'topicDists', 'wordDists', 'newModelFromExisting'):
            assert hasattr(mod, n), n
        mod.newModelAtRandom = lambda **k: self.call('new', self.token('model'), **k)
        mod.newModelFromExisting = lambda x: self.call('dup', self.token('model'), x)
        mod.newQueryState = lambda *a: self.call('start', self.token('state'), *a)
        mod.newTrainPlan = lambda *a, **k: self.call('plan', self.plan0(*a, **k), *a, **k)
        self.hist = ([1, 2], [-3., -2.], [-5., -4.])
        mod.train = lambda *a: self.call('train', (self.token('model'), self.token('state'), self.hist), *a)
        mod.query = lambda X, model, q, plan: self.call('query', (model, self.token('state')), X, model, q, plan)
        mod.topicDists = lambda q: self.call('topics', self.token('topics'), q)
        mod.wordDists = lambda ms: self.call('wordd', ('words of', ms), ms)
        self.m.rd = Spy(self.m.rd, seed=self.seeds.append)
        if hasattr(mod, 'seed_rng'):
            mod.seed_rng = lambda s: self.seeds.append(('gibbs', s))

    def token(self, kind):
        self.n += 1
        return _Token(kind, self.n)

    def call(self, name, result, *a, **k):
        self.calls.append((name, a, k, result))
        return result

    def take(self, *names):
        """the calls made since the last time, of exactly these kinds"""
        c, self.calls = self.calls, []
        self.h.check("the calls made to the model", [x[0] for x in c] == list(names))
        return c

    def settings(self):
        h = self.h
        return dict(n_components=h.int('n_components', 2, 50), doc_topic_prior=h.real('doc_topic_prior', 0.01, 2), topic_word_prior=h.real('topic_word_prior', 0.01, 2),
                    iterations=h.int('iterations', 10, 900), query_iterations=h.int('query_iterations', 1, 90), perp_tolerance=h.real('perp_tolerance', 0.01, 5),
                    use_approximations=h.choose('use_approximations', [False, True]), log_frequency=h.int('log_frequency', 0, 100), batchSize=h.int('batchSize', 0, 40),
                    rate_delay=h.real('rate_delay', 0.1, 2), forgetting_rate=h.real('forgetting_rate', 0.1, 2), rate_a=h.real('rate_a', 0.1, 2),
                    rate_b=h.real('rate_b', 0.1, 2), rate_algor=self.m.TrainingStyleTypes.BLEI_TIME_KAPPA, burn_in=h.int('burn_in', 0, 300),
                    thin=h.int('thin', 1, 50), debug=False, seed=7)


class _Token:
    def __init__(self, kind, n):
        self.kind, self.n, self.dtype, self.shape = kind, n, float, (1, 1)

    def __deepcopy__(self, memo):
        return self


def same(h, msg, a, b):
    if isinstance(a, (_Token, str, bool, type(None))) or isinstance(b, (_Token, str, bool, type(None))):
        h.check(msg, a is b or (isinstance(a, (str, bool)) and a == b))
    else:
        h.eq(msg, a, b)


def judge_plan(h, w, call, s, iters):
    _, a, k, plan = call
    f = plan._fields
    burn = s['burn_in'] if w.kind in ('LDA_GIBBS', 'MOM_GIBBS') else 0
    if w.kind == 'LDA_GIBBS':
        h.eq("iterations of the plan", plan.iterations, iters + burn)
    else:
        h.eq("iterations of the plan", plan.iterations, iters)
        h.eq("tolerance of the plan", plan.epsilon, s['perp_tolerance'])
    h.eq("log frequency of the plan", plan.logFrequency, s['log_frequency'])
    h.check("debugging", plan.debug is False)
    if w.kind in ('LDA_GIBBS', 'MOM_GIBBS'):
        thin = [x for x in f if x.startswith('thin')][0]
        burnf = [x for x in f if x.startswith('burn')][0]
        h.eq("burn-in of the plan", getattr(plan, burnf), s['burn_in'])
        h.eq("thinning of the plan", getattr(plan, thin), s['thin'])
    if w.kind != 'LDA_GIBBS':
        h.check("approximations", plan.fastButInaccurate == s['use_approximations'])
    if w.kind == 'LDA_VB_PYTHON_IMPL':
        for x in ('batchSize', 'rate_delay', 'forgetting_rate', 'rate_a', 'rate_b'):
            h.eq(x + " of the plan", getattr(plan, x), s[x])
        h.check("rate algorithm", plan.rate_algor == s['rate_algor'].value)


OPS = ['fit', 'fit!', 'fit+', 'fit+!', 'tr', 'tr!', 'tr+', 'tr+!', 'other', 'other+', 'ft', 'copy', 'iters']


def history(h, kind, first, length):
    """what each call does is determined by the calls before it"""
    w = World(h, kind)
    s = w.settings()
    h.assume(h.le_(1, s['burn_in']))
    t = w.m.TopicModel(w.m.TopicModelType[kind] if len(first) % 2 else kind, **s)
    h.check("the generators are seeded", 7 in w.seeds and (kind != 'LDA_GIBBS' or ('gibbs', 7) in w.seeds))
    DS = h.mod(M + 'common').DataSet
    X, Y = DS(words(h, tag='x')), DS(words(h, tag='y'))
    snaps = h.snap(X.words), h.snap(Y.words)
    model, last = None, (None, None)
    for i in range(length):
        op = first if i == 0 else h.choose('op%d' % i, OPS)
        w.calls = []
        data = Y if op.startswith('other') else X
        resume, persist = '+' in op, '!' in op
        kw = {}
        if resume:
            kw['resume'] = True
        if persist:
            kw['persist_query_state'] = True
        iters = None
        if op == 'iters':
            iters = h.int('iters%d' % i, 1, 500)
            kw['iterations'] = iters
        if op == 'copy':
            c = t.copy()
            if model is None:
                w.take()
                h.check("no model to copy", c._model_state is None)
            else:
                (d,) = w.take('dup')
                h.check("the copy has a copy of the model", d[1][0] is model and c._model_state is d[3])
                model = d[3]
            h.check("the copy is of the same kind", c.kind == t.kind)
            h.check("the original keeps its query state", t._last_query_state is last[1] and c._last_query_state is last[1])
            pt, pc = t.get_params(), c.get_params()
            h.check("the copy has the same settings", sorted(pt) == sorted(pc))
            for k in pt:
                if k != 'rate_algor' and k != 'default_scoring_method':
                    same(h, "the copy has the same settings", pc[k], pt[k])
            t = c
            continue
        if op == 'ft':
            got = t.fit_transform(data)
            seq = ['new'] * (model is None) + ['plan', 'start', 'train', 'plan', 'query', 'topics']
            c = w.take(*seq)
            if model is None:
                judge_new(h, c.pop(0), s, data)
            judge_plan(h, w, c[0], s, s['iterations'])
            h.check("trains on the data given", c[2][1][0] is data and c[2][1][3] is c[0][3] and c[2][1][2] is c[1][3])
            tm, tq, _ = c[2][3]
            h.check("the transform carries on from the trained model and state", c[4][1][1] is tm and c[4][1][2] is tq and c[4][1][0] is data)
            judge_plan(h, w, c[3], s, s['query_iterations'])
            h.check("the topics of the transformed state are returned", c[5][1][0] is c[4][3][1] and got is c[5][3])
            model, last = tm, (None, None)
            continue
        if op.startswith(('fit', 'iters')):
            blocked = resume and last[0] is not data
            if blocked:
                try:
                    t.fit(data, **kw)
                except ValueError:
                    if model is None:
                        model = t._model_state
                    continue
                h.fail("resuming with other data is refused")
            got = t.fit(data, **kw)
            seq = ['new'] * (model is None) + ['plan'] + ([] if resume else ['start']) + ['train']
            c = w.take(*seq)
            if model is None:
                model = c[0][3]
                judge_new(h, c.pop(0), s, data)
            judge_plan(h, w, c[0], s, iters if iters is not None else s['iterations'])
            st = last[1] if resume else c[1][3]
            if not resume:
                h.check("the initial state is for this data and model", c[1][1][0] is data and c[1][1][1] is model)
            a = c[-1][1]
            h.check("trains the model so far on the data given", a[0] is data and a[1] is model and a[2] is st and a[3] is c[0][3])
            model = c[-1][3][0]
            h.check("fit returns the estimator", got is t)
            h.check("the measurements are kept", tuple(t.fit_metrics_) == w.hist)
            last = (data, c[-1][3][1]) if persist else (None, None)
        else:
            if model is None:
                try:
                    t.transform(data, **kw)
                except ValueError:
                    continue
                h.fail("an untrained model is refused")
            if resume and last[0] is not data:
                try:
                    t.transform(data, **kw)
                except ValueError:
                    continue
                h.fail("resuming with other data is refused")
            got = t.transform(data, **kw)
            c = w.take(*([] if resume else ['start']), 'plan', 'query', 'topics')
            st = last[1] if resume else c[0][3]
            if not resume:
                h.check("the initial state is for this data and model", c[0][1][0] is data and c[0][1][1] is model)
            judge_plan(h, w, c[-3], s, s['query_iterations'])
            a = c[-2][1]
            h.check("queries the model so far on the data given", a[0] is data and a[1] is model and a[2] is st and a[3] is c[-3][3])
            h.check("transforming never changes the model", t._model_state is model)
            h.check("the topics of the transformed state are returned", c[-1][1][0] is c[-2][3][1] and got is c[-1][3])
            last = (data, c[-2][3][1]) if persist else (None, None)
        h.check("the model so far", t._model_state is model)
        h.check("the state is kept just if asked for", t.query_state_ is last[1] and t._last_X is last[0])
        w.calls = []
        h.check("the components are those of the model", t.components_ == ('words of', model))
    h.same("the caller's data is unchanged", X.words, snaps[0])
    h.same("the caller's data is unchanged", Y.words, snaps[1])


def judge_new(h, call, s, data):
    k = call[2]
    h.check("the model is made for this data", k['data'] is data and not call[1])
    h.eq("number of topics", k['K'], s['n_components'])
    h.eq("topic prior", k['topicPrior'], s['doc_topic_prior'])
    h.eq("word prior", k['vocabPrior'], s['topic_word_prior'])


def bare(h, kind):
    """a bare matrix in place of a data set"""
    w = World(h, kind)
    W = words(h)
    before = h.snap(W)
    t = w.m.TopicModel(kind, n_components=3, iterations=20)
    got = t.fit_transform(W)
    c = w.take('new', 'plan', 'start', 'train', 'plan', 'query', 'topics')
    X = c[0][2]['data']
    h.check("the matrix is wrapped as a data set", type(X) is h.mod(M + 'common').DataSet)
    h.same("with the words given", X.words, before)
    for i, j in ((2, 0), (3, 0), (5, 0)):
        h.check("one data set throughout", c[i][1][j] is X)
    h.check("the topics are returned", got is c[6][3])
    t.fit(W)
    t.transform(W)
    h.same("the caller's data is unchanged", W, before)


def plan_default(h, kind):
    """samplers choose their own burn-in and thinning unless told"""
    w = World(h, kind)
    n = h.int('iterations', 20, 900)
    t = w.m.TopicModel(kind, n_components=3, iterations=n)
    t.fit(h.mod(M + 'common').DataSet(words(h)))
    c = [x for x in w.calls if x[0] == 'plan']
    p, q = c[0][3], w.plan0(iterations=n)
    for f in q._fields:
        if f.startswith(('burn', 'thin')):
            h.eq("the model's own defaults", getattr(p, f), getattr(q, f))
    h.eq("iterations", p.iterations, q.iterations)
    w.calls = []
    t.transform(h.mod(M + 'common').DataSet(words(h, tag='v')))
    p = [x for x in w.calls if x[0] == 'plan'][0][3]
    qn = n // 10
    q = w.plan0(iterations=qn)
    h.eq("a tenth of the iterations for queries", p.iterations, q.iterations)


def parts(h, D, dtype, ctype, top):
    pat = [[1, 1], [1, 0], [0, 1]][:D]
    W = words(h, dtype, pat, hi=top)
    K = 2
    cd = getattr(h.np, ctype)
    phi = h.reals('phi', (K, 2), 0.01, 1, dtype=cd)
    return pat, W, K, phi


def loglik(h, kind, W, y, phi, K, per_doc=True):
    n = h.dense(W)
    D = n.shape[0]
    tot = []
    for d in range(D):
        r = [y[d, k] for k in range(K)] if per_doc else [y[k] for k in range(K)]
        if not kind.startswith('MOM'):
            tot.append(h.sum([n[d, t] * h.log(h.sum([r[k] * phi[k, t] for k in range(K)])) for t in range(2) if W.indptr[d + 1] > W.indptr[d]]))
            continue
        s = [h.log(r[k]) + h.sum([n[d, t] * h.log(phi[k, t]) for t in range(2)]) for k in range(K)]
        m = 0 if h.symbolic else max(s)
        tot.append(m + h.log(h.sum([h.exp(x - m) for x in s])))
    return tot


def score(h, kind, given, method, D, dtype, ctype='float64', asstr=False):
    """scores agree with the definition of the likelihood and perplexity of the model"""
    w = World(h, kind)
    m = w.m
    mix = kind.startswith('MOM')
    pat, W, K, phi = parts(h, D, dtype, ctype, 2 if mix else 9)
    cd = getattr(h.np, ctype)
    y = h.reals('y', (D, K), 0.01, 1, dtype=cd)
    X = h.mod(M + 'common').DataSet(W)
    SM = m.ScoreMethod
    meth = SM[method]
    t = m.TopicModel(kind, n_components=K, iterations=20, default_scoring_method=meth)
    model = t._model_state = w.token('model')
    model.dtype = cd
    w.mod.wordDists = lambda ms: phi if ms is model else None
    qs = w.token('given')
    states = []

    def query(data, ms, q, plan):
        states.append((data, ms, q))
        return ms, qs
    w.mod.query = query
    w.mod.topicDists = lambda q: y if q is qs else None
    if hasattr(w.mod, 'perplexity_from_like'):
        perp0 = w.mod.perplexity_from_like
    else:
        h.fail("the model offers perplexities")
    exp = h.real('expected', -500, -1)

    def expected(data, ms, q):
        h.check("the expectation is of the data, model and state", data is X and ms is model and q is qs)
        return h.array([exp])
    w.mod.log_likelihood_expected = expected
    ev = X
    halves = None
    if meth.is_doc_completion() and given == 'none':
        A, B = [h.mod(M + 'common').DataSet(words(h, dtype, pat, tag=g, hi=2 if mix else 9)) for g in ('a', 'b')]
        halves, ev = (A, B), B

        class DS2(type(X)):
            pass
        X.doc_completion_split = lambda *a, **k: (A, B)
    bw, by, bp = h.snap(W), h.snap(y), h.snap(phi)
    kw = {'none': {}, 'y': {'y': y}, 'state': {'y_query_state': qs}, 'both': {'y': y, 'y_query_state': qs}}[given]
    if asstr:
        kw['method'] = ' ' + meth.value.upper()
    elif D > 1:
        kw['method'] = meth
    try:
        if given == 'y' and kind in ('LDA_CVB0', 'LDA_CVB', 'LDA_VB', 'LDA_VB_PYTHON_IMPL', 'MOM_VB', 'MOM_GIBBS'):
            w.mod.newQueryState = lambda *a: _State(h, kind)
        got = t.score(X, **kw)
    except ValueError:
        h.check("only what cannot be served is refused", given == 'both' or (given == 'y' and (not meth.is_point_estimate() or kind == 'LDA_GIBBS')))
        return
    h.check("what cannot be served is refused", given != 'both' and not (given == 'y' and not meth.is_point_estimate()))
    if given == 'none':
        h.check("the topics are inferred by the fitted model", len(states) == 1 and states[0][0] is (halves[0] if halves else X) and states[0][1] is model)
    else:
        h.check("nothing is inferred", not states)
    ll = h.sum(loglik(h, kind, ev.words, y, phi, K)) if meth.is_point_estimate() else exp
    tol = 1e-4 if 'float32' in (dtype, ctype) else 1e-7
    if meth.is_perplexity():
        n = h.sum(h.flat(h.dense(ev.words)))
        h.eq("perplexity", got, h.exp(-ll / n), tol=tol)
    else:
        h.eq("log-likelihood", got, ll, tol=tol)
    h.same("the words are unchanged", W, bw)
    h.same("the topics are unchanged", y, by)
    h.same("the components are unchanged", phi, bp)
    h.check("scoring never changes the model", t._model_state is model)


class _State:
    def __init__(self, h, kind):
        self.n_dk = self.n_k = None
        if kind not in ('LDA_CVB0', 'LDA_CVB'):
            self.topicDists = None

    def _replace(self, **k):
        return self


def per_document(h, kind, D, dtype, row):
    m = h.mod(M + 'sklearn.lda_cvb')
    pat, W, K, phi = parts(h, D, dtype, 'float64', 2)
    X = h.mod(M + 'common').DataSet(W)
    if row == 'docs':
        y = h.reals('y', (D, K), 0.01, 1)
        v = loglik(h, kind, W, y, phi, K)
    else:
        y1 = h.reals('y', (K,), 0.01, 1)
        y = y1 if row == 'flat' else y1[h.np.newaxis, :]
        v = loglik(h, kind, W, y1, phi, K, False)
    before = h.snap(y), h.snap(phi), h.snap(W)
    got = m.TopicModel._log_likelihood_score_point(m.TopicModelType[kind], X, y, phi)
    if kind.startswith('MOM'):
        h.check("one figure for each document", tuple(got.shape) == (D,))
        for a, b in zip(h.flat(got), v):
            h.eq("log-likelihood of the document", a, b)
    else:
        G = h.dense(got)
        for d in range(D):
            h.eq("log-likelihood of the document", h.sum([G[d, t] for t in range(2)]), v[d])
    for a, b in zip((y, phi, W), before):
        h.same("the arguments are unchanged", a, b)


def lengths(h, kind, D, row):
    """a mixture's scores of documents of very different lengths"""
    m = h.mod(M + 'sklearn.lda_cvb')
    W = h.from_dense([[1, 1]] * D, h.ints('n', D * 2, 1, 3000), dtype=h.np.float64)
    X = h.mod(M + 'common').DataSet(W, None, None, debug=True)
    c = lambda a: h.array(a)
    y = c([[0.25, 0.75]] * D) if row == 'docs' else c([0.25, 0.75])
    phi = c([[0.75, 0.25], [0.125, 0.875]])
    h.finite("the scores", h.no_overflow(lambda: m.TopicModel._log_likelihood_score_point(m.TopicModelType[kind], X, y, phi)))


def wrapped(h, which, method, given, dtype):
    """scores of the wrapped scikit-learn and gensim models"""
    m = h.mod(M + 'sklearn.lda_cvb')
    D = 2
    pat, W, K, _ = parts(h, D, dtype, 'float64', 9)
    comp = h.reals('comp', (K, 2), 0.1, 20)
    y = h.reals('y', (D, K), 0.01, 1, dtype=h.np.float32 if dtype == 'float32' else h.np.float64)
    cls = {'lda': m.WrappedSckitLda, 'hdp': m.WrappedScikitHdp}[which]
    Y = y

    class Fixed(cls):
        components_ = comp

        def __init__(self):
            self.seen = []

        def transform(self, X, y=None, **k):
            self.seen.append(X)
            return Y
    t = Fixed()
    meth = m.ScoreMethod[method]
    t.default_scoring_method = meth
    X = h.mod(M + 'common').DataSet(W)
    ev = X
    if meth.is_doc_completion() and given == 'none':
        A, B = [h.mod(M + 'common').DataSet(words(h, dtype, pat, tag=g)) for g in ('a', 'b')]
        ev = B
        X.doc_completion_split = lambda *a, **k: (A, B)
    kw = {'none': {}, 'y': {'y': y}, 'state': {'y_query_state': 'q'}, 'both': {'y': y, 'y_query_state': 'q'}}[given]
    before = h.snap(W), h.snap(comp), h.snap(y)
    try:
        got = t.score(X, **kw)
    except (ValueError, NotImplementedError):
        h.check("only what cannot be served is refused", given in ('both', 'state') or not meth.is_point_estimate())
        return
    h.check("what cannot be served is refused", given in ('none', 'y') and meth.is_point_estimate())
    if given == 'none':
        h.check("the topics are inferred", len(t.seen) == 1 and t.seen[0] is (X if ev is X else A))
    phi = h.array([[comp[k, v] / h.sum([comp[k, u] for u in range(2)]) for v in range(2)] for k in range(K)])
    ll = h.sum(loglik(h, 'LDA', ev.words, y, phi, K))
    tol = 1e-4 if dtype == 'float32' else 1e-7
    if meth.is_perplexity():
        h.eq("perplexity", got, h.exp(-ll / h.sum(h.flat(h.dense(ev.words)))), tol=tol)
    else:
        h.eq("log-likelihood", got, ll, tol=tol)
    for a, b in zip((W, comp, y), before):
        h.same("the arguments are unchanged", a, b)


def expected_mixture(h, D, given, dtype):
    """log of the Dirichlet-multinomial mixture"""
    m = h.mod(M + 'mom_em')
    K = 2
    pat = [[1, 1], [1, 0]][:D]
    W = words(h, dtype, pat)
    X = h.mod(M + 'common').DataSet(W)
    a, b = h.poss('a', (K,), lo=0.1, hi=5), h.poss('b', (K, 2), lo=0.1, hi=5)
    q = h.reals('q', (D, K), 0.01, 1)
    model = m.ModelState(K, h.array([.5] * K), h.array([.1]), b, a, True, h.np.float64, 'mom')
    qs = m.QueryState(h.array([1.] * D), q, True) if given else None
    before = [h.snap(x) for x in (a, b, q, W)]
    got = m.log_likelihood_expected(X, model, qs)
    n = h.dense(W)
    G = lambda x: h.flat(m.fns.loggamma(h.array([x])))[0] if not h.symbolic else h.flat(m.fns.loggamma(h.array([x])))[0]
    tot = 0
    for d in range(D):
        s = []
        w = [q[d, k] for k in range(K)] if given else [a[k] for k in range(K)]
        for k in range(K):
            bs = h.sum([b[k, t] for t in range(2)])
            x = h.log(w[k]) - h.log(h.sum(w)) + G(bs) - G(bs + h.sum([n[d, t] for t in range(2)]))
            for t in range(2):
                if pat[d][t]:
                    x = x + G(b[k, t] + n[d, t]) - G(b[k, t])
            s.append(x)
        top = 0 if h.symbolic else max(s)
        tot = tot + top + h.log(h.sum([h.exp(x - top) for x in s]))
    h.eq("log-likelihood of the mixture", got, tot)
    for x, y in zip((a, b, q, W), before):
        h.same("the arguments are unchanged", x, y)


def seeds(h):
    m = h.mod(M + 'lda_gibbs')
    got = []
    m.rd = Spy(m.rd, seed=lambda s: got.append(('numpy', s)))
    m.compiled = Spy(m.compiled, initGlobalRng=lambda s: got.append(('compiled', s)))
    s = h.int('seed', 0, 10 ** 6)
    m.seed_rng(s)
    h.check("both generators are seeded", sorted(x[0] for x in got) == ['compiled', 'numpy'])
    for _, x in got:
        h.eq("with the seed given", x, s)


def names(h):
    m = h.mod(M + 'sklearn.lda_cvb')
    for x in m.ScoreMethod:
        h.check("methods by name", m.ScoreMethod.from_str(x.value) is x and m.ScoreMethod.from_str(' %s ' % x.value.upper()) is x)
        h.check("perplexities", x.is_perplexity() == ('perplexity' in x.value))
        h.check("document completion", x.is_doc_completion() == ('doc_completion' in x.value))
        h.check("point estimates", x.is_point_estimate() == ('point' in x.value))
    h.check("unknown methods are refused", h.raises(lambda: m.ScoreMethod.from_str('likelihood'), ValueError) is not None)
    for k, mod in KINDS.items():
        h.check("each kind names its module", m.TopicModelType[k].value is h.mod(M + mod))
        h.check("mixtures", m.TopicModelType[k].is_mixture() == k.startswith('MOM') and m.TopicModelType[k].is_admixture() != k.startswith('MOM'))
    d = {'a': 1, 'b': 2}
    h.check("without", m.dict_without(d, 'a') == {'b': 2} and m.dict_without(d, 'c') == d and d == {'a': 1, 'b': 2})


def cases(tier):
    out = []
    big = tier == 'thorough'

    def add(name, f, **kw):
        opt = {k: kw.pop(k) for k in ('budget', 'timeout', 'branch_timeout', 'max_paths') if k in kw}
        out.append(Case(name, f, kw, **opt))
    for kind in KINDS:
        for op in OPS:
            n = (4 if kind in ('LDA_CVB0', 'LDA_GIBBS') else 3) if big else (3 if kind in ('LDA_CVB0', 'LDA_GIBBS', 'MOM_GIBBS') else 2)
            add('history:%s:%s' % (kind, op), history, kind=kind, first=op, length=n, max_paths=20000)
        add('bare:' + kind, bare, kind=kind)
        add('defaults:' + kind, plan_default, kind=kind)
        for meth in ('LogLikelihoodPoint', 'PerplexityPoint', 'LogLikelihoodBoundOrSampled', 'PerplexityBoundOrSampled', 'DocCompletionLogLikelihoodPoint',
                     'DocCompletionPerplexityPoint'):
            for given in ('none', 'y', 'state', 'both'):
                add('score:%s:%s:%s' % (kind, meth, given), score, kind=kind, given=given, method=meth, D=1, dtype='float64')
        for dt in ('float32', 'int32', 'float64'):
            add('score:%s:%s' % (kind, dt), score, kind=kind, given='none', method='PerplexityPoint', D=2, dtype=dt, ctype='float32' if dt == 'float32' else 'float64')
        add('score:%s:named' % kind, score, kind=kind, given='state', method='LogLikelihoodPoint', D=2, dtype='float64', asstr=True)
    for kind in ('LDA_VB', 'MOM_VB', 'MOM_GIBBS'):
        for row in ('docs',) if kind == 'LDA_VB' else ('docs', 'flat', 'row'):
            for dt in ('float64', 'int32'):
                add('docs:%s:%s:%s' % (kind, row, dt), per_document, kind=kind, D=2, dtype=dt, row=row)
    for kind in ('MOM_VB', 'MOM_GIBBS'):
        for row in ('docs', 'flat'):
            add('docs:lengths:%s:%s' % (kind, row), lengths, kind=kind, D=2, row=row)
    for which in ('lda', 'hdp'):
        for meth in ('LogLikelihoodPoint', 'PerplexityPoint', 'LogLikelihoodBoundOrSampled', 'DocCompletionLogLikelihoodPoint', 'DocCompletionPerplexityPoint'):
            for given in ('none', 'y', 'state', 'both'):
                add('wrapped:%s:%s:%s' % (which, meth, given), wrapped, which=which, method=meth, given=given, dtype='float64')
        for dt in ('float32', 'int32'):
            add('wrapped:%s:%s' % (which, dt), wrapped, which=which, method='PerplexityPoint', given='none', dtype=dt)
    for D in (1, 2):
        for g in (False, True):
            for dt in ('float64', 'int32'):
                add('expected:%d:%s:%s' % (D, g, dt), expected_mixture, D=D, given=g, dtype=dt)
    add('seeds', seeds)
    add('names', names)
    return out
