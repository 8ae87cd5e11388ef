"""shared by the checks of the two collapsed variational models"""
LENS = {'a': ([[0, 1], [1, 0]], [2, 1], 2), 'b': ([[1, 1, 0]], [2], 2), 'c': ([[0, 0, 2], [2, 1, 0], [1, 0, 0]], [3, 2, 1], 3),
        'd': ([[1, 1, 0], [0, 1, 0]], [3, 2], 2), 'e': ([[2, 0]], [2], 3), 'f': ([[0, 0]], [2], 1), 's': ([[0, 1]], [1], 2)}


class St:
    """an arbitrary state satisfying the invariant, on a concrete layout of tokens"""

    def __init__(self, h, lay, K, dt, extra=True, second=False, junk=False):
        toks, lens, T = LENS[lay]
        self.h, self.K, self.T, self.dt = h, K, T, dt
        self.toks, self.lens = toks, lens
        D, N = len(toks), len(toks[0])
        self.D, self.N = D, N
        npt = getattr(h.np, dt)
        self.W_list = h.array(toks, dtype=h.np.int32)
        self.docLens = h.array(lens, dtype=h.np.int32)
        z = h.simplex('z', (sum(lens), K), strict=False, dtype=npt)
        self.z = h.zeros((D, N, K), dtype=npt)
        i = 0
        for d in range(D):
            for n in range(N):
                if n < lens[d]:
                    self.z[d, n, :] = z[i]
                    i += 1
                elif junk:
                    self.z[d, n, :] = h.reals('junk_%d_%d' % (d, n), K, 0, 1, dtype=npt)
        self.mn_kt = h.reals('mn', (K, T), 0, 50, dtype=npt) if extra else h.zeros((K, T), dtype=npt)
        self.mn_k = h.zeros((K,), dtype=npt)
        for k in range(K):
            for t in range(T):
                self.mn_k[k] += self.mn_kt[k, t]
        if second:
            self.mv_kt = h.reals('mv', (K, T), 0, 9, dtype=npt) if extra else h.zeros((K, T), dtype=npt)
            self.mv_k = h.zeros((K,), dtype=npt)
            for k in range(K):
                for t in range(T):
                    self.mv_k[k] += self.mv_kt[k, t]

    def sums(self, z, f=lambda x: x, m_kt=None, m_k=None):
        """document, word and topic sums of f(responsibility), plus the model's"""
        h, K, T = self.h, self.K, self.T
        npt = getattr(h.np, self.dt)
        dk, kt, kk = h.zeros((self.D, K), dtype=npt), h.zeros((K, T), dtype=npt), h.zeros((K,), dtype=npt)
        if m_kt is not None:
            kt[:, :] = m_kt
            kk[:] = m_k
        for d in range(self.D):
            for n in range(self.lens[d]):
                for k in range(K):
                    v = f(z[d, n, k])
                    dk[d, k] += v
                    kt[k, self.toks[d][n]] += v
                    kk[k] += v
        return dk, kt, kk


def distributions(h, st, z, when):
    for d in range(st.D):
        for n in range(st.N):
            if n < st.lens[d]:
                h.ge("responsibilities are non-negative %s" % when, z[d, n], 0)
                h.eq("responsibilities sum to one %s" % when, h.sum(h.flat(z[d, n])), 1)
            else:
                h.eq("nothing past the end of a document %s" % when, z[d, n], h.zeros((st.K,)))


def segments(h, mod, dt, query, old, early, second):
    """training or querying in measured segments, with sweeps that change the counts by any amount: what is returned when all the
    segments are run, and when the convergence test ends them early"""
    from checks.gibbs_common import Spy
    m = h.mod('sidetopics.model.' + mod)
    npt = getattr(h.np, dt)
    D, K, T = 2, 2, 2
    names = ['n_dk', 'n_kt', 'n_k'] + (['v_dk', 'v_kt', 'v_k'] if second else [])
    shape = dict(dk=lambda d: (d, K), kt=lambda d: (K, T), k=lambda d: (K,))
    arr = lambda pre, d: [h.reals(pre + n, shape[n.split('_')[1]](d), 0.1, 9, dtype=npt) for n in names]
    common = h.mod('sidetopics.model.common')
    data = common.DataSet(h.from_dense([[1, 1], [1, 0]], h.array([1, 2, 1], dtype=h.np.int32), dtype=h.np.int32))
    W, lens = h.array([[0, 1, 1], [0, 0, 0]], dtype=h.np.int32), h.array([3, 1], dtype=h.np.int32)
    q = arr('q', D)
    mod_ = arr('m', 3) if old else [None] * len(names)
    q0, m0 = [h.snap(x) for x in q], [None if x is None else h.snap(x) for x in mod_]
    z = h.zeros((D, 3, K), dtype=npt)
    runs, steps, likes = [], [], []

    def iterate(n, Dq, Dt, K_, T_, Wl, dl, *rest):
        cnt, zz = rest[:len(names)], rest[len(names)]
        h.check("as many documents, topics and words as there are", (Dq, K_, T_) == (D, K, T) and (not old or Dt == 3))
        if len(runs) == 0 and old:
            for nm, c, a, b in zip(names, cnt, q0, m0):
                h.eq("the sweeps see the model's counts: " + nm, c, a if nm.endswith('_dk') else a + b)
        runs.append(n)
        dl_ = []
        for nm, c in zip(names, cnt):
            x = h.reals('s%d%s' % (len(runs), nm), shape[nm.split('_')[1]](D), 0.1, 1, dtype=npt)
            c += x
            dl_.append(h.snap(x))
        steps.append(dl_)

    def like(*a, **k):
        likes.append(1)
        return 100.0 if early and len(likes) > 3 else 1000.0 - 50 * len(likes)

    def bound(*a, **k):
        return -1.0
    spy = Spy(m.compiled, **{'iterate_f32' if dt == 'float32' else 'iterate_f64': iterate})
    m.compiled, m.var_bound, m.log_likelihood, m.print = spy, bound, like, lambda *a, **k: None
    m.perplexity_from_like = lambda x, n: x
    if hasattr(m, 'log_likelihood_point'):
        m.log_likelihood_point = like
    prior = h.array([0.5, 0.25], dtype=npt)
    model = m.ModelState(K, prior, 0.1, *mod_, npt, 'x')
    qs = m.QueryState(W, lens, *q, z)
    out, oq, _ = m.train(data, model, qs, m.newTrainPlan(200, logFrequency=20), query=query)
    h.check("stops early only on convergence", (sum(runs) < 200) == early)
    tot = [h.snap(x) for x in q0]
    for s in steps:
        tot = [a + b for a, b in zip(tot, s)]
    for i, nm in enumerate(names):
        add = old and not nm.endswith('_dk')
        got = getattr(oq, nm)
        h.eq("counts returned: " + nm, got, tot[i] + m0[i] if add and not query else tot[i])
        g = getattr(out, nm)
        if query:
            if old:
                h.eq("a query leaves the model's counts: " + nm, g, m0[i])
        elif nm.endswith('_dk'):
            h.eq("the model's rows: those there were, then the new ones: " + nm, g, h.np.vstack((m0[i], tot[i])) if old else tot[i])
        else:
            h.eq("the model's counts are those of all documents: " + nm, g, tot[i] + m0[i] if old else tot[i])
    h.check("priors are kept", out.topicPrior is prior and out.vocabPrior == 0.1)


def segment_cases(Case, mod, second):
    return [Case('segments:%s:%s:%s' % (dt, 'query' if q else 'resume' if o else 'fresh', 'early' if e else 'all'), segments,
                 dict(mod=mod, dt=dt, query=q, old=o, early=e, second=second))
            for dt in ('float64', 'float32') for q, o in ((True, True), (False, True), (False, False)) for e in (False, True)]
