"""C05 DMR: the sampler keeps its counts, documents' priors come from their features, weights follow the gradient"""
from symx.harness import Case
from checks.gibbs_common import St, Spy, RAND_MAX

MODS = ['sidetopics.model.dmr']
BOUNDS = ("1 to 3 documents (also empty ones) of 0 to 3 tokens, 1 to 3 words, 2 or 3 topics, 1 or 2 features; any starting topics, any "
          "positive priors per document, any model counts up to 50 per word, any value of the generator at each draw; one sweep from any "
          "state, thinning over up to 4 sweeps, training with up to 4 sweeps and any new weights from the optimiser; objective and "
          "gradient for up to 3 documents in batches of 1 to 3, up to 2 samples, any weights and features")
ASSUMPTIONS = ["rand() returns any integer in 0..RAND_MAX at each call", "the optimiser returns any weights (it is replaced in 'train')",
               "the gradient is compared with the formal derivative of the objective as the code computes it, over the reals"]


def inputs(h, st):
    return h.poss('a', (st.D, st.K), hi=60), h.poss('b', (st.T,), hi=2)


def sweep(h, lay, K, query):
    m = h.mod('sidetopics.model.dmr')
    st = St(h, lay, K, 'dmr', True)
    a, b = inputs(h, st)
    top, voc, slots = h.zeros((st.D, K)), h.zeros((K, st.T)), h.zeros((st.D, K, 2), dtype=h.np.uint16)
    w0, l0, a0, b0 = h.snap(st.w), h.snap(st.docLens), h.snap(a), h.snap(b)
    n = m.compiled.sample(1, 1, st.w, st.z, st.docLens, a, st.ndk, st.nkv, st.nk, slots, top, voc, b, query, False)
    st.check(st.z, st.ndk, st.nkv, st.nk, query, "after a sweep")
    h.check("one sample was taken", n == 1)
    for x, y, what in ((w0, st.w, "words"), (l0, st.docLens, "lengths"), (a0, a, "topic priors"), (b0, b, "word prior")):
        h.same("the %s are left alone" % what, x, y)
    bsum = h.sum(h.flat(b))
    for d in range(st.D):
        for k in range(K):
            h.eq("the sample is stored in the first slot", slots[d, k, 0], st.ndk[d, k])
            h.eq("the next slot is left alone", slots[d, k, 1], 0)
            h.eq("the sample holds the topic shares smoothed by the document's own prior",
                 top[d, k] * (st.lens[d] + h.sum(h.flat(a[d]))), st.ndk[d, k] + a[d, k])
    for k in range(K):
        for v in range(st.T):
            if query:
                h.eq("a query does not sample word distributions", voc[k, v], 0)
            else:
                h.eq("the sample holds the smoothed word shares of the last sweep", voc[k, v] * (st.nk[k] + bsum), st.nkv[k, v] + b[v])


def draw(h, K, query):
    m = h.mod('sidetopics.model.dmr')
    st = St(h, 'one', K, 'dmr', True)
    a, b = inputs(h, st)
    q = 1 if query else 0
    w = [(a[0, k] + st.ndk[0, k] - (1 if k == st.z0[0] else 0)) * (st.nkv[k, 0] + b[0] - (1 - q if k == st.z0[0] else 0))
         / (st.nk[k] + b[0] - (1 - q if k == st.z0[0] else 0)) for k in range(K)]
    m.compiled.sample(1, 2, st.w, st.z, st.docLens, a, st.ndk, st.nkv, st.nk, h.zeros((1, K, 1), dtype=h.np.uint16), h.zeros((1, K)),
                      h.zeros((K, 1)), b, query, False)
    r = h.crand(1)
    if r is None:
        return
    k = int(h.flat(st.z)[0])
    tot = h.sum(w)
    h.le("the random number is past the shares of the earlier topics", h.sum(w[:k]) * (RAND_MAX + 1), r * tot + tot)
    h.le("the random number is within the share of the topic", r * tot, h.sum(w[:k + 1]) * (RAND_MAX + 1))


def thinning(h, lay, K, query, count, thin):
    m = h.mod('sidetopics.model.dmr')
    st = St(h, lay, K, 'dmr')
    a, b = inputs(h, st)
    z, ndk, nkv, nk = h.snap(st.z), h.snap(st.ndk), h.snap(st.nkv), h.snap(st.nk)
    S = count // thin
    top, voc = h.reals('top', (st.D, K), 0, 9), h.reals('voc', (K, st.T), 0, 9)
    top1, voc1, slots1 = h.snap(top), h.snap(voc), h.zeros((st.D, K, S), dtype=h.np.uint16)
    taken = 0
    for s in range(count):
        keep = (s + 1) % thin == 0
        t, v = (top1, voc1) if keep else (h.zeros((st.D, K)), h.zeros((K, st.T)))
        sl = slots1[:, :, taken:taken + 1] if keep else h.zeros((st.D, K, 1), dtype=h.np.uint16)
        taken += 1 if keep else 0
        m.compiled.sample(1, 1, st.w, z, st.docLens, a, ndk, nkv, nk, sl, t, v, b, query, False)
    h.rewind_random()
    slots = h.zeros((st.D, K, S), dtype=h.np.uint16)
    n = m.compiled.sample(count, thin, st.w, st.z, st.docLens, a, st.ndk, st.nkv, st.nk, slots, top, voc, b, query, False)
    h.check("as many samples as retained sweeps", n == taken)
    h.eq("the topics are those of the last sweep", st.z, z)
    h.eq("the slots hold the retained sweeps in order", slots, slots1)
    h.eq("the topic sums hold the retained sweeps and nothing else", top, top1)
    h.eq("the word sums hold the retained sweeps and nothing else", voc, voc1)


def stats(h, lay, K):
    m = h.mod('sidetopics.model.dmr')
    st = St(h, lay, K, 'dmr', True)
    ndk, nkv, nk = h.zeros((st.D, K), dtype=st.dkt), h.snap(st.base), h.snap(st.basek)
    m.compiled.sumSuffStats(st.w, st.z, st.docLens, ndk, nkv, nk)
    st.check(st.z, ndk, nkv, nk, False, "counting")


class Res:
    success, message = True, ''

    def __init__(self, x):
        self.x = x


def prior_of(h, X, w, d, k, F):
    return h.exp(h.sum([X[d][f] * w[k, f] for f in range(F)]))


def run(h, K, pat, F, its, burn, thin, every, query):
    """training with any weights from the optimiser, or querying"""
    common = h.mod('sidetopics.model.common')
    m = h.mod('sidetopics.model.dmr')
    np = h.np
    D, T = len(pat), len(pat[0])
    W = h.from_dense([[1 if x else 0 for x in r] for r in pat], h.array([x for r in pat for x in r if x], dtype=np.uint16), dtype=np.uint16)
    Xv = h.poss('x', (D, F), hi=2)
    X = h.from_dense([[1] * F] * D, h.array(h.flat(Xv), dtype=np.float64), dtype=np.float64)
    ds = common.DataSet(W, feats=X, debug=True)
    real, optim = m.compiled, m.optim
    calls, fits = [], []
    wnow = [None]

    def sample(count, th, w, z, lens, a, ndk, nkv, nk, slots, top, voc, b, isQuery, debug):
        before = h.snap(nkv), h.snap(nk), h.snap(top), h.snap(voc), h.snap(a)
        n = real.sample(count, th, w, z, lens, a, ndk, nkv, nk, slots, top, voc, b, isQuery, debug)
        calls.append((count, th, n, before, h.snap(nkv), h.snap(nk), h.snap(ndk), h.snap(slots)))
        return n

    def minimize(fun, x0, args=(), jac=None, method=None, options=None, **k):
        i = len(fits)
        new = h.reals('w%d' % i, (F,), -2, 2)
        fits.append((len(calls), fun, jac, h.snap(x0), args, new, h.snap(args[3])))
        return Res(new)
    m.compiled, m.optim = Spy(real, sample=sample), Spy(optim, minimize=minimize)
    try:
        bw = h.pos('b', hi=2)
        model = m.newModelAtRandom(ds, K, vocabPrior=h.array([bw] * T), dtype=np.float64)
        w0 = h.reals('w', (K, F), -2, 2)
        model = model._replace(weights=h.snap(w0))
        q = m.newQueryState(ds, model)
        plan = m.TrainPlan(its + burn, burn, thin, every, 100, False)
        if query:
            S = h.int('S', 1, 3)
            model = model._replace(vocabSum=h.simplex('phi', (K, T)) * S, topicSum=h.zeros((D, K)), numSamples=S,
                                   n_dk_samples=h.zeros((D, K, 3), dtype=np.uint16))
            keep = h.snap(model)
            model2, q = m.query(ds, model, q, plan)
            h.same("the model queried", keep, model)
            h.same("the model returned", keep, model2)
        else:
            model, q, _ = m.train(ds, model, q, plan)
    finally:
        m.compiled, m.optim = real, optim
    S = its // thin
    h.eq("burn-in and sampling make all the sweeps of the plan", h.sum([c[0] for c in calls]), its + burn)
    h.check("burn-in retains nothing", calls[0][2] == 0 and calls[0][0] == burn)
    h.check("samples are counted", q.numSamples == h.sum([c[2] for c in calls]))
    # the prior each segment was sampled with
    w, done = h.snap(w0), 0
    for i, c in enumerate(calls):
        while done < len(fits) and fits[done][0] <= i:
            for f in range(F):
                w[done % K, f] = fits[done][5][f]
            done += 1
        for d in range(D):
            for k in range(K):
                h.eq("a document's prior is the exponential of its features' weighted sum", c[3][4][d, k], prior_of(h, Xv, w, d, k, F))
    if not query:
        for f in fits[done:]:
            for j in range(F):
                w[done % K, j] = f[5][j]
            done += 1
        h.eq("the weights returned are those fitted last", model.weights, w)
        h.check("every topic is fitted each time", len(fits) % K == 0)
        slots = []
        for c in calls[1:]:
            for s in range(c[2]):
                slots.append(c[7][:, :, s])
        for n, (at, fun, jac, x0, args, new, used) in enumerate(fits):
            h.check("the weights are fitted to their objective with its gradient", args[0] == n % K and callable(fun) and callable(jac))
            taken = sum(c[2] for c in calls[:at])
            h.check("the weights are fitted to the samples taken so far", args[2] == taken)
        h.check("every sample has its slot", q.numSamples == len(slots) and model.n_dk_samples.shape[2] >= len(slots))
        for s, x in enumerate(slots):
            h.eq("the samples kept are those taken, in order", model.n_dk_samples[:, :, s], x)
        h.check("the model counts its samples", model.numSamples == q.numSamples)
        h.eq("the model's sums are those of the documents", model.topicSum, q.topicSum)
    zs, ws = h.flat(q.z_list), h.flat(q.w_list)
    dk, kv, kk = h.zeros((D, K)), h.zeros((K, T)), h.zeros((K,))
    i = 0
    for d in range(D):
        for _ in range(sum(pat[d])):
            k, v = int(zs[i]), int(ws[i])
            dk[d, k] += 1
            kv[k, v] += 1
            kk[k] += 1
            i += 1
    h.eq("document-topic counts are the histogram of the topics", calls[-1][6], dk)
    if query:
        for c in calls:
            h.eq("the counts queried against do not change", c[3][0], c[4])
            h.eq("the totals queried against do not change", c[3][1], c[5])
    else:
        h.eq("topic-word counts are the histogram of the topics", calls[-1][4], kv)
        h.eq("topic totals are the histogram of the topics", calls[-1][5], kk)
        for k in range(K):
            h.eq("a topic's summed shares add up to the number of samples", h.sum(h.flat(model.vocabSum[k])), q.numSamples)
    for d in range(D):
        h.eq("a document's summed shares add up to the number of samples", h.sum(h.flat(q.topicSum[d])), q.numSamples)


def grad(h, D, K, F, S, used, batch):
    m = h.mod('sidetopics.model.dmr')
    np = h.np
    old = m.BatchSize
    m.BatchSize = batch
    try:
        X = h.from_dense([[1] * F] * D, h.array(h.flat(h.poss('x', (D, F), hi=2)), dtype=np.float64), dtype=np.float64)
        W = h.reals('W', (K, F), -2, 2)
        n = h.ints('n', (D, K, S), 0, 20, dtype=np.uint16)
        k = h.choose('k', list(range(K)))
        wk = h.reals('v', (F,), -2, 2)
        W0, n0, w0 = h.snap(W), h.snap(n), h.snap(wk)
        g = m.gradient(wk, k, W, used, n, X, 0.5)
        h.same("the weights are left alone", W, W0)
        h.same("the samples are left alone", n, n0)
        h.same("the point is left alone", wk, w0)
        h.is_gradient("the gradient is the derivative of the objective", lambda v: m.objective(v, k, W, used, n, X, 0.5), wk, g)
        # batches do not matter
        a = m.objective(wk, k, W, used, n, X, 0.5)
        m.BatchSize = D + 1
        h.eq("the objective does not depend on the size of batches", m.objective(wk, k, W, used, n, X, 0.5), a)
        # nor what samples come after those used
        if S > used:
            n2 = h.snap(n)
            for d in range(D):
                for j in range(K):
                    for s in range(used, S):
                        n2[d, j, s] = 0
            h.eq("samples not taken yet have no effect", m.objective(wk, k, W, used, n2, X, 0.5), a)
        h.same("the weights are left alone by the objective", W, W0)
    finally:
        m.BatchSize = old


def objective(h, D, K, F, S):
    """the negative of the mean log-likelihood of the samples, as far as it depends on the weights, and of the log-prior"""
    m = h.mod('sidetopics.model.dmr')
    np, fns = h.np, m.fns
    X = h.poss('x', (D, F), hi=2)
    Xs = h.from_dense([[1] * F] * D, h.array(h.flat(X), dtype=np.float64), dtype=np.float64)
    n = h.ints('n', (D, K, S), 0, 20, dtype=np.uint16)
    u, v = h.reals('u', (F,), -2, 2), h.reals('v', (F,), -2, 2)
    W = h.reals('W', (K, F), -2, 2)
    k = h.choose('k', list(range(K)))

    def value(w):
        t = 0
        for d in range(D):
            al = [h.exp(h.sum([X[d][f] * (w if j == k else W[j])[f] for f in range(F)])) for j in range(K)]
            tot = h.sum(al)
            t = t + fns.gammaln(tot) - fns.gammaln(al[k])
            for s in range(S):
                t = t + (fns.gammaln(al[k] + n[d, k, s]) - fns.gammaln(tot + h.sum([n[d, j, s] for j in range(K)]))) / S
        return t - h.sum([w[f] * w[f] for f in range(F)]) * 0.5 / 0.5
    old, m.BatchSize = m.BatchSize, 4
    try:
        a, b = m.objective(u, k, W, S, n, Xs, 0.5), m.objective(v, k, W, S, n, Xs, 0.5)
    finally:
        m.BatchSize = old
    h.eq("differences of the objective are those of the log-posterior", a - b, value(v) - value(u))


def cases(tier):
    out = []
    for query in (False, True):
        q = 'query' if query else 'train'
        for lay, K in (('one', 2), ('one', 3), ('two', 2), ('same', 2), ('gap', 2)):
            out.append(Case('sweep:%s:%s:%d' % (q, lay, K), sweep, dict(lay=lay, K=K, query=query)))
        for lay, K in (('mix', 2), ('three', 2), ('pair', 3), ('pair', 2), ('last', 2)):
            out.append(Case('sweep:%s:%s:%d' % (q, lay, K), sweep, dict(lay=lay, K=K, query=query), tiers=('thorough',)))
        for K in (2, 3):
            out.append(Case('draw:%s:%d' % (q, K), draw, dict(K=K, query=query)))
        for lay, c, t, tiers in (('one', 2, 1, None), ('one', 3, 2, None), ('gap', 2, 2, None), ('two', 2, 1, 't'), ('one', 4, 2, 't'),
                                 ('pair', 2, 1, 't'), ('one', 4, 3, 't')):
            out.append(Case('thin:%s:%s:%d:%d' % (q, lay, c, t), thinning, dict(lay=lay, K=2, query=query, count=c, thin=t),
                            tiers=('thorough',) if tiers else ('quick', 'thorough')))
    for name, pat, F, its, burn, thin, every, t in (('lone', [[1]], 1, 2, 1, 1, 1, 0), ('rest', [[1]], 1, 3, 0, 1, 2, 0),
                                                    ('thin', [[1]], 1, 3, 1, 2, 2, 0), ('every', [[0, 1]], 2, 2, 1, 1, 5, 0),
                                                    ('docs', [[1], [1]], 1, 1, 1, 1, 1, 0), ('odd', [[1]], 1, 4, 0, 2, 1, 1),
                                                    ('gap', [[1], [0], [1]], 1, 2, 0, 1, 1, 1)):
        out.append(Case('run:train:%s' % name, run, dict(K=2, pat=pat, F=F, its=its, burn=burn, thin=thin, every=every, query=False),
                        tiers=('thorough',) if t else ('quick', 'thorough')))
    for name, pat, F, its, burn, thin in (('lone', [[1]], 1, 2, 1, 1), ('thin', [[0, 1]], 2, 3, 0, 2)):
        out.append(Case('run:query:%s' % name, run, dict(K=2, pat=pat, F=F, its=its, burn=burn, thin=thin, every=1, query=True)))
    for D, K, F, S, used, batch in ((1, 2, 1, 1, 1, 1), (2, 2, 2, 2, 2, 1), (3, 2, 1, 2, 1, 2), (2, 3, 2, 2, 2, 2), (3, 2, 2, 2, 2, 3)):
        out.append(Case('gradient:%d:%d:%d:%d:%d:%d' % (D, K, F, S, used, batch), grad, dict(D=D, K=K, F=F, S=S, used=used, batch=batch)))
    for D, K, F, S in ((1, 2, 1, 1), (2, 3, 2, 2)):
        out.append(Case('objective:%d:%d:%d:%d' % (D, K, F, S), objective, dict(D=D, K=K, F=F, S=S)))
    for lay, K in (('mix', 2), ('gap', 3), ('three', 2)):
        out.append(Case('stats:%s:%d' % (lay, K), stats, dict(lay=lay, K=K)))
    return [c for c in out if tier in c.tiers]
