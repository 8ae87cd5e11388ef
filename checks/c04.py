"""C04 Gibbs topic sampler keeps its counts and stays in range"""
from symx.harness import Case
from checks.gibbs_common import St, Spy, RAND_MAX

MODS = ['sidetopics.model.lda_gibbs']
BOUNDS = ("1 to 3 documents (also empty ones) of 0 to 3 tokens, 1 to 3 words, 2 or 3 topics; any starting topics, any positive priors, any "
          "model counts up to 50 per word, any value of the generator at each draw; one sweep from any state (hence any number of "
          "sweeps), thinning over up to 4 sweeps, training and querying with up to 3 sweeps")
ASSUMPTIONS = ["rand() returns any integer in 0..RAND_MAX at each call"]


def priors(h, st, query):
    a = h.poss('a', (st.K,), hi=60)
    b = h.poss('b', (st.T,), hi=2)
    return a, b


def sweep(h, lay, K, query, count=1):
    m = h.mod('sidetopics.model.lda_gibbs')
    st = St(h, lay, K, 'lda', True)
    a, b = priors(h, st, query)
    top, voc = h.zeros((st.D, K)), h.zeros((K, st.T))
    w0, l0, a0, b0 = h.snap(st.w), h.snap(st.docLens), h.snap(a), h.snap(b)
    n = m.compiled.sample(count, count, st.w, st.z, st.docLens, st.ndk, st.nkv, st.nk, top, voc, a, b, query, False)
    st.check(st.z, st.ndk, st.nkv, st.nk, query, "after a sweep")
    h.check("one sample was taken", n == 1)
    for x, y, what in ((w0, st.w, "words"), (l0, st.docLens, "lengths"), (a0, a, "topic prior"), (b0, b, "word prior")):
        h.same("the %s are left alone" % what, x, y)
    asum, bsum = h.sum(h.flat(a)), h.sum(h.flat(b))
    for d in range(st.D):
        for k in range(K):
            h.eq("the sample holds the smoothed topic shares of the last sweep", top[d, k] * (st.lens[d] + asum), st.ndk[d, k] + a[k])
    for k in range(K):
        for v in range(st.T):
            if query:
                h.eq("a query does not sample word distributions", voc[k, v], 0)
            else:
                h.eq("the sample holds the smoothed word shares of the last sweep", voc[k, v] * (st.nk[k] + bsum), st.nkv[k, v] + b[v])


def draw(h, K, query):
    """the topic of a lone token is the one whose interval holds the random number"""
    m = h.mod('sidetopics.model.lda_gibbs')
    st = St(h, 'one', K, 'lda', True)
    a, b = priors(h, st, query)
    q = 1 if query else 0
    w = [(a[k] + st.ndk[0, k] - (1 if k == st.z0[0] else 0)) * (st.nkv[k, 0] + b[0] - (1 - q if k == st.z0[0] else 0))
         / (st.nk[k] + b[0] - (1 - q if k == st.z0[0] else 0)) for k in range(K)]
    m.compiled.sample(1, 2, st.w, st.z, st.docLens, st.ndk, st.nkv, st.nk, h.zeros((1, K)), h.zeros((K, 1)), a, b, query, False)
    r = h.crand(1)
    if r is None:
        return
    k = int(h.flat(st.z)[0])
    tot = h.sum(w)
    h.le("the random number is past the shares of the earlier topics", h.sum(w[:k]) * (RAND_MAX + 1), r * tot + tot)
    h.le("the random number is within the share of the topic", r * tot, h.sum(w[:k + 1]) * (RAND_MAX + 1))


def thinning(h, lay, K, query, count, thin):
    """the sums over retained sweeps, whatever the sums held before"""
    m = h.mod('sidetopics.model.lda_gibbs')
    st = St(h, lay, K, 'lda')
    a, b = priors(h, st, query)
    z, ndk, nkv, nk = h.snap(st.z), h.snap(st.ndk), h.snap(st.nkv), h.snap(st.nk)
    top, voc = h.reals('top', (st.D, K), 0, 9), h.reals('voc', (K, st.T), 0, 9)
    top1, voc1 = h.snap(top), h.snap(voc)
    taken = 0
    for s in range(count):
        keep = (s + 1) % thin == 0
        t, v = (top1, voc1) if keep else (h.zeros((st.D, K)), h.zeros((K, st.T)))
        taken += 1 if keep else 0
        m.compiled.sample(1, 1, st.w, z, st.docLens, ndk, nkv, nk, t, v, a, b, query, False)
    h.rewind_random()
    n = m.compiled.sample(count, thin, st.w, st.z, st.docLens, st.ndk, st.nkv, st.nk, top, voc, a, b, query, False)
    h.check("as many samples as retained sweeps", n == taken)
    h.eq("the topics are those of the last sweep", st.z, z)
    h.eq("the topic sums hold the retained sweeps and nothing else", top, top1)
    h.eq("the word sums hold the retained sweeps and nothing else", voc, voc1)


def stats(h, lay, K):
    m = h.mod('sidetopics.model.lda_gibbs')
    st = St(h, lay, K, 'lda', True)
    ndk, nkv, nk = h.zeros((st.D, K), dtype=st.dkt), h.snap(st.base), h.snap(st.basek)
    m.compiled.sumSuffStats(st.w, st.z, st.docLens, ndk, nkv, nk)
    st.check(st.z, ndk, nkv, nk, False, "counting")
    h.same("counting leaves the topics alone", st.z, h.array(st.z0, dtype=st.z.dtype))


def run(h, K, pat, its, burn, thin, query):
    """training from scratch, then querying"""
    common = h.mod('sidetopics.model.common')
    m = h.mod('sidetopics.model.lda_gibbs')
    W = h.from_dense([[1 if x else 0 for x in r] for r in pat], h.array([x for r in pat for x in r if x], dtype=h.np.int32), dtype=h.np.int32)
    D, T = len(pat), len(pat[0])
    ds = common.DataSet(W, debug=True)
    real = m.compiled
    calls = []

    def sample(count, th, w, z, lens, ndk, nkv, nk, top, voc, a, b, isQuery, debug):
        before = h.snap(nkv), h.snap(nk), h.snap(top), h.snap(voc)
        n = real.sample(count, th, w, z, lens, ndk, nkv, nk, top, voc, a, b, isQuery, debug)
        calls.append((count, th, n, isQuery, before, h.snap(nkv), h.snap(nk), h.snap(ndk)))
        return n
    m.compiled = Spy(real, sample=sample)
    try:
        aw, bw = h.pos('a', hi=60), h.pos('b', hi=2)
        model = m.newModelAtRandom(ds, K, topicPrior=h.array([aw] * K), vocabPrior=h.array([bw] * T), dtype=h.np.float64)
        q = m.newQueryState(ds, model)
        plan = m.TrainPlan(its + burn, burn, thin, 100, False)
        if query:
            S = h.int('S', 1, 3)
            shares = h.simplex('phi', (K, T))
            model = model._replace(vocabSum=shares * S, topicSum=h.zeros((D, K)), numSamples=S, processed=True)
            keep = h.snap(model)
            model2, q = m.query(ds, model, q, plan)
            h.same("the model queried", keep, model)
            h.same("the model returned", keep, model2)
        else:
            model, q, _ = m.train(ds, model, q, plan)
    finally:
        m.compiled = real
    h.eq("burn-in and sampling make all the sweeps of the plan", h.sum([c[0] for c in calls]), its + burn)
    h.check("burn-in retains nothing", calls[0][2] == 0)
    h.check("the retained sweeps are those after burn-in", calls[-1][0] == its and calls[-1][1] == thin and calls[-1][2] == its // thin)
    h.eq("sums start at nought", calls[-1][4][2], h.zeros((D, K)))
    h.check("samples are counted", q.numSamples == its // thin)
    h.check("sums have a row per document", tuple(q.topicSum.shape) == (D, K))
    zs, ws = h.flat(q.z_list), h.flat(q.w_list)
    dk, kv, kk = h.zeros((D, K)), h.zeros((K, T)), h.zeros((K,))
    i = 0
    for d in range(D):
        for _ in range(sum(pat[d])):
            k, v = int(zs[i]), int(ws[i])
            dk[d, k] += 1
            kv[k, v] += 1
            kk[k] += 1
            i += 1
    h.eq("document-topic counts are the histogram of the topics", calls[-1][7], dk)
    if query:
        for c in calls:
            h.eq("the counts queried against do not change", c[4][0], c[5])
            h.eq("the totals queried against do not change", c[4][1], c[6])
    else:
        h.eq("topic-word counts are the histogram of the topics", calls[-1][5], kv)
        h.eq("topic totals are the histogram of the topics", calls[-1][6], kk)
        h.check("the model counts its samples", model.numSamples == its // thin)
        h.eq("the model's sums are those of the documents", model.topicSum, q.topicSum)
    for d in range(D):
        h.eq("a document's summed shares add up to the number of samples", h.sum(h.flat(q.topicSum[d])), its // thin)
    if not query:
        for k in range(K):
            h.eq("a topic's summed shares add up to the number of samples", h.sum(h.flat(model.vocabSum[k])), its // thin)


def cases(tier):
    out = []
    for query in (False, True):
        q = 'query' if query else 'train'
        for lay, K in (('one', 2), ('one', 3), ('two', 2), ('pair', 2), ('same', 2), ('gap', 2), ('last', 2)):
            out.append(Case('sweep:%s:%s:%d' % (q, lay, K), sweep, dict(lay=lay, K=K, query=query)))
        for lay, K in (('mix', 2), ('three', 2), ('pair', 3)):
            out.append(Case('sweep:%s:%s:%d' % (q, lay, K), sweep, dict(lay=lay, K=K, query=query), tiers=('thorough',)))
        for K in (2, 3):
            out.append(Case('draw:%s:%d' % (q, K), draw, dict(K=K, query=query)))
        for lay, c, t in (('one', 2, 1), ('one', 3, 2), ('two', 2, 1), ('gap', 2, 2)):
            out.append(Case('thin:%s:%s:%d:%d' % (q, lay, c, t), thinning, dict(lay=lay, K=2, query=query, count=c, thin=t)))
        for lay, c, t in (('one', 4, 2), ('pair', 2, 1), ('one', 4, 3)):
            out.append(Case('thin:%s:%s:%d:%d' % (q, lay, c, t), thinning, dict(lay=lay, K=2, query=query, count=c, thin=t), tiers=('thorough',)))
        for name, pat, its, burn, thin in (('lone', [[1]], 2, 1, 1), ('lone2', [[0, 1]], 3, 0, 2), ('docs', [[1, 0], [0, 1]], 1, 1, 1)):
            out.append(Case('run:%s:%s' % (q, name), run, dict(K=2, pat=pat, its=its, burn=burn, thin=thin, query=query)))
        for name, pat, its, burn, thin in (('more', [[1, 1]], 2, 1, 1), ('gap', [[1, 0], [0, 0], [0, 1]], 1, 1, 1)):
            out.append(Case('run:%s:%s' % (q, name), run, dict(K=2, pat=pat, its=its, burn=burn, thin=thin, query=query), tiers=('thorough',)))
    for lay, K in (('mix', 2), ('gap', 3), ('three', 2)):
        out.append(Case('stats:%s:%d' % (lay, K), stats, dict(lay=lay, K=K)))
    return [c for c in out if tier in c.tiers]
