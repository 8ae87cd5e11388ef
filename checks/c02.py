"""C02 zero-order collapsed variational counts match responsibilities"""
from symx.harness import Case
from checks.cvb_common import St, LENS, distributions, segment_cases

MODS = ['sidetopics.model.lda_cvb0']
BOUNDS = ("1 to 3 documents of 1 to 3 tokens, 1 to 3 words, 2 or 3 topics, any responsibilities and priors, any model counts up to 50 per "
          "word; one sweep from any state satisfying the invariant (hence any number of sweeps), full training, resuming and querying "
          "of 1 to 3 sweeps on a two document corpus")
ASSUMPTIONS = []


def counts(h, lay, K, dt):
    m = h.mod('sidetopics.model.lda_cvb0')
    st = St(h, lay, K, dt, extra=False, junk=True)
    z0 = h.snap(st.z)
    n_dk, n_kt, n_k = m.compiled.calculateCounts(st.W_list, st.docLens, st.z, st.T)
    for d in range(st.D):
        for n in range(st.lens[d]):
            h.eq("counting leaves the responsibilities of the tokens", st.z[d, n], z0[d, n])
    distributions(h, st, st.z, "after counting")
    dk, kt, kk = st.sums(z0)
    h.eq("document-topic counts are the sums", n_dk, dk)
    h.eq("topic-word counts are the sums", n_kt, kt)
    h.eq("topic totals are the sums", n_k, kk)
    h.observe("n_kt", n_kt)


def sweep(h, lay, K, dt, iters=1):
    m = h.mod('sidetopics.model.lda_cvb0')
    st = St(h, lay, K, dt)
    a, b = h.real('a', 0.01, 60), h.real('b', 0.01, 2)
    dk, kt, kk = st.sums(st.z, m_kt=st.mn_kt, m_k=st.mn_k)
    f = m.compiled.iterate_f32 if dt == 'float32' else m.compiled.iterate_f64
    W0, L0 = h.snap(st.W_list), h.snap(st.docLens)
    f(iters, st.D, 0, K, st.T, st.W_list, st.docLens, dk, kt, kk, st.z, a, b)
    distributions(h, st, st.z, "after a sweep")
    dk1, kt1, kk1 = st.sums(st.z, m_kt=st.mn_kt, m_k=st.mn_k)
    h.eq("document-topic counts are the sums after a sweep", dk, dk1)
    h.eq("topic-word counts are the sums after a sweep", kt, kt1)
    h.eq("topic totals are the sums after a sweep", kk, kk1)
    for d in range(st.D):
        h.eq("a document's counts sum to its length", h.sum(h.flat(dk[d])), st.lens[d])
    h.eq("the grand total is the number of tokens", h.sum(h.flat(kk)), sum(st.lens) + h.sum(h.flat(st.mn_k)))
    h.same("tokens are left alone", W0, st.W_list)
    h.same("lengths are left alone", L0, st.docLens)


def update(h, lay, K, dt):
    """the responsibilities of the first token visited are those of the zero-order formula"""
    m = h.mod('sidetopics.model.lda_cvb0')
    st = St(h, lay, K, dt)
    a, b = h.real('a', 0.01, 60), h.real('b', 0.01, 2)
    dk, kt, kk = st.sums(st.z, m_kt=st.mn_kt, m_k=st.mn_k)
    z0, dk0, kt0, kk0 = h.snap(st.z), h.snap(dk), h.snap(kt), h.snap(kk)
    f = m.compiled.iterate_f32 if dt == 'float32' else m.compiled.iterate_f64
    f(1, st.D, 0, K, st.T, st.W_list, st.docLens, dk, kt, kk, st.z, a, b)
    t = st.toks[0][0]
    w = [(a + dk0[0, k] - z0[0, 0, k]) * (b + kt0[k, t] - z0[0, 0, k]) / (st.T * b + kk0[k] - z0[0, 0, k]) for k in range(K)]
    tot = h.sum(w)
    for k in range(K):
        h.eq("the first token's responsibility is the normalised product of the smoothed counts without it", st.z[0, 0, k] * tot, w[k])


def corpus(h, K, dt, docs=((0, 1), (1,)), name=''):
    common = h.mod('sidetopics.model.common')
    T = 2
    M = [[d.count(t) for t in range(T)] for d in docs]
    ds = common.DataSet(h.from_dense([[1 if x else 0 for x in r] for r in M], h.array([x for r in M for x in r if x], dtype=h.np.int32),
                                     dtype=h.np.int32), debug=True)
    return ds, M


def whole(h, ds, M, K, q, label, m_kt, m_k):
    """the counts of a query state against its own responsibilities"""
    D, T = len(M), len(M[0])
    z = q.z_dnk
    dk, kt, kk = [[0] * K for _ in range(D)], [[0] * T for _ in range(K)], [0] * K
    for d in range(D):
        N = sum(M[d])
        for n in range(z.shape[1]):
            if n >= N:
                h.eq("%s: nothing past the end of a document" % label, z[d, n], h.zeros((K,)))
                continue
            t = int(h.flat(q.W_list[d])[n])
            for k in range(K):
                dk[d][k] = h.sum([dk[d][k], z[d, n, k]])
                kt[k][t] = h.sum([kt[k][t], z[d, n, k]])
                kk[k] = h.sum([kk[k], z[d, n, k]])
        h.eq("%s: a document's counts sum to its length" % label, h.sum(h.flat(q.n_dk[d])), N)
    for d in range(D):
        for k in range(K):
            h.eq("%s: document-topic counts are the sums" % label, q.n_dk[d, k], dk[d][k])
    for k in range(K):
        for t in range(T):
            h.eq("%s: topic-word counts are the sums" % label, q.n_kt[k, t], h.sum([kt[k][t], 0 if m_kt is None else m_kt[k, t]]))
        h.eq("%s: topic totals are the sums" % label, q.n_k[k], h.sum([kk[k], 0 if m_k is None else m_k[k]]))


def training(h, K, dt, iters, mode):
    """a fresh model, then a query or more training on other documents"""
    m = h.mod('sidetopics.model.lda_cvb0')
    npt = getattr(h.np, dt)
    ds, M = corpus(h, K, dt)
    h.perm_filter(lambda p: False)
    a, b = h.real('a', 0.5, 60), h.real('b', 0.05, 2)
    model = m.newModelAtRandom(ds, K, topicPrior=h.array([a] * K, dtype=npt), vocabPrior=b, dtype=npt)
    q = m.newQueryState(ds, model)
    whole(h, ds, M, K, q, "start", None, None)
    model, q, _ = m.train(ds, model, q, m.newTrainPlan(iters, logFrequency=0))
    whole(h, ds, M, K, q, "trained", None, None)
    h.eq("the model's topic-word counts are those of the documents", model.n_kt, q.n_kt)
    h.eq("the model's topic totals are those of the documents", model.n_k, q.n_k)
    h.eq("the model's document-topic counts are those of the documents", model.n_dk, q.n_dk)
    if mode == 'fresh':
        return
    kt, k1, dk = h.snap(model.n_kt), h.snap(model.n_k), h.snap(model.n_dk)
    ds2, M2 = corpus(h, K, dt, ((1, 1),))
    q2 = m.newQueryState(ds2, model)
    if mode == 'query':
        _, q2 = m.query(ds2, model, q2, m.newTrainPlan(iters, logFrequency=0))
        whole(h, ds2, M2, K, q2, "queried", None, None)
        return
    model2, q2, _ = m.train(ds2, model, q2, m.newTrainPlan(iters, logFrequency=0))
    whole(h, ds2, M2, K, q2, "resumed", kt, k1)
    h.eq("the resumed model's topic-word counts are those of all documents", model2.n_kt, q2.n_kt)
    h.eq("the resumed model's topic totals are those of all documents", model2.n_k, q2.n_k)
    h.eq("the resumed model has a row for every document", model2.n_dk, h.np.vstack((dk, q2.n_dk)))


def cases(tier):
    out = []
    for dt in ('float64', 'float32'):
        for lay in 'abcs':
            for K in (2, 3):
                out.append(Case('counts:%s:%s:%d' % (dt, lay, K), counts, dict(lay=lay, K=K, dt=dt)))
        for lay, K in (('s', 2), ('b', 2), ('a', 2), ('e', 3), ('f', 2)):
            out.append(Case('sweep:%s:%s:%d' % (dt, lay, K), sweep, dict(lay=lay, K=K, dt=dt)))
        for lay, K in (('a', 3), ('c', 2), ('d', 2)):
            out.append(Case('sweep:%s:%s:%d' % (dt, lay, K), sweep, dict(lay=lay, K=K, dt=dt), tiers=('thorough',)))
        for lay, K in (('s', 2), ('s', 3), ('b', 2)):
            out.append(Case('update:%s:%s:%d' % (dt, lay, K), update, dict(lay=lay, K=K, dt=dt)))
        for mode in ('fresh', 'query', 'resume'):
            out.append(Case('train:%s:%s' % (dt, mode), training, dict(K=2, dt=dt, iters=1, mode=mode)))
            out.append(Case('train2:%s:%s' % (dt, mode), training, dict(K=2, dt=dt, iters=2, mode=mode)))
            out.append(Case('train3:%s:%s' % (dt, mode), training, dict(K=3, dt=dt, iters=3, mode=mode), tiers=('thorough',)))
    out += segment_cases(Case, 'lda_cvb0', False)
    return [c for c in out if tier in c.tiers]
