"""C03 second-order collapsed variational counts and variances match responsibilities"""
from symx.harness import Case
from checks.cvb_common import St, distributions, segment_cases
from checks.c02 import corpus, whole

MODS = ['sidetopics.model.lda_cvb']
BOUNDS = ("1 to 3 documents of 1 to 3 tokens, 1 to 3 words, 2 or 3 topics, any responsibilities and priors, any model counts up to 50 and "
          "variances up to 9 per word; one sweep from any state satisfying the invariant (hence any number of sweeps), full training, "
          "resuming and querying of 1 to 3 sweeps on a two document corpus")
ASSUMPTIONS = ["the fast exponential is an arbitrary positive function of its argument"]


def var(x):
    return x * (1 - x)


def six(h, label, st, got, z, model=False):
    m = dict(m_kt=st.mn_kt, m_k=st.mn_k) if model else {}
    v = dict(m_kt=st.mv_kt, m_k=st.mv_k) if model else {}
    want = st.sums(z, **m) + st.sums(z, var, **v)
    names = ["document-topic counts", "topic-word counts", "topic totals", "document-topic variances", "topic-word variances", "topic variances"]
    for n, g, w in zip(names, got, want):
        h.eq("%s are the sums%s" % (n, label), g, w)


def counts(h, lay, K, dt):
    m = h.mod('sidetopics.model.lda_cvb')
    st = St(h, lay, K, dt, extra=False, second=True, junk=True)
    z0 = h.snap(st.z)
    got = m.compiled.calculateCounts(st.W_list, st.docLens, st.z, st.T)
    for d in range(st.D):
        for n in range(st.lens[d]):
            h.eq("counting leaves the responsibilities of the tokens", st.z[d, n], z0[d, n])
    distributions(h, st, st.z, "after counting")
    six(h, "", st, got, z0)
    h.observe("v_kt", got[4])


def sweep(h, lay, K, dt, iters=1):
    m = h.mod('sidetopics.model.lda_cvb')
    st = St(h, lay, K, dt, second=True)
    a, b = h.real('a', 0.01, 60), h.real('b', 0.01, 2)
    n = st.sums(st.z, m_kt=st.mn_kt, m_k=st.mn_k)
    v = st.sums(st.z, var, m_kt=st.mv_kt, m_k=st.mv_k)
    f = m.compiled.iterate_f32 if dt == 'float32' else m.compiled.iterate_f64
    W0, L0 = h.snap(st.W_list), h.snap(st.docLens)
    f(iters, st.D, 0, K, st.T, st.W_list, st.docLens, *n, *v, st.z, a, b)
    distributions(h, st, st.z, "after a sweep")
    six(h, " after a sweep", st, n + v, st.z, True)
    for d in range(st.D):
        h.eq("a document's counts sum to its length", h.sum(h.flat(n[0][d])), st.lens[d])
    h.eq("the grand total is the number of tokens", h.sum(h.flat(n[2])), sum(st.lens) + h.sum(h.flat(st.mn_k)))
    h.same("tokens are left alone", W0, st.W_list)
    h.same("lengths are left alone", L0, st.docLens)


def update(h, lay, K, dt):
    """the responsibilities of the first token visited when all variances are nought are the zero-order ones"""
    m = h.mod('sidetopics.model.lda_cvb')
    st = St(h, lay, K, dt)
    a, b = h.real('a', 0.05, 60), h.real('b', 0.05, 2)
    n = st.sums(st.z, m_kt=st.mn_kt, m_k=st.mn_k)
    z0, (dk0, kt0, kk0) = h.snap(st.z), [h.snap(x) for x in n]
    v = [h.zeros(x.shape, dtype=x.dtype) for x in n]
    f = m.compiled.iterate_f32 if dt == 'float32' else m.compiled.iterate_f64
    f(1, st.D, 0, K, st.T, st.W_list, st.docLens, *n, *v, st.z, a, b)
    t = st.toks[0][0]
    w = [(a + dk0[0, k] - z0[0, 0, k]) * (b + kt0[k, t] - z0[0, 0, k]) / (st.T * b + kk0[k] - z0[0, 0, k]) for k in range(K)]
    tot = h.sum(w)
    for k in range(K):
        h.eq("without variances the first token's responsibility is the zero-order one", st.z[0, 0, k] * tot, w[k])


def second(h, lay, K, dt):
    """the responsibilities of the first token visited are those of the second-order formula"""
    m = h.mod('sidetopics.model.lda_cvb')
    st = St(h, lay, K, dt, second=True)
    a, b = h.real('a', 1, 60), h.real('b', 1, 2)
    n = st.sums(st.z, m_kt=st.mn_kt, m_k=st.mn_k)
    v = st.sums(st.z, var, m_kt=st.mv_kt, m_k=st.mv_k)
    z0, (dk0, kt0, kk0), (vdk0, vkt0, vk0) = h.snap(st.z), [h.snap(x) for x in n], [h.snap(x) for x in v]
    f = m.compiled.iterate_f32 if dt == 'float32' else m.compiled.iterate_f64
    f(1, st.D, 0, K, st.T, st.W_list, st.docLens, *n, *v, st.z, a, b)
    t = st.toks[0][0]
    w = []
    for k in range(K):
        t1, t2, t3 = a + dk0[0, k] - z0[0, 0, k], b + kt0[k, t] - z0[0, 0, k], st.T * b + kk0[k] - z0[0, 0, k]
        s = 0 - vdk0[0, k] / (2 * t1 * t1) - vkt0[k, t] / (2 * t2 * t2) + vk0[k] / (2 * t3 * t3)
        w.append(t1 * t2 / t3 * h.ite(h.lt(-75.5, s), h.fast_exp(s), 1e-33))
    tot = h.sum(w)
    for k in range(K):
        h.eq("the first token's responsibility is that of the second-order formula", st.z[0, 0, k] * tot, w[k], tol=0.15)


def variances(h, label, ds_M, K, q, m_kt, m_k):
    M = ds_M
    D, T = len(M), len(M[0])
    z = q.z_dnk
    dk, kt, kk = [[0] * K for _ in range(D)], [[0] * T for _ in range(K)], [0] * K
    for d in range(D):
        for n in range(sum(M[d])):
            t = int(h.flat(q.W_list[d])[n])
            for k in range(K):
                v = z[d, n, k] * (1 - z[d, n, k])
                dk[d][k] = h.sum([dk[d][k], v])
                kt[k][t] = h.sum([kt[k][t], v])
                kk[k] = h.sum([kk[k], v])
    for d in range(D):
        for k in range(K):
            h.eq("%s: document-topic variances are the sums" % label, q.v_dk[d, k], dk[d][k])
    for k in range(K):
        for t in range(T):
            h.eq("%s: topic-word variances are the sums" % label, q.v_kt[k, t], h.sum([kt[k][t], 0 if m_kt is None else m_kt[k, t]]))
        h.eq("%s: topic variances are the sums" % label, q.v_k[k], h.sum([kk[k], 0 if m_k is None else m_k[k]]))


def training(h, K, dt, iters, mode):
    m = h.mod('sidetopics.model.lda_cvb')
    npt = getattr(h.np, dt)
    ds, M = corpus(h, K, dt)
    h.perm_filter(lambda p: False)
    a, b = h.real('a', 0.5, 60), h.real('b', 0.05, 2)
    model = m.newModelAtRandom(ds, K, topicPrior=h.array([a] * K, dtype=npt), vocabPrior=b, dtype=npt)
    q = m.newQueryState(ds, model)
    whole(h, ds, M, K, q, "start", None, None)
    variances(h, "start", M, K, q, None, None)
    model, q, _ = m.train(ds, model, q, m.newTrainPlan(iters, logFrequency=0))
    whole(h, ds, M, K, q, "trained", None, None)
    variances(h, "trained", M, K, q, None, None)
    for f in ('n_dk', 'n_kt', 'n_k', 'v_dk', 'v_kt', 'v_k'):
        h.eq("the model's %s is that of the documents" % f, getattr(model, f), getattr(q, f))
    if mode == 'fresh':
        return
    old = {f: h.snap(getattr(model, f)) for f in ('n_dk', 'n_kt', 'n_k', 'v_dk', 'v_kt', 'v_k')}
    ds2, M2 = corpus(h, K, dt, ((1, 1),))
    q2 = m.newQueryState(ds2, model)
    if mode == 'query':
        _, q2 = m.query(ds2, model, q2, m.newTrainPlan(iters, logFrequency=0))
        whole(h, ds2, M2, K, q2, "queried", None, None)
        variances(h, "queried", M2, K, q2, None, None)
        return
    model2, q2, _ = m.train(ds2, model, q2, m.newTrainPlan(iters, logFrequency=0))
    whole(h, ds2, M2, K, q2, "resumed", old['n_kt'], old['n_k'])
    variances(h, "resumed", M2, K, q2, old['v_kt'], old['v_k'])
    for f in ('n_kt', 'n_k', 'v_kt', 'v_k'):
        h.eq("the resumed model's %s is that of all documents" % f, getattr(model2, f), getattr(q2, f))
    for f in ('n_dk', 'v_dk'):
        h.eq("the resumed model's %s has a row for every document" % f, getattr(model2, f), h.np.vstack((old[f], getattr(q2, f))))


def cases(tier):
    out = []
    for dt in ('float64', 'float32'):
        for lay in 'abcs':
            for K in (2, 3):
                out.append(Case('counts:%s:%s:%d' % (dt, lay, K), counts, dict(lay=lay, K=K, dt=dt)))
        for lay, K in (('s', 2), ('b', 2), ('a', 2), ('e', 3), ('f', 2)):
            out.append(Case('sweep:%s:%s:%d' % (dt, lay, K), sweep, dict(lay=lay, K=K, dt=dt)))
        for lay, K in (('a', 3), ('c', 2), ('d', 2)):
            out.append(Case('sweep:%s:%s:%d' % (dt, lay, K), sweep, dict(lay=lay, K=K, dt=dt), tiers=('thorough',)))
        for lay, K in (('s', 2), ('s', 3)):
            out.append(Case('update:%s:%s:%d' % (dt, lay, K), update, dict(lay=lay, K=K, dt=dt)))
        for lay, K in (('s', 2), ('b', 2), ('e', 3)):
            out.append(Case('second:%s:%s:%d' % (dt, lay, K), second, dict(lay=lay, K=K, dt=dt)))
        for mode in ('fresh', 'query', 'resume'):
            out.append(Case('train:%s:%s' % (dt, mode), training, dict(K=2, dt=dt, iters=1, mode=mode)))
            out.append(Case('train2:%s:%s' % (dt, mode), training, dict(K=2, dt=dt, iters=2, mode=mode), tiers=('thorough',)))
    out += segment_cases(Case, 'lda_cvb', True)
    return [c for c in out if tier in c.tiers]
