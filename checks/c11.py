"""C11 log-likelihood and perplexity equal their definitions and change nothing"""
from symx.harness import Case
from checks.c06 import ACC, ROWS, LAST, MEAN, SOFT

CTM = ('ctm', 'ctm_bohning', 'ctm_bohning_fast', 'ctm_grad_arb', 'stm_yv', 'stm_yv_bohning', 'stm_yv_bohning_fake_online', 'stm_uv_vecy_bohning', 'stm_uv_vec_y_bohning')
TOPIC = ('lda_cvb0', 'lda_cvb', 'lda_vb_python', 'lda_vb', 'lda_svb', 'lda_gibbs', 'dmr', 'rtm', 'mtm', 'mom_gibbs')
MODS = ['sidetopics.model.' + m for m in CTM + TOPIC + ('mom_em', 'evals', 'common')]
BOUNDS = ("corpora of 1..2 documents and 2..3 words with symbolic counts 0..20 (explicitly stored zeros included), arbitrary positive model and query "
          "parameters for 2..3 topics, double (and, where supported, single) precision; log-likelihood functions of 20 model modules; "
          "perplexity of any log-likelihood over any number of words and links; mixtures over documents of 1..3000 occurrences of each word")
ASSUMPTIONS = ["log and exp are uninterpreted with their algebraic laws", "the probability of every stored word is at least 1e-30 (below the smallest normal float the code substitutes that float)"]
PAT = {'one': [[1, 1]], 'two': [[1, 0], [1, 1]], 'gap': [[1, 0, 1], [0, 0, 0]], 'wide': [[1, 0, 1], [0, 1, 1]], 'single': [[1]]}


def corpus(h, pat, dtype, lo=0, links=None, intcount=True):
    dt = getattr(h.np, dtype)
    p = PAT[pat]
    vals = h.ints('n', sum(map(sum, p)), lo, 20, dtype=dt) if intcount else h.reals('n', sum(map(sum, p)), 0, 20, dtype=dt)
    W = h.from_dense(p, vals, dtype=dt)
    L = None
    if links:
        L = h.from_dense(links, h.ints('l', sum(map(sum, links)), 1, 3, dtype=dt), dtype=dt)
    return h.mod('sidetopics.model.common').DataSet(W, None, L, debug=True), h.snap(h.dense(W))


def build(h, mod, D, T, K, dtype, vec=True):
    """a model and a query state with arbitrary parameters, and the distributions over topics and words they stand for"""
    m, dt = h.mod('sidetopics.model.' + mod), getattr(h.np, dtype)
    M = {f: None for f in m.ModelState._fields}
    Q = {f: None for f in m.QueryState._fields}
    M.update(K=K, dtype=dt)
    if mod in CTM:
        theta, phi = h.reals('t', (D, K), -8, 8, dtype=dt), h.simplex('w', (K, T), dtype=dt)
        M['vocab'], Q['means'] = phi, theta
        e = [[h.exp(x) for x in h.flat(theta[d])] for d in range(D)]
        return m, m.ModelState(**M), m.QueryState(**Q), [[x / h.sum(r) for x in r] for r in e], [h.flat(phi[k]) for k in range(K)]

    def norm(rows):
        return [[x / h.sum(r) for x in r] for r in rows]
    if mod in ('lda_cvb0', 'lda_cvb'):
        a = h.poss('a', (K,), hi=9, dtype=dt) if vec else h.pos('a', hi=9)
        b = h.pos('b', hi=9)
        n_dk, n_kt = h.poss('t', (D, K), hi=50, dtype=dt), h.poss('w', (K, T), hi=50, dtype=dt)
        M.update(topicPrior=a, vocabPrior=b, n_kt=n_kt)
        Q.update(n_dk=n_dk)
        at = a if vec else [a] * K
        return (m, m.ModelState(**M), m.QueryState(**Q), norm([[n_dk[d, k] + at[k] for k in range(K)] for d in range(D)]),
                norm([[n_kt[k, t] + b for t in range(T)] for k in range(K)]))
    side, tf, thow = ACC[mod]['topicDists']
    side, wf, whow = ACC[mod]['wordDists'] if 'wordDists' in ACC[mod] else (None, None, None)

    def param(name, shape, how):
        R, C = shape
        if how == ROWS:
            p = h.poss(name, shape, hi=50, dtype=dt)
            return p, norm([h.flat(p[r]) for r in range(R)])
        if how == LAST:
            p = h.poss(name, (R, C + 1), hi=50, dtype=dt)
            return p, norm([h.flat(p[r])[:C] for r in range(R)])
        if how == SOFT:
            p = h.reals(name, shape, -8, 8, dtype=dt)
            return p, norm([[h.exp(x) for x in h.flat(p[r])] for r in range(R)])
        p = h.simplex(name, shape, dtype=dt)
        out = [h.flat(p[r]) for r in range(R)]
        if how == MEAN:
            n = h.int(name + '_n', 1, 20)
            return (p * n, n), out
        return p, out
    t, theta = param('t', (D, K), thow)
    w, phi = param('w', (K, T), whow)
    if thow == MEAN:
        t, Q['numSamples'] = t
        w, M['numSamples'] = w
    Q[tf], M[wf] = t, w
    return m, m.ModelState(**M), m.QueryState(**Q), theta, phi


def definition(h, n, theta, phi):
    D, T = n.shape
    tot = 0
    for d in range(D):
        for t in range(T):
            if h.symbolic or n[d, t] != 0:
                tot = tot + n[d, t] * h.log(h.sum([theta[d][k] * phi[k][t] for k in range(len(phi))]))
    return tot


def likely(h, mod, pat, K=2, dtype='float64', vec=True, override=False, wdtype=None):
    ds, n = corpus(h, pat, wdtype or dtype)
    D, T = n.shape
    m, model, query, theta, phi = build(h, mod, D, T, K, dtype, vec)
    fn = getattr(m, 'log_likelihood_point' if hasattr(m, 'log_likelihood_point') else 'log_likelihood')
    kw = {}
    if override:
        o = h.simplex('o', (D, K))
        kw, theta = {'topicDistOverride': o}, [h.flat(o[d]) for d in range(D)]
    for d in range(D):
        for t in range(T):
            if PAT[pat][d][t]:
                h.assume(h.le_(1e-30, h.sum([theta[d][k] * phi[k][t] for k in range(K)])))
    before = [h.snap(x) for x in (model, query, ds.words)]
    ll = fn(ds, model, query, **kw)
    h.same("the model", model, before[0])
    h.same("the query state", query, before[1])
    h.same("the words", ds.words, before[2])
    h.eq("the sum over word occurrences of the log of the topic-weighted word probability", ll, definition(h, n, theta, phi))
    h.eq("asking again", fn(ds, model, query, **kw), ll)
    h.observe('ll', ll)


def mixture(h, pat, K=2, given=True):
    """log of the sum over clusters"""
    m = h.mod('sidetopics.model.mom_em')
    ds, n = corpus(h, pat, 'float64')
    D, T = n.shape
    w, c = h.poss('w', (K, T), lo=0, hi=50), h.poss('c', (K,), hi=50)
    model = m.ModelState(K, h.poss('a', (K,), hi=9), h.poss('b', (T,), hi=9), w, c, True, h.np.float64, 'x')
    q = h.simplex('q', (D, K))
    for x in h.flat(q) + h.flat(c):
        h.assume(h.le_(1e-6, x))
    query = m.QueryState(h.array([1.0] * D), q, True) if given else None
    before = [h.snap(x) for x in (model, query, ds.words)]
    ll = m.log_likelihood_point(ds, model, query)
    h.same("the model", model, before[0])
    if given:
        h.same("the query state", query, before[1])
    h.same("the words", ds.words, before[2])
    tot = 0
    for d in range(D):
        s = []
        for k in range(K):
            x = h.log(q[d, k] if given else c[k] / h.sum(list(c)))
            for t in range(T):
                x = x + n[d, t] * h.log(w[k, t] / h.sum(list(w[k])))
            s.append(x)
        top = 0
        if not h.symbolic:
            top = max(s)
        tot = tot + top + h.log(h.sum([h.exp(x - top) for x in s]))
    h.eq("the sum over documents of the log of the sum over clusters", ll, tot)
    h.observe('ll', ll)


def lengths(h, which, D, T, given):
    """documents of very different lengths: their likelihoods as mixtures do not vanish"""
    m = h.mod('sidetopics.model.mom_em')
    K = 2
    W = h.from_dense([[1] * T] * D, h.ints('n', D * T, 1, 3000), dtype=h.np.float64)
    data = h.mod('sidetopics.model.common').DataSet(W, None, None, debug=True)
    c = lambda a: h.array([[float(x) for x in r] for r in a])
    model = m.ModelState(K, h.array([1.5, 1.25]), h.array([1.5] * T), c([[3, 1, 2][:T], [1, 4, 1][:T]]), h.array([3.0, 2.0]), True, h.np.float64, 'x')
    query = m.QueryState(h.array([1.0] * D), c([[0.5, 0.5]] * D), True) if given else None
    h.finite("the likelihood of documents of very different lengths", h.no_overflow(lambda: getattr(m, which)(data, model, query)))


def perplexity(h, how):
    e = h.mod('sidetopics.model.evals')
    if how == 'count':
        ll, n = h.real('ll', -500, 0), h.int('n', 1, 500)
        h.eq("the exponential of minus the log-likelihood per word", e.perplexity_from_like(ll, n), h.exp(-ll / n))
        return
    links = [[0, 1], [1, 0]] if 'links' in how else None
    ds, n = corpus(h, 'two', 'float64', 1, links)
    words = h.sum(h.flat(n))
    nl = h.sum(h.flat(h.dense(ds.links))) if links else 0
    h.eq("number of words", ds.word_count, words)
    h.eq("number of words and links", ds.word_and_link_count, words + nl)
    ll = h.real('ll', -500, 0)
    if how.startswith('word'):
        calls = []

        def like(data, model, query):
            calls.append((data is ds, model, query))
            return ll
        got = e.word_perplexity(like, 'M', 'Q', ds)
        h.check("the likelihood of this corpus under this model and query", calls == [(True, 'M', 'Q')])
        h.eq("the exponential of minus the log-likelihood per word", got, h.exp(-ll / words))
    else:
        h.eq("the exponential of minus the log-likelihood per word and link", e.perplexity_from_like(ll, ds), h.exp(-ll / (words + nl)))


def cases(tier):
    out, TH = [], ('thorough',)

    def add(name, fn, th=0, **k):
        out.append(Case(name, fn, k, tiers=TH if th else ('quick',) + TH))
    for mod in TOPIC + CTM:
        for p, K in (('one', 2), ('two', 2), ('gap', 2), ('single', 3), ('wide', 3)):
            add('%s:%s:%d' % (mod, p, K), likely, K == 3 and mod in CTM + ('mtm',) and p == 'wide', mod=mod, pat=p, K=K)
    for mod in ('lda_cvb0', 'lda_cvb', 'lda_gibbs', 'lda_vb', 'dmr', 'lda_svb') + CTM[:3]:
        add('%s:f32' % mod, likely, mod=mod, pat='two', dtype='float32')
    for mod in ('lda_cvb0', 'lda_cvb', 'lda_gibbs', 'dmr'):
        add('%s:int' % mod, likely, mod=mod, pat='two', wdtype='int32')
    for mod in ('lda_cvb0', 'lda_cvb'):
        add('%s:scalar' % mod, likely, mod=mod, pat='two', vec=False)
    for mod in ('lda_vb_python', 'lda_gibbs', 'mom_gibbs'):
        add('%s:override' % mod, likely, mod=mod, pat='two', override=True)
    for p, K in (('one', 2), ('two', 2), ('single', 3), ('gap', 2)):
        for given in (True, False):
            add('mom_em:%s:%d:%s' % (p, K, 'given' if given else 'prior'), mixture, pat=p, K=K, given=given)
    for D, T in ((1, 2), (2, 2)) + (((2, 3), (3, 2)) if tier == 'thorough' else ()):
        for given in (True, False):
            add('lengths:%dx%d:%s' % (D, T, 'given' if given else 'prior'), lengths, which='log_likelihood_point', D=D, T=T, given=given)
    for how in ('count', 'corpus', 'corpus+links', 'word', 'word+links'):
        add('perplexity:%s' % how, perplexity, how=how)
    return [c for c in out if tier in c.tiers]
