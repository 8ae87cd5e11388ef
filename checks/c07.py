"""C07 querying never changes the trained model"""
from symx.harness import Case
from checks import c04, c05

MODS = ['sidetopics.model.' + m for m in ('common', 'lda_cvb0', 'lda_cvb', 'lda_vb_python', 'mom_em', 'mom_gibbs', 'lda_gibbs', 'dmr', 'rtm')]
BOUNDS = ("a trained model with arbitrary symbolic parameters (2 topics, 2 words, 2 training documents), query corpora of 1..2 documents, "
          "1..2 iterations, logging on and off, batch and mini-batch schedules, every outcome of the random draws")
ASSUMPTIONS = ["the Gibbs query cases are those of C04 and C05, where the sampler's counts are compared as well"]


def corpus(h, pat, links=False, dtype='float64'):
    common = h.mod('sidetopics.model.common')
    dt = getattr(h.np, dtype)
    flat = [x for r in pat for x in r if x]
    W = h.from_dense([[1 if x else 0 for x in r] for r in pat], h.array(flat, dtype=dt), dtype=dt)
    L = None
    if links:
        D = len(pat)
        L = h.from_dense([[1 if i != j else 0 for j in range(D)] for i in range(D)], h.array([1.0] * (D * D - D), dtype=dt), dtype=dt)
    return common.DataSet(W, None, L, debug=True)


def keeps(h, m, model, q, ds, plan, label, draws=False, again=True):
    """query twice from the same start"""
    before, words = h.snap(model), h.snap(ds.words)
    q1, q2 = h.snap(q), h.snap(q)
    got = m.query(ds, model, q1, plan)
    h.same("%s: the trained model" % label, model, before)
    h.same("%s: the model returned" % label, got[0], before)
    h.same("%s: the words queried" % label, ds.words, words)
    r1 = h.snap(got[1])
    if not again:
        return r1
    if draws:
        h.rewind_random()
    r2 = m.query(ds, model, q2, plan)[1]
    h.same("%s: the trained model after a second query" % label, model, before)
    for f in r1._fields:
        if f not in ('processed',):
            h.eq("%s: a second query gives the same %s" % (label, f), getattr(r2, f), getattr(r1, f))
    return r1


def cvb(h, mod, pat, iters, log, dt):
    m = h.mod('sidetopics.model.' + mod)
    npt = getattr(h.np, dt)
    K, T, D = 2, len(pat[0]), 2
    h.perm_filter(lambda p: False)
    ds = corpus(h, pat, dtype='int32')
    prior = h.poss('a', (K,), hi=60, dtype=npt)
    b = h.pos('b', hi=2)
    f = dict(n_dk=h.poss('dk', (D, K), hi=50, dtype=npt), n_kt=h.poss('kt', (K, T), hi=50, dtype=npt))
    f['n_k'] = f['n_kt'].sum(axis=1)
    if mod == 'lda_cvb':
        f.update(v_dk=h.poss('vdk', (D, K), hi=9, dtype=npt), v_kt=h.poss('vkt', (K, T), hi=9, dtype=npt))
        f['v_k'] = f['v_kt'].sum(axis=1)
    model = m.ModelState(K=K, topicPrior=prior, vocabPrior=b, dtype=npt, name='x', **f)
    q = m.newQueryState(ds, model)
    keeps(h, m, model, q, ds, m.newTrainPlan(iters, logFrequency=log), 'query')


def vb(h, pat, iters, algor, batch, again):
    m = h.mod('sidetopics.model.lda_vb_python')
    K, T = 2, len(pat[0])
    ds = corpus(h, pat)
    model = m.ModelState(K, h.poss('a', (K,), hi=9), h.pos('b', hi=9), h.poss('w', (K, T), hi=50), True, h.np.float64, 'x')
    q = m.newQueryState(ds, model)
    plan = m.newTrainPlan(iters, logFrequency=0, batchSize=batch, rate_algor=algor)
    keeps(h, m, model, q, ds, plan, 'query', again=again)


def em(h, pat, iters):
    m = h.mod('sidetopics.model.mom_em')
    K, T = 2, len(pat[0])
    ds = corpus(h, pat)
    model = m.ModelState(K, h.poss('a', (K,), hi=9), h.poss('b', (T,), hi=9), h.poss('w', (K, T), hi=50), h.poss('c', (K,), hi=50), True,
                         h.np.float64, 'x')
    q = m.newQueryState(ds, model, False)
    keeps(h, m, model, q, ds, m.newTrainPlan(iters, logFrequency=0), 'query')


def gibbs(h, pat, iters, burn, thin):
    m = h.mod('sidetopics.model.mom_gibbs')
    K, T = 2, len(pat[0])
    ds = corpus(h, pat)
    model = m.ModelState(K, h.poss('a', (K,), hi=9), h.poss('b', (T,), hi=9), h.simplex('w', (K, T)), True, h.np.float64, 'x')
    q = m.newQueryState(ds, model, False)
    keeps(h, m, model, q, ds, m.newTrainPlan(iters, logFrequency=0, burnIn=burn, thinning=thin), 'query', again=False)


def rtm(h, pat, iters):
    m = h.mod('sidetopics.model.rtm')
    K, T = 2, len(pat[0])
    ds = corpus(h, pat, links=True)
    prior = h.poss('a', (K + 1,), hi=9)
    model = m.ModelState(K, prior, h.pos('b', hi=9), h.poss('w', (K, T), hi=50), h.reals('v', (K + 1,), -2, 2), 1, 0.001, h.np.float64, 'x')
    lens = h.array([sum(r) for r in pat], dtype=h.np.float64)
    q = m.QueryState(lens, h.simplex('t', (len(pat), K + 1)) * lens[:, h.np.newaxis] + prior)
    keeps(h, m, model, q, ds, m.newTrainPlan(iters, logFrequency=1), 'query')


ONE, LONE, TWO = [[1, 1]], [[0, 2]], [[1, 0], [0, 1]]


def cases(tier):
    out, T = [], ('thorough',)
    for mod in ('lda_cvb0', 'lda_cvb'):
        for name, pat, it, log, dt, t in (('one', ONE, 1, 0, 'float64', 0), ('two', TWO, 1, 0, 'float64', 0), ('f32', TWO, 1, 0, 'float32', 0),
                                          ('log', LONE, 1, 1, 'float64', 0), ('log2', ONE, 2, 1, 'float64', 1), ('rare', LONE, 1, 5, 'float64', 0),
                                          ('twice', ONE, 2, 0, 'float64', 0), ('twice2', TWO, 2, 0, 'float32', 1)):
            out.append(Case('%s:%s' % (mod, name), cvb, dict(mod=mod, pat=pat, iters=it, log=log, dt=dt), tiers=T if t else ('quick',) + T))
    for name, pat, it, alg, bs, again, t in (('one', ONE, 1, 'batch', 0, True, 0), ('two', TWO, 1, 'batch', 0, True, 0), ('twice', LONE, 2, 'batch', 0, False, 0),
                                             ('kappa', TWO, 1, 'kappa', 1, False, 0), ('variance', LONE, 1, 'variance', 1, False, 0),
                                             ('amari', LONE, 1, 'amari', 1, False, 0), ('batch2', TWO, 1, 'kappa', 2, False, 0), ('none', ONE, 0, 'batch', 0, True, 0)):
        out.append(Case('lda_vb_python:%s' % name, vb, dict(pat=pat, iters=it, algor=alg, batch=bs, again=again), tiers=T if t else ('quick',) + T))
    for name, pat, it in (('one', ONE, 1), ('two', TWO, 1), ('none', LONE, 0), ('twice', LONE, 2)):
        out.append(Case('mom_em:%s' % name, em, dict(pat=pat, iters=it)))
    for name, pat, it, b, th in (('one', ONE, 1, 0, 1), ('twice', LONE, 3, 0, 1), ('thin', LONE, 3, 1, 2)):
        out.append(Case('mom_gibbs:%s' % name, gibbs, dict(pat=pat, iters=it, burn=b, thin=th)))
    for name, pat, it in (('two', TWO, 1), ('more', [[1, 1], [0, 1]], 1)):
        out.append(Case('rtm:%s' % name, rtm, dict(pat=pat, iters=it)))
    for mod, c in (('lda_gibbs', c04), ('dmr', c05)):
        for x in c.cases(tier):
            if x.name.startswith('run:query'):
                x.name = '%s:%s' % (mod, x.name)
                out.append(x)
    return [c for c in out if tier in c.tiers]
