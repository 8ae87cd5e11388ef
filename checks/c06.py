"""C06 reported topic and word distributions are distributions, and asking for them changes nothing"""
from symx.harness import Case

# module -> accessor -> (where the numbers are, how they become distributions)
ROWS, LAST, MEAN, SOFT, SAME = 'rows', 'all but the last column', 'averages', 'softmax', 'as they are'
ACC = {
    'lda_cvb0': {'topicDists': ('q', 'n_dk', ROWS), 'wordDists': ('m', 'n_kt', ROWS), 'vocab': ('m', 'n_kt', ROWS)},
    'lda_cvb': {'topicDists': ('q', 'n_dk', ROWS), 'wordDists': ('m', 'n_kt', ROWS), 'vocab': ('m', 'n_kt', ROWS)},
    'lda_vb_python': {'topicDists': ('q', 'topicDists', ROWS), 'wordDists': ('m', 'wordDists', ROWS)},
    'lda_vb': {'topicDists': ('q', 'topicDists', ROWS), 'wordDists': ('m', 'wordDists', ROWS), 'vocab': ('m', 'wordDists', ROWS)},
    'lda_svb': {'topicDists': ('q', 'topicDists', ROWS), 'wordDists': ('m', 'wordDists', ROWS), 'vocab': ('m', 'wordDists', ROWS)},
    'lda_gibbs': {'topicDists': ('q', 'topicSum', MEAN), 'wordDists': ('m', 'vocabSum', MEAN)},
    'dmr': {'topicDists': ('q', 'topicSum', MEAN), 'wordDists': ('m', 'vocabSum', MEAN)},
    'rtm': {'topicDists': ('q', 'topicDists', LAST), 'wordDists': ('m', 'wordDists', ROWS)},
    'self_lda_vb_python': {'topicDists': ('q', 'topicDists', LAST), 'wordDists': ('m', 'wordDists', ROWS)},
    'mom_em': {'wordDists': ('m', 'wordDistParam', ROWS), 'topicDists': ('q', 'topicDists', SAME)},
    'mom_gibbs': {'wordDists': ('m', 'wordDists', ROWS), 'topicDists': ('q', 'topicDists', SAME)},
    'mtm': {'topicDists': ('q', 'topics', SOFT), 'wordDists': ('m', 'wordDists', ROWS)},
    'mtm2': {'topicDists': ('q', 'means', SOFT)},
    'mtm3': {'topicDists': ('q', 'outMeans', SOFT)},
    'ctm_bohning': {'topicDists': ('q', 'means', SOFT)},
    'ctm_bohning_fast': {'topicDists': ('q', 'means', SOFT)},
    'ctm_grad_arb': {'topicDists': ('q', 'means', SOFT)},
    'stm_uv_vec_y_bohning': {'topicDists': ('q', 'means', SOFT)},
}
MODS = ['sidetopics.model.' + m for m in ACC] + ['sidetopics.model.common', 'sidetopics.model.lro_vb']
BOUNDS = ("reporting functions of 18 model modules on arbitrary symbolic parameters, 1..3 documents or topics by 2..3 topics or words "
          "(thorough up to 4x4), double and single precision, softmax parameters up to 5000 in size; plans of the Gibbs sampler with symbolic lengths 1..1200; "
          "new query states of corpora of 1..2 documents")


def near(h, msg, a, b):
    h.eq(msg, a, b)


def report(h, mod, fn, R, C, dt):
    m = h.mod('sidetopics.model.' + mod)
    side, field, how = ACC[mod][fn]
    npt = getattr(h.np, dt)
    cols = C + 1 if how == LAST else C
    n = h.int('n', 1, 20)
    if how in (ROWS, LAST):
        p = h.reals('p', (R, cols), 0, 100, dtype=npt)
        for r in range(R):
            h.assume(h.lt(0, h.sum(h.flat(p[r])[:C])))
    elif how == SOFT:
        p = h.reals('p', (R, cols), -5000, 5000, dtype=npt)
    else:
        p = h.simplex('p', (R, cols), strict=False, dtype=npt)
    shares = h.snap(p)
    if how == MEAN:
        p = p * n
    T = m.QueryState if side == 'q' else m.ModelState
    st = T(**{f: None for f in T._fields})._replace(**{field: p})
    if 'numSamples' in T._fields:
        st = st._replace(numSamples=n)
    if 'K' in T._fields:
        st = st._replace(K=R)
    before = h.snap(p)
    a = h.no_overflow(lambda: getattr(m, fn)(st)) if how == SOFT else getattr(m, fn)(st)
    a1 = h.snap(a)
    h.same("the parameters", p, before)
    b = getattr(m, fn)(st)
    h.same("the parameters after asking twice", p, before)
    h.same("a second answer", b, a1)
    h.check("one row per document or topic", tuple(a.shape) == (R, C))
    for r in range(R):
        row, src = h.flat(a1[r]), h.flat(before[r])[:C]
        h.check("shares are not negative", h.and_(*[h.le_(0, x) for x in row]))
        h.eq("shares sum to one", h.sum(row), 1)
        if how in (ROWS, LAST):
            tot = h.sum(src)
            for x, y in zip(row, src):
                h.eq("shares are proportional to the parameters", x * tot, y)
        elif how == SOFT:
            top = h.max(*src)
            e = [h.exp(y - top) for y in src]
            tot = h.sum(e)
            for x, y in zip(row, e):
                h.eq("shares are proportional to the exponentials of the parameters", x * tot, y)
        else:
            for x, y in zip(row, h.flat(shares[r])):
                h.eq("shares are the parameters" if how == SAME else "shares are the averages over samples", x, y)
    h.observe('out', a1)


def corpus(h, K):
    """the mixture model's distribution over clusters"""
    m = h.mod('sidetopics.model.mom_em')
    p = h.poss('p', (K,), hi=100)
    st = m.ModelState(**{f: None for f in m.ModelState._fields})._replace(corpusTopicDistParam=p, K=K)
    before = h.snap(p)
    a = m.corpusTopicDist(st)
    h.same("the parameters", p, before)
    tot = h.sum(h.flat(p))
    h.eq("cluster shares sum to one", h.sum(h.flat(a)), 1)
    for x, y in zip(h.flat(a), h.flat(p)):
        h.eq("cluster shares are proportional to the parameters", x * tot, y)


def nested(h):
    m = h.mod('sidetopics.model.lro_vb')
    lda = h.mod('sidetopics.model.lda_vb_python')
    p = h.poss('p', (2, 2), hi=100)
    inner = lda.ModelState(2, None, None, p, True, h.np.float64, 'x')
    st = m.ModelState(**{f: None for f in m.ModelState._fields})._replace(ldaModel=inner)
    a = m.wordDists(st)
    for k in range(2):
        h.eq("shares sum to one", h.sum(h.flat(a[k])), 1)
        for t in range(2):
            h.eq("shares are proportional to the topic model's parameters", a[k, t] * h.sum(h.flat(p[k])), p[k, t])


def plan(h, hi):
    """a default plan of the Gibbs sampler retains a sample, so there is something to report"""
    m = h.mod('sidetopics.model.lda_gibbs')
    n = h.int('n', 1, hi)
    p = m.newTrainPlan(n)
    h.check("thinning is positive", h.le_(1, p.thin))
    h.check("sampling is as long as asked for", h.is_eq(p.iterations - p.burnIn, n))
    h.check("at least one sweep is retained", h.le_(p.thin, p.iterations - p.burnIn))
    h.check("burn-in is not negative", h.le_(0, p.burnIn))


def select(h, mod, D, K, idx):
    """reporting the topics of selected documents selects among the reported topics"""
    m = h.mod('sidetopics.model.' + mod)
    p = h.poss('p', (D, K), hi=100)
    lens = h.ints('l', (D,), 1, 50)
    if mod == 'lda_gibbs':
        n = h.int('n', 1, 20)
        q = m.QueryState(None, None, lens, p, n, True)
    else:
        q = m.QueryState(lens, p, True)
    full = h.snap(m.topicDists(q))
    before = h.snap(q)
    sel = m.pruneQueryState(q, h.np.array(idx))
    h.same("the original state", q, before)
    part = m.topicDists(sel)
    h.eq("topics of the selected documents", part, full[idx])
    h.eq("lengths of the selected documents", sel.docLens, lens[idx])
    if mod == 'lda_gibbs':
        h.check("the number of samples stays", h.is_eq(sel.numSamples, n))


def fresh(h, mod, pat, K):
    """a new query state already reports distributions, for a corpus of one document too"""
    common = h.mod('sidetopics.model.common')
    m = h.mod('sidetopics.model.' + mod)
    n = sum(map(sum, pat))
    W = h.from_dense(pat, h.reals('w', n, 1, 9))
    ds = common.DataSet(W, debug=True)
    st = m.ModelState(**{f: None for f in m.ModelState._fields})._replace(
        K=K, topicPrior=h.poss('a', (K,), hi=9), dtype=h.np.float64, name='x')
    before = h.snap(st)
    q = m.newQueryState(ds, st, False)
    h.same("the model", st, before)
    h.check("one length per document", tuple(q.docLens.shape) == (len(pat),))
    for d in range(len(pat)):
        h.eq("document lengths are their word counts", q.docLens[d], h.sum(h.flat(h.dense(W)[d])))
    a = m.topicDists(q)
    h.check("one row per document, one column per topic", tuple(a.shape) == (len(pat), K))
    for d in range(len(pat)):
        row = h.flat(a[d])
        h.check("shares are not negative", h.and_(*[h.le_(0, x) for x in row]))
        h.eq("shares sum to one", h.sum(row), 1)


def cases(tier):
    out = []
    thorough = tier != 'quick'
    for mod, fns in ACC.items():
        for fn in fns:
            for R, C in [(1, 2), (2, 2), (3, 2), (2, 3)] + ([(1, 4), (4, 2), (3, 4), (4, 4)] if thorough else []):
                out.append(Case('report:%s:%s:%dx%d' % (mod, fn, R, C), report, dict(mod=mod, fn=fn, R=R, C=C, dt='float64')))
            if thorough or mod in ('lda_cvb0', 'lda_cvb', 'mtm'):
                out.append(Case('report:%s:%s:f32' % (mod, fn), report, dict(mod=mod, fn=fn, R=2, C=2, dt='float32')))
    for K in (2, 3):
        out.append(Case('corpus:%d' % K, corpus, dict(K=K)))
    out.append(Case('nested', nested))
    out.append(Case('plan', plan, dict(hi=1200)))
    for mod in ('lda_gibbs', 'lda_vb_python'):
        for idx in ([2, 0], [1]):
            out.append(Case('select:%s:%d' % (mod, len(idx)), select, dict(mod=mod, D=3, K=2, idx=idx)))
    for mod in ('lda_vb_python', 'mom_em', 'mom_gibbs'):
        for name, pat in (('one', [[1, 1]]), ('word', [[1]]), ('two', [[1, 0], [1, 1]])):
            out.append(Case('fresh:%s:%s' % (mod, name), fresh, dict(mod=mod, pat=pat, K=2)))
    return out
