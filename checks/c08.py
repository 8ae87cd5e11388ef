"""C08 copying a model copies everything and shares nothing"""
from symx.harness import Case

D, K, T, F, P = 2, 2, 3, 2, 2
V, KT, DK, KK = (K,), (K, T), (D, K), (K, K)
# array fields of each model's state; every other field gets a distinct scalar
ARR = {
    'lda_cvb0': dict(topicPrior=V, n_dk=DK, n_kt=KT, n_k=V),
    'lda_cvb': dict(topicPrior=V, n_dk=DK, n_kt=KT, n_k=V, v_dk=DK, v_kt=KT, v_k=V),
    'lda_vb_python': dict(topicPrior=V, vocabPrior=(T,), wordDists=KT),
    'lda_vb': dict(topicPrior=V, wordDists=KT),
    'lda_svb': dict(topicPrior=V, wordDists=KT),
    'lda_gibbs': dict(topicPrior=V, vocabPrior=(T,), topicSum=DK, vocabSum=KT),
    'dmr': dict(weights=(K, F), topicPrior=DK, vocabPrior=(T,), n_dk_samples=(2, D, K), topicSum=DK, vocabSum=KT),
    'mom_em': dict(topicPrior=V, vocabPrior=(T,), wordDistParam=KT, corpusTopicDistParam=V),
    'mom_gibbs': dict(topicPrior=V, vocabPrior=(T,), wordDists=KT),
    'rtm': dict(topicPrior=(K + 1,), wordDists=KT, weights=V),
    'self_lda_vb_python': dict(topicPrior=(K + 1,), wordDists=KT),
    'ctm': dict(topicMean=V, sigT=KK, vocab=KT),
    'ctm_bohning': dict(topicMean=V, sigT=KK, vocab=KT, A=KK),
    'ctm_bohning_fast': dict(topicMean=V, sigT=KK, vocab=KT, A=KK),
    'ctm_grad_arb': dict(topicMean=V, sigT=KK, vocab=KT, A=KK),
    'mtm': dict(topicPrior=V, wordDists=KT, topicCov=KK),
    'mtm2': dict(topicMean=V, topicCov=KK, vocab=KT, A=KK),
    'mtm3': dict(topicMean=V, topicCov=KK, vocab=KT, A=KK),
    'stm_yv': dict(A=(P, F), R_A=(F, F), Y=(P, F), R_Y=(F, F), V=(P, K), sigT=KK, vocab=KT),
    'stm_yv_bohning': dict(A=(P, F), R_A=(F, F), Y=(P, F), R_Y=(F, F), V=(P, K), sigT=KK, vocab=KT, Ab=KK),
    'stm_yv_bohning_fake_online': dict(A=(P, F), R_A=(F, F), Y=(P, F), R_Y=(F, F), V=(P, K), sigT=KK, vocab=KT, Ab=KK),
    'stm_uv_vecy_bohning': dict(A=(P, F), R_A=(F, F), Y=(P, F), R_Y=(F, F), V=(P, K), sigT=KK, vocab=KT, Ab=KK),
    'stm_uv_vec_y_bohning': dict(A=KK, U=(D, P), Y=(P, F), V=(P, K), covA=KK, vocab=KT),
}
# which of those may be missing in a model that has not been trained
NONE = {
    'lda_cvb0': ['n_dk', 'n_kt', 'n_k'], 'lda_cvb': ['n_dk', 'n_kt', 'n_k', 'v_dk', 'v_kt', 'v_k'],
    'lda_gibbs': ['topicSum', 'vocabSum'], 'dmr': ['n_dk_samples', 'topicSum', 'vocabSum'], 'rtm': ['weights'],
    'mtm': ['topicCov'],
}
SCALAR = {m: ['topicPrior', 'vocabPrior'] for m in ('lda_cvb0', 'lda_cvb', 'lda_vb_python', 'lda_gibbs', 'mom_em', 'mom_gibbs')}
MODS = ['sidetopics.model.' + m for m in ARR] + ['sidetopics.model.lro_vb', 'sidetopics.model.sim_based_rec']
BOUNDS = ("copies of models of 25 modules with every array field symbolic (2 documents, 2 topics, 3 words, 2 features), trained and untrained, "
          "with vector and scalar priors; later changes: every entry of every array moved by a symbolic amount, in the copy and in the original")


def state(h, mod, missing=(), scalar=(), tag=''):
    m = h.mod('sidetopics.model.' + mod)
    dt = h.np.float64
    vals = {}
    for i, f in enumerate(m.ModelState._fields):
        if f in missing:
            vals[f] = None
        elif f in ARR[mod] and f not in scalar:
            vals[f] = h.reals(tag + f, ARR[mod][f], -50, 50, dtype=dt)
        elif f == 'dtype':
            vals[f] = dt
        elif f == 'name':
            vals[f] = mod
        elif f in ('processed', 'trained'):
            vals[f] = h.choose(tag + f, [False, True])
        elif f in ('K', 'T', 'F', 'P', 'Q', 'numSamples', 'pseudoNegCount'):
            vals[f] = h.int(tag + f, 1, 9)
        else:
            vals[f] = h.pos(tag + f, hi=9)
    return m, m.ModelState(**vals)


def is_arr(v):
    return not isinstance(v, type) and isinstance(getattr(v, 'shape', None), tuple) and bool(v.shape)


def arrays(st):
    return [f for f, v in zip(st._fields, st) if is_arr(v)]


def bump(st, by):
    for f in arrays(st):
        getattr(st, f)[...] += by


def same(h, what, a, b, skip=()):
    for f in a._fields:
        if f not in skip:
            x, y = getattr(a, f), getattr(b, f)
            h.check("%s: %s is there" % (what, f), (x is None) == (y is None))
            if x is None:
                continue
            if f in ('dtype', 'name'):
                h.check("%s: %s" % (what, f), x == y)
            elif is_arr(x):
                h.same("%s: %s" % (what, f), x, y)
            else:
                h.check("%s: %s" % (what, f), h.is_eq(x, y))


def copy(h, mod, missing, scalar):
    m, st = state(h, mod, missing, scalar)
    by = h.pos('by', hi=5)
    keep = h.snap(st)
    c = m.newModelFromExisting(st)
    same(h, "the original", keep, st)
    h.check("the copy is a model state", type(c) is type(st) or type(c)._fields == type(st)._fields)
    same(h, "the copy", keep, c)
    h.check("the copy has every array", arrays(c) == arrays(st))
    bump(c, by)
    same(h, "the original after changes to the copy", keep, st)
    c2 = m.newModelFromExisting(st)
    k2 = h.snap(c2)
    bump(st, by)
    same(h, "the copy after changes to the original", k2, c2)
    same(h, "the first copy is its own", c, c2, [f for f in st._fields if f in arrays(st)])


def nested(h, mod, swap):
    """recommenders that hold a topic model"""
    m = h.mod('sidetopics.model.' + mod)
    lda = m.lda
    name = lda.__name__.split('.')[-1]
    _, im = state(h, name, tag='i_')
    by = h.pos('by', hi=5)
    dt = h.np.float64
    if mod == 'lro_vb':
        st = m.ModelState(im, 2, h.pos('nv', hi=3), h.reals('pv', (2, 2), -9, 9), h.pos('s', hi=3), dt, mod)
    else:
        st = m.ModelState(im, 2, m.TF_IDF, dt, mod)
    keep = h.snap(im)
    if swap:
        _, im2 = state(h, name, tag='j_')
        c = m.newModelFromExisting(st, im2)
        same(h, "the given topic model", h.snap(im2), c.ldaModel)
        return
    pv = h.snap(st.predVar) if mod == 'lro_vb' else None
    c = m.newModelFromExisting(st)
    same(h, "the copied topic model", keep, c.ldaModel)
    for f in st._fields:
        if f not in ('ldaModel', 'predVar'):
            x, y = getattr(st, f), getattr(c, f)
            h.check("the copy's %s" % f, (x == y) if f in ('dtype', 'name', 'method') else h.is_eq(x, y))
    bump(c.ldaModel, by)
    same(h, "the original topic model", keep, st.ldaModel)
    if mod == 'lro_vb':
        h.same("the copied variance", c.predVar, pv)
        c.predVar[...] += by
        h.same("the original variance", st.predVar, pv)


def cases(tier):
    out = []
    for mod in ARR:
        out.append(Case('copy:%s' % mod, copy, dict(mod=mod, missing=(), scalar=())))
        if mod in NONE:
            out.append(Case('copy:%s:untrained' % mod, copy, dict(mod=mod, missing=NONE[mod], scalar=())))
        if mod in SCALAR:
            out.append(Case('copy:%s:scalars' % mod, copy, dict(mod=mod, missing=(), scalar=SCALAR[mod])))
    for mod in ('lro_vb', 'sim_based_rec'):
        for swap in (False, True):
            out.append(Case('nested:%s:%d' % (mod, swap), nested, dict(mod=mod, swap=swap)))
    return out
