"""C01 token streams are exactly the bag of words"""
from symx.harness import Case

MODS = ['sidetopics.model.lda_cvb0', 'sidetopics.model.lda_cvb', 'sidetopics.model.lda_gibbs', 'sidetopics.model.dmr']
CVB = ('model/lda_cvb0_fast', 'model/lda_cvb_fast', 'util/se_fast')
BOUNDS = ("matrices of 1 to 4 documents and 2 to 4 words on fixed patterns (empty rows, full rows, unsorted columns), symbolic counts "
          "0..2 (0..3 for the deeper cases), every value of the generator at each draw; all precisions")
ASSUMPTIONS = ["counts are whole numbers", "rand() returns any integer in 0..RAND_MAX at each call"]

P = {'one': [[1, 1]], 'two': [[1, 0, 1], [0, 1, 0]], 'gap': [[1, 1], [0, 0], [0, 1]], 'wide': [[1, 0, 1, 1], [1, 1, 0, 0]],
     'four': [[1, 0], [1, 1], [0, 0], [0, 1]]}


def unsorted(h, pat, data, dtype):
    """rows listed right to left (csr does not promise sorted columns)"""
    ind, ptr, n = [], [0], 0
    for row in pat:
        cols = [j for j, v in enumerate(row) if v][::-1]
        ind += cols
        ptr.append(len(ind))
    return h.csr(data, ind, ptr, (len(pat), len(pat[0])), dtype)


def build(h, pat, hi, dt, backwards):
    n = sum(map(sum, pat))
    c = h.ints('c', n, 0, hi)
    h.assume(h.lt(0, h.sum(h.flat(c))))
    mk = unsorted if backwards else (lambda h, p, d, t: h.from_dense(p, d, dtype=t))
    return mk(h, pat, c, getattr(h.np, dt)), c


def multiset(h, toks, n, want, T, label):
    """toks[:n] holds word t exactly want[t] times, for every t"""
    for t in range(T):
        got = h.sum([h.ite(h.is_eq(toks[i], t), 1, 0) for i in range(n)])
        h.eq("%s: every word as often as counted" % label, got, want[t])
    for i in range(n):
        h.check("%s: every token is a word" % label, h.and_(h.le_(0, toks[i]), h.lt(toks[i], T)))


def cvb(h, which, pat, hi, dt, backwards=False):
    m = h.mod('sidetopics.model.' + which)
    W, c = build(h, P[pat], hi, dt, backwards)
    D, T = W.shape
    before = h.snap(W)
    want = h.snap(h.dense(W))
    toks, lens = m.toWordList(W)
    h.check("one length per document", tuple(lens.shape) == (D,))
    h.check("one row per document", toks.shape[0] == D)
    for d in range(D):
        n = h.sum(h.flat(want[d]))
        h.eq("document lengths are the row totals", lens[d], n)
        k = 0
        while h.truth(h.lt(k, n)):
            k += 1
        h.check("a document's tokens fit its row", k <= toks.shape[1])
        multiset(h, h.flat(toks[d]), k, h.flat(want[d]), T, "list")
    h.same("the matrix itself is unchanged", before, W)


def flat(h, which, pat, hi, backwards=False):
    m = h.mod('sidetopics.model.' + which)
    dt = 'int32' if which == 'lda_gibbs' else 'uint16'
    W, c = build(h, P[pat], hi, dt, backwards)
    D, T = W.shape
    before = h.snap(W)
    want = h.snap(h.dense(W))
    toks, lens = m.compiled.flatten(W)
    h.check("one length per document", tuple(h.np.asarray(lens).shape) == (D,))
    lens = h.flat(lens)
    start = 0
    tot = 0
    for d in range(D):
        n = h.sum(h.flat(want[d]))
        h.eq("document lengths are the row totals", lens[d], n)
        k = 0
        while h.truth(h.lt(k, n)):
            k += 1
        multiset(h, h.flat(toks)[start:start + k], k, h.flat(want[d]), T, "stream")
        start += k
    h.check("the stream is as long as the corpus", tuple(toks.shape) == (start,))
    h.same("the matrix itself is unchanged", before, W)


def state(h, which, pat, hi):
    """what a fresh query state holds"""
    common = h.mod('sidetopics.model.common')
    m = h.mod('sidetopics.model.' + which)
    dt = 'uint16' if which == 'dmr' else 'int32'
    W, c = build(h, P[pat], hi, dt, False)
    D, T = W.shape
    want = h.snap(h.dense(W))
    for d in range(D):
        h.assume(h.lt(0, h.sum(h.flat(want[d]))))
    F = h.from_dense([[1, 1]] * D, h.reals('f', 2 * D)) if which == 'dmr' else None
    ds = common.DataSet(W, F, debug=True)
    K = 3
    model = m.newModelAtRandom(ds, K, dtype=h.np.float64)
    q = m.newQueryState(ds, model)
    lens = h.flat(q.docLens)
    start = 0
    for d in range(D):
        n = h.sum(h.flat(want[d]))
        h.eq("document lengths are the row totals", lens[d], n)
        k = 0
        while h.truth(h.lt(k, n)):
            k += 1
        if which in ('lda_cvb0', 'lda_cvb'):
            toks = h.flat(q.W_list[d])[:k]
        else:
            toks = h.flat(q.w_list)[start:start + k]
            for z in h.flat(q.z_list)[start:start + k]:
                h.check("every starting topic is in range", h.and_(h.le_(0, z), h.lt(z, K)))
        multiset(h, toks, k, h.flat(want[d]), T, "state")
        start += k
    if which not in ('lda_cvb0', 'lda_cvb'):
        h.check("one topic per token", tuple(q.z_list.shape) == (start,))


def large(h, which, T):
    """words at the end of a large vocabulary are kept, or refused"""
    m = h.mod('sidetopics.model.' + which)
    n = h.ints('n', 2, 1, 2)
    W = h.csr(h.array([n[0], n[1]], dtype=h.np.uint16 if which == 'dmr' else h.np.int32), [1, T - 1], [0, 2], (1, T), dtype=h.np.uint16 if which == 'dmr' else h.np.int32)
    if h.raises(lambda: m.compiled.flatten(W), ValueError, AssertionError) is not None:
        h.check("only vocabularies that do not fit are refused", T > 65536)
        return
    toks, lens = m.compiled.flatten(W)
    k = 0
    while h.truth(h.lt(k, n[0] + n[1])):
        k += 1
    toks = h.flat(toks)
    h.check("the stream is as long as the corpus", len(toks) == k)
    for i, w in enumerate((1, T - 1)):
        h.eq("each word as often as it is counted", h.sum([h.ite(h.is_eq(t, w), 1, 0) for t in toks]), n[i])


def topics(h, which):
    """however many topics a model is made for, each can be told from the others in the list of assignments"""
    m = h.mod('sidetopics.model.' + which)
    common = h.mod('sidetopics.model.common')
    dt = h.np.uint16 if which == 'dmr' else h.np.int32
    W = h.csr(h.array([1, 1], dtype=dt), [0, 1], [0, 2], (1, 2), dtype=dt)
    ds = common.DataSet(W, h.from_dense([[1, 1]], h.reals('f', 2)) if which == 'dmr' else None, debug=True)
    K = h.choose('K', [2, 255, 256, 257, 400])
    try:
        model = m.newModelAtRandom(ds, K, dtype=h.np.float64)
    except AssertionError:
        h.check("only numbers of topics that do not fit are refused", K > 255)
        return
    q = m.newQueryState(ds, model)
    h.check("every topic has its own code", K - 1 <= h.np.iinfo(q.z_list.dtype).max)


def cases(tier):
    out = []
    for which, fast in (('lda_gibbs', 'model/lda_gibbs_fast'), ('dmr', 'model/dmr_fast')):
        for T in (65536, 65537):
            out.append(Case('large:%s:%d' % (which, T), large, dict(which=which, T=T), fast=(fast,)))
        out.append(Case('topics:%s' % which, topics, dict(which=which), fast=(fast,)))
    for which in ('lda_cvb0', 'lda_cvb'):
        for dt in ('int32', 'float32', 'float64'):
            for pat, back, hi in (('one', False, 2), ('two', True, 1), ('gap', False, 1)):
                out.append(Case('list:%s:%s:%s' % (which, dt, pat), cvb, dict(which=which, pat=pat, hi=hi, dt=dt, backwards=back), fast=CVB[:2]))
            out.append(Case('list:%s:%s:more' % (which, dt), cvb, dict(which=which, pat='two', hi=2, dt=dt), fast=CVB[:2], tiers=('thorough',)))
            out.append(Case('list:%s:%s:deep' % (which, dt), cvb, dict(which=which, pat='wide', hi=2, dt=dt), fast=CVB[:2], tiers=('thorough',)))
            out.append(Case('list:%s:%s:four' % (which, dt), cvb, dict(which=which, pat='four', hi=2, dt=dt, backwards=True), fast=CVB[:2], tiers=('thorough',)))
    for which, fast in (('lda_gibbs', 'model/lda_gibbs_fast'), ('dmr', 'model/dmr_fast')):
        for pat, back in (('one', False), ('two', True), ('gap', False), ('wide', True)):
            out.append(Case('stream:%s:%s' % (which, pat), flat, dict(which=which, pat=pat, hi=1 if pat == 'wide' else 2, backwards=back), fast=(fast,)))
        out.append(Case('stream:%s:deep' % which, flat, dict(which=which, pat='four', hi=3), fast=(fast,), tiers=('thorough',)))
        out.append(Case('state:%s' % which, state, dict(which=which, pat='two', hi=2), fast=(fast,)))
    for which in ('lda_cvb0', 'lda_cvb'):
        out.append(Case('state:%s' % which, state, dict(which=which, pat='two', hi=1), fast=CVB[:2]))
        out.append(Case('state:%s:more' % which, state, dict(which=which, pat='two', hi=2), fast=CVB[:2], tiers=('thorough',)))
        out.append(Case('list:%s:float64:gap2' % which, cvb, dict(which=which, pat='gap', hi=2, dt='float64'), fast=CVB[:2], tiers=('thorough',)))
    return [c for c in out if tier in c.tiers]
