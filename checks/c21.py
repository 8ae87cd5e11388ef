"""C21 training runs the iterations asked for and stops only on convergence"""
from symx.harness import Case
from checks.gibbs_common import Spy

M = 'sidetopics.model.'
MODS = [M + m for m in ('lda_cvb0', 'lda_cvb', 'lda_vb', 'rtm', 'mom_em', 'mom_gibbs', 'lda_vb_python', 'lda_gibbs', 'dmr', 'evals')] + ['sidetopics.util.misc']
BOUNDS = ("iterations, log frequency, burn-in and thinning symbolic: up to 200 iterations in up to 5 segments for the models that train in segments, up to 5 "
          "iterations for those that loop; every bound and likelihood symbolic, so that the convergence test fires at any of its points or not at all; "
          "bound histories of up to 4 measurements for the convergence helper")
ASSUMPTIONS = ["the updates, bounds and likelihoods are replaced by stand-ins that record the call (they are checked by other properties)"]


class Missing(Exception):
    pass


def patch(h, m, **k):
    for n, f in k.items():
        if not hasattr(m, n):
            raise Missing(n)
        setattr(m, n, f)


class Log:
    """what a training run did"""

    def __init__(self, h):
        self.h, self.sweeps, self.segs, self.at, self.bnd, self.lik = h, 0, [], [], [], []

    def iterate(self, n, *a):
        self.segs.append(n)
        self.sweeps = self.sweeps + n
        return n

    def bound(self, *a, **k):
        v = self.h.real('bnd%d' % len(self.bnd), -1000, -1)
        self.bnd.append(v)
        self.at.append(self.sweeps)
        return v

    def like(self, *a, **k):
        v = self.h.real('lik%d' % len(self.lik), -20, -1)
        self.lik.append(v)
        return v


def corpus(h, lens=(3,)):
    from_dense = h.from_dense([[1] for _ in lens], h.array(list(lens), dtype=h.np.int32), dtype=h.np.int32)
    return h.mod(M + 'common').DataSet(from_dense)


def records(h, log, iters, bnds, likes, iterations):
    it, b, l = h.flat(iters), h.flat(bnds), h.flat(likes)
    h.check("equally many iterations, bounds and likelihoods", len(it) == len(b) == len(l))
    for x, y in zip(it, it[1:]):
        h.check("iteration numbers increase", h.lt(x, y))
    for x in it:
        h.check("iteration numbers lie within the run", h.and_(h.le_(0, x), h.lt(x, iterations)))
    h.check("one record per measurement", len(b) == len(log.bnd) and len(l) == len(log.lik))
    for x, y in zip(b, log.bnd):
        h.eq("recorded bounds", x, y)
    for x, y in zip(l, log.lik):
        h.eq("recorded likelihoods", x, y)
    return it


def plan_ints(h, hi, segs, zero):
    n = h.int('iterations', 1, hi)
    if zero:
        return n, 0
    f = h.int('logFrequency', 1, hi)
    h.assume(h.lt(n, f * (segs + 1)))
    return n, f


def segmented(h, mod, dtype, zero, query, hi=200, segs=5):
    """models that iterate in compiled code, a segment at a time"""
    m = h.mod(M + mod)
    np = h.np
    dt = getattr(np, dtype)
    log = Log(h)
    name, other = ('iterate_f32', 'iterate_f64') if dtype == 'float32' else ('iterate_f64', 'iterate_f32')

    def wrong(*a):
        h.fail("the iterations of the wrong precision were run")
    patch(h, m, compiled=Spy(m.compiled, **{name: log.iterate, other: wrong}))
    if mod == 'lda_vb':
        patch(h, m, var_bound=log.bound, log_likelihood=log.like)
    else:
        patch(h, m, var_bound_intermediate=log.bound, log_likely_intermediate=log.like)
    data = corpus(h)
    n, f = plan_ints(h, hi, segs, zero)
    prior = h.array([0.5], dtype=dt)
    one = [h.array([[3.]], dtype=dt), h.array([[3.]], dtype=dt), h.array([3.], dtype=dt)]
    eps = h.choose('epsilon', [2, 10])
    plan = m.TrainPlan(n, eps, f, False, False)
    W = h.array([0, 0, 0], dtype=np.int32)
    lens = h.array([3], dtype=np.int32)
    z = h.zeros((1, 3, 1), dtype=dt)
    if mod == 'lda_vb':
        model = m.ModelState(1, prior, 0.1, one[1], dt, mod)
        qs = m.QueryState(W, lens, one[0])
        _, _, (it, b, l) = m.train(data, model, qs, plan)
    else:
        q3 = [h.snap(x) for x in one]
        none = [h.snap(x) for x in one] if query else [None] * 3
        if mod == 'lda_cvb0':
            model = m.ModelState(1, prior, 0.1, *none, dt, mod)
            qs = m.QueryState(W, lens, *q3, z)
        else:
            v3 = [h.snap(x) for x in one]
            nv = [h.snap(x) for x in one] if query else [None] * 3
            model = m.ModelState(1, prior, 0.1, *none, *nv, dt, mod)
            qs = m.QueryState(W, lens, *q3, *v3, z)
        _, _, (it, b, l) = m.train(data, model, qs, plan, query=query)
    it = records(h, log, it, b, l, n)
    h.check("at least one measurement", len(it) >= 1)
    for x in log.segs:
        h.check("no negative number of iterations", h.le_(0, x))
    h.check("measured after the sweeps of each segment", len(log.at) == len(log.segs))
    t = 0
    for a, x in zip(log.at, log.segs):
        t = t + x
        h.eq("measured after the sweeps of each segment", a, t)

    def fires(i):
        """the stated test, after the i-th measurement"""
        if mod == 'lda_vb':
            if i < 1:
                return False
            if not h.truth(h.le_(20, it[i])):
                return False
            slope = (log.bnd[i] - log.bnd[i - 1]) / (it[i] - it[i - 1])
            return h.truth(h.lt(np.degrees(np.arctan(slope)), eps))
        if i < 2 or not h.truth(h.lt({'lda_cvb0': 50, 'lda_cvb': 30}[mod], it[i])):
            return False
        return h.truth(h.lt(h.exp(-log.lik[i - 1] / 3) - h.exp(-log.lik[i] / 3), 1))
    stopped = not h.truth(h.is_eq(log.sweeps, n))
    if stopped:
        h.check("no more iterations than asked for", h.lt(log.sweeps, n))
        h.check("stops early only when the convergence test fires", fires(len(it) - 1))
    else:
        h.eq("the last record is of the last iteration", it[-1], n - 1)
    for i in range(len(it) - 1):
        h.check("does not carry on once the convergence test has fired", not fires(i))
        h.eq("measured at every multiple of the log frequency", log.segs[i], f)


def rtm(h, hi, freq, vocab, debug=False):
    m = h.mod(M + 'rtm')
    np = h.np
    log = Log(h)
    D = 2
    seen = []

    def update(d, *a, **k):
        seen.append(int(d))
        if len(seen) % D == 0:
            log.sweeps += 1
        return [0], h.array([[1.]])
    hyper = []
    patch(h, m, _update_topics_at_d=update, _infer_weights=lambda *a, **k: None, _var_bound_internal=log.bound,
          _log_likelihood_internal=log.like, _updateTopicHyperParamsFromMeans=lambda *a, **k: hyper.append(log.sweeps),
          printAndFlushNoNewLine=lambda *a: None)
    from_dense = h.from_dense([[1], [1]], h.array([3, 2], dtype=np.int32), dtype=np.int32)
    data = h.mod(M + 'common').DataSet(from_dense, links=h.from_dense([[0, 1], [1, 0]], h.array([1, 1], dtype=np.int32), dtype=np.int32))
    n = h.choose('iterations', list(range(hi + 1)))
    f = h.choose('logFrequency', freq)
    model = m.ModelState(1, h.array([0.5, 0.5]), 0.1, h.array([[3.]]), h.array([1.]), 1, 0.1, np.float64, 'rtm')
    q = m.QueryState(h.array([3, 2], dtype=np.int32), h.array([[3.5, 0.], [2.5, 0.]]))
    plan = m.TrainPlan(n, 1, f, False, debug)
    _, _, (it, b, l) = m.train(data, model, q, plan, updateVocab=vocab)
    h.check("each sweep visits every document once", seen == list(range(D)) * (len(seen) // D))
    it = records(h, log, it, b, l, n)

    def fires(i):
        if i < 1 or not h.truth(h.le_(5, it[i])):
            return False
        return h.truth(h.lt(np.degrees(np.arctan((log.bnd[i] - log.bnd[i - 1]) / (it[i] - it[i - 1]))), 10))
    if log.sweeps != n:
        h.check("no more sweeps than asked for", log.sweeps < n)
        h.check("stops early only when the convergence test fires", len(it) > 0 and fires(len(it) - 1))
        h.check("and does so at once", int(it[-1]) == log.sweeps - 1)
    for i in range(len(it)):
        if int(it[i]) == log.sweeps - 1:
            break
        h.check("does not carry on once the convergence test has fired", not fires(i))
    want = [i for i in range(log.sweeps) if f and i % f == 0] if vocab else []
    h.check("measured at every multiple of the log frequency", [int(x) for x in it] == want)


def mom_em(h, hi, tol, debug):
    m = h.mod(M + 'mom_em')
    np = h.np
    log = Log(h)
    calls = []
    real = m.fns.digamma

    def digamma(x, out=None):
        calls.append(1)
        r = h.zeros(x.shape) if hasattr(x, 'shape') and x.shape else 0.
        if out is not None:
            out[...] = r
            return out
        return r
    patch(h, m, fns=Spy(m.fns, digamma=digamma), var_bound=log.bound, log_likelihood_point=log.like, CHANGE_TOLERANCE=tol)
    data = corpus(h)
    n = h.choose('iterations', list(range(hi + 1)))
    f = h.choose('logFrequency', [0, 1, 2, 3])
    model = m.ModelState(2, h.array([0.5, 0.5]), h.array([0.1]), h.array([[3.], [2.]]), h.array([1., 1.]), True, np.float64, 'mom_em')
    q = m.QueryState(h.array([3], dtype=np.int32), h.array([[0.3, 0.7]]), True)
    _, _, (it, b, l) = m.train(data, model, q, m.TrainPlan(n, 1, f, False, debug))
    it = records(h, log, it, b, l, n)
    per = 4                      # digamma evaluations of an iteration that goes through
    sweeps = (len(calls) - 4) / per
    if tol < 0:
        h.check("as many sweeps as asked for", sweeps == n)
        want = [i for i in range(n) if debug or (f and i % f == 0)]
    else:
        h.check("stops when the topics do not change", sweeps == 0)
        want = []
    h.check("measured at every multiple of the log frequency", [int(x) for x in it] == want)


def mom_gibbs(h, hi, debug):
    m = h.mod(M + 'mom_gibbs')
    np = h.np
    log = Log(h)
    order = []

    def members(W, topicPrior, wordDists, topicDists, *a, **k):
        order.append('z')
        return topicDists

    def dirichlet(W, vocabPrior, topicDists, wordDists, *a, **k):
        order.append('w')
        log.sweeps += 1
        return wordDists
    patch(h, m, sample_memberships=members, sample_dirichlet=dirichlet, var_bound=log.bound, log_likelihood_point=log.like)
    data = corpus(h)
    n = h.choose('iterations', list(range(hi + 1)))
    burn = h.choose('burnIn', [0, 1, 2])
    f = h.choose('logFrequency', [0, 1, 2])
    model = m.ModelState(2, h.array([0.5, 0.5]), h.array([0.1]), h.array([[.5], [.5]]), True, np.float64, 'mom_gibbs')
    q = m.QueryState(h.array([3], dtype=np.int32), h.array([[0.3, 0.7]]), True)
    _, _, (it, b, l) = m.train(data, model, q, m.TrainPlan(n, 1, f, False, debug, burn, 1))
    h.check("burn-in and iterations are both run", log.sweeps == n + burn)
    h.check("topics and words are drawn in turn", order == ['z', 'w'] * log.sweeps)
    it = records(h, log, it, b, l, n + burn)
    h.check("measured at every multiple of the log frequency",
            [int(x) for x in it] == [i for i in range(n + burn) if debug or (f and i % f == 0)])


def batch(h, hi, vocab, debug):
    m = h.mod(M + 'lda_vb_python')
    np = h.np
    seen = []

    def update(d, *a, **k):
        seen.append(int(d))
        return [0], h.array([[1.]])
    patch(h, m, _update_topics_at_d=update)
    data = corpus(h, (3, 2, 4))
    n = h.choose('iterations', list(range(hi + 1)))
    model = m.ModelState(1, h.array([0.5]), 0.1, h.array([[3.]]), True, np.float64, 'lda_vb_python')
    q = m.QueryState(h.array([3, 2, 4], dtype=np.int32), h.array([[3.5], [2.5], [4.5]]), True)
    plan = m.TrainPlan(n, 1, 1, False, debug, 1, 1, 0.5, 1, 1, m.RateAlgorBatch)
    _, _, (it, b, l) = m.train(data, model, q, plan, updateVocab=vocab)
    h.check("every sweep visits every document once, in order", seen == [0, 1, 2] * n)
    h.check("equally many iterations, bounds and likelihoods", len(it) == len(b) == len(l))


def gibbs(h, mod, symbolic):
    """burn-in sweeps that keep nothing, then the rest"""
    m = h.mod(M + mod)
    np = h.np
    calls = []

    def sample(n, thin, *a):
        calls.append((n, thin))
        return 0
    stub = {'sample': sample, 'sumSuffStats': lambda *a: None}
    if mod == 'dmr':
        stub['initGlobalRng'] = lambda *a: None
        if hasattr(m, 'updateWeights'):
            patch(h, m, updateWeights=lambda *a, **k: None)
    patch(h, m, compiled=Spy(m.compiled, **stub))
    if mod == 'lda_gibbs':
        n, burn, thin = h.int('iterations', 1, 500), h.int('burnIn', 0, 400), h.int('thin', 1, 50)
        h.assume(h.le_(burn, n))
        every = None
    else:
        n, burn, thin = h.choose('iterations', [1, 4, 7]), h.choose('burnIn', [0, 1, 4]), h.choose('thin', [1, 2, 3])
        if burn > n:
            return
        every = h.choose('weightUpdateInterval', [1, 2, 3, 10])
    data = corpus(h)
    w = h.array([0, 0, 0], dtype=np.uint16)
    z = h.array([0, 0, 0], dtype=np.uint8)
    lens = h.array([3], dtype=np.int32)
    if mod == 'lda_gibbs':
        model = m.ModelState(1, 1, h.array([0.5]), h.array([0.1]), None, None, 0, False, np.float64, mod)
        q = m.QueryState(w, z, lens, None, 0, False)
        m.train(data, model, q, m.TrainPlan(n, burn, thin, 1, False))
    else:
        from_dense = h.from_dense([[1]], h.array([3], dtype=np.int32), dtype=np.int32)
        data = h.mod(M + 'common').DataSet(from_dense, feats=h.from_dense([[1]], h.array([1.]), dtype=np.float64))
        model = m.ModelState(1, 1, h.array([[0.1]]), h.array([[0.5]]), h.array([0.1]), None, None, None, 0, np.float64, mod)
        q = m.QueryState(w, z, lens, None, 0)
        m.train(data, model, q, m.TrainPlan(n, burn, thin, every, 1, False))
    h.check("burn-in comes first", len(calls) >= 1)
    h.eq("sweeps of the burn-in", calls[0][0], burn)
    h.check("the burn-in keeps no sample", h.lt(calls[0][0], calls[0][1]))
    t = 0
    for c, th in calls[1:]:
        t = t + c
        h.eq("samples are thinned as asked", th, thin)
        h.check("no negative number of sweeps", h.le_(0, c))
        if every:
            h.check("weights are updated as often as asked", h.le_(c, every))
    h.eq("as many sweeps as asked for", t + burn, n)


def helper(h, k, array):
    """converged(): the angle between the last two bounds is below the threshold"""
    m = h.mod('sidetopics.util.misc')
    np = h.np
    its, t = [], 0
    for i in range(k):
        t = t + h.int('gap%d' % i, 1, 60)
        its.append(t)
    bnd = [h.real('b%d' % i, -1000, 1000) for i in range(k)]
    pad = h.choose('spare', [0, 2])
    idx = k
    if pad:        # places not yet filled
        its2, bnd2 = its + [0] * pad, bnd + [0.] * pad
    else:
        its2, bnd2 = its, bnd
    eps = h.real('eps', 0.5, 80)
    least = h.int('minIters', 0, 120)
    I = h.array(its2, dtype=np.float64) if array else its2
    B = h.array(bnd2, dtype=np.float64) if array else bnd2
    got = m.converged(I, B, idx, eps, least)
    if k < 2:
        h.check("too early to tell", not got)
        return
    want = h.and_(h.le_(least, its[-1]), h.lt(np.degrees(np.arctan((bnd[-1] - bnd[-2]) / (its[-1] - its[-2]))), eps))
    h.check("converged when the angle of the last improvement is below the threshold", want if h.truth(got) else h.not_(want))


def steep(h):
    """45 degrees is an improvement of one per iteration; a bound that falls counts as converged"""
    m = h.mod('sidetopics.util.misc')
    g = h.int('gap', 1, 50)
    rise = h.real('rise', -100, 100)
    b = h.real('b', -100, 100)
    I, B = h.array([0, g], dtype=h.np.float64), h.array([b, b + rise])
    if h.truth(h.lt(rise, 0)):
        h.check("a falling bound", bool(m.converged(I, B, 2, 10, 0)))
        return
    lo, hi = h.truth(h.le_(rise, 0)), h.truth(h.le_(1e9, rise))
    if lo:
        h.check("no improvement", bool(m.converged(I, B, 2, 10, 0)))


def clamp(h, n, k):
    m = h.mod('sidetopics.util.misc')
    np = h.np
    A = [h.reals('a', n, -9, 9), h.reals('b', n, -9, 9, dtype=np.float32), h.ints('c', n, -9, 9)]
    before = [h.snap(x) for x in A]
    R = m.clamp(*A, k)
    for x, r, b in zip(A, R, before):
        h.check("length", len(r) == k)
        h.check("element type", np.dtype(r.dtype) == np.dtype(x.dtype))
        h.same("the leading entries", r, b[:k])
        h.same("the arrays are unchanged", x, b)
        if k:
            r[0] = 99
            h.same("the results are copies", x, b)


def constant(h, dtype):
    m = h.mod('sidetopics.util.misc')
    dt = getattr(h.np, dtype)
    v = h.int('v', -9, 9) if dtype.startswith('int') else h.real('v', -9, 9)
    for shape in ((3,), (2, 2), (0,), (1, 2, 2)):
        A = m.constantArray(shape, v, dt)
        h.check("shape and element type", tuple(A.shape) == shape and h.np.dtype(A.dtype) == h.np.dtype(dt))
        for x in h.flat(A):
            h.eq("every entry is the default", x, v)


def cases(tier):
    out = []
    big = tier == 'thorough'

    def add(name, f, **kw):
        opt = {k: kw.pop(k) for k in ('budget', 'timeout') if k in kw}
        out.append(Case(name, f, kw, **opt))
    for mod in ('lda_cvb0', 'lda_cvb', 'lda_vb'):
        for dt in ('float64', 'float32'):
            for zero in (False, True):
                for q in (False, True) if mod != 'lda_vb' else (False,):
                    add('%s:%s:%s:%s' % (mod, dt, 'nolog' if zero else 'log', 'query' if q else 'train'), segmented,
                        mod=mod, dtype=dt, zero=zero, query=q, segs=(5 if big else 4) if not zero else 1)
    for f in (0, 1, 2, 3, 7):
        for vocab in (True, False):
            add('rtm:%d:%s' % (f, vocab), rtm, hi=9 if big else 7, freq=[f], vocab=vocab)
    add('rtm:debug', rtm, hi=2, freq=[1], vocab=True, debug=True)
    for tol in (-1, 100):
        for dbg in (False, True):
            add('mom_em:%d:%s' % (tol, dbg), mom_em, hi=4, tol=tol, debug=dbg)
    for dbg in (False, True):
        add('mom_gibbs:%s' % dbg, mom_gibbs, hi=4, debug=dbg)
        for vocab in (False, True):
            add('batch:%s:%s' % (dbg, vocab), batch, hi=3, vocab=vocab, debug=dbg)
    add('lda_gibbs', gibbs, mod='lda_gibbs', symbolic=True)
    add('dmr', gibbs, mod='dmr', symbolic=False)
    for k in (0, 1, 2, 3, 4):
        for a in (False, True):
            add('converged:%d:%s' % (k, a), helper, k=k, array=a)
    add('steep', steep)
    for n, k in ((1, 1), (3, 2), (4, 0), (4, 4)):
        add('clamp:%d:%d' % (n, k), clamp, n=n, k=k)
    for dt in ('float64', 'float32', 'int32'):
        add('constant:' + dt, constant, dtype=dt)
    return out
