"""C16 ranking metrics equal their definitions"""
from symx.harness import Case

MODS = ['sidetopics.model.evals']
BOUNDS = ("1..3 documents with 0..3 expected links among 2..4 candidates, every ranking of the candidates by symbolic scores without ties "
          "(thorough: up to 4 scored candidates per document), some candidates missing from the ranking; m in 1..5; groups symbolic and concrete")
ASSUMPTIONS = ["scipy.sparse is replaced by a model with a fixed sparsity pattern and symbolic data"]

# expected links, scored links
SETS = {
    'one': ([[0, 1, 0]], [[1, 1, 1]]),
    'two': ([[1, 0, 1]], [[1, 1, 1]]),
    'all': ([[1, 1]], [[1, 1]]),
    'absent': ([[1, 0, 1]], [[0, 1, 1]]),
    'never': ([[1, 0]], [[0, 1]]),
    'blank': ([[1, 0]], [[0, 0]]),
    'docs': ([[0, 1], [0, 0], [1, 0]], [[1, 1], [1, 1], [1, 1]]),
    'mixed': ([[0, 1, 1], [1, 0, 0]], [[1, 1, 1], [1, 1, 0]]),
    'none': ([[0, 0]], [[1, 1]]),
    'wide': ([[0, 1, 1, 0]], [[1, 1, 1, 1]]),
    'full': ([[1, 1, 0, 1]], [[1, 1, 1, 1]]),
    'big': ([[0, 1, 1, 0], [1, 0, 0, 1]], [[1, 1, 1, 0], [1, 0, 1, 1]]),
}


class St:
    def __init__(self, h, sets):
        self.h = h
        ep, sp = SETS[sets]
        self.D, self.C = len(ep), len(ep[0])
        dt = h.np.float64
        n = sum(map(sum, sp))
        self.expected = h.from_dense(ep, h.array([1.0] * sum(map(sum, ep)), dtype=dt), dtype=dt)
        vals = h.reals('s', n, -5, 5) if n else h.zeros((0,))
        self.scores = h.from_dense(sp, vals, dtype=dt)
        self.exp = [[c for c in range(self.C) if ep[d][c]] for d in range(self.D)]
        self.rank, i = [], 0
        vals = h.flat(vals)
        for d in range(self.D):
            cs = [c for c in range(self.C) if sp[d][c]]
            v = dict(zip(cs, vals[i:i + len(cs)]))
            i += len(cs)
            for a in cs:
                for b in cs:
                    if a < b:
                        h.assume(h.not_(h.is_eq(v[a], v[b])))
            self.rank.append({c: 1 + h.sum([h.ite(h.lt(v[c], v[e]), 1, 0) for e in cs if e != c]) for c in cs})
        self.docs = [d for d in range(self.D) if self.exp[d]]

    def hits(self, d, m):
        h = self.h
        return h.sum([h.ite(h.le_(self.rank[d][e], m), 1, 0) for e in self.exp[d] if e in self.rank[d]])

    def precision(self, d, m):
        return self.hits(d, m) / m

    def recall(self, d, m):
        return self.hits(d, m) / len(self.exp[d])

    def average_precision(self, d):
        return self.h.sum([self.hits(d, self.rank[d][e]) / self.rank[d][e] for e in self.exp[d] if e in self.rank[d]]) / len(self.exp[d])

    def unchanged(self, before):
        self.h.same("the expected links", self.expected, before[0])
        self.h.same("the scores", self.scores, before[1])

    def snap(self):
        return self.h.snap(self.expected), self.h.snap(self.scores)


def mrr(h, sets):
    s, e = St(h, sets), h.mod('sidetopics.model.evals')
    before = s.snap()
    got = e.mean_reciprocal_rank(s.expected, s.scores)
    s.unchanged(before)
    terms = [1 / s.rank[d][x] for d in s.docs for x in s.exp[d] if x in s.rank[d]]
    h.eq("the average of one over the rank of every expected link", got, h.sum(terms) / len(terms) if terms else 0, atol=1e-9)
    h.check("between zero and one", h.and_(h.le_(0, got), h.le_(got, 1)))
    h.observe('mrr', got)


def map_(h, sets):
    s, e = St(h, sets), h.mod('sidetopics.model.evals')
    before = s.snap()
    got = e.mean_average_prec(s.expected, s.scores)
    s.unchanged(before)
    h.eq("the average over documents of their average precision", got,
         h.sum([s.average_precision(d) for d in s.docs]) / len(s.docs) if s.docs else 0, atol=1e-9)
    h.check("between zero and one", h.and_(h.le_(0, got), h.le_(got, 1)))
    h.observe('map', got)


def prec_rec(h, sets, ms, groups=None, sym=False):
    s, e = St(h, sets), h.mod('sidetopics.model.evals')
    before = s.snap()
    at = ms if not isinstance(ms, list) else list(ms)
    lst = ms if isinstance(ms, list) else [ms if ms is not None else 100]
    if sym:
        lo, mid, hi = h.int('lo', 0, 2), h.int('mid', 0, 3), h.int('hi', 0, 4)
        h.assume(h.and_(h.le_(lo, mid), h.le_(mid, hi)))
        lo, mid, hi = [int(x) for x in (lo, mid, hi)]
        groups = list(dict.fromkeys([(lo, mid), (mid, hi)]))
    arg = None if groups is None else list(groups)
    kw = {} if groups is None else {'groups': arg}
    if at is not None:
        kw['at'] = at
    precs, recs, counts = e.mean_prec_rec_at(s.expected, s.scores, **kw)
    s.unchanged(before)
    h.check("the caller's list of groups is unchanged", arg == groups)
    h.check("the caller's list of positions is unchanged", at == ms)
    allg = (-1, -1)
    want = list(groups or [])
    if allg not in want:
        want.append(allg)
    h.check("one entry per group and one overall", set(precs) == set(want) and set(recs) == set(want) and set(counts) == set(want))
    member = {g: [] for g in want}
    for d in s.docs:
        member[allg].append(d)
        for g in want:
            if g != allg and g[0] <= len(s.exp[d]) <= g[1]:
                member[g].append(d)
                break
    for g in want:
        ds = member[g]
        h.check("documents with expected links are counted in their group and overall", h.is_eq(counts[g], len(ds)))
        h.check("one value per position", len(precs[g]) == len(lst) and len(recs[g]) == len(lst))
        for i, m in enumerate(lst):
            n = max(1, len(ds))
            h.eq("the average precision of the first m links", precs[g][i], h.sum([s.precision(d, m) for d in ds]) / n)
            h.eq("the average recall of the first m links", recs[g][i], h.sum([s.recall(d, m) for d in ds]) / n)
            h.check("between zero and one", h.and_(h.le_(0, precs[g][i]), h.le_(precs[g][i], 1), h.le_(0, recs[g][i]), h.le_(recs[g][i], 1)))
    h.observe('prec', [precs[g] for g in want])


def cases(tier):
    out, TH = [], ('thorough',)

    def add(name, fn, th=0, **k):
        out.append(Case(name, fn, k, tiers=TH if th else ('quick',) + TH))
    for s in SETS:
        th = s in ('big',)
        add('mrr:%s' % s, mrr, th, sets=s)
        add('map:%s' % s, map_, th, sets=s)
        add('at:%s' % s, prec_rec, th, sets=s, ms=[1, 2, 3])
    add('at:default', prec_rec, sets='two', ms=None)
    add('at:single', prec_rec, sets='two', ms=2)
    add('at:order', prec_rec, sets='docs', ms=[4, 1])
    for n, g in (('ranges', [(0, 1), (1, 2), (2, 9)]), ('gap', [(2, 9)]), ('given', [(1, 1), (-1, -1)]), ('first', [(-1, -1), (1, 1), (2, 3)]), ('empty', [])):
        add('groups:%s' % n, prec_rec, sets='mixed', ms=[1, 2], groups=g)
    add('groups:any', prec_rec, sets='one', ms=[1], sym=True)
    add('groups:any2', prec_rec, sets='mixed', ms=[2], sym=True)
    return [c for c in out if tier in c.tiers]
