"""C26 the evaluation driver: what each fold trains on, is queried and judged with, and the figures it reports"""
import re

from symx.harness import Case

MODS = ['sidetopics.run.__main__']
BOUNDS = ("corpora of up to 6 documents with symbolic word counts, up to 4 folds, every subset of folds failing while training, querying "
          "or scoring; the model is a stand-in whose likelihoods, topics, link predictions and scores are symbolic; split of up to 6 "
          "stored entries with symbolic draws; averages over symbolic document counts; hashtags: 26 documents in 2 folds")
ASSUMPTIONS = ["the topic model is replaced by a recording stand-in and files by in-memory objects",
               "printed figures are read back from the text: exactly in the encoding, to the printed precision in a replay"]


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class Boom(Exception):
    pass


class Mdl:
    """a topic model that does nothing but record how it is used"""

    def __init__(self, h, fail=None, undirected=False, K=2, T=3, links=None):
        self.h, self.fail, self.undirected, self.K, self.T = h, fail or {}, undirected, K, T
        self.runs, self.n, self.links = [], 0, links
        self.sample = Obj(kind='sample', name='stub', K=K)

    QueryState = None

    def newModelFromExisting(self, model, **kw):
        self.h.check("every run starts from the template model", model is self.sample)
        r = Obj(model=Obj(kind='copy', name='stub', K=self.K), id=len(self.runs), lda=kw)
        self.runs.append(r)
        return r.model

    def _is(self, model, kind):
        self.h.check("the model of this run is used, in its %s state" % ('initial' if kind == 'copy' else 'trained'),
                     model is (self.runs[-1].model if kind == 'copy' else self.runs[-1].trained))

    def newQueryState(self, data, model, **kw):
        r = self.runs[-1]
        if model is r.model:
            r.init = Obj(kind='train', data=data, lda=kw)
            return r.init
        self._is(model, 'trained')
        r.qinit = Obj(kind='query', data=data)
        return r.qinit

    def train(self, data, model, query, plan):
        r = self.runs[-1]
        self.h.check("training plan", plan == 'train-plan')
        self._is(model, 'copy')
        self.h.check("the query state trained on is that of the training documents", query is r.init and query.data is data)
        r.data = data
        if self.fail.get(r.id) == 'train':
            raise Boom("training")
        r.trained = Obj(kind='trained', name='stub', K=self.K, vocab=self._vocab(r.id))
        r.tops = Obj(kind='trained', data=data)
        r.trace = ([1, 2], ['vb', r.id], ['lk', r.id])
        return r.trained, r.tops, r.trace

    def _vocab(self, i):
        return self.h.array([self.h.flat(self.h.simplex('v%d_%d' % (i, k), self.T)) for k in range(self.K)])

    def query(self, data, model, query, plan):
        r = self.runs[-1]
        r.qplan = plan
        self._is(model, 'trained')
        self.h.check("the query state is that of the query documents", query is r.qinit and query.data is data)
        if self.fail.get(r.id) == 'query':
            raise Boom("querying")
        r.qdata = data
        r.qtops = Obj(kind='queried', data=data, means=self._means(r.id, data.doc_count))
        return Obj(kind='other'), r.qtops

    def _means(self, i, n):
        return self.h.reals('m%d' % i, (n, self.K), -2, 2)

    def log_likelihood(self, data, model, tops):
        r = self.runs[-1]
        self._is(model, 'trained')
        if tops is r.tops:
            self.h.check("training likelihood of the training documents", data is r.data)
            r.tlike = self.h.real('tl%d' % r.id, -60, -1)
            return r.tlike
        self.h.check("the likelihood uses the inferred topics", tops is r.qtops)
        if self.fail.get(r.id) == 'like':
            raise Boom("scoring")
        r.edata = data
        r.qlike = self.h.real('ql%d' % r.id, -60, -1)
        return r.qlike

    def wordDists(self, model):
        self._is(model, 'trained')
        return model.vocab

    def is_undirected_link_predictor(self):
        return self.undirected

    # either of the two ways in which the drivers ask for link predictions
    def min_link_probs(self, model, tops, *a):
        r = self.runs[-1]
        self._is(model, 'trained')
        self.h.check("the trained topics predict the links", tops is r.tops)
        r.asked = a
        return 'min-probs'

    def link_probs(self, model, tops, *a):
        r = self.runs[-1]
        self._is(model, 'trained')
        self.h.check("the trained topics predict the links", tops is r.tops)
        r.asked2 = a
        r.pred = Obj(kind='predictions', run=r.id)
        return r.pred


def driver(h, words=True):
    m = h.mod('sidetopics.run.__main__')
    lines = []

    def pr(*a, end='\n', **k):
        lines.append(' '.join(str(x) for x in a) + end)
    m.print = pr
    m.traceback = Obj(print_exc=lambda *a: None)
    h.tokens()
    return m, lines


def corpus(h, D, T, feats=True, links=None):
    common = h.mod('sidetopics.model.common')
    W = h.from_dense([[1] * T] * D, h.ints('w', D * T, 1, 9), dtype=h.np.float64)
    F = h.from_dense([[1]] * D, h.reals('f', D, 1, 2)) if feats else None
    return common.DataSet(W, F, links, debug=True)


def files(h, m):
    """captures what would be written to disk"""
    out = []

    class File:
        def __init__(self, path, mode='r'):
            h.check("files are opened for writing, as binary", mode == 'wb')
            self.path = path

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    m.open = File
    m.pkl = Obj(dump=lambda o, f: out.append((f.path, o)))
    return out


def text(h, lines, pat):
    r = re.compile(pat)
    return [x for l in ''.join(lines).split('\n') for x in [r.search(l)] if x]


NUM = r'\s*(-?[\d.]+|-?inf|nan)'


def saved(h, out, got, runs, data, tops):
    h.check("one file per finished fold, in the order of the folds", [p for p, _ in out] == list(got) and len(out) == len(runs))
    h.check("no file overwrites another", len(set(got)) == len(got))
    for (p, o), r in zip(out, runs):
        h.check("files go into the given directory", p.startswith('/out/dir/'))
        order, itrs, vbs, likes, model, ttops, qtops = o
        h.check("the file holds the order of the documents", [int(x) for x in h.flat(order)] == [int(x) for x in h.flat(data.order)])
        h.check("the file holds the trained model and its trace", model is r.trained and (itrs, vbs, likes) == r.trace)
        h.check("the file holds the inferred topics", ttops is r.tops and (tops is None or qtops is getattr(r, tops)))


def ids(h, ds):
    return [int(x) for x in h.flat(ds.order)]


def words_of(h, label, ds, before):
    h.eq("%s: the words are those of its documents" % label, h.dense(ds.words), h.dense(before)[ids(h, ds)])


def perplexity(h, D, folds, limit, feats=True, save=False, T=2):
    m, lines = driver(h)
    data = corpus(h, D, T, feats)
    W = h.snap(data.words)
    fail = {f: h.choose('fail%d' % f, [None, 'train', 'query', 'like']) for f in range(folds)}
    out = files(h, m)
    mdl = Mdl(h, fail, T=T)
    todo, done, want = limit if limit >= 1 else folds, [], []
    for f in range(folds):
        if len(done) < todo:
            want.append(f)
            if fail[f] is None:
                done.append(f)
    if not done:
        return
    got = m.cross_val_and_eval_perplexity(data, mdl, mdl.sample, 'train-plan', 'query-plan', folds, limit, '/out/dir' if save else None)
    h.check("folds are run until enough of them have finished", len(mdl.runs) == len(want))
    seen = []
    for f, r in zip(want, mdl.runs):
        words_of(h, "training", r.data, W)
        held = sorted(set(range(D)) - set(ids(h, r.data)))
        h.check("each document is trained on once", len(ids(h, r.data)) == len(set(ids(h, r.data))))
        h.check("each fold holds out a share of the documents", D // folds <= len(held) <= -(-D // folds))
        seen += held
        if f in done:
            h.check("query plan", r.qplan == 'query-plan')
            if feats:
                h.check("the held-out documents are queried and scored", sorted(ids(h, r.qdata)) == held and sorted(ids(h, r.edata)) == held)
                h.check("the order of the scored documents is that of the query", ids(h, r.qdata) == ids(h, r.edata))
                words_of(h, "query", r.qdata, W)
                words_of(h, "scoring", r.edata, W)
            else:
                h.eq("query and scoring share out the words of the held-out documents",
                     h.dense(r.qdata.words) + h.dense(r.edata.words), h.dense(W)[held])
    h.check("no document is held out twice", len(seen) == len(set(seen)))
    if len(want) == folds:
        h.check("every document is held out", sorted(seen) == list(range(D)))
    runs = [r for f, r in zip(want, mdl.runs) if f in done]
    rows = text(h, lines, r'^Fold (\d+): Train-set Perplexity:' + NUM + r'.*Query-set Perplexity:' + NUM)
    h.check("one line per finished fold", [int(x.group(1)) for x in rows] == done)

    def count(ds):
        return h.sum(h.flat(ds.words.data)) if len(h.flat(ds.words.data)) else 0
    tl, tn, ql, qn = 0, 0, 0, 0
    for x, r in zip(rows, runs):
        n, q = count(r.data), count(r.edata)
        h.eq_text("perplexity of the training documents", x.group(2), h.exp(-r.tlike / n), 3)
        h.eq_text("perplexity of the held-out documents", x.group(3), h.exp(-r.qlike / q), 3)
        tl, tn, ql, qn = tl + r.tlike, tn + n, ql + r.qlike, qn + q
    for what, l, n in (('Train', tl, tn), ('Query', ql, qn)):
        t = text(h, lines, r'^Total \((\d+)\): %s-set Likelihood:' % what + NUM + r'.*%s-set Perplexity:' % what + NUM)
        h.check("one line of totals", len(t) == 1 and int(t[0].group(1)) == len(done))
        h.eq_text("total likelihood of the finished folds", t[0].group(2), l, 3)
        h.eq_text("perplexity over the finished folds", t[0].group(3), h.exp(-l / n), 3)
    if save:
        saved(h, out, got, runs, data, 'qtops')
    else:
        h.check("nothing is saved without a directory", list(got) == [] and not out)


def one_fold(h, save):
    m, lines = driver(h)
    data = corpus(h, 3, 2)
    W = h.snap(data.words)
    out = files(h, m)
    mdl = Mdl(h)
    got = m.cross_val_and_eval_perplexity(data, mdl, mdl.sample, 'train-plan', 'query-plan', 1, -1, '/out/dir' if save else None)
    h.check("one run", len(mdl.runs) == 1)
    r = mdl.runs[0]
    h.check("a single fold trains on all the documents", sorted(ids(h, r.data)) == [0, 1, 2])
    words_of(h, "training", r.data, W)
    a, b = text(h, lines, '^Train-set Likelihood:' + NUM), text(h, lines, '^Train-set Perplexity:' + NUM)
    h.check("one line of each figure", len(a) == 1 and len(b) == 1)
    h.eq_text("likelihood", a[0].group(1), r.tlike, 6)
    h.eq_text("perplexity", b[0].group(1), h.exp(-r.tlike / h.sum(h.flat(W.data))), 6)
    if save:
        saved(h, out, got, mdl.runs, data, None)
    else:
        h.check("nothing is saved without a directory", list(got) == [] and not out)


PATS = {'a': [[1, 1, 0], [0, 1, 1]], 'b': [[1, 0, 1], [0, 0, 0], [0, 1, 0]], 'c': [[0, 0, 0]], 'd': [[1, 1, 1, 1]], 'e': [[0, 1], [1, 0], [1, 1]]}


def split(h, pat, cols, prob, kind='set', dtype='float64'):
    m, _ = driver(h)
    P = PATS[pat]
    v = h.ints('x', max(1, sum(map(sum, P))), 1, 9)[:sum(map(sum, P))]
    A = h.from_dense(P, v, dtype=getattr(h.np, dtype))
    before = h.snap(A)
    draws = []

    def rand(*a):
        draws.append(h.real('u%d' % len(draws), 0, 0.999))
        return draws[-1]
    cs = {'set': set, 'list': list, 'tuple': tuple}[kind](cols)
    if prob is None:
        L, R = m.soft_split_on_indices(A, cs)
    elif prob == 1:
        L, R = m.soft_split_on_indices(A, cs, None, 1.0)
    elif prob == 'half':
        L, R = m.soft_split_on_indices(A, cs, Obj(rand=rand))
        prob = 0.5
    else:
        L, R = m.soft_split_on_indices(A, cs, Obj(rand=rand), prob)
    h.same("the matrix is unchanged", A, before)
    h.check("shape", tuple(L.shape) == tuple(A.shape) and tuple(R.shape) == tuple(A.shape))
    h.check("element type", L.dtype == A.dtype and R.dtype == A.dtype)
    l, r, a = h.dense(L), h.dense(R), h.dense(before)
    h.eq("the parts add up to the matrix", l + r, a)
    k = 0
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            if not P[i][j]:
                continue
            if j not in cols:
                h.eq("other columns stay where they are", l[i, j], a[i, j])
            elif prob is None or prob == 1:
                h.eq("all of the given columns is moved", r[i, j], a[i, j])
            else:
                h.check("one draw decides on each entry", k < len(draws))
                mv = h.truth(h.lt(draws[k], prob))
                h.eq("a draw below the probability moves the whole entry", r[i, j], a[i, j] if mv else 0)
                k += 1
    h.check("one draw per entry of the given columns", k == len(draws))
    for M in (L, R):
        h.check("no explicit zeros are stored", h.and_(*[h.not_(h.is_eq(x, 0)) for x in h.flat(M.data)]) if len(h.flat(M.data)) else True)


def clip(h, pat, lo, hi):
    m, _ = driver(h)
    P = PATS[pat]
    n = sum(map(sum, P))
    A = h.from_dense(P, h.reals('x', max(n, 1), -3, 5)[:n])
    before = h.snap(A)
    R = m.csr_clip(A, lo, hi)
    h.same("the matrix is unchanged", A, before)
    h.check("shape", tuple(R.shape) == tuple(A.shape))
    h.eq("stored values are clipped", R.data, [h.max(lo, h.min(hi, x)) for x in h.flat(before.data)] if n else h.zeros((0,)))
    h.check("the pattern is kept", [int(x) for x in h.flat(R.indices)] == [int(x) for x in h.flat(before.indices)]
            and [int(x) for x in h.flat(R.indptr)] == [int(x) for x in h.flat(before.indptr)])


def combine(h, folds, groups, zero):
    """folding the scores of several folds into averages"""
    m, _ = driver(h)
    gs = [(0, 3), (3, 5), (5, 10)][:groups]
    maps, counts = [], []
    for f in range(folds):
        maps.append({g: h.flat(h.reals('a%d_%d' % (f, i), 2, 0, 1)) for i, g in enumerate(gs)})
        counts.append({g: h.int('c%d_%d' % (f, i), 0 if zero else 1, 30) for i, g in enumerate(gs)})
    orig = [{g: list(x) for g, x in mp.items()} for mp in maps]
    A, C = None, None
    for mp, ct in zip(maps, counts):
        A, C = m.combine_map(A, C, mp, ct)
    for f, mp in enumerate(maps):
        h.check("the groups of a fold are unchanged", list(mp) == gs)
        for g in gs:
            h.eq("the scores of a fold are unchanged", mp[g], orig[f][g])
    h.check("the groups are kept", sorted(A) == gs and sorted(C) == gs)
    for g in gs:
        tot = h.sum([ct[g] for ct in counts])
        h.eq("documents are added up", C[g], tot)
        if zero and not h.truth(h.lt(0, tot)):
            for x in A[g]:
                h.finite("an average over no documents is a number", x)
            continue
        for j in range(2):
            h.eq("average over all the documents", A[g][j], h.sum([mp[g][j] * ct[g] for mp, ct in zip(maps, counts)]) / tot)


def table(h, lines, title, after):
    """rows of a printed table: group -> (count, figures)"""
    ls = ''.join(lines).split('\n')
    i = max(j for j, l in enumerate(ls) if after in l)
    i = next(j for j in range(i, len(ls)) if ls[j].strip() == title)
    h.check("the table lists the values of M", [int(x) for x in ls[i + 1].split('|')[3:-1]] == MS)
    out = {}
    for l in ls[i + 3:]:
        if not l.startswith('| '):
            break
        c = l.split('|')
        a, b = c[1].split(',')
        out[int(a), int(b)] = (c[2].strip(), [x.strip() for x in c[3:-1]])
    return out


MS = [10, 20, 30, 40, 50, 75, 100, 150, 250, 500]
GROUPS = [(0, 3), (3, 5), (5, 10), (10, 1000)]


class Scores:
    """stand-ins for the metrics, with symbolic outcomes; `empty` groups have no documents"""

    def __init__(self, h, m, empty=()):
        self.h, self.calls, self.empty, self.m = h, [], empty, m
        m.mean_prec_rec_at, m.mean_reciprocal_rank, m.mean_average_prec = self.at, self.mrr, self.map

    def at(self, expected, predicted, at=None, groups=None):
        h, n = self.h, len(self.calls)
        h.check("values of M and groups", list(at) == MS and list(groups) == GROUPS)
        few = h.reals('p%d' % n, (len(GROUPS), 2), 0, 1)
        c = Obj(expected=expected, predicted=predicted)
        # distinct figures for the first two values of M, the others follow from them
        c.p = {g: [few[i, 0]] + [few[i, 1] / (j + 1) for j in range(len(MS) - 1)] for i, g in enumerate(GROUPS)}
        c.r = {g: [few[i, 1]] + [few[i, 0] / (j + 1) for j in range(len(MS) - 1)] for i, g in enumerate(GROUPS)}
        c.n = {g: 0 if i in self.empty else 1 + (3 * n + 5 * i) % 7 for i, g in enumerate(GROUPS)}
        self.calls.append(c)
        return dict(c.p), dict(c.r), dict(c.n)

    def mrr(self, expected, predicted):
        c = self.calls[-1]
        self.h.check("the reciprocal rank is that of the same predictions", expected is c.expected and predicted is c.predicted)
        c.mrr = self.h.real('r%d' % len(self.calls), 0, 1)
        return c.mrr

    def map(self, expected, predicted):
        if not self.calls or self.calls[-1].predicted is not predicted:
            self.calls.append(Obj(expected=expected, predicted=predicted))
        c = self.calls[-1]
        self.h.check("the average precision is that of the same predictions", expected is c.expected)
        c.map = self.h.real('q%d' % len(self.calls), 0, 1)
        return c.map

    def final(self, lines, maps=True):
        h = self.h
        for title, key in (('Precision', 'p'), ('Recall', 'r')):
            T = table(h, lines, title, 'Final Results')
            h.check("one row per group", sorted(T) == GROUPS)
            for g in GROUPS:
                tot = sum(c.n[g] for c in self.calls)
                h.check("documents are added up over the folds", int(T[g][0]) == tot)
                if tot:
                    for j in (0, 1, len(MS) - 1):
                        h.eq_text("average over the documents of all folds", T[g][1][j],
                                  h.sum([getattr(c, key)[g][j] * c.n[g] for c in self.calls]) / tot, 3)
        tail = ''.join(lines)
        tail = tail[tail.index('Final Results'):]
        docs = [c.expected.shape[0] for c in self.calls]
        for label, key in (('Mean reciprocal-rank:', 'mrr'),) + ((('Mean average-precision:', 'map'),) if maps else ()):
            x = re.findall(label + NUM, tail)
            h.check("one overall figure", len(x) == 1)
            h.eq_text("overall figure: average over the documents", x[0],
                      h.sum([getattr(c, key) * n for c, n in zip(self.calls, docs)]) / sum(docs), 6)


def tags(h, D, folds, target, prob=0.5, save=False, empty=()):
    """scoring the prediction of some words of the held-out documents"""
    m, lines = driver(h)
    data = corpus(h, D, 3)
    W = h.snap(data.words)
    out = files(h, m)
    mdl, sc = Mdl(h), Scores(h, m, empty)
    real = m.sparseScalarProductOfDot
    pred = []

    def spd(A, B, C):
        pred.append((A, B, C))
        return real(A, B, C)
    m.sparseScalarProductOfDot = spd
    tag = [1]
    got = m.cross_val_and_eval_tag_prec_rec_at_m(data, tag, prob, mdl, mdl.sample, 'train-plan', ['a', 'b', 'c'], folds, target,
                                                 '/out/dir' if save else None)
    n = target or folds
    h.check("as many folds as asked for", len(mdl.runs) == n and len(sc.calls) == n)
    seen = []
    for r, c, p in zip(mdl.runs, sc.calls, pred):
        words_of(h, "training", r.data, W)
        held = ids(h, r.qdata)
        h.check("the held-out documents are queried", sorted(held + ids(h, r.data)) == list(range(D)))
        seen += held
        w, q, e = h.dense(W)[held], h.dense(r.qdata.words), h.dense(c.expected)
        for i in range(len(held)):
            for j in range(3):
                if j not in tag:
                    h.eq("other words stay in the query", q[i, j], w[i, j])
                    h.eq("only tags are to be predicted", e[i, j], 0)
                else:
                    there = h.truth(h.is_eq(q[i, j], 0))
                    h.eq("a tag is either in the query or to be predicted", e[i, j], 1 if there else 0)
                    if not there:
                        h.eq("a tag that is not moved is left alone", q[i, j], w[i, j])
        P = h.dense(c.predicted)
        means, voc = r.qtops.means, r.trained.vocab
        for i in range(len(held)):
            ex = [h.exp(means[i, k]) for k in range(mdl.K)]
            for j in tag:
                if h.truth(h.is_eq(e[i, j], 1)):
                    h.eq("a tag's score is its probability under the document's topics", P[i, j],
                         h.sum([ex[k] * voc[k, j] for k in range(mdl.K)]) / h.sum(ex))
    h.check("no document is held out twice", len(seen) == len(set(seen)))
    sc.final(lines)
    if save:
        saved(h, out, got, mdl.runs, data, None)


def linksplit(h, which, folds, target, undirected, save=False, empty=()):
    """drivers that judge the prediction of links"""
    m, lines = driver(h)
    D = 6 if which == 'in' else 3
    pat = [[1 if (i + 2 * j) % 3 and i != j else 0 for j in range(D)] for i in range(D)]
    if which == 'in':
        m.MinLinkCountEval = 2
    if which == 'in':       # some documents have too few links to be judged
        for j in range(D):
            pat[0][j] = pat[3][j] = int(j == 4)
    else:
        pat = [[0, 1, 0], [1, 0, 0], [0, 1, 0]]
    L = h.from_dense(pat, h.ints('l', sum(map(sum, pat)), 1, 3), dtype=h.np.float64)
    data = corpus(h, D, 2, links=L)
    before = h.snap(data.links)
    out = files(h, m)
    mdl, sc = Mdl(h, undirected=undirected, T=2), Scores(h, m, empty)
    a = (data, mdl, mdl.sample, 'train-plan')
    dir_ = '/out/dir' if save else None
    if which == 'map':
        got = m.link_split_map(*a, folds, dir_)
    elif which == 'pr':
        got = m.link_split_prec_rec(*a, folds, target, dir_)
    else:
        got = m.insample_lro_style_prec_rec(*a, folds, target, dir_)
    n = (target or folds) if which != 'map' else folds
    h.check("as many folds as asked for", len(mdl.runs) == n and len(sc.calls) == n)
    h.same("the links of the corpus are unchanged", data.links, before)
    B = h.dense(before)
    for r, c in zip(mdl.runs, sc.calls):
        T = h.dense(r.data.links)
        if which == 'in':
            tops, lk, sub = r.asked
            h.check("the predicted documents are those of the split", list(r.asked2[-1]) == list(sub) and tops is r.tops and r.asked2[0] is r.tops)
            sub = [int(x) for x in h.flat(sub)]
        else:
            (lk,) = r.asked
            sub = list(range(D))
        h.check("the thresholds are used", 'min-probs' in r.asked2)
        h.check("the predictions are judged", c.predicted is r.pred)
        Q = h.dense(lk)
        h.eq("the judged links are those held out", h.dense(c.expected), Q[sub])
        for i in range(D):
            for j in range(D):
                if not pat[i][j]:
                    h.eq("only links of the corpus are judged", Q[i, j], 0)
                    if not undirected:
                        h.eq("only links of the corpus are trained on", T[i, j], 0)
                    elif not pat[j][i]:
                        h.eq("only links of the corpus are trained on", T[i, j], 0)
                elif not undirected:
                    h.eq("a link is either trained on or held out", T[i, j] + Q[i, j], B[i, j])
                    h.check("a link is either trained on or held out", h.or_(h.is_eq(T[i, j], 0), h.is_eq(Q[i, j], 0)))
                else:
                    h.check("a link that is not held out is trained on", h.or_(h.not_(h.is_eq(Q[i, j], 0)), h.is_eq(T[i, j], 1)))
                    h.eq("links are trained on in both directions", T[i, j], T[j, i])
                    if not pat[j][i]:
                        h.check("a held-out link is not trained on", h.or_(h.is_eq(T[i, j], 0), h.is_eq(Q[i, j], 0)))
    if which == 'map':
        rows = text(h, lines, r'^Fold\s+(\d+): Mean-Average-Precision' + NUM)
        h.check("one line per fold", [int(x.group(1)) for x in rows] == list(range(n)))
        for x, c in zip(rows, sc.calls):
            h.eq_text("average precision of the fold", x.group(2), c.map, 3)
    else:
        sc.final(lines, which == 'in')
    if save:
        saved(h, out, got, mdl.runs, data, None)


def outsample(h, mask, feats, undirected=False, save=False, empty=(), lda=None):
    """training on the documents without some features, judging on those with one of them"""
    m, lines = driver(h)
    common = h.mod('sidetopics.model.common')
    D = len(feats)
    W = h.from_dense([[1, 1]] * D, h.ints('w', 2 * D, 1, 9), dtype=h.np.float64)
    F = h.from_dense(feats, h.reals('f', sum(map(sum, feats)), 0.5, 2))
    pat = [[1 if i != j else 0 for j in range(D)] for i in range(D)]
    L = h.from_dense(pat, h.ints('l', D * (D - 1), 1, 3), dtype=h.np.float64)
    data = common.DataSet(W, F, L, debug=True)
    w0, l0 = h.snap(data.words), h.dense(h.snap(data.links))
    out = files(h, m)
    mdl, sc = Mdl(h, undirected=undirected, T=2), Scores(h, m, empty)

    def probs(model, tops, qtops, *a):
        r = mdl.runs[-1]
        mdl._is(model, 'trained')
        h.check("both sets of topics are used", tops is r.tops and qtops is r.qtops)
        if isinstance(a[0], str):
            r.pred = Obj(kind='predictions')
            return r.pred
        r.asked = a
        return 'min-probs'
    mdl.min_link_probs = mdl.link_probs = probs
    feat = [('f%d' % i, i) for i in mask]
    got = m.outsample_lro_style_prec_rec(data, mdl, mdl.sample, 'train-plan', list(feat), '/out/dir' if save else None)
    h.check("one run per feature", len(mdl.runs) == len(mask) and len(sc.calls) == len(mask))
    for i, (r, c) in enumerate(zip(mdl.runs, sc.calls)):
        tr = [d for d in range(D) if not any(feats[d][x] for x in mask[i:])]
        qu = [d for d in range(D) if feats[d][mask[i]]]
        h.check("trained on the documents without any of the remaining features", ids(h, r.data) == tr)
        h.check("queried on the documents with the feature", ids(h, r.qdata) == qu)
        words_of(h, "training", r.data, w0)
        words_of(h, "query", r.qdata, w0)
        T = l0[tr][:, tr]
        if undirected:
            T = h.array([[1 if x != y else 0 for y in range(len(tr))] for x in range(len(tr))], dtype=h.np.float64)
        h.eq("links among the training documents", h.dense(r.data.links), T)
        h.eq("links from the queried to the training documents are judged", h.dense(c.expected), l0[qu][:, tr])
        h.check("the predictions are judged", c.predicted is r.pred and r.asked[0] is c.expected)
    sc.final(lines)
    if save:
        saved(h, out, got, mdl.runs, data, None)


def hashtags(h, order):
    """precision and recall of the documents ranked highest for a hashtag; the ranks and who has the hashtag are given, its counts are
    symbolic"""
    m, lines = driver(h)
    common = h.mod('sidetopics.model.common')
    D, T, folds = 26, 3, 2
    tag = [1, 2]
    pat = [[1, int((i * 7) % 3 == 0), int(i % 13 not in (2, 5))] for i in range(D)]
    W = h.from_dense(pat, h.ints('w', sum(map(sum, pat)), 1, 4), dtype=h.np.float64)
    data = common.DataSet(W, h.from_dense([[1]] * D, h.reals('f', D, 1, 2)), None, debug=True)
    w0 = h.snap(data.words)
    mdl = Mdl(h)
    vocab = [[0.5, 0.4, 0.1], [0.3, 0.1, 0.6]]
    mdl._vocab = lambda i: h.array(vocab)
    rank = [(i * order + 3) % 13 for i in range(13)]
    mdl._means = lambda i, n: 'means %d' % i

    def softmax(x):
        h.check("the topics are those inferred for the held-out documents", x is mdl.runs[-1].qtops.means)
        return h.array([[(rank[d] + 1) / 14, 1 - (rank[d] + 1) / 14] for d in range(13)])
    m.rowwise_softmax = softmax
    files(h, m)
    m.cross_val_and_eval_hashtag_prec_at_m(data, tag, 0, mdl, mdl.sample, 'train-plan', ['a', '#b', '#c'], folds, -1, None)
    h.check("one run per fold", len(mdl.runs) == folds)
    ms = [10, 50, 100, 150, 200, 250, 1000, 1500, 3000, 5000, 10000]
    rows = text(h, lines, r'^\s*(Precision|Recall)\s+#(\w)\s+(\d+)\s+(.*)$')
    h.check("two lines per hashtag and fold", len(rows) == 4 * folds)
    for f, r in enumerate(mdl.runs):
        held = ids(h, r.qdata)
        h.check("the held-out documents are queried", sorted(held + ids(h, r.data)) == list(range(D)))
        words_of(h, "training", r.data, w0)
        q, w = h.dense(r.qdata.words), h.dense(w0)[held]
        for j in range(T):
            h.eq("the hashtags of the held-out documents are deleted, other words are not", q[:, j], w[:, j] * (0 if j in tag else 1))
        for x in rows[4 * f:4 * f + 4]:
            t = 1 if x.group(2) == 'b' else 2
            have = [pat[d][t] for d in held]
            h.eq_text("number of documents with the hashtag", x.group(3), sum(have), 0)
            best = sorted(range(13), key=lambda d: rank[d], reverse=(t == 1))
            for mm, v in zip(ms, x.group(4).split('\t')):
                hit = sum(have[d] for d in best[:mm])
                h.eq_text("share of the best ranked that have the hashtag" if x.group(1) == 'Precision' else
                          "share of those with the hashtag that are among the best ranked", v,
                          hit / mm if x.group(1) == 'Precision' else hit / max(1, min(mm, sum(have))), 3)


def popular(h, cols, count, D=2, T=4):
    m, _ = driver(h)
    data = corpus(h, D, T)
    W = h.dense(h.snap(data.words))
    got = list(m.popular_indices(data, list(cols), count))
    h.check("as many words as asked for", len(got) == min(count, len(cols)) and len(set(got)) == len(got))
    h.check("words are picked from the given ones", all(g in cols for g in got))
    tot = {c: h.sum([W[d, c] for d in range(D)]) for c in cols}
    for a, b in zip(got, got[1:]):
        h.le("the most frequent words come first", tot[b], tot[a])
    for c in cols:
        if c not in got and got:
            h.le("no word left out is more frequent", tot[c], tot[got[-1]])


def subset(h, which, idx):
    """an LDA model's topics for some of its documents"""
    m, _ = driver(h)
    if which is None:
        r = m.subsetLda(None, None, h.array(idx))
        h.check("without a model there are no topics", tuple(r) == (None, None))
        return
    mod = h.mod('sidetopics.model.' + which)
    D, K = 4, 2
    if which == 'lda_vb_python':
        q = mod.QueryState(h.ints('n', D, 1, 9), h.reals('t', (D, K), 0, 9), True)
        model = Obj(name=mod.MODEL_NAME)
        r, p = m.subsetLda(model, q, h.array(idx))
        h.eq("lengths of the selected documents", p.docLens, h.array([q.docLens[i] for i in idx]))
        h.eq("topics of the selected documents", p.topicDists, h.array([[q.topicDists[i, k] for k in range(K)] for i in idx]))
        h.check("the model is returned", r is model)
    h.check("other models are refused", h.raises(lambda: m.subsetLda(Obj(name='nothing'), None, idx), ValueError) is not None)


def cases(tier):
    out = []
    th = tier == 'thorough'

    def add(name, f, **kw):
        opt = {k: kw.pop(k) for k in ('budget', 'timeout', 'max_paths') if k in kw}
        out.append(Case(name, f, kw, **opt))
    for D, f in ((2, 2), (5, 2), (4, 3)) + (((6, 4), (6, 3)) if th else ()):
        for limit in (-1, 1, f - 1 or 1):
            for save in (False, True):
                if (limit != -1 and save) or (limit == f - 1 == 1 and (D, f) != (2, 2)):
                    continue
                nm = 'cv:%d:%d:%d:%s' % (D, f, limit, save)
                if nm not in [c.name for c in out]:
                    add(nm, perplexity, D=D, folds=f, limit=limit, save=save)
    add('cv:split', perplexity, D=2, folds=2, limit=-1, feats=False, T=2)
    for s in (False, True):
        add('one:%s' % s, one_fold, save=s)
    for pat in PATS:
        for prob in (None, 1, 0.3, 'half'):
            for cols in ([1], [0, 2], []):
                if max(cols + [0]) < len(PATS[pat][0]):
                    add('split:%s:%s:%s' % (pat, prob, ''.join(map(str, cols))), split, pat=pat, cols=cols, prob=prob,
                        kind=['set', 'list', 'tuple'][len(cols)], dtype='float64' if pat != 'b' else 'int32')
        add('clip:%s' % pat, clip, pat=pat, lo=0, hi=1)
    for f in (1, 2, 3):
        for z in (False, True):
            add('combine:%d:%s' % (f, z), combine, folds=f, groups=2 if f > 1 else 3, zero=z)
    for D, f, t, s in ((4, 2, None, True), (3, 3, 2, False)):
        add('tags:%d:%d:%s' % (D, f, t), tags, D=D, folds=f, target=t, save=s)
    add('tags:empty', tags, D=2, folds=2, target=None, empty=(2,))
    for w in ('map', 'pr', 'in'):
        for f, t in ((2, None), (3, 2)):
            for u in (False, True):
                add('links:%s:%d:%s:%s' % (w, f, t, u), linksplit, which=w, folds=f, target=t, undirected=u, save=(f == 2 and u))
        if w != 'map':
            add('links:%s:empty' % w, linksplit, which=w, folds=2, target=None, undirected=False, empty=(0, 3))
    F1 = [[1, 0, 0], [1, 1, 0], [1, 0, 1], [1, 0, 0], [1, 1, 1]]
    add('feature:one', outsample, mask=[1], feats=F1)
    add('feature:two', outsample, mask=[2, 1], feats=F1, save=True)
    add('feature:two:undirected', outsample, mask=[1, 2], feats=F1, undirected=True)
    add('feature:empty', outsample, mask=[1, 2], feats=F1, empty=(1,))
    for o in (5, 7, 12):
        add('hashtags:%d' % o, hashtags, order=o)
    for cols, c in (([0, 1, 2, 3], 2), ([3, 1], 5), ([0, 2, 3], 1), ([2], 1)):
        add('popular:%s:%d' % (''.join(map(str, cols)), c), popular, cols=cols, count=c)
    for w in (None, 'lda_vb_python'):
        add('subset:%s' % w, subset, which=w, idx=[2, 0])
    return out
