"""C23 contributor selection and result roll-ups respect their totals"""
import io
from symx.harness import Case

MODS = ['sidetopics.run.selectusers', 'sidetopics.run.reshape_results']
BOUNDS = ("1..3 groups of 0..3 contributors with symbolic tweet counts (up to 10^6 per contributor when each group can meet its share, otherwise up to 12 per group) and a "
          "symbolic target; result tables of the report's own shape with every figure and document count symbolic, any of the coarse groups without documents")
ASSUMPTIONS = ["files are replaced by in-memory lines; the figures printed in them are symbolic"]


def names(gs):
    return ['g%d' % i for i in range(gs)]


def contribs(h, groups, hi, target_hi):
    m = h.mod('sidetopics.run.selectusers')
    counts = {g: {'u%d' % j: h.int('%s_u%d' % (g, j), 1, hi) for j in range(n)} for g, n in zip(names(len(groups)), groups)}
    target = h.int('target', 1, target_hi)
    before = {g: dict(d) for g, d in counts.items()}
    got = m.select_group_contribs(counts, target)
    h.check("a contribution for every group", sorted(got) == sorted(counts))
    tot = {g: h.sum(list(d.values())) for g, d in before.items()}
    for g in counts:
        h.check("no group contributes less than nothing", h.le_(0, got[g]))
        h.check("no group contributes more than it has", h.le_(got[g], tot[g]))
        h.check("the counts are unchanged", list(counts[g]) == list(before[g]) and all(h.truth(h.is_eq(a, b)) for a, b in zip(counts[g].values(), before[g].values())))
    allg, got_all, n = h.sum(list(tot.values())), h.sum(list(got.values())), len(groups)
    h.check("no more than the target, up to one per group", h.le_(got_all, target + n))
    h.check("the target is met where the groups hold that much, up to one per group", h.or_(h.le_(target - n + 1, got_all), h.le_(allg, got_all)))
    gs = sorted(got)
    for a in gs:
        for b in gs:
            if a != b:
                h.check("groups contribute equally unless exhausted", h.or_(h.le_(got[b], got[a]), h.is_eq(got[a], tot[a])))


def users(h, groups, order, shared):
    m = h.mod('sidetopics.run.selectusers')
    m.SortTweet = order
    printed = []
    m.print = lambda *a, **k: printed.append(a)
    counts = {g: {('u%d' if shared else g + 'u%d') % j: h.int('%s_u%d' % (g, j), 1, 1000) for j in range(n)} for g, n in zip(names(len(groups)), groups)}
    want = {g: h.int('want_' + g, 0, 4000) for g in counts}
    got = m.select_users(counts, want)
    every = {u for d in counts.values() for u in d}
    h.check("only contributors of the groups are selected", set(got) <= every)
    h.check("nobody is selected twice", len(set(got)) == len(list(got)))
    if shared:
        return
    for g, d in counts.items():
        sel = [u for u in d if u in got]
        acc = h.sum([d[u] for u in sel]) if sel else 0
        if len(sel) < len(d):
            h.check("enough are selected", h.le_(want[g], acc))
        if sel:
            h.check("no more than needed", h.lt(h.max(*[acc - d[u] for u in sel]) if not order else acc - h.min(*[d[u] for u in sel]), want[g]) if order
                    else h.or_(*[h.lt(acc - d[u], want[g]) for u in sel]))
        if order:
            for u in sel:
                for v in d:
                    if v not in sel:
                        h.check("the most prolific are selected first", h.le_(d[v], d[u]))


def reading(h, rows, lims):
    """(group, file name) rows"""
    m = h.mod('sidetopics.run.selectusers')
    ns = [h.int('n%d' % i, 0, 5000) for i in range(len(rows))]
    h.tokens()
    m.open = lambda *a, **k: io.StringIO(''.join(h.text(n) + '\t' + g + '\t' + f + '\n' for n, (g, f) in zip(ns, rows)))
    if lims:
        lo, hi = h.int('lo', 0, 3000), h.int('hi', 0, 9000)
        got = m.read_counts('counts.txt', lo, hi)
    else:
        lo, hi = 0, 4000000000
        got = m.read_counts('counts.txt')
    h.check("every group is there", sorted(got) == sorted({g for g, _ in rows}))
    name = lambda f: ('.'.join(f.split('.')[:-1]) if '.' in f else f).strip()
    for g in got:
        us = {name(f) for k, f in rows if k == g}
        for u in us:
            t = h.sum([n for n, (k, f) in zip(ns, rows) if k == g and name(f) == u])
            inside = h.and_(h.lt(lo, t), h.lt(t, hi))
            if u in got[g]:
                h.check("contributors outside the range are left out", inside)
                h.eq("the count of a contributor is the sum over the files", got[g][u], t)
            else:
                h.check("contributors inside the range are kept", h.not_(inside))
        h.check("nobody else is there", set(got[g]) <= us)


def rollup(h, members, zero):
    m = h.mod('sidetopics.run.reshape_results')
    t = m.new_group_k_dict()
    h.check("one row for each group, one entry for each column", sorted(t) == sorted(m.FullGroups) and all(sorted(r) == sorted(m.TableTitles) for r in t.values()))
    srcs = [m.Range3_5, m.Range5_10, m.Range10_up][:members]
    for g in srcs:
        t[g][m.DocCount] = h.int('n' + g, 0, 1000)
        for k in m.Ms:
            t[g][k] = h.real(g + k, 0, 1)
    before = {g: dict(t[g]) for g in srcs}
    m.roll_up_and_average(t, m.Range3_up, srcs)
    judge_row(h, m, t, m.Range3_up, srcs)
    for g in srcs:
        for k in m.TableTitles:
            h.eq("the members are unchanged", t[g][k], before[g][k])


def judge_row(h, m, t, dst, srcs):
    n = h.sum([t[g][m.DocCount] for g in srcs])
    h.eq("documents of the rolled-up group", t[dst][m.DocCount], n)
    for k in m.Ms:
        s = h.sum([t[g][k] * t[g][m.DocCount] for g in srcs])
        if h.truth(h.lt(0, n)):
            h.eq("document-weighted average", t[dst][k], s / n)
        else:
            h.eq("no documents, no score", t[dst][k], 0)


class Out(io.StringIO):
    def close(self):        # what was written is looked at later
        pass


def report(h, m, i, perp):
    vals, text = {}, []
    algo = ('lda"vb%d' % i, str(10 * (i + 1)), 'no\thold out' if i else '')
    text.append(algo[0] + ', K=' + algo[1] + (' ' + algo[2] if algo[2] else '') + '\n\n')
    if perp:
        vals['perp'] = h.real('perp%d' % i, 1, 5000)
        text.append(m.PerplexityPrefix + h.text(vals['perp']) + '\n')
    for t in (m.PrecisionTitle, m.RecallTitle):
        text.append(t + '\n| Group    | Doc Count |\n|----------|---\n')
        vals[t] = {}
        for g in m.FileGroups:
            r = {m.DocCount: h.int('%s%d_n%s' % (t[0], i, g), 0, 500)}
            r.update({k: h.real('%s%d_%s_%s' % (t[0], i, g, k), 0, 1) for k in m.Ms})
            vals[t][g] = r
            text.append('| %s ' % g.replace('->', ',') + ''.join('| %s ' % h.text(r[c]) for c in m.TableTitles) + '|\n')
    for k, p in (('mrr', m.MrrPrefix), ('map', m.MapPrefix)):
        vals[k] = h.real('%s%d' % (k, i), 0, 1)
        text.append(p + h.text(vals[k]) + '\n')
    text.append('\n')
    return algo, vals, ''.join(text)


def pipeline(h, n, perp, write):
    m = h.mod('sidetopics.run.reshape_results')
    h.tokens()
    reps = [report(h, m, i, perp[i]) for i in range(n)]
    out = Out()
    m.open = lambda path, mode='r', *a, **k: out if 'w' in mode else io.StringIO('# results\n\n' + ''.join(r[2] for r in reps))
    m.print = lambda *a, **k: None
    got = m.read_all_results('in')
    h.check("one set of results for each algorithm", len(got) == n)
    for (algo, vals, _), (a, r) in zip(reps, got.items()):
        h.check("name of the algorithm", (a.algorithm, a.topicCount, a.trainingDescription) == algo)
        for t, table in ((m.PrecisionTitle, r.precs), (m.RecallTitle, r.recs)):
            for g in m.FileGroups:
                for k in m.TableTitles:
                    h.eq("figures of the table", table[g][k], vals[t][g][k])
            judge_row(h, m, table, m.Range3_up, [m.Range3_5, m.Range5_10, m.Range10_up])
            judge_row(h, m, table, m.Range5_up, [m.Range5_10, m.Range10_up])
        h.eq("mean reciprocal rank", r.mrr, vals['mrr'])
        h.eq("mean average precision", r.map, vals['map'])
        if 'perp' in vals:
            h.eq("perplexity", r.perp, vals['perp'])
        else:
            h.check("no perplexity", r.perp == -1)
    if not write:
        return
    m.write_all_results('out', got)
    rows = out.getvalue().split('\n')
    h.check("heading and one line for each algorithm, group and cut-off", len(rows) == 2 + n * len(m.FullGroups) * len(m.Ms) and rows[-1] == '')
    head = rows[0].split(',')
    h.check("columns", head == ["Algor", "TopicCount", "TrainDesc", "MRR", "MAP", "Perplexity", "Group", "M", "DocCount", "Precision", "Recall"])
    i = 1
    for algo, r in got.items():
        for g in m.FullGroups:
            for k in m.Ms:
                c = rows[i].split(',')
                i += 1
                h.check("number of columns", len(c) == 11)
                h.check("labels", c[0] == '"' + algo.algorithm.replace('"', '""') + '"' and c[1] == algo.topicCount and
                        c[2] == '"' + algo.trainingDescription + '"' and c[6] == '"' + g + '"' and c[7] == k)
                for j, x in ((3, r.mrr), (4, r.map), (8, r.precs[g][m.DocCount]), (9, r.precs[g][k]), (10, r.recs[g][k])):
                    h.eq("the figure is that of the results", h.number(c[j]), x)
                if 'perp' in reps[0][1]:
                    h.eq("the figure is that of the results", h.number(c[5]), r.perp)
                else:
                    h.check("no perplexity", c[5] == '')


def cases(tier):
    out = []
    big = tier == 'thorough'

    def add(name, f, **kw):
        opt = {k: kw.pop(k) for k in ('budget', 'timeout', 'branch_timeout') if k in kw}
        out.append(Case(name, f, kw, **opt))
    for gs in ((1,), (3,), (1, 2), (2, 2), (1, 1, 1)) + (((3, 2, 1), (1, 1, 1, 1)) if big else ()):
        add('contribs:' + ''.join(map(str, gs)), contribs, groups=gs, hi=8 if len(gs) < 3 else 5, target_hi=30)
    for gs in ((1,), (2, 1), (1, 1, 1)):
        add('contribs:wide:' + ''.join(map(str, gs)), contribs, groups=gs, hi=10 ** 6, target_hi=10 ** 7)
    for gs in ((1,), (3,), (2, 1), (0, 2)) + (((4,), (3, 2)) if big else ()):
        for o in (False, True):
            add('users:%s:%s' % (''.join(map(str, gs)), o), users, groups=gs, order=o, shared=False)
    add('users:shared', users, groups=(2, 2), order=False, shared=True)
    for lims in (False, True):
        add('read:%s:one' % lims, reading, rows=[('a', 'bob.txt')], lims=lims)
        add('read:%s:two' % lims, reading, rows=[('a', 'bob.txt'), ('a', 'bob.csv'), ('b', 'bob.txt'), ('a', 'j.r.doe.txt'), ('b', 'plain')], lims=lims)
    for k in (1, 2, 3):
        add('rollup:%d' % k, rollup, members=k, zero=True)
    for perp in ((True,), (False,)):
        add('report:%s' % perp[0], pipeline, n=1, perp=perp, write=True)
    add('reports', pipeline, n=2, perp=(True, False), write=False)
    return out
