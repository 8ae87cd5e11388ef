#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--case REGEX] [--replay FILE]

Decides one property on the current working tree of the repository (SYMX_REPO, default /repo):
every case is explored symbolically, counterexamples are replayed on the real code built from the
same sources, and only what fails there is reported as a violation.
"""
import argparse
import warnings
warnings.filterwarnings("ignore", category=DeprecationWarning)
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for k, v in {'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
             'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0'}.items():
    if os.environ.get(k) != v:
        os.environ[k] = v
        os.environ['SYMX_REEXEC'] = '0'
if os.environ.get('SYMX_REEXEC') == '0':
    os.environ['SYMX_REEXEC'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
REPO = os.environ.get('SYMX_REPO', '/repo')
NPROC = int(os.environ.get('SYMX_PROCS', '8'))


class CaseProc:
    def __init__(self, pid, case, tier, budget):
        self.case = case
        r, w = os.pipe()
        self.r = r
        self.t0 = time.time()
        self.kill_at = self.t0 + budget + 25
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            code = 1
            try:
                from symx import harness
                res = harness.run_one((pid, case.name, tier, budget))
                with os.fdopen(w, 'w') as f:
                    json.dump(res, f, default=str)
                code = 0
            except BaseException as e:
                try:
                    with os.fdopen(w, 'w') as f:
                        json.dump({'case': case.name, 'error': "%s: %s" % (type(e).__name__, e),
                                   'trace': traceback.format_exc()[-3000:]}, f)
                except BaseException:
                    pass
            os._exit(code)
        os.close(w)
        self.buf = b''
        os.set_blocking(r, False)

    def poll(self):
        while True:
            try:
                d = os.read(self.r, 1 << 16)
            except BlockingIOError:
                break
            if not d:
                return self.finish()
            self.buf += d
        if time.time() > self.kill_at:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(self.pid, 0)
            os.close(self.r)
            return {'case': self.case.name, 'error': 'no answer within the time limit'}
        return None

    def finish(self):
        os.close(self.r)
        os.waitpid(self.pid, 0)
        try:
            return json.loads(self.buf)
        except ValueError:
            return {'case': self.case.name, 'error': 'the exploration process died'}


def blank(case, error, trace=None):
    return {'case': case, 'cands': [{'case': case, 'msg': '(not decided: %s)' % error, 'values': None, 'alt': None}],
            'inconclusive': [error], 'notes': [], 'samples': [], 'stats': {}, 'funcs': [], 'wall': 0, 'trace': trace}


def explore(pid, cases, tier, budget, hard_end):
    todo = list(cases)
    running, results = [], {}
    while todo or running:
        while todo and len(running) < NPROC:
            c = todo.pop(0)
            left = hard_end - time.time()
            if left < 5:
                results[c.name] = blank(c.name, 'not started: overall time budget exhausted')
                continue
            running.append(CaseProc(pid, c, tier, min(c.budget or budget, left)))
        time.sleep(0.02)
        for p in list(running):
            r = p.poll()
            if r is not None:
                running.remove(p)
                if 'error' in r:
                    r = blank(p.case.name, r['error'], r.get('trace'))
                    if os.environ.get('SYMX_TRACE') and r['trace']:
                        print(r['trace'])
                results[p.case.name] = r
    return [results[c.name] for c in cases]


def known_findings(pid):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) case=(\S+) fails=/(.*)/ :: (.*)$', line)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2) + r'\Z'), re.compile(m.group(3)), m.group(4)))
    return out


def compiled_closure(mods):
    """compiled modules imported, directly or not, by these modules (read off the current sources)"""
    out, seen, todo = set(), set(), list(mods)
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        base = os.path.join(REPO, *m.split('.'))
        if os.path.exists(base + '.pyx'):
            out.add('/'.join(m.split('.')[1:]))
        f = base + '.py' if os.path.exists(base + '.py') else os.path.join(base, '__init__.py')
        if not os.path.exists(f):
            continue
        for line in open(f, errors='replace'):
            r = re.match(r'\s*import\s+(sidetopics[\w.]*)', line)
            if r:
                todo.append(r.group(1))
            r = re.match(r'\s*from\s+(sidetopics[\w.]*)\s+import\s+(.*)', line)
            if r:
                todo.append(r.group(1))
                todo += [r.group(1) + '.' + n for n in re.findall(r'\w+', r.group(2))]
    return out


class Replays:
    """pool of replay processes on the real code"""

    def __init__(self, mod, fast):
        from symx import build
        self.build = build
        self.sc = build.Scratch(REPO)
        self.mods = list(getattr(mod, 'MODS', []))
        self.fast = fast
        self.lock = threading.Lock()
        self.free = {}
        self.n = 0
        self.th = threading.Thread(target=self._prep)
        self.th.start()

    def _prep(self):
        self.fast = sorted(set(self.fast) | compiled_closure(self.mods))
        self.sc.variant('n', self.fast)

    def run(self, jobs, nproc=6):
        """jobs: list of dicts with 'variant' -> list of results"""
        self.th.join()
        for v in {j.get('variant', 'n') for j in jobs}:
            self.sc.variant(v, self.fast)
        res = [None] * len(jobs)
        it = iter(range(len(jobs)))

        def work():
            mine = {}
            while True:
                with self.lock:
                    i = next(it, None)
                    self.n += 1
                if i is None:
                    break
                j = dict(jobs[i], id=i)
                v = j.pop('variant', 'n')
                if v not in mine:
                    mine[v] = self.build.Replayer(self.sc, v, self.mods)
                res[i] = mine[v].run(j)
                if res[i].get('error') == 'replay process died':
                    mine[v].close()
                    del mine[v]
            for r in mine.values():
                r.close()
        ts = [threading.Thread(target=work) for _ in range(min(nproc, max(1, len(jobs))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res

    def close(self):
        self.th.join()
        self.sc.close()


def same_obs(a, b):
    if len(a) != len(b):
        return True          # some observations are not comparable (transcendental terms)
    for (n, x), (m, y) in zip(a, b):
        if n != m or len(x) != len(y):
            return False
        for u, v in zip(x, y):
            if isinstance(u, str) or isinstance(v, str):
                continue
            if abs(u - v) > 1e-3 * (1 + abs(u)):
                return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from symx import harness
    mod = harness.load_check(pid)
    if a.replay:
        return replay_file(pid, mod, a.replay)
    cases = [c for c in mod.cases(tier) if tier in c.tiers]
    if a.case:
        cases = [c for c in cases if re.search(a.case, c.name)]
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    fast = sorted({f for c in cases for f in (c.fast or ())} | set(getattr(mod, 'FAST', ())))
    rp = Replays(mod, fast)
    try:
        return decide(a, pid, tier, seed, t0, mod, cases, rp)
    finally:
        rp.close()


def decide(a, pid, tier, seed, t0, mod, cases, rp):
    hard = t0 + float(os.environ.get('SYMX_TIME', '420' if tier == 'quick' else '2400'))
    budget = 150 if tier == 'quick' else 900
    # preload the modules so that every case process starts with them
    from symx import env
    err = None
    so = sys.stdout
    if not os.environ.get('SYMX_TRACE'):
        sys.stdout = open(os.devnull, 'w')
    try:
        for m in getattr(mod, 'MODS', []):
            env.load(m)
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.stdout = so
    if err:
        print("note: preload failed: %s" % err)
    results = explore(pid, cases, tier, budget, hard)
    t_sym = time.time() - t0

    # -- concrete side
    jobs, meta = [], []
    for c, r in zip(cases, results):
        seen = set()
        for w in r['samples']:
            if c.validate:
                jobs.append({'pid': pid, 'case': c.name, 'tier': tier, 'values': w['values'], 'seeds': [seed]})
                meta.append(('sample', c, r, w))
        for cd in r.get('probes', ()):
            jobs.append({'pid': pid, 'case': c.name, 'tier': tier, 'values': cd['values'], 'seeds': [seed]})
            meta.append(('probe', c, r, cd))
        for cd in r['cands']:
            for which in ('values', 'alt'):
                v = cd.get(which)
                if v is not None:
                    for var in (['bc', 'n'] if 'memory access' in cd['msg'] else ['n']):
                        jobs.append({'pid': pid, 'case': c.name, 'tier': tier, 'values': v, 'seeds': [seed], 'variant': var})
                        meta.append(('cand', c, r, cd))
    res = rp.run(jobs)
    nprobe = sum(1 for x in meta if x[0] == 'probe')
    viol, disagree = [], []
    traces = 0
    confirmed = {}
    bad_cases = {}
    samples_out = []
    for (kind, c, r, x), j, o in zip(meta, jobs, res):
        if kind == 'sample':
            if o.get('fails'):
                bad_cases.setdefault(c.name, []).append(('a sampled model', o['fails']))
            elif o.get('ran') and same_obs(x['obs'], o.get('obs') or []):
                traces += 1
                if len(samples_out) < 6:
                    samples_out.append({'case': c.name, 'values': x['values'], 'observed': (o.get('obs') or [])[:3]})
            elif o.get('ran'):
                disagree.append("%s: the encoding and the code disagree on a sampled input: %s / %s" % (
                    c.name, str(x['obs'])[:300], str(o.get('obs'))[:300]))
            elif o.get('skipped'):
                disagree.append("%s: a sampled input does not satisfy the assumptions in floating point" % c.name)
            else:
                disagree.append("%s: replay of a sampled input failed: %s" % (c.name, o.get('error') or o.get('signal')))
        else:
            if o.get('fails'):
                if not confirmed.get((c.name, x['msg'])):
                    confirmed[(c.name, x['msg'])] = True
                    viol.append((c.name, x['msg'], o['fails'][0], j, o.get('seed', seed)))
    # candidates whose model did not reproduce, undecided cases, disagreements: random inputs on the real code
    jobs, meta = [], []
    spurious = []
    hit = {v[0] for v in viol}
    for c, r in zip(cases, results):
        left = [cd for cd in r['cands'] if not confirmed.get((c.name, cd['msg']))]
        for cd in left:
            if cd['values'] is not None:
                spurious.append("%s: a model of '%s' does not reproduce on the real code %s" % (c.name, cd['msg'], str(cd['values'])[:200]))
        if (left or r['inconclusive'] or c.name in bad_cases) and c.name not in hit:
            bc = any('memory access' in cd['msg'] for cd in left)
            for k in range(6):
                jobs.append({'pid': pid, 'case': c.name, 'tier': tier, 'values': None, 'timeout': 20,
                             'seeds': [1000 * seed + 8 * k + i for i in range(8)], 'variant': 'bc' if bc and k % 2 else 'n'})
                meta.append((c, r))
    res = rp.run(jobs)
    for (c, r), j, o in zip(meta, jobs, res):
        if o.get('fails') and c.name not in hit:
            hit.add(c.name)
            why = (r['cands'][0]['msg'] if r['cands'] else (r['inconclusive'] or ['?'])[0])
            viol.append((c.name, why, o['fails'][0], j, o.get('seed', seed)))
    for n, l in bad_cases.items():
        if n not in hit:
            disagree.append("%s: %s fails on the real code although the solver refutes it: %s" % (n, l[0][0], str(l[0][1])[:300]))

    # -- report
    known = known_findings(pid)
    nviol = 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    reported, kreported = [], []
    for name, msg, (fmsg, detail), j, sd in viol:
        text = "%s" % fmsg
        kf = [t for cr, fr, t in known if cr.match(name) and fr.search(fmsg)]
        if kf:
            if kf[0] not in kreported:
                kreported.append(kf[0])
                print("KNOWN-FINDING: property=%s %s [case %s: %s]" % (pid, kf[0], name, fmsg))
            continue
        path = os.path.join(HERE, 'evidence', 'replay_%s_%d.json' % (pid, nviol))
        json.dump({'property': pid, 'case': name, 'claim': msg, 'fails': fmsg, 'detail': detail, 'values': j['values'],
                   'seeds': [sd], 'variant': j.get('variant', 'n'), 'tier': tier}, open(path, 'w'), indent=1, default=str)
        nviol += 1
        reported.append(name)
        if nviol <= 8 or a.v:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   case %s: %s %s" % (name, fmsg, str(detail)[:400]))
    S = {}
    for r in results:
        for k, v in r['stats'].items():
            S[k] = max(S.get(k, 0), v) if k == 'max_query' else S.get(k, 0) + v
    inc = ["%s: %s" % (r['case'], i) for r in results for i in r['inconclusive']]
    funcs = sorted({f for r in results for f in r['funcs']})
    notes = sorted({n for r in results for n in r['notes']})
    inc += [x for x in spurious if x.split(': a model')[0] not in hit]
    undecided = [r['case'] for r in results if r['inconclusive']]
    undecided += sorted({x.split(': a model')[0] for x in spurious} - hit - set(undecided))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': S.get('paths', 0), 'transitions': S.get('decisions', 0),
            'traces_validated_against_impl': traces, 'samples': samples_out or [{'case': c.name} for c in cases[:3]],
            'exhaustive': not inc,
            'meaning': 'states = symbolic paths executed, transitions = path decisions, traces = solver models replayed on the compiled code with equal results',
            'cases': [{'case': r['case'], 'params': {k: str(v)[:80] for k, v in c.params.items()}, 'paths': r['stats'].get('paths', 0),
                       'obligations': r['stats'].get('obligations', 0), 'seconds': round(r['wall'], 1),
                       'decided': not r['inconclusive']} for c, r in zip(cases, results)],
            'functions_encoded': funcs,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'obligations': S.get('obligations', 0), 'discharged': S.get('discharged', 0),
            'obligations_submitted_to_solver': S.get('proved', 0),
            'solver_queries': S.get('queries', 0), 'solver_seconds': round(S.get('time', 0), 2),
            'longest_query_seconds': round(S.get('max_query', 0), 2), 'solver_unknown': S.get('unknown', 0),
            'infeasible_paths': S.get('infeasible', 0), 'reachability_witnesses': S.get('reach', 0),
            'inconclusive': inc[:60], 'models_not_reproduced': spurious[:30], 'inputs_at_singular_points_replayed': nprobe, 'disagreements': disagree[:30],
            'known_findings_seen': kreported, 'build_errors': rp.sc.errors,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + notes + [
            'numbers are exact reals in the encoding; rounding is only seen in the replays',
            'exp, log, sqrt, arctan and special functions are uninterpreted with algebraic axioms'],
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    if not a.no_evidence and not a.case:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d obligations (%d by solver query), %d queries %.1fs solver, %d traces validated, "
          "%d undecided, %d violations, %.1fs (symbolic %.1fs)" % (
              pid, tier, len(cases), S.get('paths', 0), S.get('obligations', 0), S.get('proved', 0), S.get('queries', 0), S.get('time', 0),
              traces, len(undecided), nviol, time.time() - t0, t_sym))
    for e in rp.sc.errors:
        print("build error: " + e)
    for i in inc[:20 if not a.v else 200]:
        print("  inconclusive: " + i[:400])
    for d in disagree[:10] + spurious[:20]:
        print("  note: " + d[:600])
    if a.v:
        for r in results:
            print("  ", r['case'], r['stats'].get('paths'), "paths", r['stats'].get('obligations'), 'obl', "%.1fs" % r['wall'],
                  [cd['msg'] for cd in r['cands']])
    if nviol:
        return 1
    if results and len(undecided) == len(results) and not traces:
        return 2
    return 0


def replay_file(pid, mod, path):
    d = json.load(open(path))
    case = [c for c in mod.cases(d['tier']) if c.name == d['case']][0]
    rp = Replays(mod, sorted(set(case.fast or ()) | set(getattr(mod, 'FAST', ()))))
    try:
        o = rp.run([{'pid': pid, 'case': d['case'], 'tier': d['tier'], 'values': d['values'], 'seeds': d['seeds'], 'variant': d['variant']}])[0]
    finally:
        rp.close()
    print(json.dumps(o, indent=1, default=str))
    return 1 if o.get('fails') else 0


if __name__ == '__main__':
    sys.exit(main())
