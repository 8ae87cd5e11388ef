"""Scratch build of the real code for replays (never writes into the repository)."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

import numpy as np

RAND_C = r'''
static const int *vals; static int n, pos; static unsigned state = 12345;
void symx_set_rand(const int *v, int k, unsigned seed) { vals = v; n = k; pos = 0; state = seed; }
int rand(void) {
  if (pos < n) return vals[pos++];
  pos++;
  state = state * 1103515245u + 12345u;
  return (int)((state >> 1) & 0x7fffffff);
}
void srand(unsigned s) { }
'''


class Scratch:
    def __init__(self, repo):
        self.repo = repo
        self.dir = tempfile.mkdtemp(prefix='symx_')
        self.variants = set()
        self.errors = []
        so = os.path.join(self.dir, 'librand.so')
        with open(os.path.join(self.dir, 'r.c'), 'w') as f:
            f.write(RAND_C)
        subprocess.check_call(['gcc', '-O1', '-fPIC', '-shared', '-o', so, os.path.join(self.dir, 'r.c')])
        self.randlib = so

    def variant(self, name, fast):
        """copy the sources and compile the given modules; 'bc' turns bounds checking on"""
        root = os.path.join(self.dir, name)
        todo = []
        if name not in self.variants:
            shutil.copytree(os.path.join(self.repo, 'sidetopics'), os.path.join(root, 'sidetopics'),
                            ignore=shutil.ignore_patterns('*.so', '*.c', '*.cpp', '__pycache__', 'tests', 'old', 'notebooks'))
            self.variants.add(name)
        for f in fast:
            pyx = os.path.join(root, 'sidetopics', f + '.pyx')
            so = pyx[:-4] + '.so'
            if not os.path.exists(so) and not os.path.exists(pyx + '.failed'):
                todo.append((pyx, so, 'sidetopics.' + f.replace('/', '.')))
        if todo:
            with ThreadPoolExecutor(8) as ex:
                for e in ex.map(lambda t: self._compile(name, *t), todo):
                    if e:
                        self.errors.append(e)
        return root

    def _compile(self, variant, pyx, so, mod):
        if variant == 'bc':
            s = open(pyx).read().replace('boundscheck(False)', 'boundscheck(True)').replace('boundscheck (False)', 'boundscheck(True)')
            open(pyx, 'w').write(s)
        c = pyx[:-4] + '.c'
        r = subprocess.run([sys.executable, '-m', 'cython', '-X', 'language_level=2', '-X', 'legacy_implicit_noexcept=True',
                            '--module-name', mod, pyx, '-o', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           cwd=os.path.dirname(pyx))
        if r.returncode:
            open(pyx + '.failed', 'w').close()
            return "cython failed on %s: %s" % (mod, r.stdout.decode()[-500:])
        r = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-fno-strict-aliasing', '-fwrapv', '-fopenmp', '-w',
                            '-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(), '-I' + os.path.dirname(pyx),
                            c, '-o', so, '-lgsl', '-lgslcblas', '-lgomp', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            open(pyx + '.failed', 'w').close()
            return "gcc failed on %s: %s" % (mod, r.stdout.decode()[-500:])
        os.unlink(c)
        return None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Replayer:
    """a replay subprocess"""

    def __init__(self, scratch, variant, mods):
        env = dict(os.environ)
        env.update({'LD_PRELOAD': scratch.randlib, 'SYMX_RAND_LIB': scratch.randlib, 'PYTHONHASHSEED': '0',
                    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
                    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': ''})
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, '-m', 'symx.replay', scratch.dir, variant], cwd=here, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        import json
        self.p.stdin.write(json.dumps({'mods': list(mods)}) + "\n")
        self.p.stdin.flush()

    def run(self, job):
        import json
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'fails': [], 'error': 'replay process died', 'ran': 0}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
