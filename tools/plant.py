"""Tries planted bugs: applies each patch to a scratch copy mounted over /repo in a private mount namespace, builds, runs the
demonstration, the stable tests and (with --checks) the check of its property.
usage: plant.py [--checks] [--no-tests] id..."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = r'''
mount --bind {d} /repo && mount --bind {vp} /opt/vp || exit 99
cd /repo
bash {demo}/demo.sh > {log}.clean 2>&1; echo "clean demo: $?"
git -C /repo apply {patch} || exit 98
bash /opt/vp/build.sh > {log}.build 2>&1; echo "build: $?"
timeout 300 bash {demo}/demo.sh > {log}.demo 2>&1; echo "demo: $?"
if [ {tests} = 1 ]; then
bash /opt/vp/test.sh {log}.json > {log}.test 2>&1
/opt/venv/bin/python - <<'P'
import json
s = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open('{log}.json'))['passed']
print('lost tests:', [x for x in s if x not in o])
P
fi
if [ {checks} = 1 ]; then
cd {v}; for p in {props}; do timeout 900 /opt/venv/bin/python run.py $p --no-evidence > {log}.$p 2>&1; echo "check $p: $?"; grep -m2 VIOLATION {log}.$p; done
fi
'''
args = [a for a in sys.argv[1:] if not a.startswith('--')]
for i in args:
    s = os.path.join(V, 'seeded', i)
    props = [json.load(open(s + '/meta.json'))['property']]
    d, vp, demo = '/tmp/plant_%s' % i, '/tmp/plantvp_%s' % i, '/tmp/plantdemo_%s' % i
    for x in (d, vp, demo):
        shutil.rmtree(x, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run(['cp', '-a', '/opt/vp', vp], check=True)
    shutil.copytree(s, demo)
    sc = SCRIPT.format(d=d, vp=vp, demo=demo, log='/tmp/plantlog_' + i, patch=s + '/patch.diff', v=V, props=' '.join(props),
                       tests=0 if '--no-tests' in sys.argv else 1, checks=1 if '--checks' in sys.argv else 0)
    r = subprocess.run(['unshare', '-m', 'bash', '-c', sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('==', i, props, r.returncode, '\n   ' + r.stdout.strip().replace('\n', '\n   '), flush=True)
    for x in (d, vp, demo):
        shutil.rmtree(x, ignore_errors=True)
