"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import ast, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(HERE, 'tools', 'na.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(HERE, 'checks', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        b = ''
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
                b = ast.literal_eval(n.value)
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % i,
                           thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % i,
                           technique="symbolic execution of the repository's own code (Python, and Cython from source) with SMT (z3, cvc5) deciding every path and assertion",
                           level="model_checking",
                           level_note="Bounded: " + b + ". Every value within the bounds is covered by the solver, over exact real arithmetic; models are replayed on the compiled code. "
                           "Trusted: the symbolic interpreter in /verif/symx and its stand-ins for numpy, scipy.sparse and random generators."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); import symx, z3\"", checks=checks, not_applicable=na,
               notes="run.py PROPERTY [--tier quick|thorough] [--case REGEX] [--replay FILE]; SYMX_REPO points the checks at another tree"),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
