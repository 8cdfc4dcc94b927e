"""Checks that the simulator works in this sandbox, and that runs are repeatable.

The same plans are run in two fresh interpreters with different hash seeds; every trace must agree.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
EXE = VENV if os.path.exists(VENV) else sys.executable

CODE = '''
import sys, json, random
sys.path.insert(0, %r)
from sim import execute, gen
execute.prepare()
out = []
for prop in sorted(gen.GENERATORS):
    for i in range(3):
        rng = random.Random('selftest/%%s/%%d' %% (prop, i))
        plan = gen.GENERATORS[prop](rng)
        r = execute.forked(plan, 120.0)
        out.append([prop, i, r['status'], r.get('trace')])
        p = gen.place(plan, r, rng) if r['status'] == 'ok' else None
        if p is not None:
            r = execute.forked(p, 120.0)
            out.append([prop, i, r['status'], r.get('trace')])
print(json.dumps(out))
''' % HERE


def main():
    results = []
    for h in ('0', '0', '7'):
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([EXE, '-B', '-c', CODE], env=env, cwd=HERE, stdout=subprocess.PIPE)
        if r.returncode:
            print('the simulator does not work here')
            return 1
        results.append(json.loads(r.stdout))
    bad = [a for a in results[0] if a[2] == 'harness']
    for b in bad:
        print('simulator error', b)
    differ = sum(a != b for a, b in zip(results[0], results[1]))
    differ_hash = sum(a != b for a, b in zip(results[0], results[2]))
    print('%d runs repeated; %d differed; %d differed with another hash seed' % (len(results[0]), differ, differ_hash))
    return 0


if __name__ == '__main__':
    sys.exit(main())
