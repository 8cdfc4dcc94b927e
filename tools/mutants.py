"""Mutation analysis of the checks: small automatic changes of segpy which no check notices in a short search.

    mutants.py [--files a,b] [--jobs N] [--seconds S] [--out FILE] [--sample FRACTION]

Each mutant is tried with all checks, in turn, until one reports a violation.  Survivors are printed with their diff: they
are either equivalent, in code which no property concerns, or show what the checks miss.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
FILES = ['segpy/%s.py' % x for x in (
    'reader toolkit writer util packer header catalog dataset encoding field_types datatypes ibm_float_packer trace_header '
    'binary_reel_header sorted_frozen_set reversed_sequence_view cli __main__ types').split()] + \
    ['segpy-ext/segpy_numpy/segpy_numpy/%s.py' % x for x in ('extract', 'dtypes', 'util')]
FILES = [f for f in FILES if os.path.exists('/repo/' + f)]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '//'}


def mutants(src):
    """(line, description, new source) for each mutant."""
    tree = ast.parse(src)
    lines = src.encode().splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x))
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (data[:a] + new.encode() + data[b:]).decode()))
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                doc.add(b[0])
                doc.add(b[0].value)
    in_function = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for x in ast.walk(n):
                if x is not n:
                    in_function.add(x)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'arithmetic')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(%s)' % op.join(text(v) for v in n.values), 'boolean')
            for k in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != k]
                put(n, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest), 'term dropped')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, '(not (%s))' % text(n.test), 'negated')
            if not isinstance(n, ast.While):
                put(n.test, 'True', 'always')
                put(n.test, 'False', 'never')
        elif isinstance(n, ast.Constant) and type(n.value) is int and n in in_function:
            put(n, str(n.value + 1), 'constant')
            if n.value > 0:
                put(n, str(n.value - 1), 'constant')
        elif isinstance(n, ast.Constant) and type(n.value) is bool and n in in_function:
            put(n, str(not n.value), 'constant')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, '(%s)' % text(n.operand), 'sign')
        if n in in_function and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Return, ast.Delete)):
            if not (isinstance(n, ast.Raise) and n.exc is None):
                if isinstance(n, ast.Expr) and text(n).startswith('log.'):
                    continue
                put(n, 'pass', 'removed')
        if isinstance(n, ast.Return) and n.value is not None and n in in_function:
            put(n, 'return None', 'none')
        if isinstance(n, ast.Call) and n in in_function:
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                put(n, '%s(%s, %s)' % (text(n.func), text(n.args[1]), text(n.args[0])), 'arguments swapped')
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + [(j.arg + '=' if j.arg else '**') + text(j.value) for j in n.keywords if j is not k]
                    put(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'keyword dropped')
        if isinstance(n, ast.ExceptHandler):
            a, b = span(n.body[0])[0], span(n.body[-1])[1]
            out.append((n.lineno, 'handler raises', (data[:a] + b'raise' + data[b:]).decode()))
            if n.type is not None and isinstance(n.type, ast.Tuple):
                for k in range(len(n.type.elts)):
                    put(n.type, '(%s,)' % ', '.join(text(e) for j, e in enumerate(n.type.elts) if j != k), 'exception dropped')
        if isinstance(n, ast.Try) and n.finalbody:
            a, b = span(n.finalbody[0])[0], span(n.finalbody[-1])[1]
            out.append((n.finalbody[0].lineno, 'finally removed', (data[:a] + b'pass' + data[b:]).decode()))
    seen, res = {src}, []
    for ln, what, s in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((ln, what, s))
    return res


CHILD = r'''
import os, sys, time
sys.path.insert(0, %(verif)r)
sys.argv = ['check.py']
os.environ['SIM_CHILD'] = '1'
import check
t = time.time()
order = %(order)r
i = 0
try:
    check.execute.prepare()
except BaseException as e:
    print('KILLED import %%r' %% e); sys.exit()
bad = 0
while time.time() - t < %(seconds)r:
    for p in order:
        for k, plan, r in check.plans_of(p, 7, i, 2, False):
            if r['status'] == 'violation':
                print('KILLED', p, i, k, r.get('cls'), str(r.get('text'))[:100].replace('\n', ' ')); sys.exit()
            if r['status'] not in ('ok',):
                bad += 1
                last = str(r)[:300]
                if bad > 40: print('ERRORS', p, i, k, last); sys.exit()
    i += 1
print('SURVIVED after', i, 'rounds', bad)
'''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--files')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--seconds', type=float, default=60)
    ap.add_argument('--out', default='/tmp/mutants.out')
    ap.add_argument('--sample', type=float, default=1)
    ap.add_argument('--lines')
    a = ap.parse_args()
    files = [f for f in FILES if not a.files or any(x in f for x in a.files.split(','))]
    jobs = []
    rng = random.Random(1)
    for f in files:
        src = open('/repo/' + f).read()
        for ln, what, s in mutants(src):
            if rng.random() < a.sample:
                if a.lines and not int(a.lines.split('-')[0]) <= ln <= int(a.lines.split('-')[1]):
                    continue
                jobs.append((f, ln, what, src, s))
    print(len(jobs), 'mutants', flush=True)
    out = open(a.out, 'w')

    def go(job):
        f, ln, what, src, s = job
        base = tempfile.mkdtemp(prefix='mutant-')
        try:
            copy = os.path.join(base, 'repo')
            shutil.copytree('/repo', copy, ignore=shutil.ignore_patterns('.git', 'docs', 'test'))
            open(os.path.join(copy, f), 'w').write(s)
            order = ['C%02d' % i for i in [*range(1, 20), 24, 25]]
            random.Random(ln).shuffle(order)
            first = ['C16'] if 'numpy' in f else ['C17'] if 'cli' in f or 'main' in f else ['C24'] if 'header' in f or 'field' in f else ['C05', 'C15', 'C25']
            order = first + [p for p in order if p not in first]
            env = dict(os.environ, SIM_REPO=copy, SIM_OUT=base, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            try:
                r = subprocess.run(['nice', '/opt/venv/bin/python', '-B', '-c', CHILD % dict(verif=VERIF, order=order, seconds=a.seconds)],
                                   capture_output=True, text=True, env=env, cwd=base, timeout=a.seconds * 4 + 200)
                res = (r.stdout.strip().splitlines() or ['ERRORS ' + r.stderr[-300:]])[-1]
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT'
            old, new = src.splitlines(), s.splitlines()
            import difflib
            d = [x for x in difflib.unified_diff(old, new, lineterm='', n=0) if not x.startswith(('---', '+++', '@@'))]
            return '%s:%d %s | %s | %s' % (f, ln, what, res, ' ## '.join(x.strip() if 0 else x for x in d)[:300])
        finally:
            shutil.rmtree(base, ignore_errors=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        for line in ex.map(go, jobs):
            print(line, file=out, flush=True)


if __name__ == '__main__':
    main()
