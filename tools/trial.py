"""Try the checks against planted bugs, in scratch copies of /repo.

    trial.py [--props C01,C02] [--wall S] [--workers N] [--par N] ids or patch files...

By default each bug is tried with the check of its own property.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(HERE, 'planted'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--props')
    ap.add_argument('--wall', default=None)
    ap.add_argument('--workers', default='8')
    ap.add_argument('--par', type=int, default=1)
    ap.add_argument('--seed', default='1')
    a = ap.parse_args()
    from specs import SPECS
    specs = {s['id']: s for s in SPECS}
    ids = a.ids or sorted(specs)
    jobs = [(i, p) for i in ids for p in (a.props.split(',') if a.props else [i[:3]])]

    def go(job):
        i, p = job
        base = tempfile.mkdtemp(prefix='trial-')
        try:
            copy = os.path.join(base, 'repo')
            subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
            if i in specs:
                for path, old, new in specs[i]['edits']:
                    f = os.path.join(copy, path)
                    s = open(f).read()
                    assert s.count(old) == 1, (i, path)
                    open(f, 'w').write(s.replace(old, new))
            elif os.path.exists(i):
                subprocess.run(['git', '-C', copy, 'apply', os.path.abspath(i)], check=True)
            else:
                subprocess.run(['git', '-C', copy, 'apply', os.path.join(VERIF, 'seeded', i, 'patch.diff')], check=True)
            t = time.time()
            env = dict(os.environ, SIM_REPO=copy, SIM_OUT=base, VERIF_SEED=a.seed)
            cmd = [sys.executable, os.path.join(VERIF, 'check.py'), p, '--workers', a.workers] + (['--wall', a.wall] if a.wall else [])
            r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=base)
            line = next((x for x in r.stdout.splitlines() if x.startswith('seed ')), '') or next((x for x in r.stdout.splitlines() if 'ERROR' in x), '')
            return '%-28s %s exit %d %4.0f s  %s' % (i, p, r.returncode, time.time() - t, (line or r.stdout[-200:] + r.stderr[-300:] if r.returncode else '')[:170])
        finally:
            shutil.rmtree(base, ignore_errors=True)
    with ThreadPoolExecutor(a.par) as ex:
        for line in ex.map(go, jobs):
            print(line, flush=True)


if __name__ == '__main__':
    main()
