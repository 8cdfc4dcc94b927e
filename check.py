"""Decide one property by simulation.

    check.py C05                     search; the tier is VERIF_TIER, the seed VERIF_SEED
    check.py C05 --replay FILE       repeat exactly the run described by a replay file
    check.py C05 --one INDEX         show the runs of one seed

Exit status 0: the property held in every run.  1: it did not, and there is a line
"VIOLATION property=<id> replay=<path>".  2: the simulator itself failed.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'

if os.environ.get('PYTHONHASHSEED') != '0' or (os.path.exists(VENV) and not os.environ.get('SIM_CHILD')):
    env = dict(os.environ, PYTHONHASHSEED='0', SIM_CHILD='1', PYTHONDONTWRITEBYTECODE='1')
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, '-B'] + sys.argv, env)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import argparse         # noqa: E402
import hashlib          # noqa: E402
import random           # noqa: E402
import select           # noqa: E402
import signal           # noqa: E402
import time             # noqa: E402
import traceback        # noqa: E402

from sim import execute, gen, settings        # noqa: E402
from sim.minimise import Minimiser, explicit  # noqa: E402

# where the evidence and the replay files go; elsewhere only in trials of the machinery itself
OUT = os.environ.get('SIM_OUT', HERE)


def run(plan, timeout=40.0):
    """One simulated run.  A run which does not end is tried again, as the machine may be busy."""
    r = execute.forked(plan, timeout)
    if r['status'] in ('timeout', 'died'):
        r = execute.forked(plan, 4 * timeout)
        if r['status'] in ('timeout', 'died'):
            r = dict(r, status='violation')
    return r


def plans_of(prop, seed, index, rounds, once):
    """Run the plans of one index: a generator of (number, plan, result)."""
    rng = random.Random('%s/%d/%d' % (prop, seed, index))
    plan = gen.GENERATORS[prop](rng)
    base = run(plan)
    yield 0, plan, base
    if base['status'] != 'ok':
        return
    for k in range(1, rounds + 1):
        p = gen.place(plan, base, rng)
        if p is None:
            return
        yield k, p, run(p)
        if once:
            return


class Tally:
    """What was covered."""
    NAMES = ('runs', 'faulted', 'events', 'bytes')

    def __init__(self):
        self.n = dict.fromkeys(self.NAMES, 0)
        self.simtime = 0.0
        self.fired, self.probes, self.counts, self.ops = {}, {}, {}, {}
        self.shapes = set()
        self.trivial = 0
        self.samples = []

    def add(self, plan, r):
        self.n['runs'] += 1
        self.n['faulted'] += bool(plan.get('faults') or any(o.get('intr') for o in plan['ops']))
        self.n['events'] += r.get('events', 0)
        self.n['bytes'] += r.get('bytes', 0)
        self.simtime += r.get('simtime', 0)
        for mine, his in ((self.fired, r.get('fired')), (self.probes, r.get('probes')), (self.counts, r.get('counts'))):
            for k, v in (his or {}).items():
                mine[k] = mine.get(k, 0) + v
        for o in plan['ops']:
            self.ops[o['op']] = self.ops.get(o['op'], 0) + 1
        if r.get('events', 0) < 5 and not r.get('probes'):
            self.trivial += 1
        elif r.get('shape'):
            self.shapes.add(r['shape'])
        if len(self.samples) < 2 and len(json.dumps(plan)) < 2500:
            self.samples.append(plan)

    def out(self):
        return dict(n=self.n, simtime=self.simtime, fired=self.fired, probes=self.probes, counts=self.counts, ops=self.ops,
                    shapes=sorted(self.shapes), trivial=self.trivial, samples=self.samples)

    def merge(self, o):
        for k, v in o['n'].items():
            self.n[k] += v
        self.simtime += o['simtime']
        for mine, his in ((self.fired, o['fired']), (self.probes, o['probes']), (self.counts, o['counts']), (self.ops, o['ops'])):
            for k, v in his.items():
                mine[k] = mine.get(k, 0) + v
        self.shapes |= set(o['shapes'])
        self.trivial += o['trivial']
        self.samples += o['samples']


def worker(fd, prop, seed, first, step, count, rounds, deadline):
    tally = Tally()
    done = 0
    result = None
    errors = []         # of the simulator itself; the search for violations goes on
    try:
        for index in range(first, count, step):
            if time.monotonic() > deadline:
                break
            for k, plan, r in plans_of(prop, seed, index, rounds, False):
                tally.add(plan, r)
                if r['status'] == 'harness' and len(errors) < 30:
                    errors.append(dict(index=index, k=k, plan=plan, result={x: r.get(x) for x in ('status', 'cls', 'text')}))
                    break
                if r['status'] != 'ok':
                    result = dict(index=index, k=k, plan=plan, result={x: r.get(x) for x in ('status', 'cls', 'text', 'realised', 'trace')})
                    break
            done += 1
            if result is not None:
                break
    except BaseException:
        result = dict(index=-1, k=0, plan=None, result=dict(status='harness', cls='worker', text=traceback.format_exc()[-3000:]))
    data = json.dumps(dict(done=done, found=result, errors=errors, tally=tally.out())).encode()
    while data:
        data = data[os.write(fd, data):]
    os._exit(0)


def search(prop, seed, count, rounds, wall, workers):
    """Every worker takes every so-many-th index; the violation of the smallest index is reported."""
    execute.prepare()
    deadline = time.monotonic() + wall
    pids, pipes = {}, {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                for x in pipes:
                    os.close(x)
                worker(wr, prop, seed, w, workers, count, rounds, deadline)
            finally:
                os._exit(3)
        os.close(wr)
        pipes[r] = []
        pids[r] = pid
    tally, found, done, harness = Tally(), None, 0, []
    hard = deadline + 400
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 5)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if b:
                pipes[fd].append(b)
                continue
            try:
                o = json.loads(b''.join(pipes[fd]))
            except ValueError:
                o = None
            os.close(fd)
            del pipes[fd]
            os.waitpid(pids[fd], 0)
            if o is None:
                harness.append('a worker died')
                continue
            done += o['done']
            tally.merge(o['tally'])
            harness += o['errors']
            f = o['found']
            if f is not None:
                if f['result']['status'] == 'harness':
                    harness.append(f)
                elif found is None or (f['index'], f['k']) < (found['index'], found['k']):
                    found = f
                # the others need not search for long
                deadline_now = time.monotonic() + 20
                hard = min(hard, deadline_now)
        if time.monotonic() > hard:
            for fd in list(pipes):
                try:
                    os.killpg(pids[fd], signal.SIGKILL)
                except OSError:
                    pass
                os.close(fd)
                os.waitpid(pids[fd], 0)
                del pipes[fd]
            break
    return tally, found, done, harness


def known_findings():
    """Of the file of known findings, the open ones."""
    out = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('open: '):
                fields = line[6:].split(None, 2)
                d = dict(x.split('=', 1) for x in fields[:2])
                d['what'] = fields[2].strip()
                out.append(d)
    return out


def report(prop, seed, found, harness_run=run):
    """Minimise, write the replay file, and check that it reproduces the violation."""
    plan, cls = found['plan'], found['result']['cls']
    m = Minimiser(lambda p: harness_run(p, 40.0), cls, seconds=settings.MINIMISE_SECONDS)
    # by itself, with explicit scheduling
    small = m.minimise(plan)
    small = explicit(small, harness_run(small))
    r = harness_run(dict(small, log=True))
    if r['status'] != 'violation' or r['cls'] != cls:
        small = plan
        r = harness_run(dict(small, log=True))
    name = '%s-%d-%d-%d.json' % (prop, seed, found['index'], found['k'])
    path = os.path.join(OUT, 'replays', name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, index=found['index'], run=found['k'], violation=r.get('cls'), text=r.get('text'),
                       trace=r.get('trace'), plan=small, minimiser_runs=m.runs, original=plan, log=r.get('log')), f, indent=1)
    return path, r, m.runs


def replay(path):
    with open(path) as f:
        d = json.load(f)
    execute.prepare()
    r = execute.forked(dict(d['plan'], log=True), 160.0)
    for line in r.get('log') or ():
        print(line)
    print('status %s, class %s, trace %s (recorded: class %s, trace %s)'
          % (r['status'], r.get('cls'), r.get('trace'), d.get('violation'), d.get('trace')))
    print(r.get('text') or '')
    if r['status'] == 'violation' or r['status'] == 'timeout' and d.get('violation') == 'endless':
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0 if r['status'] == 'ok' else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--count', type=int)
    ap.add_argument('--wall', type=float, default=float(os.environ.get('VERIF_WALL', 0)) or None)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    prop = a.property
    if a.replay:
        return replay(a.replay)
    started = time.monotonic()
    if a.one is not None:
        execute.prepare()
        for k, plan, r in plans_of(prop, a.seed, a.one, settings.ROUNDS.get(prop, 3), False):
            print(k, r['status'], r.get('cls'), r.get('text'), plan.get('faults'))
            if r['status'] != 'ok':
                print(json.dumps(plan))
        return 0
    count, wall = settings.budget(prop, a.tier)
    count, wall = a.count or count, a.wall or wall
    rounds = settings.ROUNDS.get(prop, 3)
    # findings which are known and not repaired
    known = 0
    for f in known_findings():
        if f['property'] != prop:
            continue
        execute.prepare()
        with open(os.path.join(HERE, f['plan'])) as fh:
            d = json.load(fh)
        r = run(d['plan'])
        if r['status'] == 'violation' and r['cls'] == d['violation']:
            known += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    tally, found, done, harness = search(prop, a.seed, count, rounds, wall, a.workers)
    searched = time.monotonic() - started
    # the same plans again: a seed is one exactly repeatable execution
    repeated = mismatched = 0
    if found is None and not harness:
        for index in range(0, min(done, 4)):
            first = [r.get('trace') for _, _, r in plans_of(prop, a.seed, index, 1, False)]
            second = [r.get('trace') for _, _, r in plans_of(prop, a.seed, index, 1, False)]
            repeated += len(first)
            mismatched += sum(x != y for x, y in zip(first, second))
    violations = []
    path = None
    if found is not None:
        path, r, minimiser_runs = report(prop, a.seed, found)
        violations.append(dict(cls=found['result']['cls'], text=(r.get('text') or '')[:2000], replay=os.path.relpath(path, OUT),
                               index=found['index'], minimiser_runs=minimiser_runs))
    wall_s = time.monotonic() - started
    hours = max(searched, 0.001) / 3600
    evidence = dict(
        property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level='exploration',
        coverage=dict(
            evaluations=tally.n['runs'],
            distinct_nontrivial=len(tally.shapes),
            rule=settings.RULE,
            samples=tally.samples[:2] or ['none small enough'],
            seeds=done,
            runs_with_faults=tally.n['faulted'],
            runs_per_hour=round(tally.n['runs'] / hours),
            seeds_per_hour=round(done / hours),
            simulated_seconds=round(tally.simtime, 1),
            file_operations=tally.n['events'],
            bytes_transferred=tally.n['bytes'],
            faults_injected=dict(sorted(tally.fired.items())),
            file_operations_by_kind=dict(sorted(tally.counts.items())),
            operations=dict(sorted(tally.ops.items())),
            probes=dict(sorted(tally.probes.items())),
            trivial_runs=tally.trivial,
            repeated_for_determinism=repeated,
            repeated_with_other_trace=mismatched,
            real_components=settings.REAL,
            stub_components=settings.STUB,
            known_findings=known,
            simulator_errors=len(harness)),
        assumptions=settings.ASSUMPTIONS,
        wall_s=round(wall_s, 2),
        violations=len(violations))
    if violations:
        evidence['coverage']['violation'] = violations
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    tmp = os.path.join(OUT, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(OUT, 'evidence', prop + '.json'))
    print('%s: %d seeds, %d runs (%d with faults), %d distinct, %.0f s' % (prop, done, tally.n['runs'], tally.n['faulted'], len(tally.shapes), wall_s))
    if found is not None:
        v = violations[0]
        print('seed %d index %d run %d: %s: %s' % (a.seed, found['index'], found['k'], v['cls'], v['text']))
        print('replay with: python3 %s %s --replay %s' % (os.path.join(HERE, 'check.py'), prop, path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if harness or mismatched:
        for h in harness:
            print('SIMULATOR ERROR', json.dumps(h)[:4000])
        if mismatched:
            print('SIMULATOR ERROR: %d of %d repeated runs differed' % (mismatched, repeated))
        return 2
    if done == 0 or not tally.shapes:
        print('SIMULATOR ERROR: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
