"""Smaller plans with the same violation."""
import copy
import time


class Minimiser:
    """Reduces a failing plan; every attempt is a complete simulated run."""

    def __init__(self, run, cls, seconds=40.0, attempts=4000):
        self.run_plan, self.cls = run, cls
        self.deadline = time.monotonic() + seconds
        self.attempts = attempts
        self.runs = 0

    def out_of_time(self):
        return time.monotonic() > self.deadline or self.runs >= self.attempts

    def fails(self, plan):
        if self.out_of_time():
            return False
        self.runs += 1
        r = self.run_plan(plan)
        return r['status'] == 'violation' and r['cls'] == self.cls

    def reduce_list(self, items, rebuild):
        """ddmin: the smallest sub-list found with which the plan still fails."""
        n = 2
        while len(items) >= 1 and not self.out_of_time():
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                if self.fails(rebuild(rest)):
                    items = rest
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def minimise(self, plan):
        plan = explicit(plan, self.run_plan(plan))
        before = None
        while not self.out_of_time() and size(plan) != before:
            before = size(plan)
            plan = self.once(plan)
        return plan

    def once(self, plan):
        plan = dict(plan)
        if plan.get('faults'):
            plan['faults'] = self.reduce_list(plan['faults'], lambda x: dict(plan, faults=x))
        plan['ops'] = self.reduce_list(plan['ops'], lambda x: dict(plan, ops=x))
        for i, op in enumerate(plan['ops']):
            if op['op'] != 'par':
                continue

            def with_op(new):
                return dict(plan, ops=plan['ops'][:i] + [new] + plan['ops'][i + 1:])
            op = dict(op)
            op['bodies'] = self.reduce_list(op['bodies'], lambda x: with_op(dict(op, bodies=x)))
            for j, b in enumerate(op['bodies']):
                def with_body(ops):
                    bodies = list(op['bodies'])
                    bodies[j] = dict(b, ops=ops)
                    return dict(op, bodies=bodies)
                op = with_body(self.reduce_list(b['ops'], lambda x: with_op(with_body(x))))
            if 'switches' in op['sched']:
                sw = self.reduce_list(op['sched']['switches'], lambda x: with_op(dict(op, sched=dict(op['sched'], switches=x))))
                op['sched'] = dict(op['sched'], switches=sw)
            plan = with_op(op)
        # datasets
        used = plan['datasets']
        for k in list(used):
            p = dict(plan, datasets={a: b for a, b in plan['datasets'].items() if a != k})
            if self.fails(p):
                plan = p
                continue
            for field, values in (('n', (0, 1, 2, 3, 4)), ('m', (0, 1, 2, 4))):
                for v in values:
                    d = plan['datasets'][k]
                    if v >= d.get(field, 0):
                        break
                    p = dict(plan, datasets=dict(plan['datasets'], **{k: dict(d, **{field: v})}))
                    if self.fails(p):
                        plan = p
                        break
        # faults which need not persist
        for i, f in enumerate(plan.get('faults') or ()):
            for field in ('persist', 'span'):
                if f.get(field):
                    g = {a: b for a, b in f.items() if a != field}
                    p = dict(plan, faults=plan['faults'][:i] + [g] + plan['faults'][i + 1:])
                    if self.fails(p):
                        plan, f = p, g
        # interrupts: without, earlier, or of the other kind
        for i, op in enumerate(plan['ops']):
            if op.get('intr'):
                n = op['intr'][0]
                for new in (None, [1, op['intr'][1]], [n // 2, op['intr'][1]], [n - 1, op['intr'][1]]):
                    if new is not None and not 0 < new[0] < n:
                        continue
                    g = {a: b for a, b in op.items() if a != 'intr'}
                    if new is not None:
                        g['intr'] = new
                    p = dict(plan, ops=plan['ops'][:i] + [g] + plan['ops'][i + 1:])
                    if self.fails(p):
                        plan = p
                        break
        # simpler operations
        for i, op in enumerate(plan['ops']):
            for field, value in (('prog', None), ('look', 'few'), ('kind', 'buf'), ('count', 1), ('limit', 4)):
                if op.get(field) not in (None, value):
                    p = dict(plan, ops=plan['ops'][:i] + [dict(op, **{field: value})] + plan['ops'][i + 1:])
                    if self.fails(p):
                        plan = p
                        op = plan['ops'][i]
        return plan


def explicit(plan, result):
    """The same plan, with every scheduling decision written out."""
    plan = copy.deepcopy(plan)
    realised = result.get('realised') or {}
    for op in plan['ops']:
        if op['op'] == 'par' and 'switches' not in op['sched']:
            sw = realised.get(str(op.get('id', 0)))
            if sw is not None:
                op['sched'] = {k: v for k, v in dict(op['sched'], switches=sw).items() if k not in ('seed', 'mode', 'p', 'depth', 'horizon')}
    return plan


def size(plan):
    import json
    return len(json.dumps(plan))
