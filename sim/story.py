"""The interpreter of plans: a plan is a list of operations by simulated users and processes.

Operations which refer to something absent do nothing, so that any sub-list of a plan is a
plan too; the minimiser relies on this.
"""
import copy
import gc
import io
import json
import os
import pickle
import random
import re
import sys
import _thread

from . import handles, model, ref
from .fs import SimBudget, SimCrash
from .headerops import HeaderOps
from .moreops import MoreOps
from .refusals import Refusals
from .world import InjectedInterrupt, InjectedMemoryError, Sched, Violation

W = '/sim/work/'
SOFT = ('short', 'partial')


def other_version(cur, rng):
    """Another version number of the same length: an older or newer one, a digit of which differs, or any."""
    digits = [k for k, c in enumerate(cur) if chr(c).isdigit()]
    r = rng.random()
    if r < 0.4 and digits:
        k = digits[-1]
    elif r < 0.8 and digits:
        k = rng.choice(digits)
    else:
        other = bytes(reversed(cur))
        return other if other != cur else b'9' * len(cur)
    return cur[:k] + str((int(chr(cur[k])) + rng.choice([1, 9])) % 10).encode() + cur[k + 1:]


class Abort(Exception):
    """Raised by progress callbacks and datasets of users."""


class AbortBase(BaseException):
    pass


EXCEPTIONS = {'Abort': Abort, 'AbortBase': AbortBase, 'OSError': OSError, 'ValueError': ValueError,
              'TypeError': TypeError, 'EOFError': EOFError, 'KeyError': KeyError, 'AttributeError': AttributeError,
              'KeyboardInterrupt': KeyboardInterrupt, 'PicklingError': pickle.PicklingError,
              'RuntimeError': RuntimeError, 'AssertionError': AssertionError, 'IndexError': IndexError,
              'MemoryError': MemoryError, 'UnicodeError': UnicodeError,
              'ImportError': ImportError, 'SystemExit': SystemExit, 'struct.error': __import__('struct').error,
              'FileNotFoundError': FileNotFoundError, 'BlockingIOError': BlockingIOError}


# Which fail to load for reasons of all kinds
UNLOADABLE = [b'\x80\x04\x8d' + b'\xff' * 8, b'\x80\x04\x95' + b'\xff' * 8, b'\x80\x04\x8e' + (2 ** 62).to_bytes(8, 'little'),
              b'coperator\ntruediv\n(I1\nI0\ntR.', b'cstruct\nStruct\n(V!bad\ntR.', b'ccodecs\nlookup\n(Vnothing\ntR.', b'X\x02\x00\x00\x00\xff\xfe.',
              b'cbuiltins\ncompile\n(V(\nVx\nVexec\ntR.', b'cnowhere\nnothing\n.', b'.', b'0.', b'(', b'I1\n', b'I1x\n.', b'h\x05.']


class H:
    """An open reader and what is known of it."""

    def __init__(self, proc, path, fh, data, opts, kind, cache):
        self.proc, self.path, self.fh, self.data, self.opts, self.kind, self.cache = proc, path, fh, data, opts, kind, cache
        self.reader = None
        self.fresh = None
        self.dim = None
        self.own_fh = True
        self.node = None
        self.cwd = None          # where its name, if relative, is meaningful
        self.given = []          # (query, object handed out, its canonical form then)


class Story(HeaderOps, Refusals, MoreOps):
    def __init__(self, world, plan):
        self.w, self.plan = world, plan
        self.fs = world.fs
        self.checks = set(plan.get('checks', ['data']))
        self.oracle = plan.get('oracle', 'fresh')
        self.procs = {}
        self.h = {}
        self.pickles = {}
        self.specs = {}
        self.parsed_cache = {}
        self.effect = {}
        self.realised = {}
        self.hooks = {}
        names = {o.get('cache') for o in self.all_ops(plan['ops'])}
        world.cache_dirs = sorted({n for n in names if n and n.startswith('/')} | {'/sim/cold'})
        world.cache_names = {'.segpy'} | {n.lstrip('./').split('/')[0] for n in names if n and not n.startswith('/')}
        self.strict_unclosed = not plan.get('faults') and not any(o.get('intr') for o in self.all_ops(plan['ops']))

    @classmethod
    def all_ops(cls, ops):
        for o in ops:
            yield o
            for b in o.get('bodies', ()):
                yield from cls.all_ops(b['ops'])

    # ---- basics ---------------------------------------------------------------------------
    def run(self):
        if self.plan.get('count_lines'):
            sys.settrace(self.w.line_counter())
        try:
            self.run_ops()
        finally:
            sys.settrace(None)

    def run_ops(self):
        for op in self.plan['ops']:
            self.step(op)

    def step(self, op):
        fn = getattr(self, 'op_' + op['op'])
        self.w.note('op', json.dumps(op, sort_keys=True) if self.w.log is not None else op['op'])
        intr = op.get('intr')
        if intr:
            self.w.intr[_thread.get_ident()] = list(intr)
        try:
            fn(op)
        except SimCrash:
            self.died()
        except (InjectedInterrupt, InjectedMemoryError):
            if not intr:
                raise
            self.w.probe('interrupted')
        finally:
            if intr:
                self.w.intr.pop(_thread.get_ident(), None)

    def died(self):
        p = self.w.cur
        p.dead = True
        p.depth = 0
        self.w.probe('process_crash')
        self.drop_proc(p)

    def drop_proc(self, p):
        for k in [k for k, h in self.h.items() if h.proc is p]:
            del self.h[k]

    def proc(self, n=0):
        p = self.procs.get(n)
        if p is None or p.dead:
            if self.w.next_slot >= len(self.w.slots.slots) - 1:
                return None
            p = self.procs[n] = self.w.spawn()
        self.w.enter(p)
        return p

    def fail(self, cls, text):
        raise Violation(cls, text)

    def spec(self, k):
        k = str(k)
        if k not in self.specs:
            d = self.plan['datasets'].get(k)
            self.specs[k] = model.expand(d) if d is not None else None
        return self.specs[k]

    def parse(self, data, opts):
        key = (data, opts.encoding, opts.endian, opts.th, opts.brh, opts.dim)
        if key not in self.parsed_cache:
            self.parsed_cache[key] = model.Parsed(data, opts)
        return self.parsed_cache[key]

    def oracle_slot(self):
        return self.w.slots.slots[-1]

    def in_oracle(self, fn):
        """Run library code in a process of its own, without events or faults."""
        back = self.w.slots.current
        cur, depth = self.w.cur, self.w.cur.depth if self.w.cur else 0
        if cur is not None:
            cur.depth = 0
        self.w.slots.enter(len(self.w.slots.slots) - 1)
        try:
            return fn(self.oracle_slot())
        finally:
            if cur is not None:
                cur.depth = depth
            if back is not None:
                self.w.slots.enter(back)

    def fresh(self, h):
        if h.fresh is None:
            h.fresh = self.in_oracle(lambda s: ref.Fresh(s, h.data, h.opts))
        return h.fresh

    # ---- files -----------------------------------------------------------------------------
    def op_put(self, o):
        s = self.spec(o['ds'])
        if s is None:
            return
        data = model.encode_file(s)
        if o.get('cut') is not None:
            data = data[:int(len(data) * o['cut'])] if isinstance(o['cut'], float) else data[:o['cut']]
        path = W + o['path']
        old = self.fs.nodes.get(path)
        if old is not None and old.kind == 'd':
            return
        if o.get('inplace') and old is not None:
            self.stale(old)
            old.data[:] = data
            old.durable = bytes(data)
            if not o.get('keep_mtime'):
                old.mtime = self.fs.clock
        else:
            n = self.fs.put(path, data)
            if o.get('keep_mtime') and old is not None:
                n.mtime = old.mtime

    def stale(self, node):
        """The bytes under open readers change: what they then return is not specified."""
        for k in [k for k, h in self.h.items() if h.node is node]:
            del self.h[k]

    def op_edit(self, o):
        """Modify a stored file in place, leaving it valid if it was."""
        path = W + o['path']
        n = self.fs.nodes.get(path)
        if n is None or n.kind != 'f':
            return
        opts = model.Opts.of(o.get('opts', {}))
        p = self.parse(bytes(n.data), opts)
        rng = random.Random(o['seed'])
        what = o['what']
        data = bytearray(n.data)
        if what == 'flip':
            if data:
                for _ in range(o.get('count', 1)):
                    i = rng.randrange(len(data))
                    data[i] ^= 1 << rng.randrange(8)
        elif what == 'bytes':
            if data:
                i = rng.randrange(len(data))
                data[i:i + rng.choice([1, 2, 4, 16])] = rng.randbytes(rng.choice([1, 2, 4, 16]))
        elif what == 'trunc':
            data = data[:rng.randrange(len(data) + 1)]
        elif what == 'zero':
            if data:
                i = rng.randrange(len(data))
                k = rng.choice([1, 4, 240, 3200])
                data[i:i + k] = bytes(len(data[i:i + k]))
        elif what == 'extend':
            data += rng.choice([bytes(rng.randint(1, 300)), rng.randbytes(rng.randint(1, 300))])
        elif p.verdict != 'ok':
            return
        elif what == 'text':
            data[rng.randrange(3200)] = rng.choice(model._COMMON).encode(p.encoding)[0]
        elif what == 'reelfield':
            # a valid value in a field of the binary reel header; or another format of the same width
            special = ('num_extended_textual_headers', 'data_sample_format', 'num_samples', 'format_revision_num')
            f = rng.choice([f for f in model.LAYOUTS[opts.brh]['fields'] if f[0] not in special])
            v = model._value(f, rng)
            if rng.random() < 0.3 and p.width == 4:
                f = model.field_map(opts.brh)['data_sample_format']
                v = model.FORMATS[rng.choice(['ibm', 'int32', 'float32'])]
            self.poke(data, 3200 + f[1], f, v, opts.endian)
        elif what == 'ext' and p.first_trace > 3600:
            i = 3600 + rng.randrange(p.first_trace - 3600)
            if i < len(data):
                data[i] = rng.choice(model._COMMON).encode(p.encoding)[0]
        elif what == 'last' and p.num_traces:
            pos, ns = p.traces[-1]
            if ns and p.fmt != 'float32':
                k = pos + 240 + ns * p.width - 1
                if k < len(data):
                    data[k] ^= 1
        elif what == 'sample' and p.num_traces:
            i = rng.choice([0, p.num_traces - 1, rng.randrange(p.num_traces)])
            pos, ns = p.traces[i]
            if ns:
                k = pos + 240 + rng.randrange(ns) * p.width + (p.width - 1 if p.fmt != 'float32' else 3)
                if k < len(data):
                    data[k] ^= 1 + rng.randrange(3)
        elif what == 'field' and p.num_traces:
            i = rng.choice([0, p.num_traces - 1, rng.randrange(p.num_traces)])
            f = rng.choice([f for f in model.LAYOUTS[opts.th]['fields'] if f[0] != 'num_samples'])
            v = model._value(f, rng)
            self.poke(data, p.traces[i][0] + f[1], f, v, opts.endian)
        elif what == 'pokereel':
            # any value at all in a field of the binary reel header
            f = rng.choice(model.LAYOUTS[opts.brh]['fields'])
            if rng.random() < 0.5:
                f = model.field_map(opts.brh)[rng.choice(['num_extended_textual_headers', 'data_sample_format', 'num_samples',
                                                          'format_revision_num'])]
            self.poke(data, 3200 + f[1], f, self.any_value(f, rng), opts.endian)
        elif what == 'poke' and p.num_traces:
            i = rng.randrange(p.num_traces)
            f = rng.choice(model.LAYOUTS[opts.th]['fields'])
            if rng.random() < 0.4:
                f = model.field_map(opts.th)['num_samples']
            self.poke(data, p.traces[i][0] + f[1], f, self.any_value(f, rng), opts.endian)
        elif what == 'cdp' and p.num_traces:
            i = rng.randrange(p.num_traces)
            f = model.field_map(opts.th)['ensemble_num']
            self.poke(data, p.traces[i][0] + f[1], f, rng.choice([rng.randint(0, 30), p.cdps[rng.randrange(p.num_traces)]]), opts.endian)
        elif what == 'line' and p.num_traces and p.has_lines:
            i = rng.randrange(p.num_traces)
            f = model.field_map(opts.th)[rng.choice(['inline_number', 'crossline_number'])]
            self.poke(data, p.traces[i][0] + f[1], f, rng.randint(0, 3000), opts.endian)
        elif what == 'swaptraces' and p.num_traces > 1:
            a, b = rng.sample(range(p.num_traces), 2)
            if p.traces[a][1] == p.traces[b][1]:
                size = 240 + p.traces[a][1] * p.width
                pa, pb = p.traces[a][0], p.traces[b][0]
                data[pa:pa + size], data[pb:pb + size] = bytes(data[pb:pb + size]), bytes(data[pa:pa + size])
        elif what == 'drop' and p.num_traces:
            data = data[:p.traces[-1][0]]
        elif what == 'append' and p.num_traces:
            pos, ns = p.traces[-1]
            data += data[pos:pos + 240 + ns * p.width]
        self.stale(n)
        n.data[:] = data
        n.durable = bytes(data)
        if not o.get('keep_mtime'):
            n.mtime = self.fs.clock

    @staticmethod
    def any_value(f, rng):
        bits = 8 * model.SIZE[f[2]]
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        return rng.choice([lo, hi, -1, 0, 1, 2, 3, 240, rng.randint(-50, 50), rng.randint(lo, hi)])

    def op_junk(self, o):
        rng = random.Random(o['seed'])
        n = o['size']
        style = o['style']
        data = {'zero': bytes(n), 'ff': b'\xff' * n, 'random': rng.randbytes(n), 'text': b'some other kind of file\n' * (n // 24 + 1),
                'ascii3200': b'C 1 text'.ljust(3200) + rng.randbytes(n)}[style]
        self.fs.put(W + o['path'], data[:n] if style != 'ascii3200' else data[:max(n, 3200)])

    def op_samefile(self, o):
        a, b = self.fs.get(W + o['a']), self.fs.get(W + o['b'])
        if a is not None and b is not None and a != b:
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            self.fail('not-the-original', 'after conversion and back, byte %d of %s differs from %s' % (k, o['a'], o['b']))

    def op_chdir(self, o):
        if self.fs.exists(o['path']):
            self.fs.cwd = o['path']

    def op_iq(self, o):
        """A query of the indexes."""
        h = self.h.get(o.get('h', 0))
        if h is None:
            return
        p = self.parse(h.data, h.opts)
        if p.verdict != 'ok':
            return
        rng = random.Random(o['seed'])
        what = o['what']
        if what in ('keys', 'near'):
            pool = (p.keys if h.dim == 3 else p.cdps) or [(1, 1) if h.dim == 3 else 1]
            picks = pool if o.get('all') else [rng.choice(pool) for _ in range(3)]
            for k in picks:
                if what == 'near':
                    d = rng.choice([1, -1, 2, 1000, 2 ** 31, -2 ** 31])
                    k = (k[0] + d, k[1]) if h.dim == 3 and rng.random() < 0.5 else ((k[0], k[1] + d) if h.dim == 3 else k + d)
                for q in ('has', 'ti') if rng.random() < 0.5 else ('ti', 'has'):
                    self.query(h, [q, k])
        elif what == 'nts':
            if p.num_traces:
                self.query(h, ['nts', rng.randrange(p.num_traces)])
        elif what == 'iter':
            self.query(h, ['idx'])
        elif what == 'lines':
            self.query(h, ['lines', rng.randrange(6)])
        else:
            self.query(h, [what])

    def op_hcopy(self, o):
        """A modified copy of a header does not change what is read later."""
        h = self.h.get(o.get('h', 0))
        if h is None or h.proc.dead or h.fh.closed:
            return
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict != 'ok' or not parsed.num_traces:
            return
        self.w.enter(h.proc)
        rng = random.Random(o['seed'])
        i = rng.randrange(parsed.num_traces)
        fields = [f for f in model.LAYOUTS[h.opts.th]['fields'] if f[0] not in model.ambiguous(h.opts.th)]
        f = rng.choice(fields)
        try:
            with self.w.lib(h.proc):
                obj = h.reader.trace_header(i)
                c = obj.copy(**{f[0]: model._value(f, rng)})
        except SimBudget:
            raise
        except Exception:
            return
        h.given.append(('th', i, c, ref.header_dict(c, list(model.field_map(h.opts.th))), list(model.field_map(h.opts.th))))
        self.query(h, ['th', i])
        self.check_given(h)

    def op_lazy(self, o):
        """Iterators obtained earlier, consumed while other queries are made."""
        h = self.h.get(o.get('h', 0))
        if h is None or h.proc.dead or h.fh.closed:
            return
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict != 'ok' or not parsed.num_traces:
            return
        self.w.enter(h.proc)
        rng = random.Random(o['seed'])
        try:
            its = [iter(h.reader.trace_indexes()) for _ in range(2)]
        except Exception:
            return
        got = [[], []]
        for _ in range(parsed.num_traces * 2):
            k = rng.randrange(2)
            for x in its[k]:
                got[k].append(x)
                break
            if rng.random() < 0.3:
                self.query(h, ref.random_query(parsed, h.opts.th, rng))
        for k in (0, 1):
            got[k] += list(its[k])
            if got[k] != list(range(parsed.num_traces)):
                self.fail('wrong-idx', 'trace_indexes() gave %r' % got[k])

    @staticmethod
    def poke(data, pos, f, v, endian):
        if pos + model.SIZE[f[2]] <= len(data):
            data[pos:pos + model.SIZE[f[2]]] = int(v).to_bytes(model.SIZE[f[2]], 'big' if endian == '>' else 'little',
                                                               signed=v < 0)

    def op_cp(self, o):
        data = self.fs.get(W + o['a'])
        if data is not None and not (W + o['b'] in self.fs.nodes and self.fs.nodes[W + o['b']].kind == 'd'):
            self.fs.put(W + o['b'], data)

    def op_mv(self, o):
        if W + o['a'] in self.fs.nodes and o['a'] != o['b']:
            self.fs.move(W + o['a'], W + o['b'])

    def op_rm(self, o):
        self.fs.remove(W + o['path'])

    def op_chmod(self, o):
        n = self.fs.nodes.get(self.abspath(o['path']))
        if n is not None:
            n.perm = o['mode']

    @staticmethod
    def abspath(p):
        return p if p.startswith('/') else W + p

    def op_mkfile(self, o):
        """Something which is not a directory, where a directory is expected; or a user's file."""
        p = self.abspath(o['path'])
        if p not in self.fs.nodes:
            self.fs.put(p, b'notes\n')

    def op_mkdir(self, o):
        p = self.abspath(o['path'])
        if p not in self.fs.nodes:
            self.fs.mkdirs(p)

    # ---- cache damage -----------------------------------------------------------------------
    def entries(self):
        return [p for p in self.fs.listing() if self.fs.nodes[p].kind == 'f' and self.w.classify(p) == 'cache']

    def op_damage(self, o):
        es = self.entries()
        if not es:
            return
        rng = random.Random(o['seed'])
        p = es[o['sel'] % len(es)]
        n = self.fs.nodes[p]
        what = o['what']
        d = bytes(n.data)
        if what == 'trunc':
            d = d[:rng.randrange(len(d) + 1)] if d else d
            if d == bytes(n.data):
                d = d[:-1]
        elif what == 'empty':
            d = b''
        elif what == 'zero':
            d = bytes(len(d))
        elif what == 'zerotail':
            k = rng.randrange(len(d) + 1) // 512 * 512
            d = d[:k] + bytes(len(d) - k)
        elif what == 'garbage':
            # not a loadable pickle: never the beginning of one
            first = rng.choice(b'\x00\xfe\xff<')
            d = bytes([first]) + rng.randbytes(rng.choice([0, 3, 100, max(0, len(d) - 1)]))
        elif what == 'text':
            d = b'<html>404</html>\n'
        elif what == 'version':
            cur = self.w.slots.slots[0].segpy.__version__.encode()
            other = other_version(cur, rng)
            places = [m.start() for m in re.finditer(re.escape(cur), d)]
            if not places:
                return
            for k in places:
                d = d[:k] + other + d[k + len(cur):]
            if rng.random() < 0.7:
                # it kept other things under these names, or the same under other names
                for a in re.findall(rb'_[a-z_]*(?:catalog|length|encoding|endian|headers|numbers|format_class|samples)', d):
                    if rng.random() < 0.3:
                        d = d.replace(a, a[:-1] + b'x')
        elif what == 'class':
            for a, b in ((b'segpy.reader', b'segpy.readex'), (b'SegYReader', b'SegYReaduh'), (b'segpy.packer', b'segpy.pakker')):
                if a in d and rng.random() < 0.6:
                    d = d.replace(a, b)
                    break
            else:
                d = d.replace(b'segpy', b'segpi')
        elif what == 'flip':
            for _ in range(rng.choice([1, 1, 2, 5])):
                if d:
                    k = rng.randrange(len(d))
                    d = d[:k] + bytes([rng.choice([d[k] ^ 1 << rng.randrange(8), rng.randrange(256)])]) + d[k + 1:]
        elif what == 'format':
            # the description of the layout of headers which an entry contains
            places = [m for m in re.finditer(rb'[<>][0-9a-zA-Z]{20,}', d)]
            if places:
                m = rng.choice(places)
                k = rng.randrange(m.start() + 1, m.end())
                d = d[:k] + rng.choice([b'!', b'y', b' ', b'\xc3', b'\xff', b'\0']) + d[k + 1:]
        elif what == 'odd':
            d = rng.choice(UNLOADABLE)
        elif what == 'rm':
            del self.fs.nodes[p]
            return
        elif what == 'dir':
            del self.fs.nodes[p]
            self.fs.mkdirs(p)
            return
        elif what == 'chmod':
            n.perm = rng.choice([0, 0o200, 0o400])
            return
        if self.loadable(d):
            return
        n.data = bytearray(d)
        n.durable = bytes(d)
        self.w.probe('damaged_' + what)

    def loadable(self, d):
        """Does this still load?  Entries which do are outside what is specified."""
        def attempt(slot):
            # wherever the file which it names may be by then
            slot.reader.open = lambda *a, **k: io.BytesIO()
            try:
                pickle.loads(d)
                return True
            except Exception:
                return False
            finally:
                del slot.reader.open
        return self.in_oracle(attempt)

    def op_foreign(self, o):
        """Files of others in the cache directory."""
        d = self.abspath(o['dir'])
        if d in self.fs.nodes and self.fs.nodes[d].kind != 'd':
            return
        self.fs.put(d + '/' + o['name'], o.get('content', 'foreign').encode())

    # ---- processes -----------------------------------------------------------------------------
    def op_restart(self, o):
        """The process ends in an orderly way; a new one takes its place."""
        p = self.procs.pop(o.get('p', 0), None)
        if p is not None:
            self.drop_proc(p)
            p.dead = True

    def op_power(self, o):
        for p in list(self.procs.values()):
            p.dead = True
            self.drop_proc(p)
        self.procs.clear()
        if self.w.cur is not None:
            self.w.cur.dead = True
        fates = self.fs.power_loss(random.Random(o['seed']))
        for f in fates:
            self.w.probe('power_loss_' + f)

    # ---- opening --------------------------------------------------------------------------------
    def make_progress(self, spec, stored=None):
        """(callback, record)"""
        if spec is None:
            return None, None
        rec = dict(values=[], raised=None, stored=[])

        def callback(v):
            rec['values'].append(v)
            rec['stored'].append(stored() if stored is not None else 1 << 60)
            if spec.get('raise') == len(rec['values']):
                rec['raised'] = EXCEPTIONS[spec['exc']]('from the callback')
                raise rec['raised']
        return callback, rec

    def op_open(self, o):
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        path = W + o['path']
        n = self.fs.nodes.get(path)
        if n is None or n.kind != 'f' or not n.perm & 0o400:
            return
        kind = o.get('kind', 'buf')
        if kind == 'rw' and not n.perm & 0o200:
            kind = 'buf'
        data = bytes(n.data)
        fh = handles.open_for_reading(self.fs, path, kind, o.get('hseed', o.get('seed', 0)))
        h = H(p, path, fh, data, model.Opts.of(o.get('opts', {})), kind, o.get('cache', '.segpy'))
        h.node = None if kind in ('bytesio', 'gzip') else n
        h.cwd = self.fs.cwd if kind == 'relname' else None
        self.open_on(h, o)

    def op_share(self, o):
        """Another reader of the same handle, perhaps with other options."""
        a = self.h.get(o['of'])
        if a is None or a.proc.dead or a.fh.closed:
            return
        self.w.enter(a.proc)
        a.fh.seek(0)
        h = H(a.proc, a.path, a.fh, a.data, model.Opts.of(o.get('opts', {})), a.kind, o.get('cache', '.segpy'))
        h.node, h.cwd = a.node, a.cwd
        self.open_on(h, o)

    def cache_arg(self, cache):
        return cache

    def open_on(self, h, o):
        p, slot = h.proc, h.proc.slot
        callback, rec = self.make_progress(o.get('prog'))
        before = self.before()
        got = None
        if 'bounded' in self.checks:
            size = len(h.data)
            self.w.max_events = self.w.events + 1000 + size // 10
            self.w.max_lines = self.w.lines + 200000 + 100 * size
        try:
            with self.w.lib(p):
                h.reader = ref.create(slot, h.fh, h.opts, h.cache, callback)
            got = 'v', None
        except (SimCrash,):
            h.reader = None
            self.after_crash(before, o)
            raise
        except SimBudget:
            self.fail('endless', 'opening does not end')
        except BaseException as e:
            e.__traceback__ = None
            if e.__context__ is not None:
                e.__context__.__traceback__ = None
            got = 'e', e
        hard = [f for f in p.fired if f[0] not in SOFT]
        seg = [f for f in hard if f[2] != 'cache']
        self.w.note('open', h.path, got[0], type(got[1]).__name__)
        self.w.probe('open_ok' if got[0] == 'v' else 'open_raised')
        if h.fh.closed:
            if 'files' in self.checks or 'progress' in self.checks:
                self.fail('handle-closed', 'create_reader() closed the handle it was given')
            return
        parsed = self.parse(h.data, h.opts)
        # -- abort by the callback
        if rec is not None and rec['raised'] is not None:
            self.w.probe('callback_raised')
            if 'progress' in self.checks:
                if got[0] == 'v':
                    self.fail('callback-swallowed', 'the progress callback raised %s at call %d but create_reader() returned'
                              % (type(rec['raised']).__name__, len(rec['values'])))
                if got[1] is not rec['raised'] and not hard:
                    self.fail('callback-changed', 'the progress callback raised %r but create_reader() raised %r'
                              % (rec['raised'], got[1]))
                self.check_progress(rec['values'], None)
            self.after(before, h, o)
            if o.get('again'):
                h.fh.seek(0)
                self.open_on(h, dict(o, prog={}, again=False))
            return
        if rec is not None and 'progress' in self.checks:
            self.check_progress(rec['values'], got[0] == 'v')
        # -- outcome
        if got[0] == 'e' and 'bounded' in self.checks and not hard:
            self.ordinary(got[1], 'opening')
        if got[0] == 'e':
            if not seg and 'data' in self.checks:
                if parsed.verdict == 'ok' or parsed.verdict == 'any':
                    if self.oracle == 'model' and parsed.verdict == 'ok' or self.fresh(h).error is None:
                        if not hard and rec is not None and isinstance(got[1], Violation):
                            raise got[1]
                        self.fail('open-failed', 'opening %s (%s, cache %r) raised %r, but %s'
                                  % (h.path, h.kind, h.cache, got[1],
                                     'only cache operations failed: %s' % (hard,) if hard else 'nothing failed'))
                    self.w.probe('dismissed')
            self.after(before, h, o)
            if seg and o.get('retry', 0) is not False and int(o.get('retry') or 0) < 4:
                self.w.probe('open_retried')
                h.fh.seek(0)
                self.open_on(h, dict(o, retry=int(o.get('retry') or 0) + 1))
            return
        if parsed.verdict == 'error' and 'data' in self.checks:
            if self.oracle == 'model' or self.fresh(h).error is not None:
                if not self.plan.get('lenient_errors'):
                    self.fail('opened-invalid', 'opening %s succeeded, though %s' % (h.path, parsed.why))
            self.w.probe('dismissed')
        h.dim = ref.reader_kind(slot, h.reader)
        if hard:
            self.w.probe('opened_despite_faults')
        # (unpickling opens and positions another handle of the file, of which errors are to be tolerated, but does not read)
        if 'errors' in self.checks and any(f[1] in ('read', 'seek', 'tell') if h.cache is None else f[1] == 'read' for f in seg):
            self.fail('error-swallowed', 'create_reader() returned a reader although %r' % (seg,))
        self.after(before, h, o)
        self.h[o.get('h', 0)] = h
        look = o.get('look', 'some')
        if look != 'none':
            self.look(h, random.Random(o.get('seed', 0) ^ 0x10), {'some': 6, 'all': 10 ** 6, 'few': 2}[look])

    def ordinary(self, e, what):
        if isinstance(e, (MemoryError, RecursionError, SystemError)) or not isinstance(e, Exception):
            self.fail('extraordinary-error', '%s raised %r' % (what, e))

    def check_progress(self, values, success):
        last = None
        for v in values:
            if not (isinstance(v, (int, float)) or hasattr(v, '__float__')) or not 0 <= v <= 1:
                self.fail('progress-range', 'progress of %r reported; all: %r' % (v, values[-8:]))
            if last is not None and v < last:
                self.fail('progress-decreased', 'progress fell from %r to %r' % (last, v))
            last = v
        if success:
            if not values:
                self.fail('progress-absent', 'progress was never reported')
            if values[-1] != 1:
                self.fail('progress-incomplete', 'the last progress reported was %r' % values[-1])

    # ---- invariants on files and handles ------------------------------------------------------
    def before(self):
        if 'files' not in self.checks:
            return None
        return {p: (n.kind, n.perm, n.ino, n.mtime if n.kind == 'f' else None,
                    bytes(n.data) if n.kind == 'f' else None) for p, n in self.fs.nodes.items()}

    def user_files(self):
        """Raw files which the user holds open."""
        return len(self.fs.open_files)

    def allowed(self, h):
        """(cache directory, names of entries) which opening h may create, replace or remove."""
        if h is None or h.cache is None:
            return None, set()
        d = h.cache if h.cache.startswith('/') else None
        if d is None and h.kind in ('bytesio', 'nameless', 'iname'):
            # relative to the directory of a file whose name is not known
            return None, set()
        if d is None:
            d = os.path.normpath(os.path.join(os.path.dirname(h.path), h.cache))
        return d, self.entry_names(h)

    def entry_names(self, h):
        """The names the library itself gives to the cache entries for this content and options."""
        key = (h.data, repr(sorted(vars(h.opts).items())), h.path)
        if key not in self.effect:
            d = '/sim/probe/%d' % len(self.effect)

            def attempt(slot):
                from . import fs as simfs
                self.fs.put(d + '/x.sgy', h.data)
                fh = simfs.open_handle(self.fs, d + '/x.sgy', 'rb')
                try:
                    ref.create(slot, fh, h.opts, d + '/cache')
                except Exception:
                    pass
                fh.close()
                names = [p.rsplit('/', 1)[1] for p in self.fs.listing(d + '/cache') if self.fs.nodes[p].kind == 'f']
                self.fs.remove(d)
                return set(names)
            saved = self.fs.mutations
            self.effect[key] = self.in_oracle(attempt)
            self.fs.mutations = saved
        return self.effect[key]

    def after_crash(self, before, o):
        if before is not None:
            self.compare(before, None, o, crashed=True)

    def after(self, before, h, o, reader_open=True):
        if before is None:
            return
        self.compare(before, h, o)
        gc.collect()
        if self.strict_unclosed and self.fs.unclosed:
            self.fail('unclosed', 'left to the garbage collector to close: %r' % self.fs.unclosed)
        self.fs.unclosed.clear()
        held = set()
        for x in list(self.h.values()) + [h]:
            if x is not None and x.fh is not None:
                held.update(self.raws(x.fh))
        for raw in self.fs.open_files:
            if raw not in held and not raw._of.harness and not raw._of.dead():
                self.fail('leak', 'left open: %s' % raw._of.path)

    @staticmethod
    def raws(fh):
        out, seen = [], 0
        x = fh
        while x is not None and seen < 6:
            out.append(x)
            x = getattr(x, 'raw', None) or getattr(x, '_raw', None) or getattr(x, 'fileobj', None) or getattr(x, 'myfileobj', None)
            seen += 1
        return [r for r in out if type(r).__name__ == 'SimRaw']

    def compare(self, before, h, o, crashed=False):
        now = self.before()
        d, names = None, set()
        if o.get('op') in ('open', 'share') and o.get('cache', '.segpy') is not None:
            cache = o.get('cache', '.segpy')
            if h is not None:
                d, names = self.allowed(h)
            else:
                path = W + o.get('path', 'x')
                d = cache if cache.startswith('/') else os.path.normpath(os.path.join(os.path.dirname(path), cache))
                names = None
        elif o.get('op') == 'cli':
            d, names = os.path.dirname(W + o['path']) + '/.segpy', None
        self.no_changes(before, now, d, names)

    def no_changes(self, before, now, d, names):
        for p in sorted(set(before) | set(now)):
            if p.startswith('/sim/probe'):
                continue
            a, b = before.get(p), now.get(p)
            if a == b:
                continue
            inside = d is not None and p.startswith(d + '/')
            if a is None:
                if inside or d is not None and (d == p or d.startswith(p + '/')) and b[0] == 'd':
                    continue
                self.fail('created', '%s was created' % p)
            if inside and (names is None or p[len(d) + 1:] in names or any(p[len(d) + 1:].startswith(x) for x in names)):
                continue
            if b is None:
                self.fail('deleted', '%s was deleted' % p)
            what = [k for k, (x, y) in zip(('kind', 'mode', 'identity', 'time', 'content'), zip(a, b)) if x != y]
            if a[0] == 'd' and what == ['time']:
                continue
            self.fail('modified', '%s of %s changed' % (', '.join(what), p))

    # ---- queries -----------------------------------------------------------------------------------
    def names(self, h):
        return list(model.field_map(h.opts.th)), list(model.field_map(h.opts.brh))

    def want(self, h, q):
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict != 'ok':
            f = self.fresh(h)
            if f.error is not None:
                return '?', None
            return self.as_want(self.in_oracle(lambda s: f.answer(q)))
        return ref.expected(parsed, q, h.dim)

    @staticmethod
    def as_want(got):
        return ('e', 'any') if got[0] == 'e' else got

    def query(self, h, q, keep=False):
        """Make one query, with retries after faults; returns the observation or None."""
        p = h.proc
        if p.dead or h.fh is not None and h.fh.closed:
            return None
        self.w.enter(p)
        q = ref.resolve_query(q, h.dim)
        th, brh = self.names(h)
        want = self.want(h, q)
        if 'bounded' in self.checks:
            size = len(h.data)
            self.w.max_events = self.w.events + 1000 + size // 10
            self.w.max_lines = self.w.lines + 200000 + 100 * size
        for attempt in range(4):
            before = self.before()
            try:
                with self.w.lib(p):
                    got = ref.observe(p.slot, h.reader, q, th, brh)
            except SimBudget:
                self.fail('endless', 'query %r does not end' % q)
            hard = [f for f in p.fired if f[0] not in SOFT and f[2] != 'cache']
            self.w.note('q', q, got[0])
            if before is not None:
                self.after(before, h, {'op': 'q'})
            if hard:
                self.w.probe('query_fault')
                if got[0] == 'v' and 'data' in self.checks and not ref.agree(got, want):
                    self.differs(h, q, got, want, 'although %r' % (hard,))
                if got[0] == 'v' and 'errors' in self.checks and any(f[1] in ('read', 'seek', 'tell') for f in hard):
                    self.fail('error-swallowed', 'query %r returned an answer although %r' % (q, hard))
                if got[0] == 'e' and attempt < 3:
                    continue
                return got
            break
        if got[0] == 'e' and 'bounded' in self.checks and not hard:
            self.ordinary(got[1], 'query %r' % q)
        if 'data' in self.checks and not ref.agree(got, want):
            self.differs(h, q, got, want, 'after a failed attempt' if attempt else '')
        if attempt:
            self.w.probe('retry_ok')
        return got

    def differs(self, h, q, got, want, note):
        if self.oracle != 'model':
            f = self.fresh(h)
            if f.error is None:
                fresh = self.in_oracle(lambda s: f.answer(q))
                if ref.same_outcome(got, fresh) and (want[0] != 'e' or want[1] != 'eof'
                                                     or agree_eof(got) == agree_eof(fresh)):
                    self.w.probe('dismissed')
                    if os.environ.get('SIM_SHOW_DISMISSED'):
                        print('DISMISSED', q, got, want, file=sys.stderr)
                    return
                want = fresh
        if want[0] == 'e' and got[0] == 'e':
            cls = 'wrong-error-' + q[0]
        else:
            cls = ('raised-' if got[0] == 'e' else 'wrong-') + q[0]
        self.fail(cls, 'query %s on %s (%s, opts %s, cache %r) %s: got %s, expected %s'
                  % (q, h.path, h.kind, {k: v for k, v in vars(h.opts).items() if v}, h.cache, note, short(got), short(want)))

    def look(self, h, rng, limit):
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict == 'ok':
            qs = ref.full_queries(parsed, h.opts.th, rng, limit)
        else:
            qs = [[k] for k in ('kind', 'nt', 'idx', 'max', 'text', 'reel', 'ext', 'dim', 'fmt', 'index')]
            qs += [['th', 0], ['ts', 0, None, None]]
        rng.shuffle(qs)
        only = self.plan.get('queries')
        for q in qs:
            if only is not None and q[0] not in only:
                continue
            self.query(h, q)
            if h.proc.dead:
                return

    def op_q(self, o):
        h = self.h.get(o.get('h', 0))
        if h is None:
            return
        if 'q' in o:
            qs = [o['q']]
        else:
            rng = random.Random(o['seed'])
            parsed = self.parse(h.data, h.opts)
            if parsed.verdict != 'ok':
                return
            qs = [ref.random_query(parsed, h.opts.th, rng) for _ in range(o.get('count', 1))]
        for q in qs:
            self.query(h, q)

    def op_look(self, o):
        h = self.h.get(o.get('h', 0))
        if h is not None:
            self.look(h, random.Random(o.get('seed', 0)), o.get('limit', 10 ** 6))

    def op_move(self, o):
        """Some other user of the handle moves its position, or reads from it."""
        h = self.h.get(o.get('h', 0))
        if h is None or h.fh is None or h.fh.closed or h.proc.dead:
            return
        self.w.enter(h.proc)
        rng = random.Random(o['seed'])
        r = rng.random()
        if r < 0.2:
            h.fh.seek(0, 2)
        elif r < 0.3:
            h.fh.seek(len(h.data) + 1000)
        else:
            h.fh.seek(rng.randrange(len(h.data) + 1))
        if rng.random() < 0.5:
            h.fh.read(rng.randint(0, 500))

    def op_close(self, o):
        h = self.h.pop(o.get('h', 0), None)
        if h is not None and h.fh is not None and not h.proc.dead:
            self.w.enter(h.proc)
            for k in [k for k, x in self.h.items() if x.fh is h.fh]:
                del self.h[k]
            h.reader = None
            h.fh.close()

    # ---- objects which were handed out -----------------------------------------------------------------
    def op_take(self, o):
        """Keep what a query returned; it must not change later."""
        h = self.h.get(o.get('h', 0))
        if h is None or h.proc.dead or h.fh.closed:
            return
        self.w.enter(h.proc)
        rng = random.Random(o['seed'])
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict != 'ok' or not parsed.num_traces:
            return
        i = rng.randrange(parsed.num_traces)
        th = list(model.field_map(h.opts.th))
        what = rng.choice(['th', 'ts'])
        try:
            with self.w.lib(h.proc):
                if what == 'th':
                    obj = h.reader.trace_header(i)
                    form = ref.header_dict(obj, th)
                else:
                    obj = h.reader.trace_samples(i)
                    form = [float(x) for x in obj]
        except SimBudget:
            self.fail('endless', 'query does not end')
        except Exception:
            return
        if o.get('mutate'):
            # the caller does as it likes with its own copy
            try:
                if what == 'th':
                    names = [n for n in th if n not in model.ambiguous(h.opts.th)]
                    f = model.field_map(h.opts.th)[rng.choice(names)]
                    setattr(obj, f[0], model._value(f, rng))
                elif len(obj):
                    k = rng.randrange(len(obj))
                    obj[k] = obj[rng.randrange(len(obj))] if rng.random() < 0.5 else type(obj[k])(1)
                    if rng.random() < 0.3 and hasattr(obj, 'clear'):
                        obj.clear()
                    elif rng.random() < 0.3 and hasattr(obj, 'pop'):
                        obj.pop()
            except Exception:
                return
            self.query(h, ['th', i])
            self.query(h, ['ts', i, None, None])
        else:
            h.given.append((what, i, obj, form, th))
        self.check_given(h)

    def check_given(self, h):
        for what, i, obj, form, th in h.given:
            now = ref.header_dict(obj, th) if what == 'th' else [float(x) for x in obj]
            if not ref.same(now, form):
                self.fail('changed-later', 'the %s of trace %d, handed out earlier, changed'
                          % ('header' if what == 'th' else 'samples', i))

    def op_given(self, o):
        h = self.h.get(o.get('h', 0))
        if h is not None and not h.proc.dead:
            self.w.enter(h.proc)
            self.check_given(h)

    # ---- pickling ----------------------------------------------------------------------------------------
    def op_pickle(self, o):
        h = self.h.get(o.get('h', 0))
        if h is None or h.proc.dead or h.fh.closed:
            return
        self.w.enter(h.proc)
        proto = o.get('proto', 4)
        named = h.kind not in ('bytesio', 'iname', 'nameless')
        if o.get('closed'):
            self.op_close_keep(h)
        try:
            with self.w.lib(h.proc):
                b = pickle.dumps(h.reader, proto)
            got = 'v', b
        except SimBudget:
            self.fail('endless', 'pickling does not end')
        except Exception as e:
            e.__traceback__ = None
            got = 'e', e
        hard = [f for f in h.proc.fired if f[0] not in SOFT]
        self.w.note('pickle', got[0])
        if o.get('closed'):
            for k in [k for k, x in self.h.items() if x.fh is h.fh]:
                del self.h[k]
            if got[0] == 'v':
                self.fail('pickled-closed', 'a reader with a closed file was pickled')
            return
        if got[0] == 'v':
            if not named:
                self.fail('pickled-nameless', 'a reader of a handle without a name (%s) was pickled' % h.kind)
            self.pickles[o['k']] = (b, h.path, h.data, h.opts, h.kind, h.dim, h.cwd)
            self.w.probe('pickled')
        elif named and not hard:
            self.fail('pickle-failed', 'pickling a reader (%s) raised %r' % (h.kind, got[1]))
        # the original still answers
        self.query(h, ['nt'])

    def op_close_keep(self, h):
        h.fh.close()

    def op_unpickle(self, o):
        k = self.pickles.get(o['k'])
        if k is None:
            return
        b, path, data, opts, kind, dim, cwd = k
        if cwd is not None and cwd != self.fs.cwd:
            return                 # a relative name means another file there
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        n = self.fs.nodes.get(path)
        present = n is not None and n.kind == 'f' and bool(n.perm & 0o400)
        if present and kind in ('rw', 'pyfile') and not n.perm & 0o200:
            present = None          # it need not be opened for writing, but may be
        if kind == 'gzip':
            present = None          # another kind of file object: it is unspecified whether it can be restored
        elif present and bytes(n.data) != data:
            return                 # the file has been modified: unspecified
        if o.get('version'):
            cur = self.w.slots.slots[0].segpy.__version__.encode()
            other = other_version(cur, random.Random(o.get('seed', 0)))
            places = [m.start() for m in re.finditer(re.escape(cur), b)]
            if not places:
                self.fail('no-version', 'the pickled state of a reader does not identify the version')
            for i in places:
                b = b[:i] + other + b[i + len(cur):]
        # a new version of a layer, or a damaged state, must be noticed
        if o.get('trunc'):
            b = b[:int(len(b) * o['trunc'])]
        try:
            with self.w.lib(p):
                r = pickle.loads(b)
            got = 'v', r
        except SimBudget:
            self.fail('endless', 'unpickling does not end')
        except Exception as e:
            e.__traceback__ = None
            got = 'e', e
        hard = [f for f in p.fired if f[0] not in SOFT]
        self.w.note('unpickle', got[0], type(got[1]).__name__)
        if got[0] == 'e':
            if present and not hard and not o.get('version') and not o.get('trunc'):
                self.fail('unpickle-failed', 'unpickling a reader raised %r' % (got[1],))
            return
        if o.get('version'):
            self.fail('unpickled-version', 'the state of another version was unpickled')
        if present is False:
            self.fail('unpickled-missing', 'a reader was unpickled although %s cannot be opened' % path)
        if present is None:
            return
        h = H(p, path, getattr(r, '_fh', None), data, opts, 'unpickled', None)
        h.reader = r
        h.node, h.cwd = n, cwd
        if h.fh is None:
            h.fh = io.BytesIO()
        h.dim = ref.reader_kind(p.slot, r)
        if h.dim != dim:
            self.fail('unpickled-kind', 'a reader of dimensionality %d was unpickled as %d' % (dim, h.dim))
        self.h[o.get('h', 0)] = h
        self.w.probe('unpickled')
        self.look(h, random.Random(o.get('seed', 0)), o.get('limit', 8))

    def op_hpickle(self, o):
        """A header goes to another process by pickle, or is copied."""
        h = self.h.get(o.get('h', 0))
        if h is None or h.proc.dead or h.fh.closed:
            return
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict != 'ok':
            return
        self.w.enter(h.proc)
        rng = random.Random(o['seed'])
        if o.get('what') == 'reel':
            obj, names = h.reader.binary_reel_header, list(model.field_map(h.opts.brh))
        else:
            if not parsed.num_traces:
                return
            i = rng.randrange(parsed.num_traces)
            try:
                with self.w.lib(h.proc):
                    obj = h.reader.trace_header(i)
            except Exception:
                return
            names = list(model.field_map(h.opts.th))
        form = ref.header_dict(obj, names)
        extra = None
        if o.get('attr'):
            obj.user_note = extra = 'a note'
        for how in ('copy', 'deepcopy', 'method'):
            try:
                c = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'method': lambda x: x.copy()}[how](obj)
            except Exception as e:
                self.fail('header-copy', '%s of a %s raised %r' % (how, type(obj).__name__, e))
            if ref.header_dict(c, names) != form or type(c) is not type(obj):
                self.fail('header-copy', '%s of a %s differs' % (how, type(obj).__name__))
            f = rng.choice(names)
            if how == 'method':
                fm = model.field_map(h.opts.brh if o.get('what') == 'reel' else h.opts.th)[f]
                if f not in model.ambiguous(h.opts.th):
                    v = model._value(fm, rng)
                    c2 = obj.copy(**{f: v})
                    want = dict(form, **{f: v})
                    if ref.header_dict(c2, names) != want or ref.header_dict(obj, names) != form:
                        self.fail('header-copy', 'copy(%s=%r) differs' % (f, v))
        try:
            b = pickle.dumps(obj, rng.choice([2, 3, 4, 5]))
        except Exception as e:
            self.fail('header-pickle', 'pickling a %s raised %r' % (type(obj).__name__, e))
        del obj
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        try:
            c = pickle.loads(b)
        except Exception as e:
            self.fail('header-pickle', 'unpickling a header raised %r' % e)
        if ref.header_dict(c, names) != form:
            bad = [n for n in names if int(getattr(c, n)) != form[n]]
            self.fail('header-pickle', 'fields %s of a %s changed by pickling' % (bad[:5], type(c).__name__))
        if extra is not None and getattr(c, 'user_note', None) != extra:
            self.w.probe('note_lost')
        self.w.probe('header_pickled')

    # ---- cache effectiveness -----------------------------------------------------------------------------
    def op_effective(self, o):
        """After a complete open, the next one must use the cache."""
        path = W + o['path']
        n = self.fs.nodes.get(path)
        if n is None or n.kind != 'f':
            return
        opts = model.Opts.of(o.get('opts', {}))
        parsed = self.parse(bytes(n.data), opts)
        if parsed.verdict != 'ok' or parsed.num_traces < 6:
            return
        cache = o.get('cache', '.segpy')

        def reads(c):
            p = self.proc(o.get('p', 0))
            if p is None:
                return None
            fh = handles.open_for_reading(self.fs, path, 'raw')
            a = sum(v for k, v in self.w.counts.items() if k in ('segy.read', 'segy.seek'))
            try:
                with self.w.lib(p):
                    ref.create(p.slot, fh, opts, c)
            except SimBudget:
                self.fail('endless', 'opening does not end')
            except Exception as e:
                if not p.fired:
                    self.fail('open-failed', 'opening %s raised %r' % (path, e))
                return None
            finally:
                if not p.dead:
                    fh.close()
            if p.fired:
                return None
            return sum(v for k, v in self.w.counts.items() if k in ('segy.read', 'segy.seek')) - a
        if reads(cache) is None:
            return
        cold = reads('/sim/cold/%d' % self.w.events)
        warm = reads(cache)
        if cold is None or warm is None:
            return
        self.w.probe('effective_checked')
        if warm >= cold:
            self.fail('cache-ineffective', 'the cache %r is not used: an open after a complete open made %d requests of the '
                      'file, no fewer than one with an empty cache (%d)' % (cache, warm, cold))

    # ---- several processes at once ---------------------------------------------------------------------------
    def op_par(self, o):
        bodies = []
        for b in o['bodies']:
            if o.get('threads'):
                base = self.proc(0)
                p = None if base is None else self.w.spawn(like=base)
            else:
                p = self.proc(b['p'])
            if p is None:
                continue
            self.procs[b['p']] = p
            bodies.append((p, b['ops']))
        if not bodies:
            return
        sched = Sched(self.w, o['sched'])

        def make(ops):
            def body(p):
                for x in ops:
                    if p.dead:
                        return
                    try:
                        self.step(x)
                    except Violation as v:
                        p.violation = v
                        raise
            return body
        try:
            sched.run([(p, make(ops)) for p, ops in bodies])
        finally:
            if o.get('threads'):
                for b in o['bodies']:
                    p = self.procs.pop(b['p'], None)
                    if p is not None:
                        self.drop_proc(p)
            self.realised[o.get('id', 0)] = sched.switches if sched.explicit is None else o['sched']['switches']
            self.w.probe('switches', len(sched.switches))


def agree_eof(x):
    return x[0] == 'e' and isinstance(x[1], EOFError)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'
