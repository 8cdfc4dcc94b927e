"""Further operations of plans: writing, command line, array extraction, threads."""
import array
import gc
import io
import json
import os
import posixpath
import random
import sys
import weakref

from . import handles, model, ref
from .fs import SimBudget, SimCrash
from .world import Violation

W = '/sim/work/'
SOFT = ('short', 'partial')
UNBUFFERED = ('raw', 'short', 'pyfile', 'none', 'bytesio')


class Tracked(list):
    """A list which can be referred to weakly."""


class Lazy:
    """A sequence whose items are made when they are asked for."""

    def __init__(self, n, make):
        self.n, self.make = n, make

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if not 0 <= i < self.n:
            raise IndexError(i)
        return self.make(i)


def spec_from(p):
    """The dataset which a file encodes, or None if it does not encode one."""
    if p.verdict != 'ok' or p.tail is not None:
        return None
    headers, samples, raw = [], [], []
    try:
        for i in range(p.num_traces):
            headers.append(p.header(i))
            s = p.samples(i)
            if s is None:
                return None
            samples.append(s)
            pos, ns = p.traces[i]
            raw.append(p.data[pos + 240:pos + 240 + ns * p.width])
    except model.Bad:
        return None
    if p.fmt == 'float32' and any(v != v for s in samples for v in s):
        return None
    return dict(fmt=p.fmt, enc=p.encoding, endian=p.opts.endian, th=p.opts.th, brh=p.opts.brh, headers=headers,
                samples=samples, reel=p.reel, text=list(p.text), ext=[list(x) for x in p.ext],
                raw=raw if p.fmt == 'ibm' else None)


def change(fmt, how):
    """A function from samples to samples, exact in every format."""
    if how == 'half' and fmt in ('int32', 'int16', 'int8'):
        return lambda v: v // 2
    if how == 'negate' and fmt in ('ibm', 'float32'):
        return lambda v: -v if v else v
    return lambda v: v


def overlaid(spec, ov):
    """The dataset as modified by an overlay."""
    s = dict(spec)
    if ov.get('scale'):
        f = change(spec['fmt'], ov['scale'])
        s['samples'] = [[f(v) for v in t] for t in spec['samples']]
        s['raw'] = None
    if ov.get('shift_field'):
        s['headers'] = [dict(h, **{ov['shift_field']: h[ov['shift_field']] + ov['shift']}) for h in spec['headers']]
    if ov.get('text'):
        s['text'] = ov['text']
    return s


def trace_ends(spec, order):
    """Offsets at which each trace, in the order of writing, ends."""
    pos = 3600 + 3200 * len(spec['ext'])
    ends = []
    for i in order:
        pos += 240 + len(spec['samples'][i]) * model.WIDTH[spec['fmt']]
        ends.append(pos)
    return ends


def in_array(values, fmt, how):
    """Samples as programs keep them: in arrays of the type of the format, or of a wider one."""
    code = {'ibm': 'f', 'float32': 'f', 'int32': 'i', 'int16': 'h', 'int8': 'b'}[fmt]
    if fmt == 'ibm' or how == 'wide':
        code = 'd' if code == 'f' else 'q'
    if how == 'array':
        return array.array(code, values)
    import numpy
    return numpy.array(values, code)


class MoreOps:
    # ---- datasets -------------------------------------------------------------------------
    def mem_dataset(self, slot, spec, encoding, recorder=None, lazy=None, order=None, kept=None):
        u = slot.user
        reel = u.REEL_FORMATS[spec['brh']](**spec['reel'])
        cls = u.TRACE_FORMATS[spec['th']]
        n = len(spec['headers'])
        ibm = spec['fmt'] == 'ibm' and spec.get('raw')

        def header(i):
            h = cls(**spec['headers'][i])
            if lazy is not None:
                lazy('header', i, h)
            return h

        def samples(i):
            if ibm:
                from_bytes = slot.mods_ibm.from_bytes
                s = Tracked(from_bytes(spec['raw'][i][k:k + 4]) for k in range(0, len(spec['raw'][i]), 4))
            else:
                s = in_array(spec['samples'][i], spec['fmt'], kept) if kept else Tracked(spec['samples'][i])
            if lazy is not None:
                lazy('samples', i, s)
            return s
        if lazy is not None:
            headers, data = Lazy(n, header), Lazy(n, samples)
        else:
            headers, data = [header(i) for i in range(n)], [samples(i) for i in range(n)]
        d = u.MemDataset(spec['text'], reel, spec['ext'], headers, data, encoding, 0, recorder)
        if order is not None:
            d.order = list(order)
        if encoding is None and n % 2:
            d.encoding = None
        return d

    def overlay(self, slot, source, spec, ov, recorder):
        return slot.user.Overlay(source, change(spec['fmt'], ov['scale']) if ov.get('scale') else None,
                                 ov.get('shift_field'), ov.get('shift', 0), ov.get('text'), recorder)

    # ---- writing -----------------------------------------------------------------------------
    def op_scale(self, o):
        """The work of opening and asking grows in proportion to the number of traces."""
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        work = []
        # Comparisons of numbers with header fields are work too, and some loops of them have no source line
        fields = [c for c in vars(p.slot.field_types).values() if isinstance(c, type) and issubclass(c, int)]
        w = self.w

        def __eq__(a, b):
            w.lines += 1
            if w.lines > w.max_lines:
                w.max_lines += 1000
                raise SimBudget('too many comparisons')
            return int.__eq__(a, b)
        before = [(c, k, vars(c)[k]) for c in fields for k in ('__eq__', '__hash__') if k in vars(c)]
        for c in fields:
            c.__eq__ = __eq__
            c.__hash__ = int.__hash__
        try:
            self.scaled(o, p, work)
        finally:
            for c in fields:
                del c.__eq__, c.__hash__
            for c, k, v in before:
                setattr(c, k, v)
        self.w.probe('scaled')
        self.w.note('scale', *work)
        (a, b), (c, e) = work
        if c > 4 * 1.7 * a + 20000 or e > 4 * 1.3 * b + 100:
            self.fail('disproportionate', 'reading with %s=%d takes %d source lines and comparisons, and %d file operations, but with %d, %d and %d'
                      % (o['what'], self.plan['datasets'][o['ds']][o['what']], a, b, 4 * self.plan['datasets'][o['ds']][o['what']], c, e))

    def scaled(self, o, p, work):
        for times in 1, 4:
            d = dict(self.plan['datasets'][o['ds']])
            d[o['what']] *= times
            data = model.encode_file(model.expand(d))
            path = W + 'scale%d.sgy' % times
            self.fs.put(path, data)
            self.w.max_events = self.w.events + 1000 + len(data)
            self.w.max_lines = self.w.lines + 100000 + 100 * len(data)
            fh = handles.open_for_reading(self.fs, path, 'raw')
            lines, events = self.w.lines, self.w.events
            old = sys.gettrace()
            sys.settrace(self.w.line_counter())
            try:
                with self.w.lib(p):
                    reader = ref.create(p.slot, fh, model.Opts.of(o['opts']), None)
                    ref.ask(p.slot, reader, ['index'], (), ())
                    for i in range(0, d['n'], 7 if d['n'] > 50 else 1):
                        reader.num_trace_samples(i)
                        reader.trace_samples(i)
            except SimBudget:
                self.fail('endless', 'reading with %s=%d takes more than %d source lines, or %d file operations'
                          % (o['what'], d[o['what']], 100000 + 100 * len(data), 1000 + len(data)))
            finally:
                sys.settrace(old)
            work.append((self.w.lines - lines, self.w.events - events))
            fh.close()

    def op_write(self, o):
        src = o['src']
        p = None
        h = None
        if 'h' in src:
            h = self.h.get(src['h'])
            if h is None or h.proc.dead or h.fh is None or h.fh.closed:
                return
            p = h.proc
            parsed = self.parse(h.data, h.opts)
            spec = spec_from(parsed)
            if spec is None:
                return
        else:
            p = self.proc(o.get('p', 0))
            spec = self.spec(src['ds'])
            if p is None or spec is None:
                return
        self.w.enter(p)
        slot = p.slot
        order = list(range(len(spec['headers'])))
        if src.get('order') is not None and h is None:
            rng = random.Random(src['order'])
            rng.shuffle(order)
            if rng.random() < 0.5:
                order = order[:rng.randint(0, len(order))]
        ov = src.get('overlay')
        if ov is not None:
            ov = dict(ov)
            if ov.get('shift_field') and (ov['shift_field'] not in set(model.field_map(spec['th'])) - model.ambiguous(spec['th']) or not all(
                    model.valid(model.field_map(spec['th'])[ov['shift_field']], x[ov['shift_field']] + ov['shift'])
                    for x in spec['headers'])):
                ov.pop('shift_field')
        final = overlaid(spec, ov) if ov is not None else spec
        enc = o.get('enc') or spec['enc']
        endian = o.get('endian') or spec['endian']
        final = dict(final, headers=[final['headers'][i] for i in order], samples=[final['samples'][i] for i in order],
                     raw=[final['raw'][i] for i in order] if final.get('raw') else None)
        try:
            by_model = model.encode_file(final, enc, endian)
        except UnicodeError:
            return
        if h is not None and ov is None and enc == parsed.encoding and endian == h.opts.endian and 'original' in self.checks:
            # the original bytes, but for those which no field defines
            if o.get('exact') and by_model != h.data:
                raise RuntimeError('the harness believes that the file encodes something else')
        if self.oracle == 'model':
            expect = by_model
        else:
            expect = self.own_output(spec, enc, endian, ov, order)
            if expect is None:
                return
        ends = trace_ends(spec, order)
        # -- the destination
        path = W + o['path']
        n = self.fs.nodes.get(path)
        if n is not None and n.kind == 'd':
            return
        kind = o.get('kind', 'buf')
        over = o.get('over')
        old = b''
        if over is not None:
            # a handle which can also update what a file contains already
            rng = random.Random(over['seed'])
            old = rng.randbytes(int(len(expect) * over['part']) + rng.randint(0, 9))
            self.fs.put(path, old)
        fh = handles.open_for_writing(self.fs, path, kind, o.get('seed', 0), **({} if over is None else dict(mode='rb+', content=old)))
        if kind != 'bytesio':
            n = self.fs.nodes[path]
            n.durable = b''
            self.stale(n)
        stored = (lambda: fh.getvalue()) if kind == 'bytesio' else (lambda: bytes(n.data))
        trouble = []

        def check_prefix(data):
            if trouble:
                return
            if not expect.startswith(data):
                k = next((i for i in range(min(len(data), len(expect))) if data[i] != expect[i]), len(expect))
                trouble.append(Violation('not-a-prefix', 'what is stored ceases to be a prefix of the correct file at byte '
                                         '%d (%d bytes stored, %d expected)' % (k, len(data), len(expect))))
        old_hook = self.w.stored_hook
        if 'prefix' in self.checks:
            if kind == 'bytesio':
                fh.hook = check_prefix
            else:
                self.hooks[path] = lambda node: check_prefix(bytes(node.data))
                self.w.stored_hook = self.dispatch_stored
        # -- the recorder of requests
        requests = []
        live = []
        max_live = [0]
        fail_at = o.get('src_fail')
        raised = []
        stream = 'stream' in self.checks

        def recorder(what, i):
            if self.in_harness_of(p):
                return
            requests.append((what, i))
            self.w.trace.update(b'request %s %d\n' % (what.encode(), i))
            if stream and not trouble:
                if raised:
                    trouble.append(Violation('asked-after-failure', '%s %d requested after the source had failed' % (what, i)))
                if any(f[0] not in SOFT and f[2] == 'out' for f in p.fired):
                    trouble.append(Violation('asked-after-failure', '%s of trace %d requested after storing had failed: %r'
                                             % (what, i, p.fired)))
                k = (len(requests) - 1) // 2          # traces fully requested before this one
                if kind in UNBUFFERED and k >= 1 and len(stored()) < ends[k - 1]:
                    trouble.append(Violation('not-streaming', '%s of trace %d (number %d) requested while only %d bytes are stored; '
                                             'the traces before it need %d' % (what, i, k, len(stored()), ends[k - 1])))
            if fail_at is not None and len(requests) == fail_at['n']:
                from .story import EXCEPTIONS
                raised.append(EXCEPTIONS[fail_at['exc']]('from the dataset'))
                raise raised[0]

        def lazy(what, i, obj):
            live[:] = [r for r in live if r() is not None]
            live.append(weakref.ref(obj))
            max_live[0] = max(max_live[0], len(live))
        record = stream or fail_at is not None
        if h is not None:
            dataset = h.reader
        else:
            ds_enc = spec['enc'] if o.get('enc') is None else o.get('ds_enc')
            if o.get('enc') is None and ds_enc == 'ascii' and o.get('seed', 0) % 3 == 0:
                # ASCII is what is written when nobody says
                ds_enc = None
            dataset = self.mem_dataset(slot, spec, ds_enc,
                                       recorder if record else None, lazy if stream else None,
                                       order if src.get('order') is not None else None,
                                       (None, None, 'array', 'numpy', 'wide')[o.get('seed', 0) // 7 % 5])
        if ov is not None or h is not None and record:
            dataset = self.overlay(slot, dataset, spec, ov or {}, recorder if record and h is not None else None)
        callback, rec = self.make_progress(o.get('prog'), (lambda: len(stored())) if kind in UNBUFFERED else None)
        before = self.before()
        got = None
        events = self.w.events
        try:
            with self.w.lib(p):
                kw = dict(trace_header_format=slot.user.TRACE_FORMATS[spec['th']], endian=endian, progress=callback)
                if o.get('enc') is not None:
                    kw['encoding'] = o['enc']
                slot.writer.write_segy(fh, dataset, **kw)
            got = 'v', None
        except SimCrash:
            self.w.stored_hook = old_hook
            self.hooks.pop(path, None)
            if trouble:
                raise trouble[0]
            if kind != 'bytesio' and 'prefix' in self.checks:
                self.check_stored(bytes(n.data), expect)
            raise
        except SimBudget:
            self.fail('endless', 'writing does not end')
        except BaseException as e:
            e.__traceback__ = None
            got = 'e', e
        write_fired = [f for f in p.fired if f[0] not in SOFT]
        self.w.note('write', got[0], type(got[1]).__name__, len(requests))
        if fh.closed and ('files' in self.checks or 'progress' in self.checks or 'stream' in self.checks):
            self.fail('handle-closed', 'write_segy() closed the handle it was given')
        after_write = len(stored())
        # -- the user closes
        close_got = 'v', None
        close_fired = []
        if kind != 'bytesio':
            for attempt in range(2):
                try:
                    with self.w.lib(p):
                        fh.close()
                except SimCrash:
                    self.w.stored_hook = old_hook
                    self.hooks.pop(path, None)
                    if trouble:
                        raise trouble[0]
                    raise
                except Exception as e:
                    e.__traceback__ = None
                    if close_got[0] == 'v':
                        close_got = 'e', e
                close_fired += [f for f in p.fired if f[0] not in SOFT]
                if close_got[0] == 'v':
                    break
        self.w.stored_hook = old_hook
        self.hooks.pop(path, None)
        if trouble:
            raise trouble[0]
        final_bytes = stored()
        if len(old) > len(expect) and not write_fired and got[0] == 'v':
            if final_bytes[len(expect):] != old[len(expect):]:
                self.fail('wrong-tail', 'what the file contained beyond what was written is not as it was')
            final_bytes = final_bytes[:len(expect)]
            if kind != 'bytesio':
                self.fs.put(path, final_bytes)
        if 'prefix' in self.checks:
            self.check_stored(final_bytes, expect)
        complete = final_bytes == expect
        # -- the callback raised
        if rec is not None and rec['raised'] is not None:
            self.w.probe('callback_raised')
            if 'progress' in self.checks:
                if got[0] == 'v':
                    self.fail('callback-swallowed', 'the progress callback raised %s but write_segy() returned'
                              % type(rec['raised']).__name__)
                if got[1] is not rec['raised'] and not write_fired:
                    self.fail('callback-changed', 'the progress callback raised %r but write_segy() raised %r'
                              % (rec['raised'], got[1]))
                self.check_progress(rec['values'], None)
            return
        if rec is not None and 'progress' in self.checks:
            self.check_progress(rec['values'], got[0] == 'v')
        if rec is not None and 'prefix' in self.checks:
            if rec['values'] and rec['values'][-1] >= 1:
                if got[0] == 'e' and any(f[2] == 'out' for f in write_fired):
                    # an error which occurred after everything had been handed over is no contradiction
                    if rec['stored'] and rec['stored'][-1] < len(expect):
                        self.fail('progress-early', 'progress of 1 reported with %d of %d bytes stored, then %r'
                                  % (rec['stored'][-1], len(expect), got[1]))
            for v, s in zip(rec['values'], rec['stored']):
                if v >= 1 and s < len(expect) and kind in UNBUFFERED:
                    self.fail('progress-early', 'progress of 1 reported with %d of %d bytes stored' % (s, len(expect)))
        # -- the source failed
        if raised:
            self.w.probe('source_failed')
            if stream:
                if got[0] == 'v':
                    self.fail('source-failure-swallowed', 'the dataset raised %r but write_segy() returned' % raised[0])
                if got[1] is not raised[0] and not write_fired:
                    self.fail('source-failure-changed', 'the dataset raised %r but write_segy() raised %r' % (raised[0], got[1]))
                k = (fail_at['n'] - 1) // 2
                if close_got[0] == 'v' and not write_fired and not close_fired:
                    if not expect.startswith(final_bytes):
                        self.fail('corrupt-delivery', 'the traces stored before the source failed are not correct')
                    if k >= 1 and len(final_bytes) < ends[k - 1]:
                        self.fail('lost-delivery', 'the source failed at trace number %d, but only %d bytes were delivered; '
                                  'the traces before it have %d' % (k, len(final_bytes), ends[k - 1]))
            return
        # -- outcome
        hard = write_fired + close_fired
        if hard:
            self.w.probe('write_fault')
            if got[0] == 'v' and close_got[0] == 'v' and not complete:
                self.fail('silent-loss', 'storing failed (%r) but neither write_segy() nor close() raised, and %d of %d bytes '
                          'are stored' % (hard, len(final_bytes), len(expect)))
            if write_fired and got[0] == 'v' and any(f[2] == 'out' for f in write_fired) and kind in UNBUFFERED \
                    and not expect == final_bytes:
                self.fail('error-swallowed', 'storing failed (%r) but write_segy() returned' % (write_fired,))
            k = (len(requests) - 1) // 2
            if stream and record and k >= 1 and got[0] == 'e' and not close_fired and len(final_bytes) < ends[k - 1] \
                    and not any(f[2] == 'out' for f in write_fired):
                self.fail('lost-delivery', 'reading the source failed at trace number %d (%r), but only %d bytes were delivered; '
                          'the traces before it have %d' % (k, write_fired, len(final_bytes), ends[k - 1]))
            if any(f[2] == 'segy' for f in write_fired) and got[0] == 'v' and not complete:
                self.fail('source-error-swallowed', 'reading the source failed (%r) but write_segy() returned' % (write_fired,))
            return
        if got[0] == 'e':
            if h is not None and self.oracle != 'model':
                return
            self.fail('write-failed', 'write_segy() to a %s raised %r' % (kind, got[1]))
        if close_got[0] == 'e':
            self.fail('close-failed', 'closing raised %r' % close_got[1])
        self.w.probe('written')
        if not complete and self.checks & {'bytes', 'prefix', 'stream', 'data'}:
            k = next((i for i in range(min(len(final_bytes), len(expect))) if final_bytes[i] != expect[i]),
                     min(len(final_bytes), len(expect)))
            self.fail('wrong-bytes-' + self.region(k, spec), 'byte %d of the file written (%s, %d bytes) is not as expected '
                      '(%d bytes): %r instead of %r' % (k, kind, len(final_bytes), len(expect), final_bytes[k:k + 8], expect[k:k + 8]))
        if stream:
            want = [(x, i) for i in order for x in ('header', 'samples')]
            by_trace = [sorted(requests[i:i + 2]) for i in range(0, len(requests), 2)]
            if record and by_trace != [sorted(want[i:i + 2]) for i in range(0, len(want), 2)]:
                self.fail('wrong-requests', 'requested %r' % (requests[:12],))
            gc.collect()
            if max_live[0] > 12:
                self.fail('hoarding', '%d headers and lists of samples were kept in memory at once' % max_live[0])
        if kind == 'bytesio':
            self.fs.put(path, final_bytes)
        else:
            n.durable = bytes(n.data)
        if complete and not record and o.get('seed', 0) % 3 == 0 and self.checks & {'bytes', 'prefix', 'stream', 'data'}:
            # what was written once can be written again
            again = io.BytesIO()
            kw.pop('progress')
            try:
                with self.w.lib(p):
                    slot.writer.write_segy(again, dataset, **kw)
            except SimBudget:
                self.fail('endless', 'writing does not end')
            except Exception as e:
                e.__traceback__ = None
                if not [f for f in p.fired if f[0] not in SOFT]:
                    self.fail('write-failed', 'write_segy() of the same data set raised %r the second time' % (e,))
            else:
                again = again.getvalue()
                if again != expect and not [f for f in p.fired if f[0] not in SOFT]:
                    k = next((i for i in range(min(len(again), len(expect))) if again[i] != expect[i]), min(len(again), len(expect)))
                    self.fail('wrong-bytes-again', 'byte %d of the file written from the same data set a second time (%d bytes) is not as '
                              'expected (%d bytes): %r instead of %r' % (k, len(again), len(expect), again[k:k + 8], expect[k:k + 8]))
                self.w.probe('written_again')

    @staticmethod
    def region(k, spec):
        if k < 3200:
            return 'text'
        if k < 3600:
            return 'reel'
        if k < 3600 + 3200 * len(spec['ext']):
            return 'ext'
        return 'traces'

    def check_stored(self, data, expect):
        if not expect.startswith(data):
            k = next((i for i in range(min(len(data), len(expect))) if data[i] != expect[i]), len(expect))
            self.fail('not-a-prefix', 'the %d bytes stored are not a prefix of the correct file: byte %d' % (len(data), k))

    def dispatch_stored(self, path, node):
        hook = self.hooks.get(path)
        if hook is not None:
            hook(node)

    def in_harness_of(self, p):
        return p.depth == 0

    def own_output(self, spec, enc, endian, ov, order):
        """What this library writes to a plain in-memory file, without faults."""
        def attempt(slot):
            fh = io.BytesIO()
            d = self.mem_dataset(slot, spec, enc, order=order)
            if ov is not None:
                d = self.overlay(slot, d, spec, ov, None)
            slot.writer.write_segy(fh, d, encoding=enc, trace_header_format=slot.user.TRACE_FORMATS[spec['th']], endian=endian)
            return fh.getvalue()
        try:
            return self.in_oracle(attempt)
        except Exception as e:
            self.w.probe('own_output_failed')
            if self.plan.get('expect_own', True):
                self.fail('write-failed', 'write_segy() to a BytesIO raised %r' % e)
            return None

    # ---- command line -----------------------------------------------------------------------------
    def op_cli(self, o):
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        path = W + o['path']
        n = self.fs.nodes.get(path)
        data = bytes(n.data) if n is not None and n.kind == 'f' and n.perm & 0o400 else None
        arg = {'rel': o['path'], 'abs': path, 'dot': './' + o['path']}[o.get('arg', 'rel')]
        before = self.before()
        out = CliOut(self.w, o.get('out_fail'))
        err = io.StringIO()
        old = sys.stdout, sys.stderr, sys.argv
        status = 0
        got = None
        try:
            with self.w.lib(p):
                sys.stdout, sys.stderr = out, err
                try:
                    argv = [o['cmd'], arg] if not o.get('level') else ['--log-level=' + o['level'], o['cmd'], arg]
                    how = o.get('how')
                    if how is None:
                        code = p.slot.cli.main(argv)
                    else:
                        # as "python -m segpy" does, or a script made for the entry point
                        sys.argv = ['segpy'] + argv
                        if how == 'script':
                            sys.exit(p.slot.cli.main())
                        code = None
                        exec(p.slot.main_code, {'__name__': '__main__', '__package__': 'segpy',
                                                '__builtins__': __builtins__})
                finally:
                    sys.stdout, sys.stderr, sys.argv = old
            status = code or 0
            # the interpreter flushes standard output when it exits, and fails if it cannot
            if out.failed:
                status = 120
        except SimCrash:
            raise
        except SimBudget:
            self.fail('endless', 'the command does not end')
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            got = e
        except BaseException as e:
            e.__traceback__ = None
            status, got = 1, e
        hard = [f for f in p.fired if f[0] not in SOFT]
        seg = [f for f in hard if f[2] != 'cache']
        self.w.note('cli', o['cmd'], status)
        if before is not None:
            d = posixpath.dirname(path) + '/.segpy'
            self.no_changes(before, self.before(), d, None)
        if 'data' not in self.checks:
            return
        text = out.getvalue()
        parsed = self.parse(data, model.Opts(encoding=None)) if data is not None else None
        if status != 0:
            self.w.probe('cli_failed')
            if parsed is not None and parsed.verdict == 'ok' and not seg and not out.failed and out.fail_at is None:
                fresh = self.in_oracle(lambda s: ref.Fresh(s, data, model.Opts()))
                if fresh.error is None:
                    self.fail('cli-failed', '%s failed with status %r: %r, %s' % (o['cmd'], status, got, hard or 'nothing failed'))
            return
        if out.failed:
            self.fail('cli-silent', 'standard output failed but the status was zero')
        if parsed is None:
            self.fail('cli-missing', '%s of an unreadable file succeeded with %r' % (o['cmd'], text[:100]))
        if parsed.verdict == 'error':
            if self.in_oracle(lambda s: ref.Fresh(s, data, model.Opts())).error is not None:
                self.fail('cli-invalid', '%s of an invalid file (%s) succeeded with %r' % (o['cmd'], parsed.why, text[:100]))
            return
        if parsed.verdict != 'ok':
            return
        self.w.probe('cli_ok')
        kind = parsed.kind()
        if kind is None:
            kind = self.in_oracle(lambda s: ref.reader_kind(s, ref.Fresh(s, data, model.Opts()).reader))
        dims = kind if kind > 1 else (1 if parsed.num_traces == 1 else 0)
        if o['cmd'] == 'metadata':
            try:
                j = json.loads(text)
            except ValueError:
                self.fail('cli-json', 'metadata printed %r' % text[:200])
            want = dict(num_traces=parsed.num_traces, dimensionality=dims, data_sample_format=parsed.fmt,
                        max_num_trace_samples=parsed.max_samples)
            for k, v in want.items():
                if j.get(k) != v:
                    self.fail('cli-' + k, 'metadata printed %s: %r; the true value is %r' % (k, j.get(k), v))
            return
        lines = text.split('\n')

        def figure(label):
            for line in lines:
                if line.startswith(label + ':'):
                    return line[len(label) + 1:].strip()
            return None
        want = {'Number of traces': {str(parsed.num_traces)}, 'Dimensionality': {str(dims)},
                'Data format': {model.DESCRIPTION[parsed.fmt]},
                'SEG Y revision': {str(parsed.revision), 'SEGYRevision.REVISION_%d' % (parsed.revision // 256),
                                   'SegYRevision.REVISION_%d' % (parsed.revision // 256)},
                'Number of CDPs': {str(len(set(parsed.cdps)))} if kind == 2 else {None},
                'Number of inlines': {str(len({a for a, b in parsed.keys}))} if kind == 3 else {None},
                'Number of crosslines': {str(len({b for a, b in parsed.keys}))} if kind == 3 else {None}}
        for k, v in want.items():
            if figure(k) not in v:
                self.fail('cli-' + k.replace(' ', '-'), 'report printed %s: %r; the true value is one of %r' % (k, figure(k), v))
        name = figure('Filename')
        if name is None or posixpath.basename(name) != posixpath.basename(path):
            self.fail('cli-filename', 'report of %s printed file name %r' % (path, name))
        a, b = text.find('=== BEGIN TEXTUAL REEL HEADER ==='), text.find('=== END TEXTUAL REEL HEADER ===')
        body = text[a:b].split('\n')[1:]
        shown = [line[3:] for line in parsed.text]
        got_lines = '\n'.join(body).rstrip('\n')
        if a < 0 or b < 0 or got_lines != '\n'.join(shown).rstrip('\n'):
            self.fail('cli-text', 'the textual header is not reported as it is')
        for page in parsed.ext:
            for line in page:
                t = line.rstrip('\r\n ')
                if t and t not in text and repr(t)[1:-1] not in text:
                    self.fail('cli-ext', 'the extended textual header is not reported: %r' % t)

    # ---- arrays -------------------------------------------------------------------------------------
    # ---- the functions of segpy.toolkit, one after another ---------------------------------------
    def op_pages(self, o):
        """Text formatted as extended headers, written, and read again."""
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        rng = random.Random(o['seed'])
        tk = p.slot.toolkit
        enc = rng.choice(['ascii', 'cp037'])
        chars = rng.choice(['abcXYZ 019.,:;()', ''.join(map(chr, range(32, 127)))])
        lines = [''.join(rng.choice(chars) for _ in range(rng.choice([0, 0, 1, 20, 77, 78, 79, 80, 155, 156, 157, rng.randrange(300)])))
                 for _ in range(rng.choice([0, 1, 2, 5, 39, 40, 41, 80, rng.randrange(100)]))]
        end = rng.choice(['\n', '\r\n', '\r'])
        text = end.join(lines) + (end if rng.random() < 0.5 else '')
        stop = rng.random() < 0.5
        flat = [x[i:i + 78].ljust(78) + '\r\n' for x in text.splitlines() for i in range(0, max(1, len(x)), 78)]
        blank = ' ' * 78 + '\r\n'
        flat += [blank] * (-len(flat) % 40)
        want = [flat[i:i + 40] for i in range(0, len(flat), 40)]
        if stop:
            want.append([model.END_STANZA.ljust(78) + '\r\n'] + [blank] * 39)
        fh = handles.open_for_writing(self.fs, W + 'pages.out', rng.choice(['buf', 'raw', 'short', 'bytesio']), o['seed'])
        with self.w.lib(p):
            pages = tk.format_extended_textual_header(text, enc, stop)
        if [list(x) for x in pages] != want:
            k = next((i for i in range(min(len(pages), len(want))) if list(pages[i]) != want[i]), min(len(pages), len(want)))
            self.fail('wrong-pages', 'text of %d lines was formatted as %d pages instead of %d, which differ at page %d' % (len(lines), len(pages), len(want), k))
        fh.write(bytes(3600))
        with self.w.lib(p):
            tk.write_extended_textual_headers(fh, pages, enc)
        fh.flush()
        stored = fh.getvalue() if isinstance(fh, io.BytesIO) else bytes(self.fs.nodes[W + 'pages.out'].data)
        expect = bytes(3600) + ''.join(x for page in want for x in page).encode(enc)
        if stored != expect:
            self.fail('wrong-pages-stored', '%d bytes of %d pages are stored, which are not those expected (%d)' % (len(stored), len(want), len(expect)))
        if isinstance(fh, io.BytesIO):
            self.fs.put(W + 'pages.out', stored)
        else:
            fh.close()
        number = -1 if stop and rng.random() < 0.7 else len(want)
        name = 'num_extended_textual_headers'
        fh = handles.open_for_reading(self.fs, W + 'pages.out', rng.choice(['buf', 'raw', 'short', 'bytesio', 'pyfile']), o['seed'])
        with self.w.lib(p):
            brh = p.slot.user.REEL_FORMATS['binary'](**{name: number})
            got = tk.read_extended_textual_headers(fh, brh, enc)
            at = fh.tell()
        if [list(x) for x in got] != want:
            self.fail('wrong-pages-read', '%d pages were read instead of %d, or differ' % (len(got), len(want)))
        if at != len(expect):
            self.fail('wrong-position', 'reading extended headers left the position at %d instead of %d' % (at, len(expect)))
        fh.close()
        self.fs.remove(W + 'pages.out')
        self.w.probe('pages')

    def op_serial(self, o):
        """Read a file from its beginning to its end with the functions of the toolkit."""
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        path = W + o['path']
        n = self.fs.nodes.get(path)
        if n is None or n.kind != 'f' or not n.perm & 0o400:
            return
        data = bytes(n.data)
        opts = model.Opts.of(o.get('opts', {}))
        m = self.parse(data, opts)
        if m.verdict != 'ok':
            return
        fh = handles.open_for_reading(self.fs, path, o.get('kind', 'buf'), o.get('seed', 0))
        rng = random.Random(o['seed'])
        slot, tk = p.slot, p.slot.toolkit
        th_format, brh_format = slot.user.TRACE_FORMATS[opts.th], slot.user.REEL_FORMATS[opts.brh]
        th, brh = list(model.field_map(opts.th)), list(model.field_map(opts.brh))
        state = {}

        def step(what, pos, call, want, after=None):
            """One call, at pos; repeated if a fault made it fail."""
            for attempt in range(5):
                if pos is not None and (attempt or 'at' not in state or state['at'] != pos):
                    fh.seek(pos)
                state.pop('at', None)
                try:
                    with self.w.lib(p):
                        got = 'v', call()
                except SimBudget:
                    self.fail('endless', '%s does not end' % what)
                except SimCrash:
                    raise
                except Exception as e:
                    e.__traceback__ = None
                    got = 'e', e
                hard = [f for f in p.fired if f[0] not in SOFT]
                self.w.note('serial', what, got[0])
                if got[0] == 'e' and hard:
                    self.w.probe('serial_fault')
                    continue
                break
            if hard and got[0] == 'v' and 'errors' in self.checks:
                self.fail('error-swallowed', '%s returned an answer although %r' % (what, hard))
            if got[0] == 'e' and hard:
                return None
            if not ref.agree(got, want):
                self.fail('serial-' + what.split()[0], '%s of %s (%s, opts %s): got %r, expected %r'
                          % (what, path, o.get('kind'), {k: v for k, v in vars(opts).items() if v}, got, want))
            if after is not None and not hard:
                at = fh.tell()
                if at != after:
                    self.fail('serial-position', 'after %s of %s the position is %d, not %d' % (what, path, at, after))
                state['at'] = at
            return got
        if opts.encoding is None:
            # nothing says where the position is afterwards
            step('guess', 0, lambda: tk.guess_textual_header_encoding(fh), ('v', m.encoding))
        step('text', 0, lambda: tuple(tk.read_textual_reel_header(fh, m.encoding)), ('v', m.text), 3200)

        def reel():
            state['reel'] = tk.read_binary_reel_header(fh, brh_format, opts.endian)
            return ref.header_dict(state['reel'], brh)
        step('reel', 3200, reel, ('v', m.reel), 3600)
        if 'reel' not in state:
            return
        step('ext', rng.choice([3600, None]), lambda: [tuple(x) for x in tk.read_extended_textual_headers(fh, state['reel'], m.encoding)],
             ('v', m.ext), m.first_trace)
        step('bps', None, lambda: tk.bytes_per_sample(state['reel']), ('v', m.width))
        if rng.random() < 0.6:
            values = []

            def catalogs():
                del values[:]
                return [None if c is None else sorted(c.items())
                        for c in tk.catalog_traces(fh, m.width, th_format, opts.endian, values.append)]

            def index(keys):
                return None if len(set(keys)) != len(keys) else sorted((k, i) for i, k in enumerate(keys))
            lines = index(m.keys) if m.has_lines else None
            got = step('catalog', m.first_trace, catalogs,
                       ('v', [[(i, pos) for i, (pos, _) in enumerate(m.traces)], [(i, ns) for i, (_, ns) in enumerate(m.traces)],
                              index(m.cdps), lines]))
            if got is not None and got[0] == 'v' and 'progress' in self.checks:
                self.check_progress(values, True)
        packer = slot.packer.make_header_packer(th_format, opts.endian)
        seg_y_type = slot.datatypes.DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[state['reel'].data_sample_format]
        order = list(range(m.num_traces))
        if len(order) > 40:
            order = order[:10] + order[-10:]
        if rng.random() < 0.2:
            rng.shuffle(order)
        for i in order:
            pos, ns = m.traces[i]
            where = pos if rng.random() < 0.3 else None
            try:
                want = 'v', m.header(i)
            except model.Bad:
                want = 'e', 'any'
            if where is not None and rng.random() < 0.5:
                fh.seek(rng.randrange(len(data)))
                state.pop('at', None)
            step('header %d' % i, pos if where is None else None,
                 lambda: ref.header_dict(tk.read_trace_header(fh, packer, where) if where is not None else tk.read_trace_header(fh, packer), th),
                 want, pos + 240 if want[0] == 'v' else None)
            a = rng.choice([0, 0, 0, rng.randint(0, ns)])
            b = rng.choice([ns, ns, rng.randint(a, ns)])
            at = pos + 240 + a * m.width
            v = m.samples(i, a, b)
            want = ('e', 'eof') if v is None else ('v', [float(x) for x in v])
            where = at if rng.random() < 0.3 else None
            step('samples %d' % i, at if where is None else None,
                 lambda: [float(x) for x in tk.read_binary_values(fh, where, seg_y_type, b - a, opts.endian)], want,
                 # A gzip file does not go beyond its end, where there may be nothing to read
                 at + (b - a) * m.width if v is not None and (a < b or at <= len(data)) else None)
        end = m.traces[-1] if m.traces else None
        end = m.first_trace if end is None else end[0] + 240 + end[1] * m.width
        step('end', max(end, len(data)), lambda: tk.read_trace_header(fh, packer), ('e', 'eof'))
        if m.tail is not None:
            step('tail', m.tail, lambda: tk.read_trace_header(fh, packer), ('e', 'eof'))
        try:
            fh.close()
        except OSError:
            pass

    def op_bulk(self, o):
        import numpy as np
        h = self.h.get(o.get('h', 0))
        if h is None or h.proc.dead or h.fh is None or h.fh.closed:
            return
        p = h.proc
        self.w.enter(p)
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict != 'ok' or not parsed.num_traces:
            return
        fresh = self.fresh(h)
        if fresh.error is not None:
            return
        rng = random.Random(o['seed'])
        npx = p.slot.npx
        what = o.get('what') or rng.choice(['headers', 'header3', 'trace', 'inline', 'xline', 'slice'])
        if what in ('header3', 'inline', 'xline', 'slice') and h.dim != 3:
            what = rng.choice(['headers', 'trace'])
        null = rng.choice([None, None, 0, -1, 7])
        th = model.field_map(h.opts.th)
        if h.dim == 3:
            tr = {k: i for i, k in enumerate(parsed.keys)}
            if len(tr) != parsed.num_traces:
                return
            ils, xls = sorted({a for a, b in tr}), sorted({b for a, b in tr})
            if len(ils) * len(xls) > 3000:
                return
        ms = parsed.max_samples
        fsel = rng.sample(list(th), rng.randint(1, min(3, len(th))))
        dt = {'ibm': 'f4', 'float32': 'f4', 'int32': 'i4', 'int16': 'i2', 'int8': 'i1'}[parsed.fmt]
        if null == 0 and rng.random() < 0.5:
            null = 0.0

        def value(q):
            got = self.in_oracle(lambda s: fresh.answer(q))
            return got

        def sample(t, k):
            if k >= parsed.traces[t][1]:
                return None
            return ('s', t, k)
        involved = ()
        # each expectation: a nested list of None (masked or null) or a thing to look up
        call = None
        if what == 'headers':
            idx = rng.choice([None, sorted(rng.sample(range(parsed.num_traces), rng.randint(1, parsed.num_traces))),
                              [rng.randrange(parsed.num_traces) for _ in range(rng.randint(1, 5))]])
            arg = [self.as_field(p.slot, h, f) if rng.random() < 0.3 else f for f in fsel]
            call = lambda: npx.extract_trace_headers(h.reader, arg, idx)
            want = {f: [('h', t, f) for t in (idx if idx is not None else range(parsed.num_traces))] for f in fsel}
            desc = (fsel, idx)
        elif what == 'header3':
            a, ia = self.selection(ils, rng)
            b, ib = self.selection(xls, rng)
            if ia == 'bad' or ib == 'bad':
                want = None
            else:
                want = {f: [[('h', tr[i, j], f) if (i, j) in tr else None for j in ib] for i in ia] for f in fsel}
            call = lambda: npx.extract_trace_header_field_3d(h.reader, list(fsel), a, b, null)
            desc = (fsel, a, b, null)
        elif what == 'trace':
            t = rng.randrange(parsed.num_traces)
            ns = parsed.traces[t][1]
            if ns == 0:
                return
            s, isel = self.selection(list(range(ns)), rng)
            if not isel:
                return
            want = None if isel == 'bad' else [sample(t, k) for k in isel]
            call = lambda: npx.extract_trace(h.reader, t, s)
            desc = (t, s)
        elif what in ('inline', 'xline'):
            if ms == 0:
                return
            lines, others = (ils, xls) if what == 'inline' else (xls, ils)
            line = rng.choice(lines)
            a, ia = self.selection(others, rng)
            s, isel = self.selection(list(range(ms)), rng)
            if not isel or not ia:
                return
            key = (lambda x: (line, x)) if what == 'inline' else (lambda x: (x, line))
            involved = [tr[key(x)] for x in ia if key(x) in tr] if ia != 'bad' else ()
            want = None if 'bad' in (ia, isel) else [
                [sample(tr[key(x)], k) if key(x) in tr else None for k in isel] for x in ia]
            fn = npx.extract_inline_3d if what == 'inline' else npx.extract_xline_3d
            call = lambda: fn(h.reader, line, a, s, null)
            desc = (line, a, s, null)
        else:
            if ms == 0:
                return
            k = rng.randrange(ms)
            a, ia = self.selection(ils, rng)
            b, ib = self.selection(xls, rng)
            if not ia or not ib:
                return
            want = None if 'bad' in (ia, ib) else [[sample(tr[i, j], k) if (i, j) in tr else None for j in ib] for i in ia]
            involved = [tr[i, j] for i in ia for j in ib if (i, j) in tr] if 'bad' not in (ia, ib) else ()
            call = lambda: npx.extract_timeslice_3d(h.reader, k, a, b, null)
            desc = (k, a, b, null)
        if any(isinstance(x, (list, slice, type(None), range)) and x == [] for x in desc):
            return
        for attempt in range(4):
            try:
                with np.errstate(all='ignore'):
                    with self.w.lib(p):
                        r = call()
                got = 'v', r
            except SimCrash:
                raise
            except SimBudget:
                self.fail('endless', 'extraction does not end')
            except Exception as e:
                e.__traceback__ = None
                got = 'e', e
            hard = [f for f in p.fired if f[0] not in SOFT and f[2] != 'cache']
            self.w.note('bulk', what, got[0])
            if got[0] == 'e' and hard and attempt < 3:
                self.w.probe('bulk_fault')
                continue
            break
        if hard and got[0] == 'e' or 'data' not in self.checks:
            return
        text = 'extraction %s %s from %s' % (what, desc, h.path)
        if want is None:
            # a selection of what is not there
            if got[0] == 'v':
                self.fail('bulk-absent', '%s succeeded, though not all of these exist' % text)
            if not isinstance(got[1], ValueError) and not hard:
                self.fail('bulk-absent', '%s raised %r, though not all of these exist' % (text, got[1]))
            return
        # what reading one by one gives
        cache = {}

        def look(x):
            if x[:2] not in cache:
                cache[x[:2]] = value(['ts', x[1], None, None] if x[0] == 's' else ['th', x[1]])
            g = cache[x[:2]]
            if g[0] == 'e':
                return None
            return g[1][x[2]]

        def look_one(x):
            # part of a trace may be readable where all of it is not
            v = look(x)
            if v is None and x[0] == 's':
                g = value(['ts', x[1], x[2], x[2] + 1])
                v = None if g[0] == 'e' else g[1][0]
            return v
        problem = []

        def compare(arr, want, dtype):
            if not isinstance(arr, np.ndarray):
                return 'a %s rather than an array' % type(arr).__name__
            flat_want = []

            def flatten(w):
                if isinstance(w, list):
                    for x in w:
                        flatten(x)
                else:
                    flat_want.append(w)
            flatten(want)
            if not want:
                return None if arr.size == 0 else 'shape %r for an empty selection' % (arr.shape,)
            shape = (len(want), len(want[0]) if isinstance(want[0], list) else None)
            if len(arr.shape) != (2 if shape[1] is not None else 1) or arr.shape[0] != shape[0] or \
                    shape[1] is not None and arr.shape[1] != shape[1]:
                return 'shape %r instead of %r' % (arr.shape, shape)
            if dtype is not None and arr.dtype != np.dtype(dtype):
                return 'type %r instead of %r' % (arr.dtype, dtype)
            mask = np.ma.getmaskarray(arr).ravel()
            values = np.ma.getdata(arr).ravel()
            for m, v, w in zip(mask, values, flat_want):
                if w is None:
                    if null is None:
                        if not m:
                            return 'a value (%r) where there is no trace or sample' % v
                    elif m or v != np.dtype(arr.dtype).type(null):
                        return '%r where there is no trace or sample, instead of the null value %r' % (v, null)
                    continue
                if m:
                    return 'masked where trace %d has a value' % w[1]
                x = look_one(w)
                if x is None:
                    return 'a value for trace %d, which cannot be read' % w[1]
                with np.errstate(all='ignore'):
                    y = np.dtype(arr.dtype).type(x)
                if not (y == v or y != y and v != v):
                    return '%r for %r, which individually is %r' % (v, w, x)
            return None
        # a truncated trace need not be readable even where the samples wanted are beyond its end
        readable = all_readable(want, look) and all(parsed.samples(t) is not None for t in involved)
        if got[0] == 'e':
            if not readable:
                self.w.probe('bulk_unreadable')
                return
            if null is not None and isinstance(got[1], (OverflowError, ValueError, TypeError)) and what == 'header3':
                return
            self.fail('bulk-failed', '%s raised %r' % (text, got[1]))
        if not readable and not all_readable(want, look_one):
            self.fail('bulk-invented', '%s succeeded although a trace cannot be read' % text)
        self.w.probe('bulk_' + what)
        note = ' despite %r' % hard if hard else ''
        if what in ('headers', 'header3'):
            if list(getattr(got[1], '_fields', ())) != list(fsel):
                self.fail('bulk-fields', '%s gave %r' % (text, type(got[1])))
            for f in fsel:
                msg = compare(getattr(got[1], f), want[f], None)
                if msg:
                    self.fail('bulk-' + what, '%s%s: field %s: %s' % (text, note, f, msg))
        else:
            null = null if what != 'trace' else None
            msg = compare(got[1], want, dt)
            if msg:
                self.fail('bulk-' + what, '%s%s: %s' % (text, note, msg))

    @staticmethod
    def as_field(slot, h, name):
        return getattr(slot.user.TRACE_FORMATS[h.opts.th], name)

    @staticmethod
    def selection(all_numbers, rng):
        """(argument, the numbers it stands for)"""
        n = len(all_numbers)
        r = rng.random()
        if r < 0.3:
            return None, list(all_numbers)
        if r < 0.55:
            pick = sorted(rng.sample(all_numbers, rng.randint(1, n)))
            arg = list(pick)
            if rng.random() < 0.4:
                arg += rng.sample(arg, rng.randint(0, len(arg)))
                rng.shuffle(arg)
            if rng.random() < 0.2:
                return tuple(arg), pick
            return arg, pick
        if r < 0.7:
            a = rng.randrange(n)
            b = rng.randrange(a, n)
            step = 1
            if all(y - x == all_numbers[1] - all_numbers[0] for x, y in zip(all_numbers, all_numbers[1:])) and n > 1:
                step = (all_numbers[1] - all_numbers[0]) * rng.choice([1, 1, 2, 3])
            elif a != b:
                b = a
            arg = range(all_numbers[a], all_numbers[b] + 1, step)
            picks = list(arg)
            if rng.random() < 0.3:
                arg = arg[::-1]
            return arg, picks
        if r < 0.75:
            # numbers which do not all exist
            gap = next((x for x in range(all_numbers[0], all_numbers[-1] + 2) if x not in set(all_numbers)), None)
            return rng.choice([[all_numbers[0], gap], [gap]]), 'bad'
        a, b = rng.choice([None, rng.randint(-n - 2, n + 2)]), rng.choice([None, rng.randint(-n - 2, n + 2)])
        s = slice(a, b, rng.choice([None, 1, 2, 3, -1, -2]))
        return s, list(all_numbers[s])


def all_readable(want, look):
    if isinstance(want, dict):
        return all(all_readable(v, look) for v in want.values())
    if isinstance(want, list):
        return all(all_readable(v, look) for v in want)
    return want is None or look(want) is not None


class CliOut(io.StringIO):
    """Standard output, which may fail, as when it is redirected to a full disk."""

    def __init__(self, world, fail_at=None):
        super().__init__()
        self.fail_at = fail_at
        self.n = 0
        self.failed = False

    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed = True
            import errno
            raise OSError(errno.ENOSPC, 'No space left on device (injected)')
        return super().write(s)
