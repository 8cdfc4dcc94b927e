"""Requests which cannot be honoured: each must be refused, with the documented error, and change nothing."""
import io
import pickle
import random

from . import handles, model, ref
from .fs import SimBudget, SimCrash
from .world import InjectedInterrupt, InjectedMemoryError

W = '/sim/work/'
SOFT = ('short', 'partial')
NOT_CALLABLE = [0, 1, 2.5, 'x', [], {}, True, False]
NOT_ENDIAN = ['', '=', '!', '@', 'big', '<>', '>>', None, 'little', ' >', 'BIG']
NOT_DIMENSIONS = [0, 4, -1, 5, '3', 2.5, 'auto', '']
NOT_ENCODINGS = ['utf8', 'utf-8', 'latin-1', 'cp500', 'cp1047', 'utf-16', 'ebcdic', 'x', 'cp1140']


class Unseekable(handles.PyFile):
    def seekable(self):
        return False

    def seek(self, pos, whence=0):
        raise io.UnsupportedOperation('seek')

    def tell(self):
        raise io.UnsupportedOperation('tell')


class Refusals:
    def op_bad(self, o):
        rng = random.Random(o['seed'])
        getattr(self, 'bad_' + o['act'])(rng, o)

    def refused(self, p, fn, errors, what):
        """fn must raise one of these errors and leave everything as it was."""
        before = self.before()
        try:
            with self.w.lib(p):
                fn()
            got = None
        except (SimBudget, SimCrash):
            raise
        except BaseException as e:
            e.__traceback__ = None
            got = e
        hard = [f for f in p.fired if f[0] not in SOFT]
        self.w.note('bad', type(got).__name__)
        self.w.shape.update(type(got).__name__.encode())
        if before is not None:
            self.compare(before, None, {'op': 'bad'})
        if isinstance(got, (InjectedInterrupt, InjectedMemoryError)):
            raise got
        if got is None:
            self.fail('not-refused', '%s was not refused' % what)
        if not isinstance(got, errors) and not hard:
            self.fail('wrong-refusal', '%s raised %r' % (what, got))
        self.w.probe('refused')

    # ---- opening -----------------------------------------------------------------------------
    def bad_open(self, rng, o):
        p = self.proc(o.get('p', 0))
        path = W + o['path']
        n = self.fs.nodes.get(path)
        if p is None or n is None or n.kind != 'f':
            return
        opts = model.Opts.of(o['opts'])
        kw = dict(encoding=opts.encoding, endian=opts.endian, dimensionality=opts.dim, cache_directory=o.get('cache'),
                  trace_header_format=p.slot.user.TRACE_FORMATS[opts.th], binary_reel_header_format=p.slot.user.REEL_FORMATS[opts.brh])
        kind = rng.choice(['buf', 'raw', 'bytesio', 'pyfile', 'rw', 'small', 'nameless'])
        fh = None
        errors = ()
        what = []
        for defect in rng.sample(['closed', 'text', 'unseekable', 'short', 'endian', 'dimensionality', 'progress'], rng.choice([1, 1, 1, 2])):
            if defect in ('closed', 'text', 'unseekable', 'short') and fh is not None:
                continue
            if defect == 'closed':
                fh = handles.open_for_reading(self.fs, path, kind, o['seed'])
                fh.close()
                errors += (ValueError,)
            elif defect == 'text':
                fh = io.TextIOWrapper(handles.open_for_reading(self.fs, path, rng.choice(['buf', 'bytesio'])), rng.choice(['ascii', 'latin-1', 'utf8']))
                errors += (TypeError,)
            elif defect == 'unseekable':
                fh = Unseekable(handles.open_for_reading(self.fs, path, 'raw'), name=path)
                errors += (TypeError,)
            elif defect == 'short':
                size = rng.choice([0, 1, 239, 3199, 3200, 3201, 3599, rng.randrange(3600)])
                self.fs.put(W + 'short.sgy', bytes(n.data)[:size])
                fh = handles.open_for_reading(self.fs, W + 'short.sgy', kind, o['seed'])
                if len(n.data) < 3600 or size < 3600:
                    errors += (ValueError,)
            elif defect == 'endian':
                kw['endian'] = rng.choice(NOT_ENDIAN)
                errors += (ValueError,)
            elif defect == 'dimensionality':
                kw['dimensionality'] = rng.choice(NOT_DIMENSIONS)
                errors += (ValueError,)
            elif defect == 'progress':
                kw['progress'] = rng.choice(NOT_CALLABLE)
                errors += (TypeError,)
            what.append(defect)
        if fh is None:
            fh = handles.open_for_reading(self.fs, path, kind, o['seed'])
            if len(n.data) < 3600:
                errors += (ValueError,)
        closed = fh.closed
        at = None if closed or 'unseekable' in what else fh.tell()
        self.refused(p, lambda: p.slot.reader.create_reader(fh, **kw), errors, 'opening with %s (%r)' % (
            ' and '.join(what), {k: kw.get(k) for k in ('endian', 'dimensionality', 'progress', 'cache_directory')}))
        if fh.closed != closed:
            self.fail('handle-closed', 'create_reader() closed the handle it was given')
        if at is not None and not p.fired and fh.tell() != at:
            self.fail('handle-moved', 'create_reader() refused a handle (%s), but left it at %d rather than %d' % (' and '.join(what), fh.tell(), at))
        fh.close()

    # ---- asking ------------------------------------------------------------------------------
    def bad_ask(self, rng, o):
        h = self.h.get(o.get('h', 0))
        if h is None or h.proc.dead or h.fh.closed:
            return
        parsed = self.parse(h.data, h.opts)
        if parsed.verdict != 'ok':
            return
        p, r, n = h.proc, h.reader, parsed.num_traces
        self.w.enter(p)
        index = rng.choice([n, n + 1, -1, -2, -n - 1, n + rng.randint(0, 10 ** 6), 2 ** 40, -n])
        index = -1 if 0 <= index < n else index
        what = rng.choice(['header', 'samples', 'range', 'range', 'count', 'key', 'extract', 'extract', 'serial', 'pickle'])
        if what == 'range' and not n:
            what = 'samples'
        lookup = (ValueError, LookupError)
        if what == 'header':
            self.refused(p, lambda: r.trace_header(index), ValueError, 'trace_header(%d) of %d' % (index, n))
        elif what == 'samples':
            a, b = rng.choice([(None, None), (0, 0), (0, 1)])
            self.refused(p, lambda: r.trace_samples(index, a, b), ValueError, 'trace_samples(%d) of %d' % (index, n))
        elif what == 'range':
            i = rng.randrange(n)
            ns = parsed.traces[i][1]
            a, b = rng.choice([(None, ns + 1), (0, ns + rng.randint(1, 10 ** 6)), (ns + 1, None), (-1, None), (None, -1), (-1, -1), (-2, ns), (ns, ns - 1),
                               (1, 0), (ns + 1, ns + 1), (ns + 1, ns), (0, 2 ** 40), (rng.randint(1, ns + 1), 0), (-ns - 1, None), (0, -ns - 1)])
            start, stop = 0 if a is None else a, ns if b is None else b
            if 0 <= start <= stop <= ns:
                return
            self.refused(p, lambda: r.trace_samples(i, a, b), ValueError, 'trace_samples(%d, %r, %r) of %d' % (i, a, b, ns))
        elif what == 'count':
            self.refused(p, lambda: r.num_trace_samples(index), lookup, 'num_trace_samples(%d) of %d' % (index, n))
        elif what == 'key':
            if h.dim not in (2, 3):
                return
            keys = set(parsed.keys if h.dim == 3 else parsed.cdps)
            for _ in range(9):
                if h.dim == 3:
                    k = rng.choice(sorted(keys) or [(1, 1)])
                    k = rng.choice([(k[0] + rng.choice([-1, 1, 2, 10]), k[1]), (k[0], k[1] + rng.choice([-1, 1, 2, 10])), (k[1], k[0]), (2 ** 31, 1), (-1, -1)])
                else:
                    k = rng.choice(sorted(keys) or [1]) + rng.choice([-1, 1, 2, 10, 2 ** 31])
                if k not in keys:
                    self.refused(p, lambda: r.trace_index(k), lookup, 'trace_index(%r)' % (k,))
                    if r.has_trace_index(k):
                        self.fail('wrong-has', 'has_trace_index(%r) though there is none' % (k,))
                    break
        elif what == 'pickle':
            # a file which cannot be opened again
            kind = rng.choice(['nameless', 'bytesio', 'buf'])
            if h.path not in self.fs.nodes or not self.fs.nodes[h.path].perm & 0o400:
                return
            fh = handles.open_for_reading(self.fs, h.path, kind)
            try:
                with self.w.lib(p):
                    other = ref.create(p.slot, fh, h.opts, None)
            except (SimBudget, SimCrash, InjectedInterrupt, InjectedMemoryError):
                raise
            except Exception as e:
                e.__traceback__ = None
                return
            if kind == 'buf':
                fh.close()
            self.refused(p, lambda: pickle.dumps(other), TypeError, 'pickling a reader of a file which is %s' % ('closed' if fh.closed else 'without name'))
            fh.close()
        elif what == 'serial':
            t = p.slot.toolkit
            bad = rng.choice(NOT_CALLABLE)
            brh = r.binary_reel_header
            self.refused(p, lambda: t.catalog_traces(h.fh, t.bytes_per_sample(brh), r.trace_header_format_class, r.endian, bad), TypeError,
                         'catalog_traces() with progress %r' % (bad,))
            self.refused(p, lambda: t.read_extended_headers_counted(h.fh, rng.choice([-1, -2, -32768]), 'ascii'), ValueError,
                         'reading a negative number of extended headers')
        else:
            self.bad_extraction(p, h, parsed, index, rng)
        if n and rng.random() < 0.5:
            self.query(h, ref.random_query(parsed, h.opts.th, rng))

    def bad_extraction(self, p, h, parsed, index, rng):
        npx, r = p.slot.npx, h.reader
        what = rng.choice(['trace', 'headers', 'name', 'inline', 'xline', 'slice', 'samples'])
        if what == 'trace' or h.dim != 3 and what not in ('headers', 'name'):
            self.refused(p, lambda: npx.extract_trace(r, index, rng.choice([None, [0], slice(None)])), ValueError, 'extract_trace(%d)' % index)
        elif what == 'headers':
            fields = rng.sample(list(model.field_map(h.opts.th)), 1)
            self.refused(p, lambda: npx.extract_trace_headers(r, fields, [index]), ValueError, 'extract_trace_headers() of trace %d' % index)
        elif what == 'name':
            name = rng.choice(['no_such_field', 3, None, b'num_samples', ''])
            self.refused(p, lambda: npx.extract_trace_headers(r, [name]), (TypeError, AttributeError, ValueError), 'extracting the field %r' % (name,))
        else:
            if parsed.num_traces == 0 or parsed.max_samples == 0:
                return
            ils, xls = sorted({a for a, b in parsed.keys}), sorted({b for a, b in parsed.keys})
            if not ils or len(ils) * len(xls) > 3000:
                return
            il, xl = rng.choice(ils), rng.choice(xls)
            absent = lambda numbers: next(k for k in iter(lambda: rng.choice([numbers[0] - 1, numbers[-1] + 1, rng.randint(numbers[0] - 5, numbers[-1] + 5), 0, -1]), None)
                                          if k not in numbers)

            def among(numbers):
                r = rng.random()
                if r < 0.25:
                    return [absent(numbers)]
                if r < 0.5:
                    return [rng.choice([numbers[0], numbers[-1]]), absent(numbers)]
                gaps = [(a, b) for a, b in zip(numbers, numbers[1:]) if b > a + 1]
                if gaps and r < 0.9:
                    # numbers between others
                    a, b = rng.choice(gaps)
                    if rng.random() < 0.5:
                        return [a, rng.randint(a + 1, b - 1), b]
                    k = (a + b) // 2
                    some = list(range(a, b + 1, k - a))
                    if any(x not in numbers for x in some) and len(some) < 1000:
                        return range(a, b + 1, k - a) if rng.random() < 0.5 else some
                some = rng.sample(numbers, min(len(numbers), 5)) + [absent(numbers)]
                rng.shuffle(some)
                return some
            ms = parsed.max_samples
            null = rng.choice([None, -1])
            if what == 'inline':
                k = absent(ils)
                self.refused(p, lambda: npx.extract_inline_3d(r, k, null=null), ValueError, 'extract_inline_3d(%d)' % k)
                some = among(xls)
                self.refused(p, lambda: npx.extract_inline_3d(r, il, xline_numbers=some, null=null), ValueError, 'extract_inline_3d() of crosslines %r' % some)
            elif what == 'xline':
                k = absent(xls)
                self.refused(p, lambda: npx.extract_xline_3d(r, k, null=null), ValueError, 'extract_xline_3d(%d)' % k)
                some = among(ils)
                self.refused(p, lambda: npx.extract_xline_3d(r, xl, inline_numbers=some, null=null), ValueError, 'extract_xline_3d() of inlines %r' % some)
            elif what == 'slice':
                k = rng.choice([ms, ms + 1, -1, ms + 1000])
                self.refused(p, lambda: npx.extract_timeslice_3d(r, k, null=null), ValueError, 'extract_timeslice_3d(%d) of %d' % (k, ms))
                some = among(ils)
                self.refused(p, lambda: npx.extract_timeslice_3d(r, 0, inline_numbers=some, null=null), ValueError, 'extract_timeslice_3d() of inlines %r' % some)
            else:
                some = rng.choice([[ms], [0, ms], [-1], [-1, 0], range(0, ms + 1), [ms + 100]])
                self.refused(p, lambda: npx.extract_inline_3d(r, il, sample_numbers=some, null=null), ValueError, 'extract_inline_3d() of samples %r' % (some,))

    # ---- writing -----------------------------------------------------------------------------
    def bad_write(self, rng, o):
        p = self.proc(o.get('p', 0))
        spec = self.spec(o['ds'])
        if p is None or spec is None:
            return
        slot = p.slot
        spec = dict(spec, text=list(spec['text']), ext=[list(x) for x in spec['ext']], samples=[list(x) for x in spec['samples']], raw=None)
        path = W + 'bad.out'
        kind = rng.choice(['raw', 'none', 'bytesio', 'buf', 'short'])
        kw = dict(trace_header_format=slot.user.TRACE_FORMATS[spec['th']], endian=spec['endian'])
        try:
            good = model.encode_file(spec)
        except UnicodeError:
            return
        ds_enc = spec['enc']
        what = rng.choice(['encoding', 'encoding', 'progress', 'text', 'pages', 'pages', 'sample', 'direct'])
        limit, errors = 0, ()
        if what == 'encoding':
            bad = rng.choice(NOT_ENCODINGS)
            errors = slot.writer.UnsupportedEncodingError
            if rng.random() < 0.5:
                kw['encoding'] = bad
            else:
                ds_enc = bad
        elif what == 'progress':
            kw['progress'] = rng.choice(NOT_CALLABLE)
            errors = TypeError
        elif what == 'text':
            k = rng.randrange(len(spec['text']) or 1)
            if not spec['text']:
                return
            spec['text'][k] = 'C %d \u4e2d\u6587' % k
            errors = UnicodeError
        elif what == 'pages':
            pages = spec['ext'] or [['x' * 80] * 40]
            i = rng.randrange(len(pages))
            j = rng.randrange(len(pages[i]))
            r = rng.random()
            if r < 0.25:
                pages[i] = pages[i][:-1]
            elif r < 0.5:
                pages[i] = list(pages[i]) + [' ' * 80]
            elif r < 0.7:
                pages[i][j] = pages[i][j][:-1]
            elif r < 0.9:
                pages[i][j] += ' '
            else:
                pages[i][j] = '\u4e2d' * 80
            spec['ext'] = pages
            limit, errors = 3600, ValueError
        elif what == 'sample':
            some = [i for i, s in enumerate(spec['samples']) if s]
            if not some:
                return
            i = rng.choice(some)
            if spec['fmt'] == 'ibm':
                bad = rng.choice([7.3e75, -7.3e75, 1e76, -1e300, float('inf'), float('-inf'), float('nan')])
            elif spec['fmt'] == 'float32':
                bad = rng.choice([3.5e38, -3.5e38, 1e300, -1e39])
            else:
                bits = {'int32': 31, 'int16': 15, 'int8': 7}[spec['fmt']]
                bad = rng.choice([2 ** bits, -2 ** bits - 1, 2 ** 40, 0.5])
            spec['samples'][i][rng.randrange(len(spec['samples'][i]))] = bad
            errors = Exception
            limit = 3600 + 3200 * len(spec['ext']) + sum(240 + len(s) * model.WIDTH[spec['fmt']] for s in spec['samples'][:i + 1])
        old = self.fs.nodes.get(path)
        if old is not None:
            self.fs.remove(path)
        fh = handles.open_for_writing(self.fs, path, kind, o['seed'])
        if what == 'direct':
            bad = rng.choice(NOT_ENCODINGS)
            t, unsupported = slot.toolkit, slot.writer.UnsupportedEncodingError
            r = rng.random()
            if r < 0.4:
                self.refused(p, lambda: t.write_textual_reel_header(fh, spec['text'], bad), unsupported, 'writing a textual header in %s' % bad)
            elif r < 0.7:
                self.refused(p, lambda: t.write_extended_textual_headers(fh, spec['ext'], bad), unsupported, 'writing extended headers in %s' % bad)
            else:
                self.refused(p, lambda: t.format_extended_textual_header('text', bad), unsupported, 'formatting an extended header in %s' % bad)
        else:
            order = list(range(len(spec['headers'])))
            dataset = self.mem_dataset(slot, spec, ds_enc, order=order)
            asked = []
            dataset._recorder = lambda *a: asked.append(a)
            checks, self.checks = self.checks, self.checks - {'files'}      # the file written to does change
            try:
                self.refused(p, lambda: slot.writer.write_segy(fh, dataset, **kw), errors, 'writing with a wrong %s (%r)' % (what, kw.get(what, ds_enc)))
            finally:
                self.checks = checks
            if asked and what != 'sample':
                self.fail('asked', 'the dataset was asked for traces though the request was to be refused')
        if fh.closed:
            self.fail('handle-closed', 'the handle given for writing was closed')
        try:
            fh.flush()
        except OSError:
            pass
        stored = fh.getvalue() if kind == 'bytesio' else bytes(self.fs.nodes[path].data)
        fh.close()
        if len(stored) > limit or not good.startswith(stored):
            self.fail('stored', 'after a refused request to write (%s) %d bytes are stored, which are not those before the fault (%d)' % (what, len(stored), limit))
        self.fs.remove(path) if kind != 'bytesio' else None
