"""Queries of a reader: what was observed, and what ought to be."""
import hashlib

from . import model
from .fs import SimBudget, SimCrash

MISSING = object()


def header_dict(h, names):
    return {n: int(getattr(h, n)) for n in names}


def reader_kind(slot, reader):
    if isinstance(reader, slot.reader.SegYReader3D):
        return 3
    if isinstance(reader, slot.reader.SegYReader2D):
        return 2
    return 1


def tupled(x):
    return tuple(tupled(i) for i in x) if isinstance(x, (list, tuple)) else x


def ask(slot, reader, q, th_names, brh_names):
    """Make query q; the answer in canonical form."""
    k = q[0]
    if k == 'nt':
        return reader.num_traces()
    if k == 'idx':
        return list(reader.trace_indexes())
    if k == 'max':
        return reader.max_num_trace_samples()
    if k == 'nts':
        return reader.num_trace_samples(q[1])
    if k == 'th':
        return header_dict(reader.trace_header(q[1]), th_names)
    if k == 'thsub':
        sub = slot.header.SubFormatMeta('Sub', (), {}, parent_format=slot.user.TRACE_FORMATS[q[3]],
                                        parent_field_names=list(q[2]))
        packer = slot.packer.make_header_packer(sub, reader.endian)
        return header_dict(reader.trace_header(q[1], packer), q[2])
    if k == 'ts':
        a, b = q[2], q[3]
        if a is None and b is None:
            v = reader.trace_samples(q[1])
        else:
            v = reader.trace_samples(q[1], a, b)
        return [float(x) for x in v]
    if k == 'text':
        return tuple(reader.textual_reel_header)
    if k == 'reel':
        return header_dict(reader.binary_reel_header, brh_names)
    if k == 'ext':
        return [tuple(p) for p in reader.extended_textual_header]
    if k == 'dim':
        return reader.dimensionality
    if k == 'kind':
        return reader_kind(slot, reader)
    if k == 'fmt':
        return getattr(reader.data_sample_format, 'value', reader.data_sample_format)
    if k == 'fmtd':
        return reader.data_sample_format_description
    if k == 'rev':
        return int(reader.revision)
    if k == 'enc':
        return reader.encoding
    if k == 'endian':
        return reader.endian
    if k == 'bps':
        return reader.bytes_per_sample
    if k == 'format':
        return reader.trace_header_format_class is slot.user.TRACE_FORMATS[q[1]]
    if k == 'index':
        kind = reader_kind(slot, reader)
        if kind == 3:
            keys = sorted(tuple(x) for x in reader.inline_xline_numbers())
            return dict(inlines=list(reader.inline_numbers()), xlines=list(reader.xline_numbers()), keys=keys,
                        ni=reader.num_inlines(), nx=reader.num_xlines(),
                        map=[reader.trace_index(x) for x in keys])
        if kind == 2:
            cdps = list(reader.cdp_numbers())
            return dict(cdps=cdps, n=reader.num_cdps(), map=[reader.trace_index(x) for x in cdps])
        return {}
    if k == 'lines':
        kind = reader_kind(slot, reader)
        if kind == 3:
            a, b = list(reader.inline_numbers()), list(reader.xline_numbers())
            return dict(a=a, b=b, n=[reader.num_inlines(), reader.num_xlines()])
        if kind == 2:
            return dict(a=list(reader.cdp_numbers()), n=[reader.num_cdps()])
        return {}
    if k == 'ti':
        if reader_kind(slot, reader) == 1:
            return None
        return reader.trace_index(tupled(q[1]))
    if k == 'has':
        if reader_kind(slot, reader) == 1:
            return None
        return reader.has_trace_index(tupled(q[1]))
    raise AssertionError(q)


def observe(slot, reader, q, th_names, brh_names):
    """('v', answer) or ('e', exception)."""
    try:
        return 'v', ask(slot, reader, q, th_names, brh_names)
    except (SimBudget, SimCrash):
        raise
    except Exception as e:
        e.__traceback__ = None
        return 'e', e


def expected(p, q, kind):
    """('v', value), ('e', kind of error) or ('?', None), from the reference model.

    kind: the dimensionality class which the reader turned out to have.
    """
    k = q[0]
    n = p.num_traces
    if k == 'nt':
        return 'v', n
    if k == 'idx':
        return 'v', list(range(n))
    if k == 'max':
        return 'v', p.max_samples
    if k in ('nts', 'th', 'thsub', 'ts') and not (0 <= q[1] < n):
        return 'e', 'any'
    if k == 'nts':
        return 'v', p.traces[q[1]][1]
    if k == 'th':
        try:
            return 'v', p.header(q[1])
        except model.Bad:
            return 'e', 'any'
    if k == 'thsub':
        pos = p.traces[q[1]][0]
        try:
            h = {}
            for f, s, u in model._compiled(p.opts.th, p.opts.endian):
                if f[0] in q[2]:
                    v = (u if f[2].startswith('nn') else s).unpack_from(p.data, pos + f[1])[0]
                    if not model.valid(f, v):
                        raise model.Bad(f[0])
                    h[f[0]] = v
            return 'v', h
        except model.Bad:
            return 'e', 'any'
    if k == 'ts':
        i, a, b = q[1:]
        ns = p.traces[i][1]
        aa, bb = 0 if a is None else a, ns if b is None else b
        if not (0 <= bb <= ns and 0 <= aa <= bb):
            return 'e', 'any'
        v = p.samples(i, aa, bb)
        if v is None:
            return 'e', 'eof'
        return 'v', [float(x) for x in v]
    if k == 'text':
        return 'v', p.text
    if k == 'reel':
        return 'v', p.reel
    if k == 'ext':
        return 'v', p.ext
    if k == 'kind':
        want = p.kind()
        return ('?', None) if want is None else ('v', want)
    if k == 'dim':
        return 'v', (kind if kind > 1 else (1 if n == 1 else 0))
    if k == 'fmt':
        return 'v', p.fmt
    if k == 'fmtd':
        return 'v', model.DESCRIPTION[p.fmt]
    if k == 'rev':
        return 'v', p.revision
    if k == 'enc':
        return 'v', p.encoding
    if k == 'endian':
        return 'v', p.opts.endian
    if k == 'bps':
        return 'v', p.width
    if k == 'format':
        return 'v', q[1] == p.opts.th
    if k in ('index', 'ti', 'has', 'lines'):
        if kind == 1:
            return 'v', {} if k in ('index', 'lines') else None
        if kind == 3:
            if not p.has_lines or len(set(p.keys)) != len(p.keys):
                return '?', None
            m = {key: i for i, key in enumerate(p.keys)}
        else:
            if len(set(p.cdps)) != len(p.cdps):
                return '?', None
            m = {key: i for i, key in enumerate(p.cdps)}
        if k == 'lines':
            if kind == 3:
                il, xl = sorted({a for a, b in m}), sorted({b for a, b in m})
                return 'v', dict(a=il, b=xl, n=[len(il), len(xl)])
            return 'v', dict(a=sorted(m), n=[len(m)])
        if k == 'index':
            keys = sorted(m)
            if kind == 3:
                il, xl = sorted({a for a, b in m}), sorted({b for a, b in m})
                return 'v', dict(inlines=il, xlines=xl, keys=keys, ni=len(il), nx=len(xl), map=[m[x] for x in keys])
            return 'v', dict(cdps=keys, n=len(keys), map=[m[x] for x in keys])
        key = tupled(q[1])
        if k == 'has':
            return 'v', key in m
        return ('v', m[key]) if key in m else ('e', 'any')
    raise AssertionError(q)


def agree(got, want):
    """Does the observation accord with the expectation?"""
    if want[0] == '?':
        return True
    if want[0] == 'e':
        if got[0] != 'e':
            return False
        return want[1] == 'any' or isinstance(got[1], EOFError)
    if got[0] != 'v':
        return False
    return same(got[1], want[1])


def same(a, b):
    if isinstance(a, list) and isinstance(b, list) and a and isinstance(a[0], float) and b and isinstance(b[0], float):
        return len(a) == len(b) and all(map(_same_float, a, b))
    return a == b


def _same_float(a, b):
    return a == b or (a != a and b != b)


def same_outcome(a, b):
    """Two observations, of different readers."""
    if a[0] != b[0]:
        return False
    if a[0] == 'e':
        return True
    return same(a[1], b[1])


def full_queries(p, th, rng=None, limit=None, absent=True):
    """Queries which cover a file; a random subset of the per-trace ones if limit is given."""
    qs = [[k] for k in ('kind', 'nt', 'idx', 'max', 'text', 'reel', 'ext', 'dim', 'fmt', 'fmtd', 'rev', 'enc', 'endian',
                        'bps', 'index')] + [['format', th]]
    n = p.num_traces if p is not None else 0
    per = []
    for i in range(n):
        per.append(['nts', i])
        per.append(['th', i])
        per.append(['ts', i, None, None])
    if rng is not None and n:
        for _ in range(3):
            per.append(random_query(p, th, rng))
    if limit is not None and len(per) > limit:
        per = rng.sample(per, limit)
    qs += per
    if absent:
        qs.append(['ts', n, None, None])
        qs.append(['th', -1])
    if rng is not None:
        qs += key_queries(p, rng)
    return qs


def key_queries(p, rng):
    out = []
    keys = list(p.keys) or [(1, 1)]
    for _ in range(2):
        k = list(rng.choice(keys))
        k[rng.randrange(2)] += rng.choice([0, 1, -1, 1000])
        c = (rng.choice(p.cdps) if p.cdps else 0) + rng.choice([0, 1, -1, 1000])
        out += [['has2', k, c], ['ti2', k, c]]
    return out


def resolve_query(q, kind):
    """has2/ti2 carry both kinds of key, as the dimensionality is not known when a plan is made."""
    if q[0] in ('has2', 'ti2'):
        return [q[0][:-1], q[1] if kind == 3 else q[2]]
    return q


def random_query(p, th, rng):
    n = p.num_traces
    if n == 0:
        return ['nt']
    i = rng.randrange(n)
    r = rng.random()
    if r < 0.3:
        return ['th', i]
    if r < 0.65:
        ns = p.traces[i][1]
        a = rng.choice([None, 0, rng.randint(0, ns)])
        b = rng.choice([None, ns, rng.randint(a or 0, ns)])
        if rng.random() < 0.1:
            # samples which do not exist
            a, b = rng.choice([(None, ns + 1), (-1, None), (-1, 1), (ns, ns + 1), (ns + 1, None), (1, 0), (ns + 2, ns + 3), (0, -1)])
        return ['ts', i, a, b]
    if r < 0.75:
        names = list(model.field_map(th))
        return ['thsub', i, sorted(set(rng.choice(names) for _ in range(rng.randint(1, 4)))), th]
    if r < 0.8:
        return ['nts', i]
    return [rng.choice(['index', 'max', 'nt', 'dim', 'text', 'reel', 'ext', 'idx'])]


class Fresh:
    """An uncached reader of a private copy of some bytes, in a process of its own, without faults."""

    def __init__(self, slot, data, opts):
        import io
        self.slot, self.opts = slot, opts
        self.th_names = list(model.field_map(opts.th))
        self.brh_names = list(model.field_map(opts.brh))
        self.fh = io.BytesIO(data)
        self.error = None
        self.reader = None
        try:
            self.reader = create(slot, self.fh, opts, None)
        except Exception as e:
            e.__traceback__ = None
            self.error = e

    def answer(self, q):
        return observe(self.slot, self.reader, q, self.th_names, self.brh_names)


def create(slot, fh, opts, cache, progress=None):
    return slot.reader.create_reader(
        fh, encoding=opts.encoding, binary_reel_header_format=slot.user.REEL_FORMATS[opts.brh],
        trace_header_format=slot.user.TRACE_FORMATS[opts.th], endian=opts.endian, progress=progress,
        cache_directory=cache, dimensionality=opts.dim)


def digest(data):
    return hashlib.sha1(data).hexdigest()
