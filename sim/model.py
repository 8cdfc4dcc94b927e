"""Reference model of SEG-Y: an encoder, a decoder and what a reader must report.

Written from the standard and independent of the code under test.  Field tables are in
layout.json: name, byte offset, type, range, permitted values, default.
"""
import json
import math
import os
import random
import struct
from fractions import Fraction

from . import simuser_layouts

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json')) as _f:
    LAYOUTS = json.load(_f)

SIZE = {'int32': 4, 'nnint32': 4, 'int16': 2, 'nnint16': 2, 'int8': 1, 'nnint8': 1}
CODE = {4: 'i', 2: 'h', 1: 'b'}
I16 = [-32768, 32767]
I32 = [-2 ** 31, 2 ** 31 - 1]


def _f16(name, off):
    return [name, off, 'int16', *I16, None, 0]


def _f32(name, off):
    return [name, off, 'int32', *I32, None, 0]


_rev1 = LAYOUTS['rev1']['fields']
LAYOUTS['custom'] = {'length': 240, 'fields': _rev1 + [_f16('unassigned_1', 232), _f16('unassigned_2', 234),
                                                      _f32('unassigned_3', 236)]}
LAYOUTS['lines'] = {'length': 240, 'fields': [
    ['num_samples', 114, 'nnint16', 0, 32767, None, 0], _f32('file_sequence_num', 4), _f32('crossline_number', 20),
    _f32('inline_number', 8), _f32('ensemble_num', 192), _f16('sample_interval', 116)]}
LAYOUTS['alias'] = {'length': 240, 'fields': _rev1 + [_f32('my_inline', 188)]}
LAYOUTS['custombinary'] = {'length': 400, 'fields': LAYOUTS['binary']['fields'] + [_f32('survey_id', 100),
                                                                                  _f16('vessel_id', 200)]}
LAYOUTS['twin'] = {'length': 240, 'fields': _rev1 + [_f16('unassigned_1', 234), _f16('unassigned_2', 232),
                                                    _f32('unassigned_3', 236)]}
LAYOUTS['twinlines'] = {'length': 240, 'fields': [
    ['num_samples', 114, 'nnint16', 0, 32767, None, 0], _f32('file_sequence_num', 4), _f32('crossline_number', 8),
    _f32('inline_number', 20), _f32('ensemble_num', 192), _f16('sample_interval', 116)]}
LAYOUTS['twinbinary'] = {'length': 400, 'fields': LAYOUTS['binary']['fields'] + [_f32('survey_id', 104),
                                                                                _f16('vessel_id', 200)]}
# layouts of the same name, from another module
TWINS = {'custom': 'twin', 'lines': 'twinlines', 'custombinary': 'twinbinary'}
TWINS.update({v: k for k, v in list(TWINS.items())})
ALIASES = {'alias': {'my_inline': 'inline_number'}}


def _generated(fields):
    out = []
    for name, at, t, default in fields:
        values = simuser_layouts.VALUES.get(t)
        out.append([name, at, simuser_layouts.STORED.get(t, t), *simuser_layouts.RANGE[t], None if values is None else list(values), default])
    return out


for _k in range(simuser_layouts.TRACE):
    _d = simuser_layouts.trace_layout(_k)
    LAYOUTS['g%d' % _k] = {'length': 240, 'fields': _generated(_d['fields'])}
    ALIASES['g%d' % _k] = _d['aliases']
for _k in range(simuser_layouts.REEL):
    LAYOUTS['b%d' % _k] = {'length': 400, 'fields': LAYOUTS['binary']['fields'] + _generated(simuser_layouts.reel_layout(_k)['own'])}
GENERATED = ['g%d' % _k for _k in range(simuser_layouts.TRACE)]
GENERATED_REEL = ['b%d' % _k for _k in range(simuser_layouts.REEL)]


def ambiguous(layout):
    """The fields which share their bytes with others."""
    a = ALIASES.get(layout, {})
    return set(a) | set(a.values())

FORMATS = {'ibm': 1, 'int32': 2, 'int16': 3, 'float32': 5, 'int8': 8}
CODES = {v: k for k, v in FORMATS.items()}
WIDTH = {'ibm': 4, 'int32': 4, 'int16': 2, 'float32': 4, 'int8': 1}
CTYPE = {'int32': 'i', 'int16': 'h', 'int8': 'b', 'float32': 'f'}
DESCRIPTION = {'ibm': 'IBM 32 bit float', 'int32': '32 bit signed integer', 'int16': '16 bit signed integer',
               'float32': 'IEEE float32', 'int8': '8 bit signed integer (byte)'}
END_STANZA = '((SEG: EndText))'


def field_map(layout):
    return {f[0]: f for f in LAYOUTS[layout]['fields']}


class Bad(Exception):
    """The bytes do not encode a valid value."""


def valid(f, v):
    return f[5] is None and f[3] <= v <= f[4] or f[5] is not None and v in f[5]


_struct_cache = {}


def _compiled(layout, endian):
    key = layout, endian
    if key not in _struct_cache:
        _struct_cache[key] = [(f, struct.Struct(endian + CODE[SIZE[f[2]]]), struct.Struct(endian + CODE[SIZE[f[2]]].upper()))
                              for f in LAYOUTS[layout]['fields']]
    return _struct_cache[key]


def pack_header(layout, values, endian):
    buf = bytearray(LAYOUTS[layout]['length'])
    for f, s, u in _compiled(layout, endian):
        v = values.get(f[0], f[6])
        (u if f[2].startswith('nn') else s).pack_into(buf, f[1], v)
    return bytes(buf)


def unpack_header(layout, buf, endian):
    """Field values; raises Bad if any is not valid."""
    out = {}
    for f, s, u in _compiled(layout, endian):
        v = (u if f[2].startswith('nn') else s).unpack_from(buf, f[1])[0]
        if not valid(f, v):
            raise Bad('%s=%d' % (f[0], v))
        out[f[0]] = v
    return out


# ---- IBM floating point --------------------------------------------------------------------

def ibm_to_fraction(b):
    sign = -1 if b[0] & 0x80 else 1
    mant = (b[1] << 16) | (b[2] << 8) | b[3]
    return sign * Fraction(mant, 1 << 24) * Fraction(16) ** ((b[0] & 0x7f) - 64)


def ibm_to_float(b):
    # at most 24 significant bits and exponents within double range, so this is exact
    sign = -1.0 if b[0] & 0x80 else 1.0
    mant = (b[1] << 16) | (b[2] << 8) | b[3]
    if mant == 0:
        return 0.0
    return sign * math.ldexp(mant, -24 + 4 * ((b[0] & 0x7f) - 64))


def fraction_to_ibm(x):
    """The normalised encoding of an exactly representable value."""
    if x == 0:
        return b'\0\0\0\0'
    sign = 0x80 if x < 0 else 0
    m = abs(Fraction(x))
    e = 64
    while m >= 1:
        m /= 16
        e += 1
    while m < Fraction(1, 16) and e > 0:
        m *= 16
        e -= 1
    mant = m * (1 << 24)
    if mant.denominator != 1 or not 0 <= e < 128:
        raise ValueError('not representable')
    n = int(mant)
    return bytes((sign | e, n >> 16, (n >> 8) & 255, n & 255))


def ibm_ulp(x):
    m = abs(Fraction(x))
    e = 0
    while m >= 1:
        m /= 16
        e += 1
    while m < Fraction(1, 16) and e > -64:
        m *= 16
        e -= 1
    return Fraction(16) ** e / (1 << 24)


# ---- samples -------------------------------------------------------------------------------

def encode_samples(fmt, values, endian):
    if fmt == 'ibm':
        return b''.join(fraction_to_ibm(Fraction(v)) for v in values)
    return struct.pack('%s%d%s' % (endian, len(values), CTYPE[fmt]), *values)


def decode_samples(fmt, buf, endian):
    if fmt == 'ibm':
        return [ibm_to_float(buf[i:i + 4]) for i in range(0, len(buf), 4)]
    return list(struct.unpack('%s%d%s' % (endian, len(buf) // WIDTH[fmt], CTYPE[fmt]), buf))


def same_number(a, b):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def same_samples(got, want, fmt):
    if len(got) != len(want):
        return False
    if fmt == 'ibm':
        return all(float(g) == w for g, w in zip(got, want))
    if fmt == 'float32':
        return all(same_number(g, w) for g, w in zip(got, want))
    return all(int(g) == w and g == w for g, w in zip(got, want))


# ---- text ----------------------------------------------------------------------------------

_COMMON = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- '


def guess(raw):
    """The encoding a heuristic must find, or None if the bytes are not decisively text."""
    if not any(raw):
        return 'ascii'
    a = sum(raw.count(c) for c in _COMMON.encode('ascii')) / len(raw)
    e = sum(raw.count(c) for c in _COMMON.encode('cp037')) / len(raw)
    if a >= 0.65 and e < 0.4:
        return 'ascii'
    if e >= 0.65 and a < 0.4:
        return 'cp037'
    return None


def encode_lines(lines, enc):
    out = b''
    for i in range(40):
        raw = (lines[i] if i < len(lines) else '').encode(enc)[:80]
        out += raw + ' '.encode(enc) * (80 - len(raw))
    return out


def decode_lines(raw, enc):
    return tuple(raw[i:i + 80].decode(enc) for i in range(0, 3200, 80))


# ---- whole files ---------------------------------------------------------------------------

class Opts:
    """How a file is opened."""

    def __init__(self, encoding=None, endian='>', th='rev1', brh='binary', dim=None):
        self.encoding, self.endian, self.th, self.brh, self.dim = encoding, endian, th, brh, dim

    @classmethod
    def of(cls, d):
        return cls(**{k: v for k, v in d.items() if k in ('encoding', 'endian', 'th', 'brh', 'dim')})


def encode_file(spec, enc=None, endian=None, th=None, brh=None):
    """The bytes which a dataset must be stored as."""
    enc, endian, th, brh = enc or spec['enc'], endian or spec['endian'], th or spec['th'], brh or spec['brh']
    parts = [encode_lines(spec['text'], enc), pack_header(brh, spec['reel'], endian)]
    for page in spec['ext']:
        parts.append(b''.join(line.encode(enc) for line in page))
    raw = spec.get('raw')
    for i, (h, s) in enumerate(zip(spec['headers'], spec['samples'])):
        parts.append(pack_header(th, h, endian))
        parts.append(raw[i] if raw else encode_samples(spec['fmt'], s, endian))
    return b''.join(parts)


class Parsed:
    """What a reader of these bytes, opened with these options, must report.

    verdict: 'ok', 'error' (opening must raise) or 'any' (outside what the standard defines:
    opening may raise or not, but must end).
    """

    def __init__(self, data, opts):
        self.data, self.opts = data, opts
        self.why = ''
        self.verdict = 'ok'
        self.traces = []          # (offset, num_samples)
        self.tail = None          # offset of an incomplete trace header at the end, if any
        self._parse()

    def _fail(self, verdict, why):
        self.verdict, self.why = verdict, why

    def _parse(self):
        data, o = self.data, self.opts
        if len(data) < 3600:
            return self._fail('error', 'shorter than the reel headers')
        self.encoding = o.encoding
        if self.encoding is None:
            g = guess(data[:3200])
            if g is None:
                return self._fail('any', 'undecided encoding')
            self.encoding = g
        try:
            self.text = decode_lines(data[:3200], self.encoding)
        except UnicodeError:
            return self._fail('any', 'text not decodable')
        try:
            self.reel = unpack_header(o.brh, data[3200:3600], o.endian)
        except Bad as e:
            return self._fail('error', 'invalid reel header %s' % e)
        self.revision = self.reel['format_revision_num']
        self.fmt = CODES[self.reel['data_sample_format']]
        self.width = WIDTH[self.fmt]
        n = self.reel['num_extended_textual_headers']
        pos = 3600
        self.ext = []
        i = 0
        while n < 0 or i < n:
            raw = data[pos:pos + 3200]
            if len(raw) < 3200:
                return self._fail('error', 'extended header truncated')
            try:
                page = decode_lines(raw, self.encoding)
            except UnicodeError:
                return self._fail('any', 'extended text not decodable')
            self.ext.append(page)
            pos += 3200
            i += 1
            if END_STANZA in page[0]:
                if n >= 0 and i != n:
                    return self._fail('any', 'early end stanza')
                if n < 0:
                    break
        self.first_trace = pos
        layout = field_map(o.th)
        names = [f for f in ('file_sequence_num', 'ensemble_num', 'num_samples', 'inline_number', 'crossline_number')
                 if f in layout]
        self.has_lines = 'inline_number' in layout and 'crossline_number' in layout
        self.keys, self.cdps = [], []
        unpackers = {}
        for f, s, u in _compiled(o.th, o.endian):
            if f[0] in names:
                unpackers[f[0]] = (f, u if f[2].startswith('nn') else s)
        while pos < len(data):
            if len(data) - pos < 240:
                self.tail = pos
                break
            vals = {}
            for name, (f, s) in unpackers.items():
                v = s.unpack_from(data, pos + f[1])[0]
                if not valid(f, v):
                    return self._fail('error', 'invalid %s in trace %d' % (name, len(self.traces)))
                vals[name] = v
            ns = vals['num_samples']
            self.traces.append((pos, ns))
            self.cdps.append(vals.get('ensemble_num'))
            if self.has_lines:
                self.keys.append((vals['inline_number'], vals['crossline_number']))
            pos += 240 + ns * self.width

    @property
    def num_traces(self):
        return len(self.traces)

    @property
    def max_samples(self):
        return max((n for _, n in self.traces), default=0)

    def kind(self):
        """Dimensionality class a reader must have (1, 2 or 3), or None where unspecified."""
        if self.opts.dim is not None:
            return self.opts.dim
        if len(self.traces) < 2:
            return None
        if self.has_lines and len(set(self.keys)) == len(self.keys):
            return 3
        if len(set(self.cdps)) == len(self.cdps):
            return 2
        return 1

    def header(self, i):
        """Field values of trace header i; raises Bad if invalid."""
        pos = self.traces[i][0]
        return unpack_header(self.opts.th, self.data[pos:pos + 240], self.opts.endian)

    def samples(self, i, start=None, stop=None):
        """Values, or None if the file is too short."""
        pos, ns = self.traces[i]
        start = 0 if start is None else start
        stop = ns if stop is None else stop
        a = pos + 240 + start * self.width
        b = pos + 240 + stop * self.width
        buf = self.data[a:b]
        if len(buf) < b - a:
            return None
        return decode_samples(self.fmt, buf, self.opts.endian)


# ---- generation of datasets ------------------------------------------------------------------

_TEXT = _COMMON + '.,/()*+=#' 


def _value(f, rng):
    if f[5] is not None:
        return rng.choice(f[5])
    lo, hi = f[3], f[4]
    r = rng.random()
    if r < 0.35:
        return f[6] if lo <= f[6] <= hi else lo
    if r < 0.5:
        return rng.choice([lo, hi, max(lo, -1), min(hi, 1), 0 if lo <= 0 <= hi else lo])
    if r < 0.8:
        return rng.randint(max(lo, -1000), min(hi, 1000))
    return rng.randint(lo, hi)


def _sample(fmt, rng, unnormalised=False):
    if fmt == 'ibm':
        r = rng.random()
        if r < 0.1:
            return 0.0
        if r < 0.4:
            return float(rng.randint(-(2 ** 20), 2 ** 20))
        if r < 0.5:
            b = bytes((rng.choice([0x00, 0x7f, 0x80, 0xff, 0x40, 0xc1]), rng.randint(16, 255), rng.randrange(256), rng.randrange(256)))
        else:
            b = bytes((rng.randrange(256), rng.randint(16, 255), rng.randrange(256), rng.randrange(256)))
        return ibm_to_float(b)
    if fmt == 'float32':
        r = rng.random()
        if r < 0.1:
            return rng.choice([0.0, -0.0, 1.0, float('inf'), float('-inf'), 1e-45, 3.4028234663852886e38])
        if r < 0.5:
            return float(rng.randint(-10 ** 5, 10 ** 5)) / 8
        while True:
            v = struct.unpack('>f', rng.randbytes(4))[0]
            if v == v:
                return v
    lo, hi = {'int32': I32, 'int16': I16, 'int8': (-128, 127)}[fmt]
    r = rng.random()
    if r < 0.15:
        return rng.choice([lo, hi, 0, -1, 1])
    if r < 0.5:
        return rng.randint(max(lo, -100), min(hi, 100))
    return rng.randint(lo, hi)


def bent(numbers, rng):
    """Makes an arithmetic progression irregular in the middle, now and then."""
    n = len(numbers)
    if n < 4 or rng.random() < 0.7:
        return numbers
    numbers = list(numbers)
    step = abs(numbers[1] - numbers[0])
    if step < 2 or rng.random() < 0.3:
        numbers = [numbers[0] + 2 * (x - numbers[0]) for x in numbers]
        step *= 2
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice([n // 2, rng.randrange(1, n - 1)])
        x = numbers[k] + rng.choice([-1, 1]) * rng.choice([1, step // 2, max(1, step - 1)])
        if x not in numbers:
            numbers[k] = x
    return numbers


def geometry(kind, n, rng):
    """(inline, crossline) pairs and CDP numbers of n traces."""
    if kind == 'grid' or kind == 'gridx' or kind == 'gridrev':
        w = max(1, rng.randint(1, max(1, n)))
        while n % w:
            w -= 1
        h = n // w
        i0, j0 = rng.choice([0, 1, 100, -5]), rng.choice([0, 1, 2000, -3])
        di, dj = rng.choice([1, 1, 2, 5, 49]), rng.choice([1, 1, 3, 10, 1000])
        il = bent([i0 + di * i for i in range(h)], rng)
        xl = bent([j0 + dj * j for j in range(w)], rng)
        keys = [(i, j) for i in il for j in xl] if kind != 'gridx' else [(i, j) for j in xl for i in il]
        if kind == 'gridrev':
            keys = rng.choice([list(reversed(keys)), [(i, j) for i in reversed(il) for j in xl],
                               [(i, j) for i in il for j in reversed(xl)]])
        if rng.random() < 0.15 and n > 1:
            a, b = rng.randrange(n), rng.randrange(n)
            keys[a], keys[b] = keys[b], keys[a]
    elif kind == 'hole':
        w = max(2, rng.randint(2, max(2, n)))
        cells = [(7 + 2 * i, 30 + j) for i in range(n // w + 2) for j in range(w)][:n + 1]
        if cells:
            cells.pop(rng.randrange(len(cells)))
        keys = cells[:n]
    elif kind == 'sparse':
        keys = [(5 + c // (n + 1), 20 + c % (n + 1)) for c in rng.sample(range((n + 2) * (n + 1)), n)]
    elif kind == 'diagonal':
        keys = [(10 + i, 50 + 2 * i) for i in range(n)]
    elif kind == 'huge':
        keys = [(rng.randint(*I32), rng.randint(*I32)) for _ in range(n)]
    else:          # dup, line, random
        keys = [(rng.randint(0, 2), rng.randint(0, 2)) for _ in range(n)]
        if kind in ('line', 'dup'):
            keys = [(1, 1)] * n
    if kind == 'line':
        step = rng.choice([1, 2, -1, 7, 3, -10, 49, 1000, 10 ** 6])
        if abs(step) * n > 2 ** 29:
            step = 7
        start = rng.randint(-5, 500)
        cdps = bent([start + step * i for i in range(n)], rng)
        if rng.random() < 0.4 and n:
            rng.shuffle(cdps)
        if rng.random() < 0.3 and n:
            cdps = rng.sample(range(-100, 100 + n * 3), n)
    elif kind == 'dup':
        cdps = [rng.randint(1, 3) for _ in range(n)]
    else:
        cdps = [rng.randint(0, 50) for _ in range(n)]
    return keys, cdps


GEOMETRIES = ['hole', 'grid', 'gridx', 'gridrev', 'sparse', 'diagonal', 'huge', 'line', 'dup', 'random']


def expand(d):
    """Make the dataset described by a small JSON-able description."""
    rng = random.Random(d['seed'])
    n = d['n']
    fmt, enc, endian, th, brh = d['fmt'], d['enc'], d['endian'], d.get('th', 'rev1'), d.get('brh', 'binary')
    layout = field_map(th)
    keys, cdps = geometry(d.get('geom', 'grid'), n, rng)
    fixed = d.get('fixed', True)
    m = d['m']
    headers, samples, raw = [], [], []
    plain = d.get('plain', False)
    big = d.get('big', False)
    rawibm = fmt == 'ibm' and d.get('rawibm', False)
    lens = lengths(d.get('lens', 'const' if fixed else 'random'), n, m, rng)
    for t in range(n):
        h = {}
        for name, f in layout.items():
            h[name] = f[6] if plain else _value(f, rng)
        ns = lens[t]
        h['num_samples'] = ns
        h['ensemble_num'] = cdps[t]
        for name, v in zip(('inline_number', 'crossline_number'), keys[t]):
            if name in layout:
                h[name] = v
        for a, b in ALIASES.get(th, {}).items():
            h[a] = h[b]
        headers.append(h)
        if rawibm:
            raw.append(rng.randbytes(ns * 4))
            samples.append(decode_samples(fmt, raw[-1], endian))
        elif big:
            samples.append(list(decode_samples(fmt, rng.randbytes(ns * WIDTH[fmt]), '<')))
        else:
            samples.append([_sample(fmt, rng) for _ in range(ns)])
    reel = {name: (f[6] if plain else _value(f, rng)) for name, f in field_map(brh).items()}
    reel['data_sample_format'] = FORMATS[fmt]
    reel['num_samples'] = m
    reel['format_revision_num'] = 0 if th == 'rev0' else 256
    pages = d.get('pages', 0)
    ext = []
    for k in range(abs(pages)):
        ext.append([''.join(rng.choices(_TEXT, k=78)) + '\r\n' for _ in range(40)])
    if pages < 0:
        ext[-1][0] = END_STANZA.ljust(78) + '\r\n'
    reel['num_extended_textual_headers'] = -1 if pages < 0 else pages
    style = d.get('text', 0)
    lines = []
    for i in range(40):
        s = 'C%2d ' % (i + 1) + ''.join(rng.choices(_COMMON, k=76))
        if style == 1:
            s = s[:rng.randint(0, 80)]
        if style == 3:
            # any characters of the encoding, control characters included
            s = list(s)
            for _ in range(rng.choice([0, 1, 3, 12])):
                s[rng.randrange(80)] = chr(rng.choice([0, 0, 9, 10, 13, 26, 27, 32, rng.randrange(256 if enc == 'cp037' else 128)]))
            s = ''.join(s)
        lines.append(s)
    if style == 1:
        lines = lines[:rng.randint(1, 40)]
    if style == 2:
        lines = ['C%2d' % (i + 1) for i in range(40)]
    return dict(fmt=fmt, enc=enc, endian=endian, th=th, brh=brh, headers=headers, samples=samples, reel=reel,
                text=lines, ext=ext, n=n, m=m, desc=d, raw=raw if rawibm else None)


def lengths(style, n, m, rng):
    """How many samples each trace has; at most what the header fields can say."""
    return [min(x, 32767) for x in _lengths(style, n, m, rng)]


def _lengths(style, n, m, rng):
    if style == 'const' or n == 0:
        return [m] * n
    if style == 'up':
        return [m + i for i in range(n)]
    if style == 'down':
        return [m + n - 1 - i for i in range(n)]
    out = [m] * n
    if style == 'one':
        out[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([0, 1, m + 1, max(0, m - 1)])
        return out
    if style == 'almost':           # first and last agree with a progression, the middle does not
        out = [m + i for i in range(n)]
        if n > 2:
            out[rng.randrange(1, n - 1)] += rng.choice([-1, 1]) if m > 0 else 1
        return out
    return [rng.choice([m, rng.randint(0, m), max(0, m - 1)]) for _ in range(n)]


LENGTHS = ['const', 'up', 'down', 'one', 'almost', 'random']


def random_desc(rng, n=(0, 12), m=(0, 12), th=None, brh=None, geom=None, fmts=None):
    th = th or rng.choice(['rev1'] * 5 + ['rev0', 'custom', 'lines', 'alias', 'twin', 'twinlines'] + 3 * [rng.choice(GENERATED)])
    return dict(seed=rng.randrange(2 ** 31), n=rng.randint(*n), m=rng.randint(*m),
                fmt=rng.choice(fmts or ['ibm', 'int32', 'int16', 'float32', 'int8']),
                enc=rng.choice(['ascii', 'cp037']), endian=rng.choice('>>><'), th=th,
                brh=brh or rng.choice(['binary', 'binary', 'binary', 'custombinary', 'custombinary', 'twinbinary', rng.choice(GENERATED_REEL)]),
                geom=geom or rng.choice(GEOMETRIES), lens=rng.choice(['const'] * 5 + LENGTHS),
                pages=rng.choice([0, 0, 0, 1, 2, -1, -2]), text=rng.choice([0, 0, 1, 2, 3]))
