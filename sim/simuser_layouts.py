"""Descriptions of custom header layouts such as users might define, generated once and for all.

Used by the reference model and, to define the classes, by simuser in every simulated process.
"""
import random

SIZE = {'int32': 4, 'nnint32': 4, 'int16': 2, 'nnint16': 2, 'int8': 1, 'nnint8': 1, 'level': 2, 'small': 2, 'code': 2, 'flag': 4}
RANGE = {'int32': (-2 ** 31, 2 ** 31 - 1), 'nnint32': (0, 2 ** 31 - 1), 'int16': (-32768, 32767), 'nnint16': (0, 32767), 'int8': (-128, 127),
         'nnint8': (0, 127), 'level': (-5, 100), 'small': (0, 9), 'code': (-32768, 32767), 'flag': (-2 ** 31, 2 ** 31 - 1)}
# the types as which fields of user-defined types are stored
STORED = {'level': 'int16', 'small': 'nnint16', 'code': 'int16', 'flag': 'int32'}
VALUES = {'code': (-300, -1, 0, 1, 7, 20000), 'flag': (0, 1, 70000, -2 ** 31)}
TRACE, REEL = 28, 8


def _fields(rng, names, free, types):
    """Places fields of the given names at free bytes; returns [name, offset, type, default]."""
    out = []
    for name in names:
        t = types.get(name) or rng.choice(['int32', 'int32', 'int16', 'int16', 'nnint16', 'nnint32', 'int8', 'nnint8', 'level', 'small', 'code', 'flag'])
        places = [i for i in sorted(free) if all(i + k in free for k in range(SIZE[t]))]
        if not places:
            continue
        at = rng.choice([places[0], places[-1], rng.choice(places), rng.choice(places)])
        free -= set(range(at, at + SIZE[t]))
        if t in VALUES:
            default = rng.choice(VALUES[t])
        else:
            default = rng.choice([0, 0, rng.randint(*RANGE[t])])
        out.append([name, at, t, default])
    return out


def trace_layout(k):
    rng = random.Random(1000 + k)
    if k % 4 == 3:
        # derived from another
        base = trace_layout(k - 1)
        free = set(range(240)) - {b for f in base['fields'] for b in range(f[1], f[1] + SIZE[f[2]])}
        own = _fields(rng, ['more_%d' % i for i in range(rng.choice([1, 3, 10]))], free, {})
        return dict(base, base='Layout%d' % (k - 1), own=own, fields=base['fields'] + own)
    free = set(range(240))
    names = ['num_samples', 'ensemble_num', 'file_sequence_num']
    if rng.random() < 0.75:
        names += ['inline_number', 'crossline_number']
    elif rng.random() < 0.4:
        names += [rng.choice(['inline_number', 'crossline_number'])]
    names += ['field_%d' % i for i in range(rng.choice([0, 1, 2, 5, 20, 60, 200]))]
    types = dict(num_samples=rng.choice(['nnint16', 'nnint16', 'nnint32']), ensemble_num='int32', inline_number='int32', crossline_number='int32',
                 file_sequence_num=rng.choice(['int32', 'nnint32', 'int16']))
    first = rng.sample(names, len(names))
    fields = _fields(rng, first[:40], free, types)
    missing = [n for n in names[:5] if n not in [f[0] for f in fields]]
    if missing:
        free = set(range(240))
        fields = _fields(rng, names[:5] + names[5:35], free, types)
    else:
        fields += _fields(rng, first[40:], free, types)
    if rng.random() < 0.4:
        fields.sort(key=lambda f: f[1])
    else:
        rng.shuffle(fields)
    aliases = {}
    if rng.random() < 0.35:
        f = rng.choice(fields)
        aliases['same_as'] = f[0]
        fields.insert(rng.randint(0, len(fields)), ['same_as', f[1], f[2], f[3]])
    return dict(base=None, own=fields, fields=fields, aliases=aliases, start=rng.choice([1, 1, 0, 101]))


def reel_layout(k):
    rng = random.Random(2000 + k)
    free = set(range(60, 300)) | set(range(306, 400))
    own = _fields(rng, ['survey_%d' % i for i in range(rng.choice([1, 2, 10, 60]))], free, {})
    return dict(own=own)
