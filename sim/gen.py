"""Generators of plans, one for each property.  A seed gives one plan."""
import random

from . import handles, model
from .story import EXCEPTIONS

CACHES = ['.segpy', '/sim/cache', 'cc/deep', '../shared', None]
CALLBACK_ERRORS = sorted(EXCEPTIONS)
DAMAGE = ['trunc', 'trunc', 'empty', 'zero', 'zerotail', 'garbage', 'text', 'version', 'class', 'rm', 'flip', 'flip', 'format', 'format', 'odd', 'odd']
EDITS = ['text', 'sample', 'sample', 'field', 'line', 'last', 'swaptraces', 'drop', 'append', 'reelfield', 'ext']
INTERRUPTIBLE = ('open', 'share', 'q', 'look', 'take', 'write', 'bulk', 'pickle', 'unpickle', 'iq', 'hd', 'bad')
STORAGE = ['eio', 'enospc', 'eacces', 'erofs', 'enoent', 'edquot', 'emfile', 'estale', 'eperm']


class G:
    """Helps to make plans."""

    def __init__(self, rng, n=(0, 10), m=(0, 10), nds=3, dim=True, raw=True, sizes=0.04, **kw):
        self.rng = rng
        self.ds = {}
        for k in range(nds):
            d = model.random_desc(rng, n, m, **kw)
            if raw and d['fmt'] == 'ibm' and rng.random() < 0.4:
                d['rawibm'] = True
            self.ds[str(k)] = d
        if rng.random() < sizes:
            unusual_size(self.ds[str(rng.randrange(nds))], rng)
        if nds > 1 and rng.random() < 0.2:
            # layouts of the same name in one process
            for a in 'th', 'brh':
                self.ds['1'][a] = model.TWINS.get(self.ds['0'][a], self.ds['1'][a])
        self.dim = rng.choice([None, None, None, None, 1, 2, 3]) if dim else None
        self.next_h = 0
        self.ops = []

    def add(self, op, **kw):
        self.ops.append(dict(kw, op=op))

    def seed(self):
        return self.rng.randrange(10 ** 6)

    def pick(self, *a):
        return self.rng.choice(a)

    def opts(self, k, odd=0.0):
        d = self.ds[str(k)]
        rng = self.rng
        o = dict(endian=d['endian'], th=d['th'], brh=d['brh'], encoding=rng.choice([None, d['enc'], d['enc']]))
        if rng.random() < odd:
            o['th'] = rng.choice(['rev1', 'custom', 'alias', 'rev0', 'lines', 'twin', 'twinlines'] + [model.TWINS[o['th']]] * 6
                                 if o['th'] in model.TWINS else ['rev1', 'custom', 'alias', 'rev0', 'lines', rng.choice(model.GENERATED)])
        if rng.random() < odd:
            o['brh'] = rng.choice(['binary', 'custombinary', 'twinbinary', rng.choice(model.GENERATED_REEL)])
        if rng.random() < odd:
            o['encoding'] = rng.choice(['ascii', 'cp037'])
        if rng.random() < odd / 3:
            o['endian'] = rng.choice('<>')
        if self.dim is not None:
            o['dim'] = self.dim
        return o

    def key(self):
        return self.rng.choice(sorted(self.ds))

    def h(self):
        self.next_h += 1
        return self.next_h

    def open(self, path, k, odd=0.0, **kw):
        rng = self.rng
        o = dict(op='open', path=path, opts=self.opts(k, odd), kind=kw.pop('kind', None) or self.kind(), seed=self.seed(),
                 cache=kw.pop('cache', '.segpy'), h=kw.pop('h', None) or self.h(), look=kw.pop('look', 'some'))
        o.update(kw)
        self.ops.append(o)
        return o

    def kind(self):
        rng = self.rng
        return rng.choice(['buf', 'buf', 'buf', 'raw'] + handles.READ_KINDS)

    def plan(self, checks, oracle='fresh', **kw):
        return dict(kw, datasets=self.ds, ops=self.ops, checks=checks, oracle=oracle, seed=self.seed())


def unusual_size(d, rng):
    """Gives a data set long traces, many traces, or many extended headers; often at a limit of a type or size of a buffer."""
    r = rng.random()
    if r < 0.5:
        m = rng.choice([127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 20000, 32766, 32767])
        if m > 10000:
            d['fmt'] = rng.choice(['int32', 'int16', 'int8'])
        if d['fmt'] == 'float32':
            d['fmt'] = 'ibm'
        d.update(n=rng.randint(1, 3), m=m, lens=rng.choice(['const', 'const', 'one', 'random', 'down' if m < 32000 else 'const']), big=True, pages=0)
        if d['fmt'] == 'ibm':
            d['rawibm'] = True
    elif r < 0.8:
        d.update(n=rng.choice([100, 127, 128, 129, 255, 256, 257, 300, 500, 1000, 1025]), m=rng.choice([0, 1, 2]), plain=True, pages=0, text=0,
                 lens=rng.choice(['const', 'const', 'one', 'random']))
    else:
        d.update(pages=rng.choice([3, 7, 17, -3, -9]))


def over(rng):
    """What the file contains already which a write goes to."""
    if rng.random() < 0.85:
        return None
    return dict(part=rng.choice([0, 0.5, 0.9, 1, 1.1, 2]), seed=rng.randrange(10 ** 6))


def big_desc(rng):
    """A file larger than the blocks in which files are hashed and read."""
    return dict(seed=rng.randrange(2 ** 31), n=rng.randint(2, 8), m=rng.choice([4000, 9000, 17000]), fmt=rng.choice(['int32', 'int16']),
                enc='ascii', endian='>', th='rev1', brh='binary', geom=rng.choice(['grid', 'line']), lens='const', pages=0,
                text=0, plain=True, big=True)


def many_desc(rng):
    """A file of very many traces, whose cache entry is larger than any buffer."""
    return dict(seed=rng.randrange(2 ** 31), n=rng.choice([300, 900, 1500]), m=rng.choice([0, 1, 2]), fmt='int8', enc='ascii',
                endian='>', th='rev1', brh='binary', geom=rng.choice(['huge', 'sparse', 'dup']), lens=rng.choice(['const', 'random']),
                pages=0, text=0, plain=True)


# ---- C01 ------------------------------------------------------------------------------------------

def gen_C01(rng):
    g = G(rng, nds=3)
    big = rng.random() < 0.12
    if rng.random() < 0.012:
        # megabytes
        big = True
        d = dict(big_desc(rng), n=rng.randint(9, 36), m=rng.choice([30000, 32767]), fmt='int32')
        g.ds = {'0': d, '1': dict(d, seed=g.seed()), '2': dict(d, geom='grid' if d['geom'] == 'line' else 'line')}
    elif big:
        for k in g.ds:
            g.ds[k] = big_desc(rng)
            if k != '0' and rng.random() < 0.6:
                g.ds[k] = dict(g.ds['0'], geom=rng.choice(['grid', 'line', 'dup']))
    elif rng.random() < 0.25:
        # the same data in different clothes
        base = g.ds['0']
        g.ds['1'] = dict(base, endian='<' if base['endian'] == '>' else '>')
        g.ds['2'] = dict(base, enc='ascii' if base['enc'] == 'cp037' else 'cp037')
    paths = ['a.sgy', 'b.sgy', 'd/a.sgy', 'longer-name-of-file.sgy']
    caches = rng.sample(CACHES[:4], rng.choice([1, 1, 2])) + rng.choice([[], [None]])
    which = {}
    odd = rng.choice([0, 0.15, 0.5])
    for p in rng.sample(paths, 2):
        which[p] = g.key()
        g.add('put', ds=which[p], path=p)
        g.open(p, which[p], cache=rng.choice(caches), odd=odd)
    if big and rng.random() < 0.6:
        # a few bytes change, anywhere in a large file, which is opened in the same way each time
        p = rng.choice(sorted(which))
        opts, cache = g.opts(which[p]), rng.choice(caches[:1])
        for _ in range(rng.randint(2, 5)):
            g.open(p, which[p], cache=cache, opts=opts, kind=rng.choice(['buf', 'buf', 'raw', 'rw']), look='all')
            g.add('edit', path=p, what=rng.choice(['line', 'line', 'cdp', 'cdp', 'swaptraces', 'reelfield', 'text']), seed=g.seed(), opts=opts,
                  keep_mtime=rng.random() < 0.5)
        g.open(p, which[p], cache=cache, opts=opts, look='all', kind='buf')
        return g.plan(['data'])
    for _ in range(rng.randint(2, 6 if big else 12)):
        p = rng.choice(sorted(which))
        r = rng.random()
        if r < 0.12:
            q = rng.choice(paths)
            which[q] = rng.choice([which.get(q, '0'), g.key()])
            g.add('put', ds=which[q], path=q, inplace=rng.random() < 0.5, keep_mtime=rng.random() < 0.5)
        elif r < 0.3:
            g.add('edit', path=p, what=rng.choice(EDITS + ['flip', 'trunc', 'extend']), seed=g.seed(), opts=g.opts(which[p]),
                  keep_mtime=rng.random() < 0.5)
        elif r < 0.38:
            q = rng.choice([x for x in paths if x != p])
            which[q] = which[p]
            g.add('cp', a=p, b=q)
        elif r < 0.46:
            q = rng.choice([x for x in paths if x != p])
            which[q] = which[p]
            g.add('mv', a=p, b=q)
        elif r < 0.5:
            g.add('rm', path=p)
        elif r < 0.58:
            g.add('restart')
        elif r < 0.62:
            g.add('q', h=rng.randint(1, g.next_h), seed=g.seed(), count=2)
        elif r < 0.65:
            g.add('close', h=rng.randint(1, g.next_h))
        elif r < 0.7:
            # a handle from before, whatever its name denotes now
            a = rng.choice([o for o in g.ops if o['op'] == 'open'])
            g.add('share', of=a['h'], h=g.h(), opts=a['opts'], cache=a['cache'] if rng.random() < 0.7 else rng.choice(caches), look='some', seed=g.seed())
        else:
            g.open(p, which[p], cache=rng.choice(caches), odd=odd, p=rng.choice([0, 0, 0, 1]),
                   kind='buf' if big else None, look=rng.choice(['some', 'some', 'all']))
    if rng.random() < 0.3:
        # a source which transfers in the same pieces each time, as networks and pipes tend to
        hseed = g.seed()
        kinds = [rng.choice(['short', 'pyfile', 'raw', 'buf', 'shortbuf']), rng.choice(['short', 'pyfile'])]
        for o in g.ops:
            if o['op'] == 'open' and not big:
                o.update(kind=rng.choice(kinds), hseed=hseed)
    return g.plan(['data'])


# ---- C02 ------------------------------------------------------------------------------------------

def gen_C02(rng):
    g = G(rng, n=(6, 14), nds=2, dim=rng.random() < 0.3)
    if rng.random() < 0.1:
        g.ds['0'] = many_desc(rng)
    cache = rng.choice(CACHES[:4])
    path = rng.choice(['a.sgy', 'd/a.sgy'])
    g.add('put', ds='0', path=path)
    k = '0'
    opts = g.opts(k)
    if opts['encoding'] is None:
        opts['encoding'] = g.ds[k]['enc']
    if rng.random() < 0.4:
        g.open(path, k, cache=cache, kind='buf', opts=opts, p=1)
    if rng.random() < 0.2:
        g.add('edit', path=path, what=rng.choice(EDITS), seed=g.seed(), opts=opts)
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.5:
            g.add('damage', sel=rng.randrange(4), what=rng.choice(DAMAGE), seed=g.seed())
        g.open(path, k, cache=cache, kind=rng.choice(['buf', 'buf', 'raw', 'short']), opts=opts)
        if rng.random() < 0.3:
            g.add('power', seed=g.seed())
        elif rng.random() < 0.3:
            g.add('restart')
    if rng.random() < 0.5:
        g.add('damage', sel=rng.randrange(4), what=rng.choice(DAMAGE), seed=g.seed())
    g.open(path, k, cache=cache, kind='buf', opts=opts)
    g.add('restart')
    g.open(path, k, cache=cache, kind='buf', opts=opts, look='all')
    g.add('effective', path=path, opts=opts, cache=cache)
    return g.plan(['data'], faulty=dict(classes=['cache'], dos=['crash'], n=(1, 2), power=0.5))


# ---- C03 ------------------------------------------------------------------------------------------

def gen_C03(rng):
    g = G(rng, nds=2)
    if rng.random() < 0.05:
        g.ds['0'] = many_desc(rng)
    caches = rng.choice([['.segpy'], ['/sim/cache'], ['/sim/x/cache'], ['cc/deep'], ['.segpy', '/sim/cache']])
    path = rng.choice(['a.sgy', 'd/a.sgy'])
    dirs = {'.segpy': ('d/' if '/' in path else '') + '.segpy', '/sim/cache': '/sim/cache', '/sim/x/cache': '/sim/x/cache',
            'cc/deep': ('d/' if '/' in path else '') + 'cc/deep'}
    g.add('put', ds='0', path=path)
    k = '0'
    kinds = ['buf', 'buf', 'raw', 'pathname', 'bname', 'relname', 'bytesio', 'rw', 'iname', 'nameless']
    for _ in range(rng.randint(1, 5)):
        c = rng.choice(caches)
        r = rng.random()
        if r < 0.12:
            g.add('mkfile', path=rng.choice([dirs[c], dirs[c].rsplit('/', 1)[0] if '/' in dirs[c].strip('/') and not dirs[c].startswith('/sim/c') else dirs[c]]))
        elif r < 0.2:
            g.add('chmod', path=dirs[c], mode=rng.choice([0, 0o400, 0o500, 0o600, 0o700, 0o200]))
        elif r < 0.25:
            g.add('chmod', path=dirs[c].rsplit('/', 1)[0] if '/' in dirs[c].strip('/') else '/sim/work', mode=rng.choice([0o500, 0o755]))
        elif r < 0.35:
            g.add('damage', sel=rng.randrange(4), what=rng.choice(DAMAGE + ['dir', 'chmod', 'chmod']), seed=g.seed())
        elif r < 0.45:
            g.add('restart')
        elif r < 0.55:
            g.add('edit', path=path, what=rng.choice(EDITS), seed=g.seed(), opts=g.opts(k))
        g.open(path, k, cache=c, kind=rng.choice(kinds))
    g.open(path, k, cache=rng.choice(caches), kind='buf', look='all')
    return g.plan(['data'], faulty=dict(classes=['cache'], dos=STORAGE + ['partial'], n=(1, 3), persist=0.5))


# ---- C04 ------------------------------------------------------------------------------------------

def gen_C04(rng):
    g = G(rng, n=(0, 8), m=(0, 6), nds=2, dim=False)
    many = rng.random() < 0.1
    if many:
        g.ds['0'] = many_desc(rng)
        if rng.random() < 0.5:
            g.ds['1'] = many_desc(rng)
    cache = rng.choice(['.segpy', '/sim/cache', '/sim/cache'])
    paths = ['a.sgy', 'a-copy-with-a-longer-name.sgy', 'd/c.sgy']
    which = {}
    for p in paths:
        which[p] = rng.choice(['0', '0', '1'])
        g.add('put', ds=which[p], path=p)
    same = rng.random() < 0.7
    common = {k: g.opts(k, 0.05) for k in g.ds}
    r = rng.random()
    if r < 0.5:
        g.open(rng.choice(paths), '0', cache=cache, kind='buf', look='none', p=9, opts=common['0'])
        if r < 0.3:
            g.add('damage', sel=rng.randrange(3), what=rng.choice(DAMAGE), seed=g.seed())
    n = rng.choice([2, 2, 2, 3, 3, 4])
    if many:
        n = 2
    bodies = []
    for b in range(n):
        saved, g.ops = g.ops, []
        for _ in range(rng.choice([1, 1, 2, 3]) if not many else 1):
            p = rng.choice(paths)
            g.open(p, which[p], cache=cache, kind=rng.choice(['buf', 'buf', 'raw', 'pathname']), p=b, look=rng.choice(['few', 'some', 'none']),
                   opts=common[which[p]] if same else g.opts(which[p]))
            if rng.random() < 0.1:
                g.add('restart', p=b)
        bodies.append(dict(p=b, ops=g.ops))
        g.ops = saved
    mode = rng.choice(['uniform', 'uniform', 'pct'])
    sched = dict(seed=g.seed(), mode=mode, p=rng.choice([0.05, 0.2, 0.5, 0.9]), depth=rng.choice([1, 2, 3, 5]),
                 horizon=rng.choice([60, 150, 400, 1000]))
    g.add('par', bodies=bodies, sched=sched, id=1)
    if rng.random() < 0.3:
        g.add('power', seed=g.seed())
    for p in rng.sample(paths, 2):
        g.open(p, which[p], cache=cache, kind='buf', p=5, opts=common[which[p]])
    return g.plan(['data'], faulty=dict(classes=['cache', 'cache', 'segy'], dos=['crash'], n=(1, 2), soft=0.2), sub=['par'])


# ---- C05 ------------------------------------------------------------------------------------------

def write_kind(rng):
    return rng.choice(handles.WRITE_KINDS)


def gen_C05(rng):
    g = G(rng, n=(0, 8), m=(0, 16), nds=2, dim=False)
    if rng.random() < 0.06:
        g.ds['0'] = big_desc(rng)
    for i in range(rng.randint(1, 2)):
        k = g.key()
        d = g.ds[k]
        big = d.get('big')
        out = 'o%d' % i
        enc = rng.choice([None, None, 'ascii', 'cp037'])
        endian = rng.choice([d['endian'], d['endian'], '<', '>'])
        src = dict(ds=k)
        if rng.random() < 0.2:
            src['order'] = g.seed()
        g.add('write', src=src, path=out + '.out', kind=rng.choice(['buf', 'raw', 'bytesio']) if big else write_kind(rng), seed=g.seed(),
              enc=enc, endian=endian, prog=rng.choice([None, {}]), over=over(rng))
        g.add('mv', a=out + '.out', b=out + '.sgy')
        e = enc or d['enc']
        o = g.open(out + '.sgy', k, cache=rng.choice([None, None, '.segpy', '/sim/cache']), look='all' if not big else 'few',
                   kind='buf' if big else None)
        o['opts'].update(endian=endian, encoding=rng.choice([None, e]))
        if rng.random() < 0.3:
            o = g.open(out + '.sgy', k, cache='.segpy', look='some', kind='buf' if big else None)
            o['opts'].update(endian=endian, encoding=rng.choice([None, e]))
        if rng.random() < 0.3:
            # with the functions of the toolkit
            g.add('serial', path=out + '.sgy', opts=dict(o['opts']), kind='buf' if big else g.kind(), seed=g.seed())
        if rng.random() < 0.15:
            g.add('put', ds=k, path='p.sgy')
            g.open('p.sgy', k, look='all' if not big else 'few', cache=None, kind='buf' if big else None)
    if rng.random() < 0.1:
        g.add('pages', seed=g.seed())
    return g.plan(['data', 'bytes'], oracle='model', faulty=dict(classes=['segy', 'out'], dos=['short'], n=(1, 3), persist=0.3))


# ---- C06 ------------------------------------------------------------------------------------------

def gen_C06(rng):
    g = G(rng, n=(0, 8), m=(0, 12), nds=1, dim=False)
    if rng.random() < 0.1:
        g.ds['0'] = big_desc(rng)
    big = g.ds['0'].get('big')
    overlay = None
    src = dict(ds='0')
    kinds = ['buf', 'small', 'raw', 'short', 'shortbuf', 'rw', 'pyfile', 'none'] if not big else ['buf', 'raw', 'rw']
    if rng.random() < 0.3:
        g.add('put', ds='0', path='a.sgy')
        g.open('a.sgy', '0', h=1, look='none', kind='buf', cache=rng.choice([None, '.segpy']))
        src = dict(h=1)
    if rng.random() < 0.2:
        src['overlay'] = dict(scale=rng.choice(['half', 'negate']))
    for i in range(rng.choice([1, 1, 2])):
        g.add('write', src=src, path='o.out', kind=rng.choice(kinds), seed=g.seed(), enc=rng.choice([None, 'ascii', 'cp037']),
              endian=rng.choice([None, '<', '>']), prog=rng.choice([{}, None]))
    return g.plan(['prefix', 'bytes'], faulty=dict(classes=['out'], dos=['eio', 'enospc', 'edquot', 'partial+', 'crash', 'partial'],
                                                   n=(1, 2), persist=0.4, prefer=['write']))


# ---- C07 ------------------------------------------------------------------------------------------

def gen_C07(rng):
    g = G(rng, n=(0, 8), m=(0, 10), nds=1)
    d = g.ds['0']
    r = rng.random()
    if r < 0.25:
        # the process which writes the file is killed, or its disk fills up
        g.add('write', src=dict(ds='0'), path='a.out', kind=rng.choice(['buf', 'raw', 'small', 'short']), seed=g.seed())
        if rng.random() < 0.5:
            g.add('power', seed=g.seed())
        g.add('mv', a='a.out', b='a.sgy')
        faulty = dict(classes=['out'], dos=['crash', 'enospc', 'crash'], n=(1, 1), persist=1, prefer=['write'], always=True)
    else:
        faulty = dict(classes=['segy'], dos=['short'], n=(1, 2), persist=0.3)
        g.add('put', ds='0', path='a.sgy')
        if rng.random() < 0.3:
            # an intact file was opened, and cached, before
            g.open('a.sgy', '0', cache='.segpy', kind='buf', look='few')
        g.add('put', ds='0', path='a.sgy', cut=cut(rng, d), inplace=rng.random() < 0.5, keep_mtime=rng.random() < 0.5)
    for _ in range(rng.choice([1, 2])):
        g.open('a.sgy', '0', cache=rng.choice([None, '.segpy', '/sim/cache']), look='all')
    g.add('q', h=g.next_h, seed=g.seed(), count=4)
    if rng.random() < 0.3:
        g.add('serial', path='a.sgy', opts=g.opts('0'), kind=g.kind(), seed=g.seed())
    return g.plan(['data'], oracle='model', faulty=faulty)


def cut(rng, d):
    """A number of bytes at which to cut the file which d describes."""
    s = model.expand(d)
    size = 3600 + 3200 * len(s['ext'])
    marks = [0, 3200, 3600, size]
    total = size
    for t in s['samples']:
        marks.append(total)
        marks.append(total + 240)
        total += 240 + len(t) * model.WIDTH[s['fmt']]
        marks.append(total)
    r = rng.random()
    if r < 0.45:
        return max(0, rng.choice(marks) + rng.choice([-4, -2, -1, 0, 1, 2, 3, 5, 100]))
    if r < 0.7 and total > size:
        return rng.randint(size, total)
    return rng.randint(0, total)


# ---- C08 ------------------------------------------------------------------------------------------

def gen_C08(rng):
    g = G(rng, n=(1, 9), m=(0, 10), nds=2)
    g.add('put', ds='0', path='a.sgy')
    kinds = ['buf', 'small', 'raw', 'short', 'rw', 'pathname', 'pyfile', 'nameless']
    cache = rng.choice([None, '.segpy', '.segpy', '/sim/cache'])
    same = g.opts('0')
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.15:
            g.add('restart')
        elif r < 0.25:
            g.add('edit', path='a.sgy', what=rng.choice(EDITS), seed=g.seed(), opts=g.opts('0'))
        o = g.open('a.sgy', '0', cache=cache, kind=rng.choice(kinds), look=rng.choice(['some', 'all']), retry=True)
        if rng.random() < 0.7:
            o['opts'] = same
        if rng.random() < 0.6:
            g.add('q', h=g.next_h, seed=g.seed(), count=rng.randint(1, 4))
        if rng.random() < 0.15:
            g.add('serial', path='a.sgy', opts=g.opts('0'), kind=rng.choice(kinds), seed=g.seed())
    g.open('a.sgy', '0', cache=cache, kind='buf', look='all', retry=True)
    return g.plan(['data', 'errors'], faulty=dict(intr=0.3, classes=['segy'], dos=['eio', 'estale', 'memory', 'eio', 'enoent'], n=(1, 3), persist=0.25, span=3,
                                        prefer=['read', 'seek', 'tell']))


# ---- C09 ------------------------------------------------------------------------------------------

def gen_C09(rng):
    g = G(rng, n=(1, 9), m=(1, 10), nds=2, dim=rng.random() < 0.4)
    if rng.random() < 0.5:
        g.ds['1'] = dict(g.ds['0'], **rng.choice([dict(seed=g.seed()), dict(endian='<'), dict(fmt='int16'), dict(fmt='ibm')]))
    g.add('put', ds='0', path='a.sgy')
    g.add('put', ds='1', path='b.sgy')
    hs = []
    cache = rng.choice([None, None, '.segpy', '/sim/cache'])
    for _ in range(rng.randint(1, 3)):
        k = rng.choice('001')
        o = g.open('ab'[int(k)] + '.sgy', k, cache=cache, look='none', odd=rng.choice([0, 0, 0.4]), h=g.h())
        hs.append(o['h'])
        if rng.random() < 0.5:
            hs.append(g.h())
            g.add('share', of=o['h'], h=hs[-1], opts=g.opts(k, 0.4), cache=rng.choice([None, cache]), look='none', seed=g.seed())
    for _ in range(rng.randint(6, 25)):
        h = rng.choice(hs)
        r = rng.random()
        if r < 0.4:
            g.add('q', h=h, seed=g.seed(), count=rng.randint(1, 3))
        elif r < 0.55:
            g.add('move', h=h, seed=g.seed())
        elif r < 0.75:
            g.add('take', h=h, seed=g.seed(), mutate=rng.random() < 0.6)
        elif r < 0.85:
            g.add('given', h=h)
        elif r < 0.9:
            g.add('hcopy', h=h, seed=g.seed())
        elif r < 0.95:
            g.add('lazy', h=h, seed=g.seed())
        else:
            g.add('look', h=h, seed=g.seed(), limit=5)
    for h in hs:
        g.add('given', h=h)
        g.add('look', h=h, seed=g.seed(), limit=rng.choice([5, 100]))
    return g.plan(['data'], faulty=dict(intr=0.35, classes=['segy'], dos=['short'], n=(1, 2), persist=0.5))


# ---- C10 ------------------------------------------------------------------------------------------

def gen_C10(rng):
    g = G(rng, n=(1, 4), m=(1, 5), nds=3, dim=False, sizes=0)
    for k in g.ds:
        g.ds[k]['pages'] = min(1, abs(g.ds[k]['pages'])) if rng.random() < 0.2 else 0
    base = g.ds['0']
    if rng.random() < 0.6:
        g.ds['1'] = dict(base, seed=g.seed(), **rng.choice([{}, dict(endian='<' if base['endian'] == '>' else '>'), dict(fmt=rng.choice(list(model.FORMATS)))]))
    for k in '012':
        g.add('put', ds=k, path=k + '.sgy')
    n = rng.choice([2, 2, 2, 3])
    bodies = []
    cache = rng.choice([None, None, '.segpy', '/sim/cache'])
    # all of them write, or all read, or as it comes
    mostly = rng.choice([0.65, 0.65, 0.1, 1])
    # a second process, so that nothing is initialised yet in the first
    for b in range(n):
        saved, g.ops = g.ops, []
        k = str(rng.choice([b, b, 0]))
        me = 10 + b
        for _ in range(rng.choice([1, 1, 2]) if mostly > 0.2 else rng.choice([2, 3, 4])):
            h = 100 * (b + 1) + len(g.ops)
            r = rng.random()
            if r < mostly:
                g.open(k + '.sgy', k, cache=cache, kind=rng.choice(['buf', 'buf', 'raw', 'bytesio']), p=me, h=h, look=rng.choice(['few', 'some']))
                if rng.random() < 0.6:
                    g.add('write', src=dict(h=h), path='o%d.out' % b, kind=rng.choice(['buf', 'raw', 'bytesio']), p=me, seed=g.seed(),
                          endian=rng.choice([None, '<', '>']), prog=rng.choice([None, {}]))
                if rng.random() < 0.3:
                    g.add('bulk', h=h, seed=g.seed(), p=me)
            elif r < mostly + 0.1:
                g.add('serial', path=k + '.sgy', opts=g.opts(k), kind=rng.choice(['buf', 'raw', 'bytesio']), p=me, seed=g.seed())
            else:
                g.add('write', src=dict(ds=k), path='o%d.out' % b, kind=rng.choice(['buf', 'raw', 'bytesio']), p=me, seed=g.seed(),
                      endian=rng.choice([None, '<', '>']), enc=rng.choice([None, 'cp037', 'ascii']))
        bodies.append(dict(p=me, ops=g.ops))
        g.ops = saved
    mode = rng.choice(['uniform', 'uniform', 'pct'])
    g.add('par', threads=True, bodies=bodies, id=1,
          sched=dict(seed=g.seed(), mode=mode, p=rng.choice([0.01, 0.05, 0.2, 0.5]), depth=rng.choice([2, 4, 8]),
                     horizon=rng.choice([300, 1500, 6000, 20000]), lines=True))
    return g.plan(['data', 'bytes'], sub=['par'])


# ---- C11 ------------------------------------------------------------------------------------------

def gen_C11(rng):
    g = G(rng, n=(0, 8), m=(0, 8), nds=1)
    if rng.random() < 0.2:
        g.ds['0']['n'] = rng.choice([0, 1, 1, 2])
    d = g.ds['0']
    cache = rng.choice([None, '.segpy', '/sim/cache', '.segpy'])
    same = g.opts('0')

    def prog():
        if rng.random() < 0.6:
            return {'raise': rng.choice([1, 1, 2, 3, rng.randint(1, d['n'] + 3)]), 'exc': rng.choice(CALLBACK_ERRORS)}
        return {}
    if rng.random() < 0.6:
        g.add('put', ds='0', path='a.sgy', cut=cut(rng, d) if rng.random() < 0.25 else None)
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.1:
                g.add('restart')
            elif r < 0.2:
                g.add('damage', sel=0, what=rng.choice(DAMAGE), seed=g.seed())
            elif r < 0.3:
                g.add('edit', path='a.sgy', what=rng.choice(EDITS), seed=g.seed(), opts=same)
            if rng.random() < 0.3 and g.next_h:
                g.add('share', of=g.next_h, h=g.h(), opts=same, cache=cache, prog=prog(), seed=g.seed())
            else:
                g.open('a.sgy', '0', cache=cache, prog=prog(), opts=same, again=rng.random() < 0.7)
        g.open('a.sgy', '0', cache=cache, prog={}, opts=same, look='all')
    else:
        src = dict(ds='0')
        if rng.random() < 0.3:
            src['order'] = g.seed()
        if rng.random() < 0.4:
            g.add('put', ds='0', path='a.sgy')
            g.open('a.sgy', '0', h=1, look='none', kind='buf', cache=cache)
            src = dict(h=1)
        for _ in range(rng.randint(1, 2)):
            g.add('write', src=src, path='o.out', kind=write_kind(rng), seed=g.seed(), prog=prog())
        g.add('write', src=src, path='o.out', kind=write_kind(rng), seed=g.seed(), prog={})
    return g.plan(['data', 'progress', 'bytes'], faulty=dict(intr=0.3, classes=['segy', 'cache', 'out'], dos=['short', 'eio', 'short'], n=(1, 2), persist=0.4))


# ---- C12 ------------------------------------------------------------------------------------------

def gen_C12(rng):
    g = G(rng, n=(0, 8), m=(0, 10), nds=1)
    if rng.random() < 0.03:
        d = g.ds['0']
        what = rng.choice(['n', 'n', 'n', 'n', 'm', 'pages'])
        d.update(text=0, plain=True, lens=rng.choice(['const', 'one', 'random']), enc='ascii', n=3, m=2, pages=0)
        d[what] = dict(n=rng.choice([200, 240, 400]), m=rng.choice([500, 2000]), pages=rng.choice([2, -2, 6]))[what]
        g.add('scale', ds='0', what=what, opts=g.opts('0'))
        return g.plan(['data', 'bounded'], oracle='model', memory=3000)
    r = rng.random()
    if r < 0.15:
        g.add('junk', path='a.sgy', seed=g.seed(), size=rng.choice([0, 1, 239, 3199, 3200, 3599, 3600, 3601, 3840, 7000, 20000]),
              style=rng.choice(['zero', 'random', 'ff', 'text', 'ascii3200']))
    else:
        g.add('put', ds='0', path='a.sgy', cut=cut(rng, g.ds['0']) if rng.random() < 0.15 else None)
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            g.add('edit', path='a.sgy', what=rng.choice(['poke', 'poke', 'poke', 'pokereel', 'pokereel', 'flip', 'bytes', 'trunc', 'extend', 'sample', 'field',
                                                         'line', 'swaptraces', 'zero']),
                  seed=g.seed(), opts=g.opts('0'), count=rng.choice([1, 1, 3, 30]))
    for _ in range(rng.choice([1, 1, 2])):
        o = g.open('a.sgy', '0', odd=rng.choice([0, 0.1, 0.4]), cache=rng.choice([None, '.segpy']), look=rng.choice(['some', 'all']),
                   kind=rng.choice(['buf', 'raw', 'bytesio']))
        if rng.random() < 0.15:
            o['opts']['endian'] = rng.choice('<>')
    return g.plan(['data', 'bounded'], oracle='model', count_lines=rng.random() < 0.3, memory=3000)


# ---- C13 ------------------------------------------------------------------------------------------

def gen_C13(rng):
    g = G(rng, n=(0, 12), m=(0, 10), nds=1, dim=False)
    src = dict(ds='0')
    d = g.ds['0']
    if rng.random() < 0.35:
        g.add('put', ds='0', path='a.sgy')
        g.open('a.sgy', '0', h=1, look='none', kind=rng.choice(['buf', 'raw', 'short']), cache=rng.choice([None, '.segpy']))
        src = dict(h=1)
    elif rng.random() < 0.3:
        src['order'] = g.seed()
    if rng.random() < 0.4:
        src['overlay'] = dict(scale=rng.choice(['half', 'negate', None]), shift_field=rng.choice([None, 'ensemble_num', 'file_sequence_num', 'crossline_number']),
                              shift=rng.choice([1, -1, 7]), text=rng.choice([None, ['C %d overlay' % i for i in range(40)]]))
    for i in range(rng.choice([1, 2])):
        o = dict(src=src, path='o%d.out' % i, kind=write_kind(rng), seed=g.seed(), prog=rng.choice([None, {}]),
                 enc=rng.choice([None, None, 'cp037', 'ascii']), endian=rng.choice([None, '<', '>']))
        if rng.random() < 0.5:
            o['src_fail'] = dict(n=rng.randint(1, 2 * d['n'] + 1), exc=rng.choice(CALLBACK_ERRORS))
        g.add('write', **o)
    return g.plan(['stream', 'bytes'], faulty=dict(intr=0.2, classes=['out', 'out', 'segy'], dos=['eio', 'enospc', 'short', 'partial+'], n=(1, 2), persist=0.5,
                                                   prefer=['write', 'read']))


# ---- C14 ------------------------------------------------------------------------------------------

def gen_C14(rng):
    g = G(rng, n=(0, 9), m=(0, 8), nds=2)
    paths = ['a.sgy', 'b.sgy']
    g.add('put', ds='0', path='a.sgy')
    g.add('put', ds='1', path='b.sgy')
    # files of the same names elsewhere
    decoys = rng.random() < 0.5
    if decoys:
        for q in 'd/a.sgy', 'd/b.sgy', 'd/e/a.sgy':
            g.add('put', ds=rng.choice('01'), path=q)
    hs = {}
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice('001')
        o = g.open('ab'[int(k)] + '.sgy', k, cache=rng.choice([None, '.segpy', '/sim/cache']), look=rng.choice(['none', 'few', 'some']),
                   kind=rng.choice(['buf', 'buf', 'raw', 'rw', 'small', 'pathname', 'bname', 'relname', 'pyfile', 'bytesio', 'nameless', 'iname']))
        hs[o['h']] = k
    ks = 0
    for _ in range(rng.randint(2, 9)):
        h = rng.choice(sorted(hs))
        r = rng.random()
        if r < 0.3:
            ks += 1
            g.add('pickle', h=h, k=ks, proto=rng.choice([2, 3, 4, 5]))
        elif r < 0.34:
            g.add('pickle', h=h, k=99, closed=True)
        elif r < 0.45:
            g.add('q', h=h, seed=g.seed(), count=2)
        elif r < 0.6:
            g.add('hpickle', h=h, seed=g.seed(), what=rng.choice(['reel', 'trace', 'trace']), p=rng.choice([0, 1, 2]))
        elif r < 0.7:
            g.add('restart')
        elif r < 0.76:
            p = rng.choice(paths)
            g.add('rm', path=p)
        elif r < 0.8:
            g.add('chmod', path=rng.choice(paths), mode=rng.choice([0, 0o200, 0o444, 0o644]))
        elif r < 0.84:
            g.add('mv', a=rng.choice(paths), b=rng.choice(paths + ['c.sgy']))
        elif r < 0.87:
            g.add('chdir', path=rng.choice(['/sim/work/d', '/sim/work/d', '/sim/work/d/e', '/sim'] if decoys else ['/sim', '/sim/tmp']))
        elif ks:
            nh = g.h()
            hs[nh] = '0'
            g.add('unpickle', k=rng.randint(1, ks), h=nh, p=rng.choice([0, 1, 2]), seed=g.seed(), version=rng.random() < 0.15)
    if decoys and rng.random() < 0.4:
        for q in rng.sample(paths, rng.choice([1, 2])):
            g.add('rm', path=q)
        g.add('chdir', path=rng.choice(['/sim/work/d', '/sim/work/d/e']))
    if ks:
        for k in range(1, ks + 1):
            g.add('unpickle', k=k, h=g.h(), p=rng.choice([1, 2]), seed=g.seed(), limit=30)
        g.add('pickle', h=g.next_h, k=50)
        g.add('unpickle', k=50, h=g.h(), p=3, seed=g.seed(), limit=30)
    return g.plan(['data'], faulty=dict(intr=0.25, classes=['segy'], dos=['eio', 'emfile', 'enoent', 'eacces', 'memory', 'estale'], n=(1, 2), persist=0.3))


# ---- C15 ------------------------------------------------------------------------------------------

def gen_C15(rng):
    g = G(rng, n=(0, rng.choice([6, 12, 30])), m=(0, 3), nds=2, th=rng.choice(['rev1', 'rev1', 'lines', 'custom', 'rev0', rng.choice(model.GENERATED)]))
    for d in g.ds.values():
        d.update(plain=rng.random() < 0.7, pages=0, text=0)
    g.add('put', ds='0', path='a.sgy')
    cache = rng.choice([None, '.segpy', '/sim/cache'])
    same = g.opts('0')
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:
            g.add('edit', path='a.sgy', what=rng.choice(['line', 'cdp', 'swaptraces', 'append', 'drop']), seed=g.seed(), opts=same)
        if rng.random() < 0.1:
            g.add('put', ds='1', path='a.sgy', inplace=True)
            same = g.opts('1')
        if rng.random() < 0.2:
            g.add('restart')
        g.open('a.sgy', '0', cache=cache, opts=same, look='none', kind=rng.choice(['buf', 'buf', 'raw', 'short', 'bytesio']), retry=True)
        qs = ['index', 'kind', 'dim', 'nt', 'max', 'keys', 'keys', 'near', 'near', 'iter', 'nts', 'lines']
        for _ in range(rng.randint(2, 8)):
            g.add('iq', h=g.next_h, what=rng.choice(qs), seed=g.seed())
        g.add('iq', h=g.next_h, what='index', seed=g.seed())
        g.add('iq', h=g.next_h, what='keys', seed=g.seed(), all=True)
        if rng.random() < 0.15:
            g.add('serial', path='a.sgy', opts=same, kind=g.kind(), seed=g.seed())
    return g.plan(['data'], oracle='model', faulty=dict(intr=0.2, classes=['segy'], dos=['eio', 'short', 'memory'], n=(1, 2), persist=0.2, span=2, rate=0.3))


# ---- C16 ------------------------------------------------------------------------------------------

def gen_C16(rng):
    g = G(rng, n=(1, 16), m=(0, 9), nds=1, dim=False, geom=rng.choice(['grid', 'gridx', 'gridrev', 'hole', 'sparse', 'diagonal', 'line', 'dup', 'grid', 'hole']))
    d = g.ds['0']
    d['pages'] = 0
    g.add('put', ds='0', path='a.sgy', cut=cut(rng, d) if rng.random() < 0.08 else None)
    cache = rng.choice([None, '.segpy'])
    if rng.random() < 0.2:
        g.open('a.sgy', '0', cache=cache, look='none', kind='buf')
    kinds = ['buf', 'buf', 'raw', 'small', 'short']
    g.open('a.sgy', '0', cache=cache, look='none', kind=rng.choice(kinds))
    hs = [g.next_h]
    if rng.random() < 0.35:
        # another file, alike in all but one respect, or not at all
        other = dict(d, seed=rng.choice([d['seed'], g.seed()]), **rng.choice([
            dict(endian='<' if d['endian'] == '>' else '>'), dict(th=model.TWINS.get(d['th'], rng.choice(['rev1', 'lines', 'custom']))),
            dict(fmt=rng.choice(list(model.FORMATS))), dict(n=rng.randint(1, 9)), dict(m=rng.randint(0, 9)), dict(geom=rng.choice(['grid', 'hole', 'sparse']))]))
        g.ds['1'] = other
        g.add('put', ds='1', path='b.sgy')
        g.open('b.sgy', '1', cache=cache, look='none', kind=rng.choice(kinds))
        hs.append(g.next_h)
    same = g.seed()
    for _ in range(rng.randint(2, 8)):
        h = rng.choice(hs)
        if rng.random() < 0.1:
            g.add('move', h=h, seed=g.seed())
        # the same selection may be asked of both
        g.add('bulk', h=h, seed=rng.choice([same, g.seed()]) if len(hs) > 1 else g.seed(),
              what=rng.choice(['headers', 'header3', 'trace', 'inline', 'inline', 'xline', 'xline', 'slice']))
    return g.plan(['data'], faulty=dict(intr=0.25, classes=['segy'], dos=['eio', 'memory', 'short', 'estale'], n=(1, 2), persist=0.2, span=3, prefer=['read', 'seek']))


# ---- C17 ------------------------------------------------------------------------------------------

def gen_C17(rng):
    g = G(rng, n=(0, 9), m=(0, 8), nds=2, dim=False, th='rev1', brh='binary')
    for d in g.ds.values():
        d['endian'] = '>'
        if rng.random() < 0.25:
            d['th'] = 'rev0'      # written with revision zero, read with the default layout
    path = rng.choice(['a.sgy', 'd/a.sgy', 'a b.sgy'])
    g.add('put', ds='0', path=path, cut=cut(rng, g.ds['0']) if rng.random() < 0.15 else None)
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.2:
            g.add('edit', path=path, what=rng.choice(EDITS + ['flip', 'trunc', 'extend']), seed=g.seed(), opts=dict(th='rev1', endian='>', brh='binary'),
                  keep_mtime=rng.random() < 0.5)
        elif r < 0.3:
            g.add('put', ds='1', path=path, inplace=rng.random() < 0.5, keep_mtime=rng.random() < 0.5)
        elif r < 0.4:
            g.add('damage', sel=rng.randrange(3), what=rng.choice(DAMAGE + ['dir', 'chmod']), seed=g.seed())
        elif r < 0.45:
            g.add('rm', path=path)
        elif r < 0.5:
            g.add('chmod', path=path, mode=rng.choice([0, 0o644]))
        elif r < 0.55:
            g.add('mkfile', path=('d/' if '/' in path else '') + '.segpy')
        if rng.random() < 0.3:
            g.add('restart')
        g.add('cli', path=path, how=rng.choice([None, 'script', 'module']), cmd=rng.choice(['metadata', 'report']), arg=rng.choice(['rel', 'abs', 'dot']),
              out_fail=rng.choice([None] * 12 + [1, 2, 5]), level=rng.choice([None, None, None, 'ERROR', 'DEBUG']), p=rng.choice([0, 0, 1]))
    return g.plan(['data'], faulty=dict(classes=['segy', 'segy', 'cache', 'cache'], dos=STORAGE + ['partial', 'crash'], n=(1, 2), persist=0.4))


# ---- C18 ------------------------------------------------------------------------------------------

def gen_C18(rng):
    g = G(rng, n=(0, 8), m=(0, 16), nds=1, dim=False, th=rng.choice(['rev1', 'custom', 'rev0', 'lines', 'rev1', rng.choice(model.GENERATED), rng.choice(model.GENERATED)]))
    d = g.ds['0']
    if d['fmt'] == 'ibm' and rng.random() < 0.7:
        d['rawibm'] = True
    if rng.random() < 0.05:
        d = g.ds['0'] = big_desc(rng)
    big = d.get('big')
    g.add('put', ds='0', path='c0.sgy')
    enc, endian = d['enc'], d['endian']
    first = True
    for i in range(rng.choice([1, 1, 2, 3])):
        o = g.open('c%d.sgy' % i, '0', look='none', cache=rng.choice([None, '.segpy', '/sim/cache']), kind='buf' if big else None)
        o['opts'].update(encoding=rng.choice([enc, enc, None]), endian=endian)
        if rng.random() < 0.3:
            o = g.open('c%d.sgy' % i, '0', look='none', cache='.segpy', kind='buf' if big else None)
            o['opts'].update(encoding=enc, endian=endian)
        e2, n2 = rng.choice([enc, 'ascii', 'cp037']), rng.choice([endian, '<', '>'])
        src = dict(h=g.next_h)
        if rng.random() < 0.2:
            src['overlay'] = {}
        g.add('write', src=src, path='w%d.out' % i, kind=rng.choice(['buf', 'raw', 'bytesio']) if big else write_kind(rng), seed=g.seed(),
              enc=e2 if e2 != enc or rng.random() < 0.5 else None, endian=n2, exact=True, over=over(rng))
        g.add('mv', a='w%d.out' % i, b='c%d.sgy' % (i + 1))
        enc, endian = e2, n2
        if i == 2 or rng.random() < 0.3:
            o = g.open('c%d.sgy' % (i + 1), '0', look='none', cache=None, kind='buf')
            o['opts'].update(encoding=enc, endian=endian)
            g.add('write', src=dict(h=g.next_h), path='back.out', kind='buf', seed=g.seed(), enc=d['enc'], endian=d['endian'], exact=True)
            g.add('samefile', a='back.out', b='c0.sgy')
            break
    return g.plan(['bytes', 'original'], oracle='model', faulty=dict(classes=['segy', 'out'], dos=['short'], n=(1, 3), persist=0.4))


# ---- C19 ------------------------------------------------------------------------------------------

def gen_C19(rng):
    g = G(rng, n=(0, 7), m=(0, 6), nds=2, dim=False)
    path = rng.choice(['a.sgy', 'd/a.sgy'])
    g.add('put', ds='0', path=path, cut=cut(rng, g.ds['0']) if rng.random() < 0.15 else None)
    g.add('put', ds='1', path='d/b.sgy')
    caches = [rng.choice(CACHES[:4]), rng.choice(CACHES)]
    base = 'd/' if '/' in path else ''
    for c in caches:
        if c is not None and rng.random() < 0.6:
            g.add('foreign', dir=c if c.startswith('/') else base + c, name=rng.choice(['notes.txt', 'deadbeef.p', '0' * 40 + '.p', 'x.sgy', 'f' * 40 + '.tmp', 'sub/x']))
    same = g.opts('0', 0.1)
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.2:
            g.add('damage', sel=rng.randrange(4), what=rng.choice(DAMAGE + ['dir', 'chmod']), seed=g.seed())
        elif r < 0.3:
            g.add('edit', path=path, what=rng.choice(EDITS + ['trunc', 'flip']), seed=g.seed(), opts=same)
        elif r < 0.35:
            g.add('chmod', path=path, mode=rng.choice([0o444, 0o600]))
        elif r < 0.4:
            g.add('restart')
        p, k = rng.choice([(path, '0'), (path, '0'), ('d/b.sgy', '1')])
        g.open(p, k, cache=rng.choice(caches), opts=same if k == '0' and rng.random() < 0.7 else g.opts(k),
               prog=rng.choice([None, None, {'raise': rng.choice([1, 2, 3]), 'exc': rng.choice(CALLBACK_ERRORS)}]), look='few')
        r = rng.random()
        if r < 0.2:
            g.add('q', h=g.next_h, seed=g.seed(), count=2)
        elif r < 0.3:
            g.add('cli', path=p, how=rng.choice([None, 'script', 'module']), cmd=rng.choice(['metadata', 'report']))
        elif r < 0.4:
            g.add('bulk', h=g.next_h, seed=g.seed())
    return g.plan(['files'], faulty=dict(intr=0.2, classes=['segy', 'cache', 'cache'], dos=STORAGE + ['partial', 'crash', 'memory', 'crash'], n=(1, 2), persist=0.4))


# ---- C24 ------------------------------------------------------------------------------------------

ACTS = ['new', 'new', 'set', 'set', 'set', 'copy', 'copy', 'equal', 'pack', 'pack', 'refuse', 'damaged', 'drop']


def gen_C24(rng):
    g = G(rng, n=(1, 5), m=(0, 3), nds=1, dim=False)
    reader = rng.random() < 0.4
    if reader:
        g.add('put', ds='0', path='a.sgy')
        g.open('a.sgy', '0', cache=rng.choice([None, '.segpy']), look='few', kind='buf')

    def act(p):
        g.add('hd', act=rng.choice(ACTS), seed=g.seed(), p=p)
        if rng.random() < 0.03:
            # every so often, at any line
            g.ops[-1]['intr'] = [int(2 ** rng.uniform(0, 10)), rng.choice(['interrupt', 'memory'])]
    for _ in range(rng.choice([3, 8, 20, 40])):
        r = rng.random()
        if reader and r < 0.1:
            g.add('take', h=1, seed=g.seed(), mutate=rng.random() < 0.5)
        elif reader and r < 0.2:
            g.add('q', h=1, seed=g.seed())
        elif rng.random() < 0.03:
            g.add('restart')
        else:
            act(rng.choice([0, 0, 0, 1]))
    if rng.random() < 0.4:
        bodies = []
        for b in range(rng.choice([2, 2, 3])):
            saved, g.ops = g.ops, []
            g.add('hd', act='new', seed=g.seed(), p=10 + b)
            for _ in range(rng.choice([2, 5, 9])):
                act(10 + b)
            bodies.append(dict(p=10 + b, ops=g.ops))
            g.ops = saved
        g.add('par', threads=True, bodies=bodies, id=1,
              sched=dict(seed=g.seed(), mode=rng.choice(['uniform', 'uniform', 'pct']), p=rng.choice([0.01, 0.05, 0.2, 0.5]), depth=rng.choice([2, 4, 8]),
                         horizon=rng.choice([100, 500, 3000]), lines=True))
        act(0)
    return g.plan(['data'], sub=['par'], faulty=dict(classes=['segy'], dos=['eio', 'memory'], n=(1, 1), intr=0.8))


# ---- C25 ------------------------------------------------------------------------------------------

def gen_C25(rng):
    g = G(rng, n=(0, 8), m=(0, 8), nds=2, **(dict(geom=rng.choice(['grid', 'hole', 'line', 'gridx', 'sparse'])) if rng.random() < 0.6 else {}))
    path = 'a.sgy'
    g.add('put', ds='0', path=path, cut=cut(rng, g.ds['0']) if rng.random() < 0.1 else None)
    caches = [rng.choice(CACHES), rng.choice(CACHES)]
    same = g.opts('0')
    hs = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < 0.2 or r < 0.5 and not hs:
            g.open(path, '0', cache=rng.choice(caches), opts=same if rng.random() < 0.7 else g.opts('0'), look=rng.choice(['none', 'few']),
                   kind=rng.choice(['buf', 'buf', 'raw', 'short', 'bytesio', 'rw', 'pyfile']), retry=True)
            hs.append(g.next_h)
        elif r < 0.45:
            g.add('bad', act='open', path=path, cache=rng.choice(caches), opts=same, seed=g.seed(), p=rng.choice([0, 0, 1]))
        elif r < 0.75 and hs:
            g.add('bad', act='ask', h=rng.choice(hs), seed=g.seed())
        elif r < 0.9:
            g.add('bad', act='write', ds=rng.choice('01'), seed=g.seed(), p=rng.choice([0, 0, 1]))
        elif r < 0.93:
            g.add('restart')
        elif r < 0.96:
            g.add('edit', path=path, what=rng.choice(EDITS), seed=g.seed(), opts=same)
        elif hs:
            g.add('q', h=rng.choice(hs), seed=g.seed(), count=2)
    g.open(path, '0', cache=caches[0], opts=same, look='some', retry=True)
    return g.plan(['data', 'files'], faulty=dict(intr=0.3, classes=['cache', 'cache', 'segy'], dos=STORAGE, n=(1, 2), persist=0.3))


GENERATORS = {k[4:]: v for k, v in list(globals().items()) if k.startswith('gen_C')}


# ---- placing faults -----------------------------------------------------------------------------------

def place(plan, result, rng):
    """A copy of a plan with faults at events which are known, from a run without, to occur; or None."""
    f = plan.get('faulty')
    if f is None:
        return None
    if rng.random() < f.get('intr', 0):
        # an exception arrives at some source line of an operation
        ops = list(plan['ops'])
        places = [i for i, o in enumerate(ops) if o['op'] in INTERRUPTIBLE]
        opens = [i for i, o in enumerate(ops) if o['op'] in ('open', 'share') and o.get('h') is not None]
        if opens and rng.random() < 0.4:
            # an interrupt of the first use of a reader, which is then repeated
            i = rng.choice(opens)
            q = rng.choice([dict(q=[rng.choice(['max', 'max', 'index', 'dim', 'idx', 'nt', 'text', 'reel', 'ext'])]), dict(seed=rng.randrange(10 ** 6), count=rng.randint(1, 3))])
            n = int(2 ** rng.uniform(0, 7))
            again = dict(op='q', h=ops[i]['h'], **q)
            ops[i] = dict(ops[i], look='none')
            ops[i + 1:i + 1] = [dict(again, intr=[n, rng.choice(['interrupt', 'memory'])]), again]
            return dict(plan, ops=ops)
        if places:
            for i in rng.sample(places, min(len(places), rng.choice([1, 1, 2]))):
                ops[i] = dict(ops[i], intr=[int(2 ** rng.uniform(0, 12)), rng.choice(['interrupt', 'memory'])])
            return dict(plan, ops=ops)
    counts = {}
    for key, n in result['counts'].items():
        cls, kind = key.split('.', 1)
        if cls in f['classes'] and kind not in ('close', 'sleep', 'listdir') or cls in f['classes'] and kind == 'close' and 'crash' in f['dos']:
            counts[key] = n
    if not counts:
        return None
    faults = []
    for _ in range(rng.randint(*f['n'])):
        keys = sorted(counts)
        prefer = [k for k in keys if k.split('.')[1] in f.get('prefer', ())]
        key = rng.choice(prefer if prefer and rng.random() < 0.7 else keys)
        cls, kind = key.split('.')
        do = rng.choice(f['dos'])
        if rng.random() < f.get('soft', 0):
            do = 'partial'
        if do == 'crash' and kind != 'any':
            # at any event of this class: more likely where there are many
            pass
        elif kind == 'close':
            continue
        n = rng.randint(1, counts[key])
        if rng.random() < 0.2:
            n = counts[key] if rng.random() < 0.5 else max(1, min(counts[key], 1 + rng.randrange(3)))
        x = dict(cls=cls, kind=kind, n=n, do=do)
        if do in ('short', 'partial', 'partial+'):
            if kind not in ('read', 'write'):
                x['kind'] = kind = 'write' if cls != 'segy' else 'read'
                x['n'] = rng.randint(1, max(1, counts.get(cls + '.' + kind, 1)))
            x['part'] = rng.choice([0.0, 0.1, 0.5, 0.9])
        if do == 'partial+':
            # the disk fills up: part of a write succeeds, then nothing more
            x['do'] = 'partial'
            faults.append(x)
            faults.append(dict(cls=cls, kind='write', n=x['n'] + 1, do=rng.choice(['enospc', 'eio', 'edquot']), persist=rng.random() < 0.7))
            continue
        if rng.random() < f.get('persist', 0) and do != 'crash':
            x['persist'] = True
            if f.get('span'):
                x['span'] = rng.randint(1, f['span'])
            if do not in ('short', 'partial') and not f.get('span') and rng.random() < 0.5:
                x['kind'] = 'any' if rng.random() < 0.3 else x['kind']
        faults.append(x)
    if not faults:
        return None
    p = dict(plan, faults=faults)
    if f.get('power') and rng.random() < f['power']:
        # the power fails together with the process
        ops = list(plan['ops'])
        opens = [i for i, o in enumerate(ops) if o['op'] == 'open']
        if opens:
            i = rng.choice(opens)
            ops.insert(i + 1, dict(op='power', seed=rng.randrange(10 ** 6)))
            p['ops'] = ops
    return p
