"""Operations on headers, as values of their own: what a header holds is what was last assigned to it."""
import copy
import gc
import pickle
import random

from . import model
from .fs import SimBudget, SimCrash
from .world import InjectedInterrupt, InjectedMemoryError

INJECTED = (InjectedInterrupt, InjectedMemoryError)


class Kept:
    """A header and what it is known to hold."""

    def __init__(self, layout, cls, obj, values, fields):
        self.layout, self.cls, self.obj, self.values, self.fields = layout, cls, obj, values, fields


def unacceptable(f, rng):
    """A value which the field cannot represent, and the errors which assigning it may raise."""
    r = rng.random()
    if r < 0.15:
        return None, (TypeError, ValueError)
    if r < 0.3:
        return rng.choice(['', 'x', '1 2', 'nan']), (TypeError, ValueError)
    if r < 0.35:
        return float('nan'), (TypeError, ValueError)
    if f[5] is not None:
        return next(v for v in iter(lambda: rng.randint(-40000, 40000), None) if v not in f[5]), ValueError
    lo, hi = f[3], f[4]
    return rng.choice([lo - 1, hi + 1, lo - 1, hi + 1, hi + rng.randint(1, 10 ** 6), lo - rng.randint(1, 10 ** 6), 2 ** 32 + rng.randint(0, 9), 10 ** 30]), ValueError


class HeaderOps:
    def headers_of(self, p):
        if not hasattr(self, 'kept'):
            self.kept = {}
        return self.kept.setdefault(p.pid, [])

    def layouts(self, slot):
        u = slot.user
        return {**u.TRACE_FORMATS, **u.REEL_FORMATS}

    def op_hd(self, o):
        p = self.proc(o.get('p', 0))
        if p is None:
            return
        rng = random.Random(o['seed'])
        kept = self.headers_of(p)
        getattr(self, 'hd_' + o['act'])(p, kept, rng, o)
        self.w.probe('header_ops')
        self.w.shape.update(('%s %d %s' % (o['act'], len(kept), kept[-1].layout if kept else '')).encode())
        for x in kept:
            self.holds(x, o['act'])

    def holds(self, x, after):
        for f in x.fields:
            v = getattr(x.obj, f[0])
            if v != x.values[f[0]]:
                self.fail('header-changed', 'after %s, field %s of a header of layout %s is %r instead of %r' % (after, f[0], x.layout, v, x.values[f[0]]))

    def attempt(self, p, fn, what, errors=None):
        """The result of fn, or None if it failed, as it then should."""
        try:
            with self.w.lib(p):
                got = fn()
        except INJECTED:
            raise
        except (SimBudget, SimCrash):
            raise
        except Exception as e:
            e.__traceback__ = None
            if errors is None:
                self.fail('header-error', '%s raised %r' % (what, e))
            if not isinstance(e, errors):
                self.fail('header-wrong-error', '%s raised %r' % (what, e))
            self.w.probe('header_refused')
            return None
        if errors is not None:
            self.fail('header-accepted', '%s was accepted' % what)
        return got

    def keep(self, kept, x):
        kept.append(x)
        if len(kept) > 7:
            del kept[0]

    def choose_layout(self, p, kept, rng):
        all_layouts = self.layouts(p.slot)
        if kept and rng.random() < 0.6:
            name = rng.choice(kept).layout
            if name in all_layouts:
                return name, all_layouts[name]
        name = rng.choice(sorted(all_layouts))
        return name, all_layouts[name]

    def assignable(self, f, v, kept, rng):
        """The value v, perhaps as an object of another type."""
        r = rng.random()
        if r < 0.1 and v in (0, 1):
            return bool(v)
        if r < 0.3:
            for x in kept:
                for g in x.fields[:20]:
                    if x.values[g[0]] == v:
                        return getattr(x.obj, g[0])
        return v

    # ---- acts ---------------------------------------------------------------------------------
    def hd_new(self, p, kept, rng, o):
        name, cls = self.choose_layout(p, kept, rng)
        fields = {f[0]: f for f in model.LAYOUTS[name]['fields']}
        if rng.random() < 0.15:
            # some of the fields only
            some = rng.sample(sorted(fields), rng.randint(1, min(6, len(fields))))
            full, whole = name, cls
            name = 'part of ' + full
            cls = self.attempt(p, lambda: p.slot.header.SubFormatMeta('Part', (), {}, parent_format=whole, parent_field_names=some), 'a part of a layout')
            fields = {k: fields[k] for k in some}
        values = {f[0]: f[6] for f in fields.values()}
        order = list(cls.ordered_field_names())
        if sorted(order) != sorted(fields):
            self.fail('header-fields', 'the fields of %s are listed as %r' % (name, order))
        args, kwargs = [], {}
        errors = None
        if rng.random() < 0.4:
            for k in order[:rng.randint(0, len(order))]:
                v = model._value(fields[k], rng)
                args.append(self.assignable(fields[k], v, kept, rng))
                values[k] = v
        if rng.random() < 0.7:
            for k in rng.sample(order, rng.randint(0, min(len(order), 8))):
                v = model._value(fields[k], rng)
                kwargs[k] = self.assignable(fields[k], v, kept, rng)
                values[k] = v
        r = rng.random()
        if r < 0.08 and order:
            k = rng.choice(order)
            kwargs[k], errors = unacceptable(fields[k], rng)
        elif r < 0.12 and args:
            k = rng.randrange(len(args))
            args[k], errors = unacceptable(fields[order[k]], rng)
        elif r < 0.2:
            kwargs['no_such_field'] = 1
            errors = TypeError
        obj = self.attempt(p, lambda: cls(*args, **kwargs), 'making a header of layout %s' % name, errors)
        if obj is not None:
            self.keep(kept, Kept(name, cls, obj, values, list(fields.values())))

    def hd_set(self, p, kept, rng, o):
        if not kept:
            return
        x = rng.choice(kept)
        for _ in range(rng.choice([1, 1, 3, 10])):
            f = rng.choice(x.fields)
            if rng.random() < 0.3:
                v, errors = unacceptable(f, rng)
                self.attempt(p, lambda: setattr(x.obj, f[0], v), 'assigning %r to %s' % (v, f[0]), errors)
                continue
            v = model._value(f, rng)
            given = self.assignable(f, v, kept, rng)
            try:
                self.attempt(p, lambda: setattr(x.obj, f[0], given), 'assigning %r to %s' % (given, f[0]))
            except INJECTED:
                now = getattr(x.obj, f[0])
                if now == v:
                    x.values[f[0]] = v
                self.w.probe('interrupted')
                continue
            x.values[f[0]] = v

    def hd_refuse(self, p, kept, rng, o):
        if not kept:
            return
        x = rng.choice(kept)
        f = rng.choice(x.fields)
        r = rng.random()
        if r < 0.4:
            self.attempt(p, lambda: delattr(x.obj, f[0]), 'deleting %s' % f[0], AttributeError)
        elif r < 0.7:
            self.attempt(p, lambda: getattr(x.obj, 'no_such_field'), 'asking for a field which does not exist', AttributeError)
        else:
            # the description of the layout
            d = self.attempt(p, lambda: getattr(x.cls, f[0]), 'asking for the description of %s' % f[0])
            start = x.cls.START_OFFSET_IN_BYTES
            if (d.name, d.offset - start, int(d.default)) != (f[0], f[1], f[6]):
                self.fail('header-description', '%s is described as %r' % (f[0], d))

    def hd_copy(self, p, kept, rng, o):
        if not kept:
            return
        x = rng.choice(kept)
        part = x.layout.startswith('part of')
        how = rng.choice(['copy', 'method', 'updates', 'updates', 'deep', 'pickle', 'send', 'refused'])
        values = dict(x.values)
        where, target = p, kept
        if how == 'copy':
            obj = self.attempt(p, lambda: copy.copy(x.obj), 'copying a header')
        elif how == 'method':
            obj = self.attempt(p, lambda: x.obj.copy(), 'copying a header')
        elif how == 'updates':
            some = rng.sample(x.fields, rng.randint(1, min(4, len(x.fields))))
            new = {f[0]: model._value(f, rng) for f in some}
            values.update(new)
            obj = self.attempt(p, lambda: x.obj.copy(**new), 'copying a header with %r' % new)
        elif how == 'refused':
            f = rng.choice(x.fields)
            if rng.random() < 0.3:
                new, errors = {'no_such_field': 3}, TypeError
            else:
                v, errors = unacceptable(f, rng)
                new = {f[0]: v}
            self.attempt(p, lambda: x.obj.copy(**new), 'copying a header with %r' % new, errors)
            return
        elif how == 'deep':
            obj = self.attempt(p, lambda: copy.deepcopy(x.obj), 'copying a header deeply')
        elif part:
            return
        else:
            proto = rng.choice([2, 3, 4, 5])
            b = self.attempt(p, lambda: pickle.dumps(x.obj, proto), 'pickling a header')
            if how == 'send' and self.w.sched is None:
                where = self.proc(rng.choice([0, 1]))
                if where is None:
                    return
                target = self.headers_of(where)
            obj = self.attempt(where, lambda: pickle.loads(b), 'unpickling a header')
        cls = x.cls if where is p else self.layouts(where.slot)[x.layout]
        if type(obj) is not cls:
            self.fail('header-type', 'a copy (%s) of a header of %r is a %r' % (how, x.cls, type(obj)))
        y = Kept(x.layout, cls, obj, values, x.fields)
        self.holds(y, how)
        self.keep(target, y)

    def hd_equal(self, p, kept, rng, o):
        if not kept:
            return
        x, y = rng.choice(kept), rng.choice(kept)
        got = self.attempt(p, lambda: p.slot.header.are_equal(x.obj, y.obj), 'comparing headers')
        want = x.cls is y.cls and x.values == y.values
        if bool(got) != want:
            self.fail('header-equality', 'are_equal() of two headers of layouts %s and %s gave %r' % (x.layout, y.layout, got))

    def hd_pack(self, p, kept, rng, o):
        some = [x for x in kept if not x.layout.startswith('part of')]
        if not some:
            return
        x = rng.choice(some)
        same = model.ALIASES.get(x.layout, {})
        if any(x.values[a] != x.values[b] for a, b in same.items()):
            return
        endian = rng.choice('<>')
        b = self.attempt(p, lambda: p.slot.packer.make_header_packer(x.cls, endian).pack(x.obj), 'packing a header')
        want = model.pack_header(x.layout, x.values, endian)
        if b != want:
            k = next((i for i in range(min(len(b), len(want))) if b[i] != want[i]), min(len(b), len(want)))
            self.fail('header-packed', 'a header of layout %s is packed differently at byte %d of %d' % (x.layout, k, len(want)))
        obj = self.attempt(p, lambda: p.slot.packer.make_header_packer(x.cls, endian).unpack(b), 'unpacking a header')
        if type(obj) is not x.cls:
            self.fail('header-type', 'a header of layout %s was unpacked as a %r' % (x.layout, type(obj)))
        y = Kept(x.layout, x.cls, obj, dict(x.values), x.fields)
        self.holds(y, 'unpacking')
        self.keep(kept, y)

    def hd_damaged(self, p, kept, rng, o):
        """Unpacking bytes which do not encode a header."""
        name, cls = self.choose_layout(p, kept, rng)
        fields = model.LAYOUTS[name]['fields']
        if model.ALIASES.get(name):
            return
        endian = rng.choice('<>')
        data = bytearray(model.pack_header(name, {f[0]: model._value(f, rng) for f in fields}, endian))
        r = rng.random()
        if r < 0.5:
            for _ in range(rng.choice([1, 2, 20])):
                data[rng.randrange(len(data))] = rng.choice([0, 0xff, 0x7f, 0x80, rng.randrange(256)])
        elif r < 0.6:
            del data[rng.randrange(len(data)):]
        try:
            want = model.unpack_header(name, bytes(data), endian) if len(data) == model.LAYOUTS[name]['length'] else None
        except model.Bad:
            want = None
        obj = self.attempt(p, lambda: p.slot.packer.make_header_packer(cls, endian).unpack(bytes(data)), 'unpacking bytes as %s' % name,
                           None if want is not None else Exception)
        if obj is not None:
            y = Kept(name, cls, obj, want, fields)
            self.holds(y, 'unpacking')
            self.keep(kept, y)

    def hd_drop(self, p, kept, rng, o):
        for _ in range(rng.randint(1, 3)):
            if kept:
                del kept[rng.randrange(len(kept))]
        if rng.random() < 0.4:
            gc.collect()
        # another takes the place, perhaps the memory
        self.hd_new(p, kept, rng, o)
