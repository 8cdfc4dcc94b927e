"""Independent copies of the library, one for each simulated process.

A restarted process has fresh module state because it gets a copy of its own.  The modules
of the running process are put into sys.modules at every switch between processes, so that
imports and unpickling find the right ones.
"""
import importlib
import logging
import os
import sys

PREFIXES = ('segpy', 'simuser')


def _mine(name):
    return any(name == p or name.startswith(p + '.') or name.startswith(p + '_') for p in PREFIXES)


def _take(names=None, total=None):
    if names is not None and len(sys.modules) == total:
        mods = {k: sys.modules[k] for k in names}
    else:
        mods = {k: v for k, v in sys.modules.items() if _mine(k)}
    for k in mods:
        del sys.modules[k]
    return mods


class Slot:
    def __init__(self):
        self.mods = {}

    def __getattr__(self, name):
        raise AttributeError(name)


class Slots:
    def __init__(self, n):
        import numpy
        import docopt_subcommands
        from .world import install_locks
        install_locks()
        self.slots = []
        self.current = None
        for _ in range(n):
            self.slots.append(self._load())

    def _load(self):
        _take()
        self.current = None
        s = Slot()
        for name in ('segpy.reader', 'segpy.writer', 'segpy.toolkit', 'segpy.catalog', 'segpy.dataset', 'segpy.header',
                     'segpy.packer', 'segpy.trace_header', 'segpy.binary_reel_header', 'segpy.util', 'segpy.encoding',
                     'segpy.ibm_float', 'segpy.datatypes', 'segpy.field_types', 'segpy.cli', 'segpy_numpy.extract', 'simuser'):
            importlib.import_module(name)
        s.segpy = sys.modules['segpy']
        s.reader = sys.modules['segpy.reader']
        s.writer = sys.modules['segpy.writer']
        s.toolkit = sys.modules['segpy.toolkit']
        s.header = sys.modules['segpy.header']
        s.packer = sys.modules['segpy.packer']
        s.datatypes = sys.modules['segpy.datatypes']
        s.field_types = sys.modules['segpy.field_types']
        s.cli = sys.modules['segpy.cli']
        main = os.path.join(os.path.dirname(s.segpy.__file__), '__main__.py')
        with open(main) as f:
            s.main_code = compile(f.read(), main, 'exec')
        s.mods_ibm = sys.modules['segpy.ibm_float'].IBMFloat
        s.npx = sys.modules['segpy_numpy.extract']
        s.user = sys.modules['simuser']
        s.mods = _take()
        return s

    def enter(self, i):
        if self.current == i:
            return self.slots[i]
        if self.current is not None:
            self.slots[self.current].mods = _take(self.slots[self.current].mods, self.total)
        else:
            _take()
        sys.modules.update(self.slots[i].mods)
        self.total = len(sys.modules)
        self.current = i
        return self.slots[i]
