"""Budgets of the checks, and the standing parts of the evidence."""

# number of seeds for the quick tier: each is one plan without, and a few with, faults
QUICK = dict.fromkeys(['C%02d' % i for i in [*range(1, 20), 24, 25]], 2500)
QUICK.update(C01=9000, C06=3500, C07=5000, C08=4000, C11=3500, C12=12000, C13=4000, C14=4000, C15=5000, C17=4500, C18=3200, C19=3200)
QUICK_WALL = 120.0
THOROUGH_FACTOR = 400
THOROUGH_WALL = 780.0
MINIMISE_SECONDS = 60.0
ROUNDS = {}


def budget(prop, tier):
    if tier == 'thorough':
        return QUICK[prop] * THOROUGH_FACTOR, THOROUGH_WALL
    return QUICK[prop], QUICK_WALL


RULE = ('A seed generates a plan (data sets, operations of simulated users and processes, schedule); it is run once without injected '
        'faults and then with faults placed at file operations which that run performed. Runs are distinct if the sequences of '
        'operations, outcomes, kinds of file operation, faults and context switches differ (a hash of these is counted); a run with '
        'fewer than five file operations and no probe reached is trivial and not counted.')
REAL = ['segpy (all modules reached, from the working tree of /repo)', 'segpy_numpy, when arrays are extracted',
        'docopt command line', 'CPython pickle, io.BufferedReader/BufferedWriter/TextIOWrapper, pathlib, numpy']
STUB = ['file system (open, os.*, pathlib accessors): in-memory, with page cache, durability, permissions and injected faults',
        'clock', 'processes: separate copies of the library modules in one interpreter', 'scheduler of processes and threads',
        'threading.Lock/RLock', 'uuid/random: seeded']
ASSUMPTIONS = ['the simulated file system behaves like a POSIX one in what the library uses',
               'process-private state is the module state of a copy of the library, and the objects reachable from it']
