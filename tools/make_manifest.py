"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'deterministic simulation: seeded histories of edits, moves and cached opens in several simulated processes, checked against an uncached open and a reference decoder',
    'C02': 'deterministic simulation with crashes and power loss at every kind of cache I/O, and damage of entries, followed by reopening',
    'C03': 'deterministic simulation with injected errors of cache storage, compared with an uncached open',
    'C04': 'deterministic simulation of concurrent processes under a seeded scheduler, with crashes, sharing a cache',
    'C05': 'deterministic simulation of writing then reading through many kinds of file object with short transfers, against an independent reference encoder',
    'C06': 'deterministic simulation with write errors, full disks and crashes; stored bytes compared with a reference encoding',
    'C07': 'deterministic simulation of truncation by crash, full disk or power loss, against a reference decoder',
    'C08': 'deterministic simulation with injected read errors and retries, against a reference decoder',
    'C09': 'deterministic simulation of query histories with interference on the handle, against a fresh reader',
    'C10': 'deterministic simulation of threads preempted between source lines by a seeded scheduler',
    'C11': 'deterministic simulation with callbacks which fail at a chosen call, and recorded histories of progress',
    'C12': 'deterministic simulation on corrupted input with budgets of file operations, source lines and memory',
    'C13': 'deterministic simulation of streaming conversion with failing sources and sinks; recorded history of accesses',
    'C14': 'deterministic simulation of pickling between simulated processes with restarts, moves and faults',
    'C15': 'deterministic simulation of index queries for random geometries and edits, against a reference index',
    'C16': 'deterministic simulation of bulk extraction with read faults, against trace by trace reading',
    'C17': 'deterministic simulation of the command line with faults of files, cache and standard output',
    'C18': 'deterministic simulation of read and write round trips through faulty file objects, compared byte for byte',
    'C19': 'deterministic simulation with faults; invariants on the whole simulated file system and open handles after every call',
    'C24': 'deterministic simulation of histories of operations on headers in several threads, with interrupts at source lines; invariant on all headers after each operation',
    'C25': 'deterministic simulation of histories with requests to be refused, with faults of cache and file and interrupts; state compared before and after',
}
NA = {
    'C20': 'a pure function of its arguments: arithmetic on IBM floats involves no scheduling, time, I/O, fault or history which a simulator could vary',
    'C21': 'decided once, when a class is defined, from its declaration alone: nothing for a simulator to schedule or to fail',
    'C22': 'a pure function from values to text and back, with no I/O, time or interleaving',
    'C23': 'immutable in-memory collections: pure functions of their contents, without I/O, time or interleaving',
}
checks = []
for k in sorted(TECH):
    checks.append(dict(property=k, quick_cmd='python3 check.py %s' % k, thorough_cmd='python3 check.py %s --tier thorough' % k,
                       evidence_file='evidence/%s.json' % k, technique=TECH[k], level='exploration',
                       level_note='Seeded search: holds in every simulated run explored, not in all. Real library code from /repo runs on a '
                                  'simulated file system, clock, processes and scheduler; DESIGN.md has the oracle, faults and bounds.'))
m = dict(version=1, setup_cmd='python3 selftest.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks in /repo are needed: the seams are open(), os, pathlib and threading as the library imports them. '
               'known-findings.txt lists defects found: repaired by "fix:" commits in /repo, or open.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
