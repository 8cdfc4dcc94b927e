"""Writes known-findings.txt, with the commits of repairs found by their subjects."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
FIXED = [
    ('C19', 'unpickling a reader could create or truncate', 'a reader of a handle open for appending created the missing file when it was unpickled, also by opening another file of the same content with the cache; a file-like object with mode w+b led to the file being emptied'),
    ('C05', 'keep blank lines when formatting', 'blank lines of text were lost when it was formatted as extended textual headers'),
    ('C15', 'pairwise() of an empty iterable', 'files without traces could not be opened: RuntimeError from pairwise()'),
    ('C11', 'catalog_traces() reported progress', 'progress values greater than one were reported for truncated files'),
    ('C03', 'create_reader() failed if the cache directory could not be created', 'an OSError of os.makedirs() for the cache directory failed the open'),
    ('C04', 'create_reader() failed if a cache entry could not be opened', 'a cache entry removed by another process, or unreadable, failed the open'),
    ('C01', 'a cached reader read from a file other', 'a reader from the cache read from the file it was made with (moved, replaced, or another of the same content) and not the one supplied'),
    ('C05', 'traces were lost when reading from a file-like object with short reads', 'reads which return fewer bytes than asked for were taken for the end of the file'),
    ('C05', 'data was lost when writing to a file-like object with short writes', 'writes which accept fewer bytes than given lost the rest'),
    ('C05', 'create_reader() failed with trace header formats without line numbers', 'TraceHeaderRev0 could not be used: AttributeError'),
    ('C05', 'create_reader() failed with handles not opened by a string name', 'handles named by bytes, an integer or None crashed create_reader()'),
    ('C05', 'header fields not declared in order of offset', 'fields of a header format not declared in order of offset got the values of others'),
    ('C14', 'inherited header fields were lost by pickling', 'pickled or deep-copied headers of derived formats lost inherited fields'),
    ('C16', 'extracting lines and timeslices gave wrong data', 'traces shorter than the longest were repeated, or failed, in extracted arrays'),
    ('C16', 'extracting non-negative header fields', 'header fields of non-negative types could not be extracted: ValueError'),
    ('C16', 'extract_trace() treated the trace index', 'extract_trace() looked the trace index up as an inline/crossline pair or CDP number'),
    ('C11', 'write_segy() reported decreasing progress', 'progress decreased while writing a data set which lists its traces out of order'),
    ('C16', 'extracting single IBM float samples', 'IBM float samples could not be put into masked arrays: ValueError'),
    ('C16', 'a single line or sample number could not be selected', 'selections of one line or sample from regularly spaced ones raised ValueError'),
    ('C16', 'extracting samples or lines with reversed slices', 'selections by slices with a negative step gave masked arrays, or values in the wrong positions'),
    ('C03', 'create_reader() failed if a cache entry could not be closed', 'an OSError from closing the cache entry failed the open'),
    ('C16', 'extracting header fields of type nnint8', 'header fields of 8-bit non-negative types could not be extracted: ValueError'),
    ('C12', 'reading a trace with a damaged number of samples', 'reading samples of a trace whose header (with a 32-bit field) claims very many samples allocated gigabytes: MemoryError'),
    ('C12', 'opening files with irregular line numbers', 'opening a file whose line numbers do not form a full grid took time quadratic in the number of traces (linear searches of ranges)'),
]
OPEN = [
    ('C01', 'F6', 'findings/F6.json',
     'dimensionality is not part of the key of cache entries: create_reader(fh, dimensionality=1) of a file of three dimensions makes a later '
     'create_reader(fh), with the same cache directory, return a SegYReader rather than a SegYReader3D (test_cache_used_if_found requires the hash '
     'to ignore it)'),
]
with open(os.path.join(HERE, 'known-findings.txt'), 'w') as f:
    for prop, k, plan, what in OPEN:
        f.write('open: property=%s plan=%s %s: %s\n' % (prop, plan, k, what))
    for prop, subject, what in FIXED:
        h = [a for a, b in log if subject in b]
        assert len(h) == 1, (subject, h)
        f.write('fixed: property=%s %s %s\n' % (prop, h[0], what))
subjects = [b for a, b in log if b.startswith('fix:')]
assert len(subjects) == len(FIXED), (len(subjects), len(FIXED))
