"""Writes properties.jsonl (kept as a script because JSON lines are hard to edit by hand)."""
import json, os
R, T, W, C, U, H, P, D = ('segpy/reader.py', 'segpy/toolkit.py', 'segpy/writer.py', 'segpy/catalog.py',
                          'segpy/util.py', 'segpy/header.py', 'segpy/packer.py', 'segpy/dataset.py')
PROPS = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files,
                                   state=[dict(name=n, meaning=m) for n, m in state],
                                   mechanism=[dict(name=n, where=w) for n, w in mech],
                                   observe_at=[observe], hook_needed=None)))

p('C01', 'A cached open is indistinguishable from a fresh open',
  'Opening a file with caching enabled, in any process and after any earlier history of opens, gives a reader whose headers, trace counts, indexes, lengths and samples all equal those of an uncached open, with the same options, of the bytes the supplied handle refers to now. '
  'This holds after the file has been modified in place, rewritten, copied, moved, replaced or deleted and recreated, when copies of a file share a cache directory, when the same file was opened with a different encoding, byte order or header format, and across restarts.',
  ['histories', 'configurations', 'crash_points'],
  'All sequences of write, modify, copy, move, replace, delete, open (any options, any kind of file-like object, relative or absolute cache directory), read and restart.',
  'Tests open one file once or twice without changing it in between; the claim is about every history of edits and opens that leaves cache entries behind.',
  [R, U, P, H], [('cache lookup by content hash', R + ' create_reader, _locate_cache_file, _load_reader_from_cache'), ('content and option hash', U + ' hash_for_file'), ('reader state capture and restore', R + ' SegYReader.__getstate__/__setstate__')],
  'public reader methods after create_reader()', [('cache entry', 'pickled reader named by hash of file content and options')])

p('C02', 'A crash or damage to the cache never corrupts or blocks later opens',
  'After a process crash or power loss at any point while the cache is being written, or after cache entries are truncated, zeroed, overwritten with other bytes that are not a loadable entry, or written by another version of the library, every later open succeeds and returns the correct data. '
  'Once one open has completed without a fault, the cache works again: the next open of the unchanged file uses it instead of scanning the traces again.',
  ['crash_points', 'fault_sequences', 'histories'],
  'All crash points in cache writing, all outcomes of unsynced data after power loss, and all truncations and garbage overwrites of entries.',
  'Tests mock one unpickling failure; they do not crash the writer at every I/O step or reopen through what is left.',
  [R], [('cache write', R + ' _save_reader_to_cache'), ('rejection and removal of bad entries', R + ' _load_reader_from_cache')],
  'create_reader() and reader methods in a process started after the crash', [('cache entry', 'possibly torn file in the cache directory')])

p('C03', 'Trouble with cache storage never fails or changes an open',
  'When the cache directory or a cache entry cannot be created, listed, opened, read, written or removed (permission denied, read-only or full storage, I/O errors, the directory name being taken by a file, entries vanishing), opening the SEG-Y file still succeeds and returns the same data as without a cache. '
  'The caching is skipped, not the open.',
  ['fault_sequences', 'configurations'],
  'All placements of storage errors over the operations performed on the cache, for cold and warm caches.',
  'One test mocks one failing open(); the failing operation, the error and the state of the cache vary without limit.',
  [R], [('cache write', R + ' _save_reader_to_cache'), ('cache read', R + ' _load_reader_from_cache')],
  'create_reader() result and exceptions')

p('C04', 'Concurrent opens sharing a cache all get correct readers',
  'When any number of processes open files at the same time through a shared cache directory, however their file operations interleave and whichever of them crash, every open that is not itself crashed succeeds and returns the correct data for its own file. '
  'After they have finished, later opens are correct too.',
  ['schedules', 'crash_points'],
  'All interleavings at file-operation granularity of several processes opening the same or identical files, with cold, warm or corrupt entries, with crashes.',
  'No test runs two opens at once.',
  [R], [('check, open, load, remove of entries', R + ' _load_reader_from_cache'), ('in-place writing of entries', R + ' _save_reader_to_cache')],
  'create_reader() and reader methods in each process', [('shared cache entry', 'file read, written and removed by several processes')])

p('C05', 'What is written is what is read, for every layout and kind of file object',
  'Writing a dataset and reading it back gives the same textual, binary, extended and trace headers and the same samples, for every sample format, encoding, byte order, trace length, number of extended headers and trace header layout (including custom layouts), and the stored bytes are those which the SEG-Y standard prescribes; text formatted as extended header pages is read back with all its lines. '
  'This holds for buffered, unbuffered and in-memory file objects, including those which legitimately transfer fewer bytes than requested in a call.',
  ['inputs', 'configurations', 'fault_sequences'],
  'All datasets valid for the standard, all options, all patterns of short reads and short writes.',
  'Tests sample complete transfers only, use the library to check itself, and many of their property tests no longer run.',
  [W, T, P, H, 'segpy/ibm_float_packer.py', 'segpy/ibm_float.py', 'segpy/trace_header.py', 'segpy/binary_reel_header.py'],
  [('writing', W + ' write_segy'), ('header packing', P + ' compile_struct'), ('sample packing', T + ' pack_values, unpack_values')],
  'bytes stored by write_segy(); public reader methods')

p('C06', 'A failed write is reported and leaves only a prefix of the file',
  'If storing any byte of a file being written fails, the write raises the error to the caller rather than reporting success, and it never goes on to store later parts after a missing part: at every moment, including after a crash, what has been stored is a prefix of the complete correct file. '
  'Progress of one is reported only if everything was handed over.',
  ['fault_sequences', 'crash_points'],
  'All positions at which a write, seek, close or the process can fail, for buffered and unbuffered handles, including after short writes.',
  'Tests never make a write fail.',
  [W, T], [('sequential writing', W + ' write_segy'), ('writing primitives', T + ' write_*')],
  'exceptions from write_segy() and the stored bytes')

p('C07', 'A truncated file yields exactly its complete traces, never invented data',
  'For a file cut off at any byte, opening either raises an error (if the cut is within the headers which precede the traces) or gives a reader which reports every trace whose header is complete, and every header and sample it returns equals that of the uncut file. '
  'Requesting samples beyond the cut raises an end-of-file error; no value is ever made up.',
  ['crash_points', 'inputs'],
  'All truncation points of all files, also when a crash of the writing process or loss of unsynced data produced the truncation.',
  'Tests try one too-short file; the cut can be at any byte of any layout.',
  [T, R], [('trace scan', T + ' catalog_traces'), ('bounded reads', T + ' read_binary_values, read_trace_header, read_textual_reel_header')],
  'create_reader() and reader methods')

p('C08', 'Read errors are reported, and leave nothing poisoned behind',
  'If an I/O or memory error occurs in any read, seek or position query while opening or using a reader, or the call is interrupted at any point, that call raises; it never returns wrong, partial or default data, and never a reader lacking traces. '
  'Once the fault is gone, repeating the call on the same reader, or reopening the file with or without the cache, gives the correct result.',
  ['fault_sequences', 'histories'],
  'All placements of errors over the operations on the SEG-Y handle, and of interrupts over the lines executed, followed by retries.',
  'Tests never make a read fail.',
  [T, R, U], [('trace scan', T + ' catalog_traces'), ('sample and header access', R + ' trace_samples, trace_header'), ('hashing', U + ' hash_for_file')],
  'exceptions and results of create_reader() and reader methods', [('lazily computed members', 'index sequences and maxima kept by readers')])

p('C09', 'Every query gives the same answer regardless of what preceded it',
  'The result of each reader query (header, samples or sub-range of samples, index, count) depends only on the file and the query: not on earlier queries on that reader or on other readers of the same handle or file, nor on where other users of the handle left its position. '
  'Trace headers and samples which a reader has handed out do not change afterwards, and changing them does not affect later queries.',
  ['histories', 'schedules'],
  'All interleavings of queries by several clients over several readers sharing a handle, with other users moving the position of the handle.',
  'Tests query fresh readers in order; the number of interleavings is unlimited.',
  [R, T], [('absolute positioning before reads', T + ' read_trace_header, read_binary_values'), ('lazily computed members', R + ' SegYReader2D/3D')],
  'public reader methods')

p('C10', 'Readers and writers in different threads do not interfere',
  'Threads of one process which each open, read, convert and write through their own handles obtain exactly the results they would obtain running alone, whichever way the threads are interleaved.',
  ['schedules'],
  'All preemptions, at the granularity of source lines and file operations, of threads working on separate handles, with equal or different formats, byte orders and files, sharing a cache directory or not.',
  'No test is multi-threaded.',
  [R, T, W, P, H, 'segpy/ibm_float_packer.py'], [('format and field descriptors shared by all headers', H + ' HeaderFieldDescriptor'), ('packers', P + ' make_header_packer')],
  'results of public functions in each thread', [('field descriptor instance data', 'per-class weak dictionary of values of all header instances')])

p('C11', 'Progress is monotonic, complete and safe to abort from',
  'Progress values reported while opening or writing are between zero and one, never decrease, and end with one whenever the operation succeeds. '
  'If the callback raises at any call, its exception reaches the caller unchanged, the handle stays open, no cache entry of a partial scan is left, and repeating the operation gives the complete, correct result.',
  ['crash_points', 'inputs', 'configurations'],
  'All files (including empty, truncated and single-trace files), cold and warm caches, and all calls at which the callback can raise.',
  'Tests check that the callback must be callable, and little else.',
  [T, R, W], [('scan progress', T + ' catalog_traces'), ('final progress', R + ' create_reader'), ('writing progress', W + ' write_segy')],
  'sequence of arguments received by the callback')

p('C12', 'Damaged or arbitrary bytes give a clean error in bounded time',
  'Opening and reading any sequence of bytes, however damaged, terminates after work proportional to its size, either giving data which the bytes encode or raising an ordinary exception. '
  'Damage confined to one trace header field or to sample data does not change what is returned for other traces as long as the lengths of traces are intact.',
  ['inputs', 'fault_sequences'],
  'All byte strings and all options; all places and values of damage in stored files.',
  'Tests use well-formed files only.',
  [T, R, C], [('scan loop', T + ' catalog_traces'), ('extended header loop', T + ' read_extended_headers_until_end')],
  'termination, exceptions and results of create_reader() and reader methods')

p('C13', 'Conversion streams one trace at a time and stops at the first failure',
  'Writing a dataset asks for the traces it lists, each header and samples once and in order, storing each before asking for the next, so that memory use and lost work are bounded by a constant number of traces. '
  'If the source or the destination fails, the error is raised to the caller, no later trace is asked for, and the traces delivered before the failure are not corrupted.',
  ['fault_sequences', 'inputs'],
  'All datasets, including overlays which replace some of the headers or samples of a source, and all positions of failure of source or destination.',
  'Tests compare whole files after success only.',
  [W, D, R], [('trace loop', W + ' write_segy'), ('delegation to a source', D + ' DelegatingDataset')],
  'order of calls on the dataset relative to writes on the destination')

p('C14', 'Pickled readers and headers mean the same in another process',
  'A reader pickled in one process and unpickled in another, after any use, answers every query as the original did; a header of any format, including derived ones, keeps all field values when pickled, copied or deep copied. '
  'If the file is missing or unreadable, or the state was saved by another version, unpickling raises an error and never gives a working reader of something else; pickling a reader whose file has no name or is closed raises an error.',
  ['histories', 'crash_points', 'fault_sequences'],
  'All moments at which a reader is pickled, and all restarts, storage errors, file removals and version changes between pickling and unpickling.',
  'Tests pickle fresh readers and headers within one process.',
  [R, H, P, C], [('reader state', R + ' __getstate__/__setstate__'), ('header state', H + ' BaseHeader.__getstate__/__setstate__'), ('packer state', P + ' HeaderPacker.__getstate__/__setstate__')],
  'pickle round trips between processes')

p('C15', 'Indexes agree with the trace headers, for any geometry',
  'For every file, the trace index of a 3D reader maps exactly the inline and crossline pairs present in the trace headers to the traces which bear them, that of a 2D reader exactly the CDP numbers, and the listed numbers and counts are exactly those which occur. '
  'If pairs are unique the file is offered as 3D, otherwise, if CDP numbers are unique, as 2D, otherwise as plain traces, and a forced dimensionality gives that kind of reader.',
  ['inputs', 'configurations', 'histories'],
  'All geometries (regular, reversed, sparse, diagonal, with duplicates, negative and huge numbers, variable trace lengths), fresh or through the cache, in any order of queries and with read faults in between.',
  'Tests sample few geometries, and their property tests of catalogs and heuristics largely no longer run.',
  [C, R, U], [('choice of compact representation', C + ' CatalogBuilder'), ('index queries', R + ' SegYReader2D/3D'), ('sorted sequences', U + ' make_sorted_distinct_sequence')],
  'trace_index(), has_trace_index(), inline/xline/cdp numbers and counts')

p('C16', 'Bulk extraction into arrays equals trace-by-trace reading',
  'Arrays extracted for inlines, crosslines, time slices, single traces, and trace header fields hold, at each position, the value which reading that trace individually gives, and are masked or hold the null value exactly where there is no such trace or sample. '
  'If reading any of the traces involved fails, the extraction raises rather than returning an array with missing or stale values.',
  ['inputs', 'fault_sequences'],
  'All geometries, sample formats, selections of traces and samples, and placements of read errors.',
  'The tests of array extraction are placeholders.',
  ['segpy-ext/segpy_numpy/segpy_numpy/extract.py', 'segpy-ext/segpy_numpy/segpy_numpy/dtypes.py', 'segpy-ext/segpy_numpy/segpy_numpy/util.py'],
  [('array population', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py')], 'arrays returned by the extract functions')

p('C17', 'Command line reports are correct or fail visibly',
  'The metadata and report commands print the true trace count, dimensionality, sample format, longest trace, revision, index counts and textual headers of the named file, on first and on later runs and whatever the state of the cache. '
  'If the file cannot be opened or read, the command fails with an error and a non-zero status instead of printing wrong figures, and the file is left unchanged.',
  ['histories', 'fault_sequences', 'crash_points'],
  'All files, sequences of runs with file changes in between, and read, write and cache errors.',
  'No test runs the commands.',
  ['segpy/cli.py', 'segpy/__main__.py', R], [('metadata command', 'segpy/cli.py handle_metadata'), ('report command', 'segpy/cli.py report')],
  'standard output and status of the commands')

p('C18', 'Reading a file and writing it again reproduces it byte for byte',
  'A reader written out with the same encoding, byte order and trace header format reproduces the original file exactly wherever the original encodes defined header fields and valid samples; repeated conversion to other encodings or byte orders and back also returns to the original bytes. '
  'This holds for all sample formats including non-normalised floating point values, whichever kinds of file objects are used, and also through cached readers.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'All valid files, chains of conversions, kinds of handles and short transfers.',
  'Tests round-trip generated datasets, not files, and compare decoded values rather than bytes.',
  [W, R, T, D, 'segpy/ibm_float.py', 'segpy/encoding.py'], [('lazy dataset view of a file', R + ' SegYReader'), ('writing', W + ' write_segy')], 'bytes of the output compared with the input')

p('C19', 'Reading leaves user files, handles and directories as they were',
  'Opening and reading never modify, create, rename or delete anything except cache entries inside the requested cache directory (and nothing at all with caching disabled), never close the handle supplied by the caller, and leave no other file open, on success as on failure. '
  'Only the library\'s own cache entry for that content and options is ever replaced or removed.',
  ['fault_sequences', 'crash_points', 'histories'],
  'All opens and queries, with all faults, crashes and cache states, of all kinds of handles, including writable ones.',
  'Tests do not look at what else happens to the file system, or at open files.',
  [R, U, T], [('cache location', R + ' _locate_cache_file'), ('cache entry removal', R + ' _load_reader_from_cache'), ('reopening by name', R + ' SegYReader.__setstate__')],
  'contents of the file system, and open files, before and after')

p('C24', 'Header objects hold exactly what was last assigned to them',
  'Each field of each header object reads as the value last successfully assigned to that field of that object (at first its documented default), whatever has since been done with other headers, of the same or another layout, in this thread or others: making, copying (plain, deep, with changes, by pickling), comparing, packing, unpacking, discarding. '
  'A value which the field cannot represent, or an unknown field, is refused with an error, and a refused or interrupted operation leaves every header as it was. '
  'Headers are equal exactly if they are of one layout and all fields are equal, and packing and unpacking agree with the documented layout.',
  ['histories', 'schedules', 'inputs', 'fault_sequences'],
  'All sequences and interleavings of operations on headers of all layouts and parts of layouts, with interrupts at any line.',
  'Tests try single headers, one operation at a time; values which leak between objects, layouts or threads need a history.',
  [H, P, 'segpy/field_types.py', 'segpy/trace_header.py', 'segpy/binary_reel_header.py', 'segpy/types.py'],
  [('fields as descriptors with values by object', H + ' NamedField, field()'), ('layouts', H + ' FormatMeta, SubFormatMeta; ' + P + ' make_header_packer'), ('range checks', 'segpy/field_types.py')],
  'attributes of header objects, header.are_equal(), packed bytes')

p('C25', 'Requests which cannot be honoured are refused and change nothing',
  'Opening with a handle which is closed, in text mode, unseekable or too short, or with an unknown byte order, unsupported dimensionality or a progress callback which cannot be called; asking for traces, ranges of samples, lines or CDP numbers which do not exist; pickling a reader whose file is closed or has no name; and writing with an unsupported encoding, a bad callback, text which cannot be encoded, malformed extended header pages or samples out of range: each raises the documented error rather than giving an answer. '
  'This is so whatever was done before, with a warm cache as with a cold one. It changes no file, handle, cache entry or reader, except that what comes before the fault may have been written to the output (extended header pages only if all are well-formed), and no trace is asked of a dataset which is to be refused.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'],
  'All histories of good and bad requests, with errors of the cache and the file and interrupts in between.',
  'Tests try some bad arguments on a fresh reader, never after a history, with a warm cache, or looking at what else changed.',
  [R, W, T, 'segpy-ext/segpy_numpy/segpy_numpy/extract.py'],
  [('checks of arguments before the cache is consulted', R + ' create_reader'), ('checks of indexes', R + ' SegYReader.trace_samples, trace_header'), ('checks before writing', W + ' write_segy'), ('malformed pages', T + ' write_extended_textual_headers')],
  'exceptions raised, and contents of files and cache before and after')

NA = [
 ('C20', 'IBM floating point arithmetic and comparison follow real arithmetic', 'Arithmetic, comparison, rounding and conversion of IBM floating point numbers agree with exact real arithmetic to within one unit in the last place, and comparisons are exact.',
  'All pairs of the 2^32 values.', 'Tests sample few values.', ['segpy/ibm_float.py'], 'IBMFloat operators'),
 ('C21', 'Inconsistent header layouts are always rejected', 'Defining a header layout whose fields overlap, coincide with different types, or exceed the length of the header is rejected, and all other layouts are accepted.',
  'All layouts.', 'Tests sample few layouts.', [P, H], 'make_header_packer()'),
 ('C22', 'Standard textual header templates parse back to the values given', 'Formatting the standard textual header and parsing it again gives every supplied value, cut to the width of its placeholder.',
  'All values of all placeholders.', 'Tests sample few values.', [T, 'segpy/textual_reel_header.py'], 'format_standard_textual_header(), parse_standard_textual_header()'),
 ('C23', 'Immutable sorted sets and reversed views obey the collection protocols', 'Sorted sets and reversed sequence views behave as the mathematical sets and sequences they represent.',
  'All contents and operations.', 'Tests sample few contents.', ['segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py'], 'collection operations'),
]
for id, title, st, q, why, files, obs in NA:
    p(id, title, st, ['inputs'], q, why, files, [('pure function', f) for f in files[:1]], obs)

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in PROPS:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(PROPS))
