"""User code, imported afresh in every simulated process: custom header layouts, datasets."""
import enum

from segpy.header import Header, field
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32, NNInt16, NNInt32, IntFieldMeta, IntEnumFieldMeta
from segpy.dataset import Dataset, DelegatingDataset
from segpy.encoding import ASCII


class CustomRev1(TraceHeaderRev1):
    """Uses the unassigned bytes at the end, as examples/custom_header.py does."""
    unassigned_1 = field(Int16, offset=233, default=0, documentation="Unassigned 1.")
    unassigned_2 = field(Int16, offset=235, default=0, documentation="Unassigned 2.")
    unassigned_3 = field(Int32, offset=237, default=0, documentation="Unassigned 3.")


class CustomLines(Header):
    """Inline and crossline at bytes 9 and 21, CDP at 193; not declared in order of offset."""
    START_OFFSET_IN_BYTES = 1
    LENGTH_IN_BYTES = 240
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    file_sequence_num = field(Int32, offset=5, default=0, documentation="Sequence.")
    crossline_number = field(Int32, offset=21, default=0, documentation="Crossline.")
    inline_number = field(Int32, offset=9, default=0, documentation="Inline.")
    ensemble_num = field(Int32, offset=193, default=0, documentation="CDP.")
    sample_interval = field(Int16, offset=117, default=0, documentation="Interval.")


class CustomAlias(TraceHeaderRev1):
    """Two names for the same bytes."""
    my_inline = field(Int32, offset=189, default=0, documentation="Inline by another name.")


class CustomReel(BinaryReelHeader):
    """Fields in the unassigned gap of the binary reel header."""
    survey_id = field(Int32, offset=3301, default=0, documentation="Survey.")
    vessel_id = field(Int16, offset=3401, default=0, documentation="Vessel.")


import simuser_layouts
import simuser_two


class Code(enum.IntEnum):
    A, B, C, D, E, F = simuser_layouts.VALUES['code']


class Flag(enum.IntEnum):
    A, B, C, D = simuser_layouts.VALUES['flag']


class Int8(metaclass=IntFieldMeta, seg_y_type='int8'):
    pass


class NNInt8(metaclass=IntFieldMeta, seg_y_type='nnint8'):
    pass


class Level(metaclass=IntFieldMeta, seg_y_type='int16', min_value=-5, max_value=100):
    pass


class Small(metaclass=IntFieldMeta, seg_y_type='nnint16', min_value=0, max_value=9):
    pass


class CodeField(metaclass=IntEnumFieldMeta, enum=Code):
    pass


class FlagField(metaclass=IntEnumFieldMeta, enum=Flag, seg_y_type='int32'):
    pass


TYPES = dict(int32=Int32, nnint32=NNInt32, int16=Int16, nnint16=NNInt16, int8=Int8, nnint8=NNInt8, level=Level, small=Small, code=CodeField,
             flag=FlagField)


def _define(name, base, own, start, **attributes):
    body = dict(attributes, __module__=__name__)
    for field_name, at, t, default in own:
        body[field_name] = field(TYPES[t], offset=at + start, default=default, documentation="Field {}.".format(field_name))
    globals()[name] = cls = type(base)(name, (base,), body)
    return cls


TRACE_FORMATS = {'rev0': TraceHeaderRev0, 'rev1': TraceHeaderRev1, 'custom': CustomRev1,
                 'lines': CustomLines, 'alias': CustomAlias,
                 'twin': simuser_two.CustomRev1, 'twinlines': simuser_two.CustomLines}
REEL_FORMATS = {'binary': BinaryReelHeader, 'custombinary': CustomReel, 'twinbinary': simuser_two.CustomReel}
for _k in range(simuser_layouts.TRACE):
    _d = simuser_layouts.trace_layout(_k)
    if _d['base'] is None:
        _c = _define('Layout%d' % _k, Header, _d['own'], _d['start'], START_OFFSET_IN_BYTES=_d['start'], LENGTH_IN_BYTES=240)
    else:
        _c = _define('Layout%d' % _k, globals()[_d['base']], _d['own'], _d['start'])
    TRACE_FORMATS['g%d' % _k] = _c
for _k in range(simuser_layouts.REEL):
    REEL_FORMATS['b%d' % _k] = _define('Reel%d' % _k, BinaryReelHeader, simuser_layouts.reel_layout(_k)['own'], 3201)


class MemDataset(Dataset):
    """A dataset in memory.  The recorder, if any, is told of every request."""

    def __init__(self, text, reel, ext, headers, samples, encoding=None, dims=0, recorder=None):
        self._text, self._reel, self._ext = text, reel, ext
        self._headers, self._samples = headers, samples
        self._dims = dims
        self._recorder = recorder
        if encoding is not None:
            self.encoding = encoding

    def _note(self, *what):
        if self._recorder is not None:
            self._recorder(*what)

    @property
    def textual_reel_header(self):
        return self._text

    @property
    def binary_reel_header(self):
        return self._reel

    @property
    def extended_textual_header(self):
        return self._ext

    @property
    def dimensionality(self):
        return self._dims

    order = None

    def trace_indexes(self):
        if self.order is not None:
            return iter(self.order)
        return super().trace_indexes()

    def num_traces(self):
        return len(self._headers)

    def trace_header(self, trace_index):
        self._note('header', trace_index)
        return self._headers[trace_index]

    def trace_samples(self, trace_index, start=None, stop=None):
        self._note('samples', trace_index)
        samples = self._samples[trace_index]
        return samples if start is None and stop is None else samples[start:stop]


class Overlay(DelegatingDataset):
    """Replaces some aspects of a source dataset."""

    def __init__(self, source, scale=None, shift_field=None, shift=0, text=None, recorder=None):
        super().__init__(source)
        self._scale, self._shift_field, self._shift, self._text = scale, shift_field, shift, text
        self._recorder = recorder

    def _note(self, *what):
        if self._recorder is not None:
            self._recorder(*what)

    def trace_samples(self, trace_index, start=None, stop=None):
        self._note('samples', trace_index)
        samples = super().trace_samples(trace_index, start, stop)
        if self._scale is not None:
            return [self._scale(v) for v in samples]
        return samples

    def trace_header(self, trace_index):
        self._note('header', trace_index)
        header = super().trace_header(trace_index)
        if self._shift_field is not None:
            return header.copy(**{self._shift_field: getattr(header, self._shift_field) + self._shift})
        return header

    @property
    def textual_reel_header(self):
        if self._text is not None:
            return self._text
        return super().textual_reel_header
