"""A second module of user code, whose header layouts have the same names as those of simuser."""
from segpy.header import Header, field
from segpy.trace_header import TraceHeaderRev1
from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32, NNInt16


class CustomRev1(TraceHeaderRev1):
    """The same as in simuser, with two fields exchanged."""
    unassigned_1 = field(Int16, offset=235, default=0, documentation="Unassigned 1.")
    unassigned_2 = field(Int16, offset=233, default=0, documentation="Unassigned 2.")
    unassigned_3 = field(Int32, offset=237, default=0, documentation="Unassigned 3.")


class CustomLines(Header):
    """The same as in simuser, with inline and crossline exchanged."""
    START_OFFSET_IN_BYTES = 1
    LENGTH_IN_BYTES = 240
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    file_sequence_num = field(Int32, offset=5, default=0, documentation="Sequence.")
    crossline_number = field(Int32, offset=9, default=0, documentation="Crossline.")
    inline_number = field(Int32, offset=21, default=0, documentation="Inline.")
    ensemble_num = field(Int32, offset=193, default=0, documentation="CDP.")
    sample_interval = field(Int16, offset=117, default=0, documentation="Interval.")


class CustomReel(BinaryReelHeader):
    """The same as in simuser, at another place."""
    survey_id = field(Int32, offset=3305, default=0, documentation="Survey.")
    vessel_id = field(Int16, offset=3401, default=0, documentation="Vessel.")
