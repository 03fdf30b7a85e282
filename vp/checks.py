"""Registry: which contracts decide which property."""

def E(file, name, **kw):
    return dict(file=file, name=name, **kw)

CHECKS = {
    'P01': dict(entries=[
        E('reader_hist.cpp', 'read_u64', shards=65, weight=5),
        E('reader_hist.cpp', 'read_bad_width', shards=65),
        E('reader_hist.cpp', 'read_kinds', shards=65, weight=4),
        E('reader_hist.cpp', 'set_position', shards=65, weight=3),
        E('reader_hist.cpp', 'set_position_past', shards=65),
    ]),
    'P02': dict(entries=[
        E('reader_fail.cpp', 'any_read_near_end', shards=18, weight=5),
        E('reader_fail.cpp', 'failed_bits', shards=65, weight=2),
        E('reader_fail.cpp', 'failed_then_moved', shards=65, weight=2),
        E('reader_fail.cpp', 'reader_size_check'),
        E('reader_fail.cpp', 'reader_bytes_ctor'),
    ]),
    'P03': dict(entries=[
        E('writer_bits.cpp', 'write_bits', shards=64, weight=3),
        E('writer_bits.cpp', 'write_bad_width'),
        E('writer_bits.cpp', 'write_position'),
    ]),
    'P04': dict(entries=[
        E('writer_bits.cpp', 'write_bits', shards=64, weight=3),
        E('writer_bits.cpp', 'write_counting', weight=2),
        E('writer_bits.cpp', 'write_position'),
        E('writer_bits.cpp', 'writer_size_check'),
        E('writer_bits.cpp', 'writer_ctors'),
        E('writer_cap.cpp', 'capacity_var', shards=12, weight=2),
        E('writer_cap.cpp', 'capacity_align', shards=8),
        E('writer_cap.cpp', 'capacity_bytes', shards=8),
        E('writer_cap.cpp', 'capacity_bytes_aligned', weight=9),
    ]),
    'P05': dict(entries=[
        E('varint.cpp', 'varint_round_trip', shards=72, weight=2),
        E('varint.cpp', 'varint_decode', shards=72, weight=2),
        E('varint.cpp', 'varint_out_of_range'),
    ]),
    'P06': dict(entries=[
        E('bytes.cpp', 'bytes_aligned', shards=11),
        E('bytes.cpp', 'bit_buffer_aligned', shards=88, weight=3),
        E('bytes.cpp', 'unaligned', shards=7, weight=2),
        E('bytes.cpp', 'read_claimed', shards=3),
    ]),
    'P07': dict(entries=[
        E('sizes.cpp', 'size_fixed', shards=128),
        E('sizes.cpp', 'size_var', shards=9),
        E('sizes.cpp', 'size_others', shards=7),
        E('sizes.cpp', 'size_bytes'),
        E('sizes.cpp', 'size_bytes_unaligned', shards=21),
        E('sizes.cpp', 'size_huge_bytes'),
    ]),
    'P08': dict(entries=[
        E('align.cpp', 'writer_aligns', shards=64, weight=5),
        E('align.cpp', 'reader_aligns', shards=64, weight=5),
        E('align.cpp', 'counting_aligns', shards=64),
        E('align.cpp', 'big_writer_aligns', shards=22),
        E('align.cpp', 'big_reader_aligns', shards=22),
        E('align.cpp', 'big_counting_aligns', shards=22),
        E('align.cpp', 'position_util', shards=64),
        E('align.cpp', 'big_position_util', shards=22),
    ]),
    'P09': dict(entries=[
        E('ranges.cpp', 'range_fixed'),
        E('ranges.cpp', 'range_var'),
        E('ranges.cpp', 'range_dyn', shards=8),
        E('ranges.cpp', 'range_bool_float'),
        E('ranges.cpp', 'bit_field_bounds'),
        E('ranges.cpp', 'size_convert'),
        E('ranges.cpp', 'num_bits'),
    ]),
    'P10': dict(entries=[
        E('floats.cpp', 'half_to_float'),
        E('floats.cpp', 'float_to_half'),
        E('floats.cpp', 'single_double'),
        E('floats.cpp', 'float_stream', shards=24),
    ]),
    'P11': dict(entries=[
        E('packed.cpp', 'delta_first_init', shards=36, state=True, optional=True),
        E('packed.cpp', 'delta_next_init', shards=36, state=True, optional=True),
        E('packed.cpp', 'delta_first', shards=36, state=True, optional=True),
        E('packed.cpp', 'delta_next', shards=36, state=True, optional=True),
        E('packed_arrays.cpp', 'packed_small', shards=24, weight=3),
        E('packed_arrays.cpp', 'packed_wide', shards=27, weight=3),
        E('packed_arrays.cpp', 'packed_wide3', shards=9, weight=9, thorough=True),
        E('packed_arrays.cpp', 'packed_signed_varint', shards=9, weight=9, time=700, thorough=True),
        E('arrays.cpp', 'packed_dynamic', shards=16),
    ]),
    'P12': dict(entries=[
        E('arrays.cpp', 'array_round_trip', shards=145, weight=3),
        E('arrays.cpp', 'array_long', shards=15, weight=2),
        E('arrays.cpp', 'array_access'),
        E('arrays.cpp', 'array_validation'),
    ]),
    'P13': dict(entries=[
        E('hostile.cpp', 'hostile_arrays', shards=95, weight=2),
        E('hostile.cpp', 'hostile_packed', shards=52, weight=2),
        E('hostile.cpp', 'hostile_delta', shards=15, weight=3, optional=True),
        E('hostile.cpp', 'hostile_claims', shards=13, weight=3),
        E('bytes.cpp', 'read_claimed', shards=3, weight=9),
        E('reader_fail.cpp', 'any_read_near_end', shards=18, weight=5),
        E('reader_fail.cpp', 'reader_size_check'),
    ]),
    'P14': dict(entries=[
        E('bitbuffer.cpp', 'equal_if_same_bits', shards=8),
        E('bitbuffer.cpp', 'equal_only_if_same_bits', shards=8),
        E('bitbuffer.cpp', 'order', shards=27),
        E('bitbuffer.cpp', 'order_transitive', shards=11),
        E('bitbuffer.cpp', 'hash_padding', shards=65),
        E('bitbuffer.cpp', 'copies'),
        E('bitbuffer.cpp', 'construct'),
    ]),
    'P15': dict(entries=[
        E('laws.cpp', 'optional_laws', shards=16),
        E('laws.cpp', 'extended_laws', shards=16),
        E('laws.cpp', 'variant_laws', shards=2),
        E('laws.cpp', 'array_laws', shards=12, weight=2),
        E('laws.cpp', 'content_laws', shards=7),
    ]),
    'P16': dict(entries=[
        E('owning.cpp', 'optional_inline', shards=51),
        E('owning.cpp', 'optional_heap', shards=51),
        E('owning.cpp', 'optional_conversions', shards=12),
        E('owning.cpp', 'any_values', shards=60),
        E('owning.cpp', 'variants', shards=45),
        E('owning.cpp', 'unique_ptr'),
    ]),
    'P17': dict(entries=[
        E('int_text.cpp', 'text_unsigned', shards=4),
        E('int_text.cpp', 'text_signed', shards=4),
        E('int_text.cpp', 'to_string', shards=7),
    ]),
    'P18': dict(entries=[
        E('messages.cpp', 'append_sized', shards=3, weight=3),
        E('messages.cpp', 'append_three', shards=2, weight=4),
        E('messages.cpp', 'append_text', shards=2, weight=3),
        E('messages.cpp', 'append_number', shards=7, weight=2),
        E('messages.cpp', 'append_float', shards=13, weight=2, deep=dict(shards=256)),
        E('messages.cpp', 'message_copies'),
    ]),
    'P19': dict(note='Bounded by the length of the text (see the evidence). Assumed: strtoll/strtoull/strtod and the stream primitives put, rdbuf, sgetn and operator<< (long) by their contracts.', entries=[
        E('json.cpp', 'decode_string', shards=7, weight=2),
        E('json.cpp', 'decode_unicode', shards=7),
        E('json.cpp', 'decode_number', shards=7, weight=2),
        E('json.cpp', 'decode_limits', shards=7),
        E('json.cpp', 'decode_literal', shards=6),
        E('json.cpp', 'decode_nothing'),
        E('json.cpp', 'encode_string', shards=6),
        E('json.cpp', 'encode_integer'),
        E('json.cpp', 'tokens', shards=3),
        E('json.cpp', 'tokens_cut', shards=12),
    ]),
}
