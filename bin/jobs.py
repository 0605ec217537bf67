"""Which harness runs decide which property, within which bounds."""

ASSUME = [
    'engine: LLVM IR of /repo + std compiled by the pinned nightly rustc (opt-level 1, overflow checks and debug assertions on), then opt -O2; executed with the semantics of a 64-bit little-endian target',
    'stubs: panics end the path and are violations; format! returns an empty string; log macros are off; HashMap hashes with a constant hash; allocation never fails (requests above 1 MiB are reported)',
    'z3 4.8.12 decides; models are re-evaluated by the engine and violations replayed natively before being reported',
]


def J(entry, *params, **opts):
    return (entry, list(params), opts)


PROPS = {}
LONG = dict(max_steps=1000000000, max_depth=3000)

SEQ = [J('h_cursor_seq', n, 3, 0) for n in (4, 8, 9, 12, 16, 20)] + [J('h_cursor_seq', 9, 3, 1)]
SEQ4 = [J('h_cursor_seq', n, 4, 0) for n in (8, 12, 20)] + [J('h_cursor_seq', 12, 3, 1)]
FAR = [J('h_cursor_far', 70000, at, w) for w in range(5) for at in (0, 24, 8191, 8192, 65536, 69995)] + [J('h_cursor_far', 1000000, at, w, max_steps=100000000) for w in range(4) for at in (524288, 999990, 1000000)]

PROPS['C01'] = dict(
    quick=[J('h_cursor_step', 12, 0, 0, s) for s in range(13)] + [J('h_cursor_step', 10, 4, 1, s) for s in range(10)] + [J('h_cursor_as', 12)] + SEQ + FAR,
    thorough=SEQ4 + [J('h_cursor_step', 20, 0, 1, s) for s in range(20)] + [J('h_cursor_as', 16)],
    reach=['read ok', 'read error', 'read_as ok', 'bad cast'],
    bounds='buffers of 12 arbitrary bytes (thorough: 20), every start byte, every bit position the first read can leave, every width in 0..=64 symbolic, length limits symbolic; typed reads u8..u64 of an arbitrary width; every history of 3 (thorough: 4) of 16 operations on 4..20 bytes; 24 arbitrary bytes at the start, the end and around the powers of two of data of 70000 and 1000000 bytes',
    outside='other long data, above all beyond 1 MB; longer histories')
PROPS['C02'] = dict(
    quick=[J('h_cursor_step', 12, op, 0, s) for op in (1, 2, 3) for s in range(13)] + [J('h_cursor_step', 6, op, 1, s) for op in (1, 2, 3) for s in range(6)] + SEQ + FAR,
    thorough=SEQ4 + [J('h_cursor_step', 20, op, 1, s) for op in (1, 2, 3) for s in range(20)],
    reach=['seek ok', 'seek refused', 'seek_bit ok', 'seek_bit refused', 'align32'],
    bounds='buffers of 12 arbitrary bytes (thorough: 20) from every byte start and every reachable bit position; bit seek targets over all of u64, byte seeks over all of u64/i64 and all three origins, alignment from every position; every history of 3 (thorough: 4) of 16 operations on 4..20 bytes; 24 arbitrary bytes at the start, the end and around the powers of two of data of 70000 and 1000000 bytes',
    outside='other long data, above all beyond 1 MB; longer histories')
PROPS['C03'] = dict(
    quick=[J('h_cursor_vbr', 18 if k < 4 else 16, k, 0) for k in range(2, 33)] + [J('h_cursor_vbr', 12, k, 64) for k in (4, 6, 8)] + [J('h_cursor_vbr_width', 4)],
    thorough=[J('h_cursor_vbr', 40, k, 0) for k in range(2, 33)],
    reach=['vbr ok', 'vbr too long', 'vbr truncated', 'bad vbr width'],
    bounds='VBR fields of every width 2..=32 in 16 arbitrary bytes from bit 0 (widths 2 and 3: 18; thorough: 40), in 12 bytes from every bit below 64 (widths 4, 6, 8); every width argument for the range check',
    outside='fields with more over-long chunks than that')
PROPS['C04'] = dict(
    quick=[J('h_cursor_svbr', 18 if k < 4 else 16, k, 0) for k in range(2, 33)],
    thorough=[J('h_cursor_svbr', 40, k, 0) for k in range(2, 33)] + [J('h_cursor_svbr', 12, k, 64) for k in (4, 6, 8)],
    reach=['svbr ok'],
    bounds='signed VBR fields of every width 2..=32 in 16 arbitrary bytes (widths 2 and 3: 18; thorough: 40, and from every bit below 64 for widths 4, 6, 8)',
    outside='longer fields')
# one number of a stream, in chunks that spell up to 7, 32, 33 and 64 bits of it
CHUNKS = {0: (1, 2, 6, 7, 11, 13), 1: (1, 2, 6, 7, 11, 13), 2: (1, 2, 6, 7, 11, 13), 3: (1, 2, 8, 9, 14, 16), 4: (1, 2, 5, 6, 8, 10), 5: (1, 2, 11, 12, 20, 22), 6: (1, 2, 6, 7, 11, 13), 7: (1, 2, 6, 7, 13), 8: (1, 2, 6, 7, 13)}
def COUNTS(*kinds, entry='h_stream_counts'):
    return [J(entry, k, n) for k in kinds for n in CHUNKS[k]]
PROPS['B01'] = dict(
    quick=[J('h_container', n) for n in (0, 3, 4, 5, 8, 16, 19, 20, 21, 24, 28, 40)] + [J('h_wrapped_content', 5, 4, 4), J('h_wrapped_content', 6, 4, 0), J('h_wrapped_content', 7, 4, 2)] + [J('h_wrapped_content', 64, 4, 0), J('h_wrapped_content', 16384, 4, 0), J('h_wrapped_content', 16385, 4, 70000), J('h_wrapped_content', 32768, 4, 3), J('h_wrapped_content', 131072, 4, 100000, max_steps=100000000)],
    thorough=[J('h_container', n) for n in range(0, 65)] + [J('h_wrapped_content', b, w, a) for b in (5, 6, 8, 12) for w in (4,) for a in (0, 1, 2, 3, 4, 8)],
    reach=['raw ok', 'wrapped ok', 'detected raw', 'wrapped content'],
    bounds='files of 0..40 arbitrary bytes (thorough: every length to 64) through each of the three ways of opening; wrapped streams of 4 words, the block body arbitrary, 5..7 words (thorough: to 12) before and 0..8 bytes after them arbitrary; and such streams behind 64 KB to 512 KB of padding',
    outside='longer files; readers other than an in-memory slice')
PROPS['B02'] = dict(
    quick=[J('h_abbrev_define', 4, s) for s in (0, 3)] + [J('h_abbrev_define', 5, 0)] + [J('h_abbrev_long', s, k) for s in (0, 3) for k in range(4)] + COUNTS(3),
    thorough=[J('h_abbrev_define', n, s) for n in (5,) for s in range(0, 8)] + [J('h_abbrev_define', 6, 0)] + [J('h_abbrev_long', s, k) for s in (1, 2, 4, 5, 6, 7, 13, 29) for k in range(4)],
    reach=['definition ok', 'definition refused'],
    bounds='definitions of 4 and 5 arbitrary bytes (thorough: to 6, and 5 at every bit offset): every operand count, kind, width and literal those bits can spell; written definitions with literals of every length to 64 bits, two widths of every length, and up to 300, and 5000, operands of four kinds, also before an array or a blob; operand counts of every value to 64 bits',
    outside='other long definitions')
PROPS['B03'] = dict(
    quick=[J('h_abbrev_record', 8, 0, 0), J('h_abbrev_record', 8, 3, 0), J('h_abbrev_record', 8, 3, 1), J('h_abbrev_record', 6, 3, 2), J('h_abbrev_record', 8, 3, 3), J('h_abbrev_record', 9, 0, 3)] + [J('h_abbrev_long_record', s, k) for s in (0, 3) for k in range(6)] + [J('h_abbrev_longer_record', s, k, n, **LONG) for s, n in ((0, 5000), (3, 5000), (3, 70000)) for k in range(6)] + [J('h_abbrev_wide_record', s, n, **LONG) for s, n in ((0, 40), (5, 300), (3, 5000))] + COUNTS(1, 2),
    thorough=[J('h_abbrev_record', 12, s, k) for s in (0, 5) for k in (0, 1, 3)] + [J('h_abbrev_record', 8, s, 2) for s in (0, 5)] + [J('h_abbrev_long_record', s, k) for s in (1, 2, 5, 7, 17, 31) for k in range(6)],
    reach=['record ok', 'record refused'],
    bounds='records in 6..9 arbitrary bytes (thorough: 12): one scalar of any legal width; three scalars from a menu of seven encodings; a scalar and an array of five element encodings; a scalar and a blob; arrays and blobs of 0, 1, 31, 32, 33, 257 and 1025 elements with the first, last and 33rd arbitrary, of 5000 and of 70000 too, and records of 40, 300 and 5000 operands with one arbitrary, whole and cut short; lengths of arrays and blobs of every value to 64 bits',
    outside='other long records')
PROPS['B04'] = dict(
    quick=[J('h_stream_bytes', 4, 0), J('h_stream_bytes', 4, 3, 8), J('h_stream_bytes', 4, 2, 9)] + [J('h_stream_program', 3, 4, k) for k in range(9)] + [J('h_stream_program', 4, 3, k) for k in range(9)] + [J('h_stream_widths', k) for k in range(1, 33)] + [J('h_stream_long_record', n) for n in (0, 31, 32, 33, 300)] + [J('h_stream_long_record', n, **LONG) for n in (5000, 70000)] + [J('h_stream_far', n, c, max_steps=100000000) for n, c in ((1, 0), (3, 1), (9, 0))] + [J('h_stream_large', n, k, **LONG) for n, k in ((300, 0), (3000, 0), (300, 1), (1000, 1))] + COUNTS(0, 4, 5, 7, 8),
    thorough=[J('h_stream_bytes', 4, 4, 9), J('h_stream_long_record', 2000)] + [J('h_stream_program', 5, 4, k) for k in range(9)],
    reach=['block', 'end block', 'abbreviated record', 'unabbreviated record', 'stream end', 'malformed'],
    bounds='well-formed programs of 3 and 4 elements (thorough: 5) from nine kinds (block end, blocks of any id below 2^14 and any length word, definitions of three shapes, unabbreviated and abbreviated records with arbitrary contents) cut at every element and in every undefined abbreviation id; every stream of 4 arbitrary bytes at top level and inside blocks of abbreviation width 2, 3 (thorough: 4); a block of every abbreviation width 1..32 in a block of every such width; unabbreviated records of 0..300, 5000 and 70000 operands and codes of 1..13 chunks; entries behind 30 KB to 270 KB of blobs; 3000 nested blocks of different widths; 1000 definitions in a block; operand counts and abbreviation widths of every value to 64 bits, and record codes, operands and block ids of that many',
    outside='longer programs; other operand shapes (B02 and B03 cover those alone)')
PROPS['B05'] = dict(
    quick=[J('h_stream_blockinfo', 3, 2), J('h_stream_blockinfo', 2, 3), J('h_stream_bytes', 4, 3, 0)] + [J('h_stream_info_anywhere', 5, k) for k in range(5)] + [J('h_stream_large', n, k, **LONG) for n, k in ((300, 1), (300, 2), (3000, 3))] + COUNTS(4, 6),
    thorough=[J('h_stream_blockinfo', 3, 3), J('h_stream_blockinfo', 4, 3), J('h_stream_blockinfo', 3, 4)] + [J('h_stream_info_anywhere', 6, k) for k in range(5)],
    reach=['block', 'abbreviated record', 'malformed'],
    bounds='BLOCKINFO blocks of up to 3 elements (thorough: 4; SETBID to two arbitrary 7-bit block ids, definitions of two shapes, names) followed by 2 or 3 elements (thorough: 4) entering those blocks, defining further abbreviations there and using every defined and one undefined id; every BLOCKINFO body of 4 arbitrary bytes; 5 elements (thorough: 6) with BLOCKINFO blocks beside, after and inside the blocks they speak of; 300 block ids with two or three registrations each, out of order; 3000 blocks in a row; 300 abbreviations of one block; ids of every value to 64 bits, of the block entered and of the block spoken of',
    outside='longer programs; more than two block ids')
PROPS['B06'] = dict(
    quick=[J('h_stream_robust', 4, 3, 8), J('h_stream_robust', 4, 3, 0), J('h_stream_robust', 4, 2, 9), J('h_stream_robust', 4, 0), J('h_abbrev_robust', 3)] + [J('h_stream_long_run', n, k, max_depth=3000, max_steps=1000000000) for n, k in ((40000, 0), (20000, 1), (20000, 2), (20000, 3))],
    thorough=[J('h_stream_robust', 8, 0), J('h_abbrev_robust', 4), J('h_stream_robust', 4, 4, 9), J('h_stream_robust', 4, 5, 0)],
    reach=['clean end', 'error', 'defined', 'parsed'],
    bounds='every stream of 4 arbitrary bytes at top level, in a block and in BLOCKINFO (thorough: 8 at top level); every abbreviation definition of 3 (thorough: 4) bytes used on its own bytes: no panic, no arithmetic overflow, no allocation above 1 MiB, no unbounded recursion, an end within as many entries as there are bits; 20000 to 40000 entries in a row of four kinds that are not delivered; and all that B01 to B05 explore',
    outside='longer streams')
PROPS['B07'] = dict(
    quick=[J('h_why_container', n) for n in (0, 3, 4, 5, 8, 19, 20, 21, 22, 24, 28, 40)] + [J('h_why_stream_bytes', 4, 0), J('h_why_stream_bytes', 4, 2, 9), J('h_why_stream_bytes', 4, 3, 0), J('h_why_abbrev_define', 4, 0), J('h_why_abbrev_define', 4, 3), J('h_why_abbrev_define', 5, 0), J('h_why_info')]
    + [J('h_why_ids', w, n) for w in (3, 4, 5, 8, 16, 32) for n in (0, 1, 3)] + [J('h_why_abbrev_record', 8, 3, k) for k in (0, 1, 3)] + [J('h_why_abbrev_record', 6, 3, 2), J('h_why_abbrev_long', 0, 3), J('h_why_abbrev_long_record', 3, 2), J('h_why_abbrev_long_record', 3, 5)]
    + [J('h_why_stream_program', 3, 4, k) for k in range(9)] + [J('h_why_stream_program', 4, 3, k) for k in range(9)] + [J('h_why_stream_blockinfo', 3, 2), J('h_why_stream_blockinfo', 2, 3)] + [J('h_why_stream_large', 300, k, **LONG) for k in (1, 2, 3)] + COUNTS(0, 1, 2, 3, 4, 5, 6, 7, 8, entry='h_why_stream_counts'),
    thorough=[J('h_why_stream_bytes', 4, 3, 8), J('h_why_stream_bytes', 4, 4, 9)] + [J('h_why_abbrev_define', 5, s) for s in range(1, 8)] + [J('h_why_abbrev_define', 6, 0)] + [J('h_why_stream_info_anywhere', 5, k) for k in range(5)] + [J('h_why_stream_blockinfo', 3, 3), J('h_why_stream_blockinfo', 4, 3)] + [J('h_why_stream_program', 5, 4, k) for k in range(9)],
    reach=['raw refused', 'wrapped refused', 'cut short', 'bad definition', 'bad encoding', 'bad scope', 'unabbreviated outside', 'no target', 'undefined abbreviation', 'undefined id', 'defined id', 'unknown block information'],
    bounds='files of 0..40 arbitrary bytes opened in each of the three ways; every stream of 4 arbitrary bytes at top level, in a block of abbreviation width 2 and in BLOCKINFO (thorough: of width 3 and 4); definitions of 4 and 5 arbitrary bytes (thorough: 6); records in 6 or 8; the programs of B04 of 3 and 4 elements and of B05 (thorough: 5); every abbreviation id of 3..32 bits with 0, 1 and 3 definitions; BLOCKINFO records of every code of up to 13 chunks; blocks with 300 definitions and 300 registered block ids',
    outside='longer streams; the texts of messages; which of several defects in one entry is named')
PROPS['S01'] = dict(
    quick=[J('h_align_new'), J('h_align_bits_large'), J('h_align_maybe'), J('h_align_width'), J('h_align_space')],
    reach=['byte align', 'bit align', 'shift', 'width', 'space'],
    bounds='none beyond the types: every u64, u32 or u8 argument', outside='')
PROPS['S02'] = dict(
    quick=[J('h_spec_new'), J('h_spec_order')] + [J('h_spec_text', 0, n, 99) for n in range(7)] + [J('h_spec_text', 1, n, 99) for n in range(8)] + [J('h_spec_text', k, 4, a) for k in (0, 1) for a in range(3)] + [J('h_spec_long', 0, 3, 3), J('h_spec_long', 0, 3, 2), J('h_spec_long', 1, 3, 3), J('h_spec_long', 1, 2, 4), J('h_spec_long', 1, 2, 5)] + [J('h_spec_edges', 0, 2), J('h_spec_edges', 0, 3), J('h_spec_edges', 1, 3), J('h_spec_edges', 1, 4)],
    thorough=[J('h_spec_edges', 1, 5), J('h_spec_text', 0, 7, 99), J('h_spec_text', 1, 9, 99), J('h_spec_long', 0, 4, 3), J('h_spec_long', 1, 3, 4), J('h_spec_long', 1, 3, 5)],
    reach=['type spec', 'bad type spec', 'pointer spec', 'bad pointer spec'],
    bounds="every ASCII text of up to 6 (type) and 7 (pointer) bytes (thorough: 7 and 9), texts with a two-byte character at each place, specifications of 2..5 numbers of 0..3 arbitrary digits (thorough: 4) and of 2..4 (thorough: 5) numbers around the powers of two to 2^64, with leading zeros; every pair of alignments below 2^64 for the constructors",
    outside="a '+' sign, more parts than the format has, and a0 (std and LLVM differ there); longer texts")
PROPS['S03'] = dict(
    quick=[J('h_table_types', n) for n in (1, 2)] + [J('h_table_pointers', n) for n in (1, 2, 3)] + [J('h_table_many', n, k, **LONG) for n in (40, 300) for k in (0, 1)],
    thorough=[J('h_table_types', 3), J('h_table_pointers', 4)],
    reach=['updated'],
    bounds='the default tables followed by 2 (types) or 3 (pointers) updates (thorough: 3 and 4) with every width, address space, alignment and size; 40 and 300 updates of different keys out of order, then one with any alignments (and sizes) at nine places among them',
    outside='longer update sequences')
PROPS['S04'] = dict(
    quick=[J('h_types_valid'), J('h_types_integer')],
    reach=['type', 'integer'],
    bounds='every type kind, one level of nesting below it (three element types), every width, element count and address space; every integer width',
    outside='deeper nesting: validity looks only at the outermost kind')
PROPS['S05'] = dict(
    quick=[J('h_opcode_binary'), J('h_opcode_unary')],
    reach=['binary', 'unary'],
    bounds='every 64-bit opcode with every type kind; vectors of three element types', outside='')
PROPS['S06'] = dict(
    quick=[J('h_codes', k) for k in range(24) if k not in (18, 19)],
    reach=['decoded ' + x for x in ('visibility', 'calling convention', 'block', 'abbreviation id', 'operand encoding', 'MODULE record', 'TYPE record', 'FUNCTION record')] + ['linkage'],
    bounds='none: every 64-bit code in 22 tables', outside='')
PROPS['S07'] = dict(
    quick=[J('h_codes', 18), J('h_codes', 19)],
    reach=['decoded attribute kind', 'decoded attribute id'],
    bounds='none: every 64-bit code', outside='')

# -- the mapper
CODES = lambda *ks: [J('h_codes', k) for k in ks]
PROPS['M01'] = dict(
    quick=[J('h_record_text', n) for n in (0, 1, 2, 3, 4)] + [J('h_record_text_long', 40, 3), J('h_record_text_long', 300, 3), J('h_record_text_long', 3000, 2, **LONG), J('h_record_text_whole', 5000, **LONG), J('h_record_text_whole', 70000, **LONG), J('h_record_text_long', 70000, 0, max_steps=100000000)],
    thorough=[J('h_record_text', n) for n in (5, 6)],
    reach=['bad index', 'string', 'not bytes', 'not utf8'],
    bounds='records of 0..4 arbitrary 64-bit fields (thorough: 6), every index of 64 bits; records of 40, 300, 3000 and 70000 fields, a few of them arbitrary, from their first fields on and near their end', outside='longer records')
PROPS['M02'] = dict(
    quick=[J('h_strtab_get', n) for n in (2, 3, 4, 5)] + [J('h_strtab_long', 40), J('h_strtab_long', 300), J('h_strtab_long', 70000, max_steps=100000000), J('h_blob_block', 0, 2, 3)] + [J('h_blob_block_long', 0, n, **LONG) for n in (300, 70000)],
    thorough=[J('h_strtab_get', n) for n in (6, 7)] + [J('h_blob_block', 0, 3, 3)],
    reach=['found', 'bad range', 'not utf8'],
    bounds='tables of 2..5 arbitrary bytes (thorough: 7) with every 64-bit offset and size; tables of 40, 300 and 70000 bytes, two of them arbitrary; table blocks of 2 arbitrary records (thorough: 3); tables of 300 and 70000 bytes, one arbitrary, behind 20 other records', outside='longer tables; tables of one byte (the code refuses them, and a test pins it)')
PROPS['M03'] = dict(
    quick=[J('h_layout_text', n, 99) for n in range(5)] + [J('h_layout_text', 4, a) for a in range(3)] + [J('h_layout_specs', 50, 99, 2)] + [J('h_layout_specs', k, 50, 1) for k in range(14)] + [J('h_layout_specs', k, k, 2) for k in (6, 7, 13)] + [J('h_layout_edges', k) for k in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13)] + [J('h_layout_real', k, w) for k in range(8) for w in (0, 1)] + [J('h_layout_many', n, k, **LONG) for k in range(5) for n in (20, 300)] + [J('h_layout_record', n, k) for n, k in ((2, 0), (3, 0), (1, 1), (2, 1), (0, 2))],
    thorough=[J('h_layout_text', 5, 99), J('h_layout_text', 6, 99)] + [J('h_layout_specs', k, 50, 2) for k in range(14)] + [J('h_layout_specs', k, 99, 4) for k in range(14)],
    reach=['layout', 'bad layout'],
    bounds='every ASCII text of up to 4 bytes (thorough: 6), texts with a two-byte character at each place, and every pair of the 14 specifications with numbers of 1 arbitrary digit (thorough: 2, and 4 for one alone); each kind of number around the powers of two to 2^64; the layout strings of eight LLVM targets as they are and with one arbitrary ASCII byte put in place of any byte or between any two; 20 and 300 native widths, non-integral spaces, pointer, integer and vector specifications, one digit arbitrary; layout records of 2 and 3 fields of 9 bits, alone or behind 30 others, and of 30 with one such anywhere',
    outside='longer texts; points where the code and LLVM differ without clear right and wrong (see DESIGN.md)')
PROPS['M04'] = dict(
    quick=[J('h_attr_ids', 0), J('h_attr_ids', 1)] + [J('h_attr_group', n, 9, s) for n in (0, 1, 2, 3, 4, 5, 6) for s in (0,)] + [J('h_attr_group', 2, 9, 1), J('h_attr_entries', 2, 2, 2), J('h_attr_entries', 3, 1, 3), J('h_attr_seq', 2, 2), J('h_attr_seq', 3, 2), J('h_attr_codes', 0), J('h_attr_codes', 1), J('h_attr_many', 300, **LONG)] + CODES(13, 18, 19) + [J('h_attr_long', n, **LONG) for n in (20, 300, 5000)],
    thorough=[J('h_attr_group', n, k, 0) for n in (7, 8, 9) for k in (0, 1, 3, 4)] + [J('h_attr_entries', 3, 3, 3), J('h_attr_seq', 3, 5), J('h_attr_seq', 4, 1)],
    reach=['attribute', 'refused', 'group', 'group refused', 'entries', 'unknown group', 'incomplete group', 'empty entry'],
    bounds='one attribute of every id and every 64-bit value; group records of up to 6 arbitrary fields (thorough: 9) after id and place; groups of 2 and 3 attributes of every kind with texts of up to 3 bytes (thorough: 4); 2 groups of arbitrary ids with 2 entries of up to 2 references, 3 groups with 1 entry of up to 3 (thorough: 3, 3, 3); 300 groups and 300 lists of them, one of them of all; a group with texts of 20, 300 and 5000 bytes, two of them arbitrary, and as many more attributes',
    outside='longer records; group ids and places above 32 bits; empty string values; vscale_range without maximum')
PROPS['M05'] = dict(
    quick=[J('h_type_table', 50, 99, 99, 99, 1, 1), J('h_type_table', 2, 5, 4, 99, 1, 0)] + [J('h_type_table', k, 50, 99, 99, 1, 0) for k in range(10)] + [J('h_type_record', n) for n in range(4)] + [J('h_type_table', 4, 4, 99, 99, 3, 0), J('h_type_table', 4, 5, 99, 99, 3, 0), J('h_type_many', 1, 0), J('h_type_many', 1, 1)] + [J('h_type_wide', 300, k, **LONG) for k in range(5)] + [J('h_types_valid'), J('h_types_integer')] + CODES(10),
    thorough=[J('h_type_table', k, 51, 99, 99, 2, 0) for k in range(1, 10)] + [J('h_type_table', k, 2, 51, 99, 1, 0) for k in range(1, 10)] + [J('h_type_many', 2, 0), J('h_type_many', 2, 1)],
    reach=['types', 'refused', 'type'],
    bounds='tables of 1 entry with any claimed size, every pair of the ten kinds of entry and a table of three, each with every reference, count, width, flag, address space and up to 1 referenced type in structures and functions (alone: 3; thorough: 2, and more tables of three); tables of each of the kinds in a row (thorough: twice), named before and after; any record of up to 3 arbitrary fields; tables of 300 integers and a pointer, array, vector, function or structure, with a reference of its own to places around 0, 128, 256, the end and 2^32',
    outside='larger tables; types that nest deeper than the table is long; see DESIGN.md for spellings LLVM does not write')
PROPS['M06'] = dict(
    quick=[J('h_function_record', n, 0xfffff, 1) for n in (0, 2, 9, 10, 11, 12, 13, 14, 20)] + [J('h_alias_record', n, 0x1fff, 1) for n in (0, 5, 6, 7, 8, 9, 10, 11, 13)] + [J('h_comdat_record', n) for n in (0, 1, 2, 3, 4)]
    + [J('h_module_records', k, 50, 99, 99, 2, 0) for k in range(11)] + [J('h_module_records', 50, 99, 99, 99, 3, 0), J('h_module_records', 0, 50, 99, 99, 2, 1), J('h_module_records', 99, 99, 99, 99, 2, 1), J('h_module_records', 4, 4, 8, 99, 2, 0), J('h_module_records', 6, 6, 8, 99, 2, 0)]
    + [J('h_module_blocks', n) for n in (0, 1, 2, 3)] + [J('h_module_many', 300, **LONG)] + CODES(0, 1, 2, 9, 20, 21, 22, 23) + [J('h_module_long', n, **LONG) for n in (20, 300, 5000)],
    thorough=[J('h_module_records', k, l, 50, 99, 2, 0) for k in range(11) for l in range(k, 11)] + [J('h_module_blocks', 4), J('h_module_records', 50, 99, 99, 99, 5, 0)],
    reach=['function', 'function refused', 'alias', 'alias refused', 'comdat', 'comdat refused', 'module', 'module refused'],
    bounds='function records of 0..20, alias records of 0..13 and COMDAT records of 0..4 fields, all of them arbitrary, and every version, in a context of 5 string bytes, 5 types, 2 sections, 3 collectors and 2 attribute lists; modules of every pair of 11 kinds of records (thorough: three) with texts of 2 arbitrary fields (alone: 3; thorough: 5) and of every 3 (thorough: 4) of 5 kinds of blocks; a module with 300 sections, collectors, libraries and COMDATs; texts of 20, 300 and 5000 letters and as many lines, one field of 9 bits at seven places',
    outside='larger modules and tables; COMDAT records of more than 3 fields and selection kinds out of range (LLVM is more lenient); the default triple; a module without value symbol table')
PROPS['M07'] = dict(
    quick=[J('h_unroll', 50, 50, 50, 50, 99, 99, 0, 0), J('h_unroll', 50, 50, 50, 50, 99, 99, 1, 0), J('h_unroll', 50, 50, 50, 50, 50, 99, 0, 0), J('h_unroll', 0, 50, 50, 50, 50, 50, 0, 0), J('h_unroll', 0, 1, 51, 51, 99, 99, 0, 0), J('h_unroll', 51, 51, 99, 99, 99, 99, 0, 0), J('h_block_ids')]
    + [J('h_unroll', 0, 1, 2, 3, 99, 99, d, c) for d in (0, 1) for c in (1, 4, 8, 12)] + [J('h_unroll_many', 300, k, **LONG) for k in (0, 1)] + [J('h_file_rich', **LONG)] + [J('h_unroll_tables', n) for n in (2, 3)] + CODES(3, 4),
    thorough=[J('h_unroll', k, 50, 50, 50, 50, 50, d, 0) for k in range(4) for d in (0, 1)] + [J('h_unroll', 0, 1, k, 51, 51, 99, 1, 0) for k in range(5)],
    reach=['file', 'file refused', 'reserved', 'IR', 'unknown'],
    bounds='files of every 5 of identification, module, string table and symbol table blocks and, after an identification, every 5 more (thorough: every 6), with arbitrary ASCII texts of 2 characters and epochs below 1024, with and without nested blocks; an unknown block of any 7-bit id in 2 or at the end of 4; truncation; files of 300 modules with a string table each or for all; a module as LLVM writes it (block information, abbreviations, char6 arrays, blobs, attributes, types, texts, a COMDAT and a function with symbolic references, passed-over blocks) with symbolic texts and tables; every 64-bit block id; 2 and 3 modules, each with the tables behind it in seven orders',
    outside='longer files; block ids beyond one chunk in files')
PROPS['M08'] = dict(
    quick=[J('h_identification', 2, 3), J('h_identification', 3, 2), J('h_blob_block', 0, 2, 3), J('h_blob_block', 1, 2, 3), J('h_blob_block', 1, 1, 4)] + CODES(8, 11, 12) + [J('h_identification_long', n, m, **LONG) for n, m in ((20, 3), (300, 20), (5000, 300))] + [J('h_blob_block_long', 1, n, **LONG) for n in (300, 70000)],
    thorough=[J('h_identification', 3, 3), J('h_blob_block', 1, 3, 3), J('h_blob_block', 0, 3, 3)],
    reach=['identified', 'not identified', 'blob', 'bad blob', 'no blob'],
    bounds='blocks of up to 3 records of any code below 5 (identification) or any code at all, with up to 3 arbitrary fields each; producers of 20, 300 and 5000 letters and symbol tables of 300 and 70000 bytes, one field of 9 bits, behind up to 300 other records',
    outside='more records; texts and blobs of one byte (the code refuses them, and a test pins it)')
PROPS['M09'] = dict(
    quick=[J('h_module_robust', 1, 5, 99, 0, 0), J('h_function_record', 20, 0xfffff, 1), J('h_alias_record', 13, 0x1fff, 1)] + [J('h_module_robust', 0, 0, b, 1, 4) for b in (9, 10, 12, 17)] + [J('h_module_robust', 0, 0, b, 2, 2) for b in (9, 12)] + [J('h_block_robust', b, 2, 2) for b in (10, 13, 17)]
    + [J('h_function_body', n) for n in range(6)] + [J('h_file_robust', 4, 0), J('h_file_robust', 4, 1)] + [J('h_file_block_robust', b, 2) for b in (8, 9, 10, 12, 13, 14, 17)]
    + [J('h_type_nesting', n, k, max_depth=3000, max_steps=100000000) for n in (200, 8000) for k in (0, 1)] + [J('h_file_nesting', n, max_depth=3000) for n in (200, 60000)] + [J('h_type_bomb', 12, max_steps=1000000000)],
    thorough=[J('h_module_robust', 2, 2, 99, 0, 0), J('h_module_robust', 1, 7, 99, 0, 0), J('h_file_robust', 6, 0)] + [J('h_file_block_robust', b, 3) for b in (8, 9, 10, 12, 13, 14, 17)] + [J('h_block_robust', b, 3, 3) for b in (10, 17)] + [J('h_module_robust', 0, 0, b, 3, 3) for b in (9, 12)],
    reach=['mapped', 'refused', 'read', 'nested'],
    bounds='modules with one further record of up to 5 arbitrary fields and any code (thorough: two of up to 2, and one of up to 7), function records of 20 and alias records of 13, blocks of 2 arbitrary records of up to 2 fields or 1 of up to 4 (thorough: 3 of up to 3) of each mapped block id, function bodies with one instruction of any code and up to 5 arbitrary operands, files of 4 arbitrary bytes (thorough: 6) and good files with 2 (thorough: 3) arbitrary bytes in each kind of block; chains of 8000 types and of 60000 nested blocks; memory below 64 KiB for the small inputs; and all that M01 to M08 and M10 explore',
    outside='larger inputs otherwise; the known finding on type tables whose types expand exponentially')

PROPS['M10'] = dict(
    quick=[J('h_body', 50, 99, 99, 99, 5), J('h_body', 50, 50, 99, 99, 4), J('h_body', 4, 50, 50, 99, 3), J('h_body', 4, 1, 1, 99, 4), J('h_body', 4, 1, 3, 2, 3), J('h_body_long', 6), J('h_versions')] + [J('h_body_many', n, **LONG) for n in (20, 300)],
    thorough=[J('h_body', 4, 50, 50, 99, 5), J('h_body', 4, 50, 50, 50, 1), J('h_body', 50, 50, 50, 99, 2), J('h_body_long', 20)],
    reach=['block count', 'unknown', 'bad instruction', 'bad operation', 'bad unary operation', 'unsupported', 'version'],
    bounds='bodies of up to 4 records, each a block count, a binary or unary operation, another instruction or any code at all, with up to 3..5 arbitrary 64-bit fields (thorough: 5), in a context of 10 types of every class; rows of up to 6 good instructions (thorough: 20) before the first bad one; every module version; 20 and 300 instructions, one with any opcode and operands',
    outside='longer bodies of mixed kinds; what comes after a body is accepted: bodies are refused as unsupported')
PROPS['M11'] = dict(
    quick=[J('h_function_why', n, 0xfffff, 1) for n in (0, 9, 10, 11, 13, 14, 20)] + [J('h_alias_why', n, 0x1fff, 1) for n in (0, 5, 6, 7, 8, 9, 13)] + [J('h_comdat_why', n) for n in (0, 2, 3, 4)]
    + [J('h_why_attr_ids', 0), J('h_why_attr_ids', 1), J('h_why_attr_codes', 0), J('h_why_attr_codes', 1)] + [J('h_why_attr_group', n, 9, 0) for n in range(7)] + [J('h_why_attr_group', 2, 9, 1), J('h_why_attr_entries', 2, 2, 2), J('h_why_attr_entries', 3, 1, 3)]
    + [J('h_why_type_table', 50, 99, 99, 99, 1, 1), J('h_why_type_table', 2, 5, 4, 99, 1, 0)] + [J('h_why_type_table', k, 50, 99, 99, 1, 0) for k in range(10)] + [J('h_why_type_record', n) for n in range(4)] + [J('h_why_type_table', 4, 4, 99, 99, 3, 0), J('h_why_type_many', 1, 0), J('h_why_type_many', 1, 1)] + [J('h_why_type_wide', 300, k, **LONG) for k in range(5)] + [J('h_why_module_many', 300, **LONG)]
    + [J('h_why_module_records', k, 50, 99, 99, 2, 0) for k in range(11)] + [J('h_why_module_records', 50, 99, 99, 99, 3, 0), J('h_why_module_records', 0, 50, 99, 99, 2, 1), J('h_why_module_records', 99, 99, 99, 99, 2, 1)] + [J('h_why_module_blocks', n) for n in range(4)]
    + [J('h_why_identification', 2, 3), J('h_why_identification', 3, 2), J('h_why_blob_block', 0, 2, 3), J('h_why_blob_block', 1, 2, 3), J('h_why_blob_block', 1, 1, 4), J('h_why_file')]
    + [J('h_why_unroll', 50, 50, 50, 50, 99, 99, d, 0) for d in (0, 1)] + [J('h_why_unroll_tables', 2), J('h_why_unroll', 0, 50, 50, 50, 50, 50, 0, 0), J('h_why_unroll', 0, 1, 51, 51, 99, 99, 0, 0), J('h_why_unroll', 51, 51, 99, 99, 99, 99, 0, 0)] + [J('h_why_unroll', 0, 1, 2, 3, 99, 99, d, c) for d in (0, 1) for c in (1, 4, 8, 12)],
    thorough=[J('h_why_attr_group', n, k, 0) for n in (7, 8, 9) for k in (0, 1, 3, 4)] + [J('h_why_type_table', k, 51, 99, 99, 2, 0) for k in range(1, 10)] + [J('h_why_type_many', 2, 0), J('h_why_type_many', 2, 1)] + [J('h_why_module_records', k, l, 50, 99, 2, 0) for k in range(11) for l in range(k, 11)] + [J('h_why_module_blocks', 4), J('h_why_attr_entries', 3, 3, 3), J('h_why_identification', 3, 3), J('h_why_blob_block', 0, 3, 3), J('h_why_blob_block', 1, 3, 3)] + [J('h_why_unroll', k, 50, 50, 50, 50, 50, d, 0) for k in range(4) for d in (0, 1)],
    reach=['function refused', 'alias refused', 'comdat refused', 'refused', 'group refused', 'unknown group', 'module refused', 'not identified', 'bad blob', 'no blob', 'file refused'],
    bounds='the refused ones among the records, blocks and files of M04 to M08, within their bounds',
    outside='as M04 to M08; the texts of messages; which of several defects is named')

# What the other properties explore, for crashes, hangs and memory alone: paths
# end where a result is wrong.
def QUIET(*props):
    return [J(e, *p, **dict(o, quiet=1)) for k in props for e, p, o in PROPS[k]['quick']]


PROPS['B06']['quick'] += QUIET('B01', 'B02', 'B03', 'B04', 'B05')
PROPS['M09']['quick'] += QUIET('M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'M07', 'M08', 'M10')
