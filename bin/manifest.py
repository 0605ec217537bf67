#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from jobs import PROPS

P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))


CUR = 'llvm-bitcursor/src/lib.rs'
prop('C01', 'Reading N bits yields exactly the next N bits',
     'Reading a fixed-width field of 1 to 63 bits from any position returns the little-endian value of exactly those next bits and advances the position by that width. A read that goes past the end of the data fails with an error instead of returning made-up bits, and a width of 0 or of 64 bits and more, or a value too large for the requested integer type is refused.',
     'every buffer, position, width and integer type', 'the tests read a handful of widths from two fixed buffers; block boundaries, short tails and every width from every offset are a product no sample covers',
     [CUR], [('block refill and shift/mask of the current 64-bit block', CUR + ': read, read_exact, read_as')], observe=['BitCursor::read', 'BitCursor::read_exact', 'BitCursor::read_as', 'BitCursor::tell_bit'],
     state=[('byte_len, byte_pos, current_block, bit_index', 'how much data there is and is read, the current up-to-64-bit block, and how much of it is consumed', CUR)])
prop('C02', 'Seeking, telling and aligning agree on one bit position',
     'After seeking to any bit or byte inside the data, the reported position is the one sought and the next read starts there; seeks outside the data or that overflow are refused without a crash. Aligning moves to the next multiple of 32 bits from the start, and not at all from one, whether or not whole 64-bit blocks remain.',
     'every buffer, start position, seek origin and target', 'tests use aligned buffers and small targets; the failures live on partial final blocks, misaligned starts and extreme offsets',
     [CUR], [('seek_bit, Seek impl, align32, tell_bit, tell_byte', CUR)], observe=['BitCursor::seek_bit', 'BitCursor::seek', 'BitCursor::align32', 'BitCursor::tell_bit', 'BitCursor::tell_byte'])
prop('C03', 'VBR fields decode to the value they encode',
     'Reading a variable-width integer of any legal chunk width returns the number its chunks spell and consumes exactly those chunks. An encoding that goes on past 64 bits, a truncated one, and a chunk width outside the legal range are errors, never a crash or a wrapped value; a last chunk with more bits than 64 leave room for may be refused or lose those bits, as in LLVM.',
     'every chunk width and every bit pattern', 'tests decode five values with widths 2, 4 and 6; overlong and maximal encodings are not reached',
     [CUR], [('read_vbr', CUR)], observe=['BitCursor::read_vbr', 'BitCursor::tell_bit'])
prop('C04', 'Signed VBR fields decode sign and magnitude',
     'Reading a signed variable-width integer returns the magnitude above the sign bit with that sign, over the whole signed 64-bit range, including the special spelling of the most negative value. It fails exactly where the unsigned field fails.',
     'every chunk width and bit pattern', 'tests decode a few small numbers; the extremes are where the arithmetic breaks',
     [CUR], [('read_svbr', CUR)], observe=['BitCursor::read_svbr'])

BS = ['llvm-bitstream/src/lib.rs', 'llvm-bitstream/src/parser.rs', 'llvm-bitstream/src/abbrev.rs', 'llvm-bitstream/src/record.rs']
prop('B01', 'Raw and wrapped containers open at the right bytes',
     'A raw stream starts with its own magic; a wrapped one delivers the wrapper fields as stored and then reads exactly the bytes at the stated offset and of the stated size, as if they stood alone. Automatic detection decides by the magic, and files too short, unaligned or pointing outside themselves are errors.',
     'every file content and length, and every wrapper offset and size', 'tests open one fixture; offsets, sizes and trailing bytes vary over the whole field range',
     BS[:2], [('Bitstream::from, from_raw, from_wrapped', BS[0])], observe=['Bitstream::from', 'Bitstream::from_raw', 'Bitstream::from_wrapped'])
prop('B02', 'Abbreviation definitions decode to the operands written',
     'Decoding an abbreviation definition yields the operand list its bits encode, with each kind, width and literal, a field of no bits being a literal zero, and consumes exactly those bits. Illegal definitions (no operands, unknown kinds, misplaced arrays and blobs, illegal array elements) are refused.',
     'every bit string up to the bound', 'tests parse no definition on its own; kinds, positions and widths combine freely',
     [BS[2]], [('Abbrev::new', BS[2])], observe=['Abbrev::new'])
prop('B03', 'Abbreviated records decode to the values written',
     'Reading a record through an abbreviation yields its literals, fixed, VBR and six-bit-character fields, arrays and blobs in order, with the encoded values and alignment, and leaves the position right after it. Truncated data is an error, never partial data.',
     'every operand list of the stated shapes, data and start offset', 'tests see only the encodings one fixture happens to use',
     [BS[2]], [('Abbrev::parse, AbbrevOp::parse', BS[2])], observe=['Abbrev::parse'])
prop('B04', 'A bitstream is delivered entry by entry as encoded',
     'Iterating a bitstream delivers, in order, every block entry with its id and length, every block end, and every record with its abbreviation, code and operands as encoded, at any nesting, switching abbreviation width with each block. The stream ends cleanly exactly where the data ends, and malformed or truncated data is reported as an error.',
     'every program of entries within the bound and every arbitrary tail', 'tests count entries of a fixture; nesting, widths, alignment and truncation combine freely',
     BS[1:], [('StreamParser::advance, parse_subblock, parse_unabbrev, exit block', BS[1]), ('block scopes', BS[1])], observe=['Bitstream as Iterator'], over=('inputs', 'histories'))
prop('B05', 'Abbreviations apply in their own block and no other',
     'An abbreviation defined inside a block serves that block only and disappears at its end; one registered through the block-information block serves every later block with that id, before the locally defined ones and in order of registration. An undefined abbreviation id is an error.',
     'every sequence of registrations, definitions, blocks and uses within the bound', 'the tests never mix registered and local abbreviations or reuse ids',
     BS[1:], [('block info table and scope extension', BS[1]), ('block scopes', BS[1])], observe=['Bitstream as Iterator'], over=('inputs', 'histories'))
prop('B06', 'No bitstream crashes, hangs or exhausts the parser',
     'Whatever bytes it is given, reading a bitstream ends with a clean end or an error item: no panic, no arithmetic overflow, no allocation or recursion out of proportion to the input, and no more entries than the data has bits.',
     'every byte string within the bound', 'tests use well-formed fixtures only; hostile inputs are unbounded in kind',
     BS, [('error returns throughout the parser', BS[1])], observe=['Bitstream as Iterator', 'Abbrev::new', 'Abbrev::parse'])
prop('B07', 'A bitstream error names the defect that is there',
     'When a file cannot be opened or an entry cannot be read, the error says what is wrong there and nothing else: data that ends too early, an abbreviation id that is not defined, an operand encoding or a block-information record that does not exist, naming the number; a malformed definition; a definition, record or block end outside any block or an illegal abbreviation width; a definition without its target block; a container that is not whole words.',
     'every byte string and every program of entries within the bound', 'one test matches one kind of error; which defect is met first depends on everything before it',
     BS + ['llvm-bitstream/src/error.rs'], [('error returns throughout the parser', BS[1]), ('Abbrev::new', BS[2]), ('Bitstream::from_cursor', BS[0])], observe=['llvm_bitstream::error::Error'], over=('inputs', 'histories'))

AL = 'llvm-support/src/align.rs'
prop('S01', 'Alignments and widths hold only legal values and convert exactly',
     'An alignment can be made from exactly the powers of two (of bytes, or of whole-byte bit counts) or a shift up to 63, and gives back the same value in every unit. Type widths and address spaces accept exactly their legal ranges, report which bound was broken, and compare as numbers.',
     'every integer argument', 'tests try a few dozen values of a 64-bit range', [AL],
     [('Align, MaybeAlign, AlignedTypeWidth, AddressSpace constructors', AL)], observe=['Align', 'MaybeAlign', 'AlignedTypeWidth', 'AddressSpace'])
prop('S02', 'Alignment specification text parses to what it says',
     'A textual alignment specification of a type or a pointer is accepted exactly if it is well formed and its numbers are legal, and yields the type or address space, sizes and alignments written, a missing preferred alignment or index size taking its default. No accepted specification prefers less than its ABI alignment, and no text makes parsing crash.',
     'every text within the bound', 'tests parse a handful of examples; malformed numbers, missing parts and non-ASCII text are unbounded', [AL],
     [('FromStr for TypeAlignSpec and PointerAlignSpec, and their constructors', AL)], observe=['str::parse::<TypeAlignSpec>', 'str::parse::<PointerAlignSpec>', 'TypeAlignSpec::new', 'PointerAlignSpec::new'])
prop('S03', 'Alignment tables keep one latest entry per type, sorted',
     'However alignment tables are updated, they stay sorted and hold exactly one entry per type (or address space): the one last given, or the default.',
     'every sequence of updates within the bound', 'tests check three insertions; order and replacement depend on the history', [AL],
     [('TypeAlignSpecs::update, PointerAlignSpecs::update', AL)], over=('inputs', 'histories'), observe=['TypeAlignSpecs', 'PointerAlignSpecs'],
     hook='read access to the tables, under cfg mollusc_verif')
TY = 'llvm-support/src/ty.rs'
prop('S04', 'Only LLVM-legal types can be built',
     'Pointers, arrays, vectors, structures and functions can be built from exactly the element, pointee, argument and return types LLVM permits, and integers of exactly 1 to 2^24-1 bits; what is built reports its parts unchanged.',
     'every combination of outer and inner type kind and every width and count', 'doc tests try a few kinds per predicate', [TY],
     [('Type predicates and constructors', TY)], observe=['Type', 'IntegerType'])
OP = 'llvm-support/src/opcode.rs'
prop('S05', 'Opcodes decode to the operation their operand type calls for',
     'A binary opcode with an operand type decodes to the integer or floating-point operation LLVM defines for that pair, and is refused for every pair LLVM does not define; unary opcodes likewise.',
     'every opcode number and operand type', 'not tested', [OP], [('TryFrom<(u64, &Type)> for BinaryOp, TryFrom<u64> for UnaryOp', OP)], observe=['BinaryOp::try_from', 'UnaryOp::try_from'])
BC = 'llvm-support/src/bitcodes.rs'
prop('S06', 'Bitcode numbers decode to the meaning LLVM gives them',
     'Every number LLVM uses for block ids, record codes, operand encodings, linkage, visibility, calling convention, thread-local mode and the like decodes to that meaning and no other number does; where LLVM defines a fallback for unknown numbers, unknown numbers take it.',
     'every 64-bit number in every table', 'tests check a few numbers of a few tables', [BC], [('enumerations and their TryFrom/From', BC)], observe=['llvm_support::bitcodes'])
prop('S07', 'Attribute numbers decode to the attribute LLVM gives them',
     'Every attribute id and attribute kind number decodes to the attribute LLVM assigns it and no other number does.',
     'every 64-bit number', 'not tested', [BC, 'llvm-support/src/attribute.rs'], [('AttributeId, AttributeKind', BC)], observe=['AttributeId', 'AttributeKind'])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_mapper.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_mapper.py')) else None

NA = []
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    i = p['id']
    if i not in PROPS:
        NA.append(dict(property=i, reason=globals().get('REASONS', {}).get(i, 'not built')))
        continue
    checks.append(dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i,
                       technique='symbolic execution of the LLVM IR of the real code, decided by Z3',
                       level='model_checking',
                       level_note='Holds for every input within: ' + PROPS[i]['bounds'] + '. Trusts rustc, LLVM opt, the engine (validated by replaying solver models natively) and Z3; panic formatting, logging and hashing are stubbed.'))
m = dict(version=1, setup_cmd='./check.py build',
         hooks=dict(guard='mollusc_verif (a rustc --cfg)', enable='RUSTFLAGS="--cfg mollusc_verif", set by check.py and bin/build_ir.sh', source_commits=HOOKS if 'HOOKS' in globals() else []),
         checks=checks, not_applicable=NA)
import subprocess
try:
    m['hooks']['source_commits'] = [l.split()[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines() if 'mollusc_verif' in l]
except Exception:
    pass
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
