MB = 'llvm-mapper/src/'
prop('M01', 'Record strings and blobs are the bytes of the fields',
     'Taking a string or a blob from a record gives exactly the bytes that its fields from the given index on spell. An index at or beyond the last field, a field that is not a byte, and a string that is not UTF-8 are refused, and no record and no index make the call panic.',
     'every field count up to the bound, every field value and every index', 'tests take strings at five indices of one well-formed record; wide fields, broken UTF-8 and short records combine freely',
     [MB + 'unroll.rs'], [('Record::try_string, Record::try_blob', MB + 'unroll.rs')], observe=['Record::try_string', 'Record::try_blob'], hook='a constructor for records, under cfg mollusc_verif')
prop('M02', 'String table references yield the referenced text or an error',
     'Looking up an offset and size in a string table returns exactly those bytes as text when they lie inside the table, are not empty and are UTF-8, and otherwise an error, for any offset and size, without overflow or panic. The table itself is the blob its block carries.',
     'every table up to the bound and every 64-bit offset and size', 'tests look up a few ranges of one table; the failures are in sums that overflow and in split characters',
     [MB + 'block/strtab.rs'], [('Strtab::try_get, Strtab::get, read_name', MB + 'block/strtab.rs')], observe=['Strtab::try_get', 'Strtab::get'], hook='constructors for records and blocks, under cfg mollusc_verif')
prop('M03', 'A datalayout string maps to the layout it describes',
     'Mapping a datalayout string sets exactly what its specifications say (endianness, stack, address spaces, pointer and type alignments, function pointers, mangling, native widths, non-integral spaces), later ones replacing earlier ones and all others keeping their defaults. Malformed, unknown or out-of-range specifications are an error, never a panic.',
     'every text up to the bound, and every sequence of specifications with every number', 'tests map two whole strings; each specification has its own syntax and limits',
     [MB + 'record/datalayout.rs', 'llvm-support/src/align.rs'], [('FromStr for DataLayout', MB + 'record/datalayout.rs')], observe=['DataLayout'])
prop('M04', 'Attributes map to the groups and values encoded',
     'Mapping attribute blocks yields, for every group id, the attributes its record spells (enumerated, integer, string and key-value) with their values decoded as LLVM does and the place they apply to; every entry lists the groups its record names, in order. Malformed records, unknown attributes and unknown groups are errors, never a panic.',
     'every attribute id and value, every group record and every listing of groups within the bound', 'no unit test maps an attribute; the encodings overlap and depend on each other',
     [MB + 'block/attributes.rs', 'llvm-support/src/attribute.rs'], [('AttributeGroups, Attributes, Attribute::from_record', MB + 'block/attributes.rs')], observe=['AttributeGroups', 'Attributes', 'AttributeGroup'], hook='constructors for blocks and read access to groups and entries, under cfg mollusc_verif')
prop('M05', 'A type table holds the types its records define',
     'Mapping a type table yields for each index exactly the type its record defines, with names, packing, address spaces, counts, arguments and elements as encoded, and references to other entries, before or after it, resolved. A table that refers outside itself, contains itself, has the wrong size or holds an illegal type is refused.',
     'every table of the stated sizes with every reference, width, count and address space', 'no unit test maps a table; forward references, names and validity depend on other entries',
     [MB + 'block/type_table.rs', 'llvm-support/src/ty.rs'], [('TypeTable, PartialTypeTable::reify', MB + 'block/type_table.rs')], observe=['TypeTable'], over=('inputs', 'histories'), hook='constructors for blocks and read access to the table, under cfg mollusc_verif')
prop('M06', 'A module maps to what its records and blocks say',
     'Mapping a module yields its version, triple, assembly lines, dependent libraries, section, collector and COMDAT tables, and its functions and aliases with the name, type, linkage, attributes, alignment, section and other properties their records encode, absent optional fields taking their defaults. Missing, repeated, malformed or dangling parts are errors.',
     'every value of every field of function, alias and COMDAT records; every combination of module records and blocks within the bound', 'no unit test maps a module record; the fields index six other tables',
     [MB + 'block/module.rs', MB + 'record/function.rs', MB + 'record/alias.rs', MB + 'record/comdat.rs', MB + 'map.rs'],
     [('Module::try_from', MB + 'block/module.rs'), ('Function, Alias and Comdat try_map', MB + 'record')], observe=['Module', 'Function', 'Alias', 'Comdat'], hook='entry points to the mapping of a module and its records, and its context, under cfg mollusc_verif',
     state=[('PartialMapCtx, MapCtx', 'tables that later records index', MB + 'map.rs')])
prop('M07', 'Each module of a file gets its own parts',
     'Unrolling a file yields one module per identification block, in order, each with its own identification and module block, the first string table that follows it and the first symbol table that follows it, if any; records of nested blocks stay with the nested block. Other sequences of top-level blocks, and truncated files, are errors.',
     'every sequence of top-level blocks within the bound, with any contents', 'tests unroll single-module fixtures; sharing of tables and nesting depend on the sequence',
     [MB + 'unroll.rs', MB + 'block/mod.rs'], [('TryFrom<Bitstream> for Bitcode, PartialBitcodeModule::reify', MB + 'unroll.rs'), ('BlockId::from', MB + 'block/mod.rs')], observe=['Bitcode::try_from', 'BlockId::from'], over=('inputs', 'histories'))
prop('M08', 'Identification and symbol table blocks map to their contents',
     'Mapping an identification block yields the producer and the epoch of its first such records, a symbol table block the bytes of its first blob, and a block without one of them, or with a malformed one, is an error.',
     'every list of records up to the bound with any codes and fields', 'tests see the blocks of one fixture; repeated, foreign and malformed records are not tried',
     [MB + 'block/identification.rs', MB + 'block/symtab.rs', MB + 'block/strtab.rs', MB + 'unroll.rs'], [('TryFrom<&Block> for Identification, Symtab and Strtab', MB + 'block'), ('Records::one', MB + 'unroll.rs')], observe=['Identification', 'Symtab', 'Strtab'], hook='constructors for records and blocks, under cfg mollusc_verif')
prop('M09', 'No bitcode crashes or exhausts the mapper',
     'Whatever records and blocks a file contains, and whatever bytes it is made of, unrolling and mapping it ends with a result or an error: no panic, no arithmetic overflow, no recursion without end and no allocation that is out of proportion to the input. Parts that are recognised but not supported are errors.',
     'every byte string and every list of records within the bound', 'tests map well-formed fixtures only; hostile inputs are unbounded in kind',
     [MB + 'unroll.rs', MB + 'block/module.rs', MB + 'block/function/mod.rs', MB + 'block/type_table.rs', MB + 'block/attributes.rs'], [('error returns throughout the mapper', MB + 'block')], observe=['Bitcode::try_from'], hook='entry points to the mapping of blocks and records, under cfg mollusc_verif')
prop('M10', 'A function body is judged record by record',
     'A function body that does not declare exactly one, nonzero number of basic blocks is refused for that. Otherwise its records are judged in order, and the first offending one decides the error: an unknown code, naming it; a cast, allocation, load, store, binary or unary operation without its number of operands or with a type that is not in the table; an opcode that does not exist or does not suit its operand type, naming it; or an instruction that is not supported. Value and name numbering follow the module version.',
     'every list of records within the bound, with any code and any operands', 'no test maps a function body; the first defect among several must win, and opcodes depend on operand types in another table',
     [MB + 'block/function/mod.rs', MB + 'block/function/basic_block.rs', MB + 'block/function/instruction.rs', 'llvm-support/src/opcode.rs', MB + 'map.rs'], [('TryFrom<(&Block, &MapCtx)> for Function', MB + 'block/function/mod.rs'), ('BasicBlock instruction mapping', MB + 'block/function/basic_block.rs')], observe=['FunctionError'], hook='entry point to the mapping of function blocks and its context, under cfg mollusc_verif')
prop('M11', 'A refusal to map names a defect that is there',
     'When mapping refuses a block, a record or a file, the kind of the error, and any number, index, code, size or type that it carries, belong to a defect which the input really has: what is called unknown is unknown, what is called missing is missing, and what is called out of range is out of range.',
     'every refused record, block and file within the bounds of M04 to M08', 'tests match a handful of errors on hand-made records; which error a combination of fields gets depends on the order of checks in five tables',
     [MB + 'block/attributes.rs', MB + 'block/type_table.rs', MB + 'block/module.rs', MB + 'block/identification.rs', MB + 'block/strtab.rs', MB + 'block/symtab.rs', MB + 'record/function.rs', MB + 'record/alias.rs', MB + 'record/comdat.rs', MB + 'unroll.rs', MB + 'error.rs'], [('error values throughout the mapper', MB + 'block')], observe=['llvm_mapper::error::Error', 'BlockMapError', 'RecordMapError', 'MapError'], hook='as for M04 to M08, under cfg mollusc_verif')
