//! llvm-support: alignments, type construction, opcode and code tables.
use crate::vs;
use llvm_support::align::*;
use llvm_support::bitcodes::*;
use llvm_support::*;
use std::convert::TryFrom;

pub fn align_of_shift(s: u8) -> Align {
    match Align::from_shift(s) {
        Ok(a) => a,
        Err(_) => vs::fail("an alignment shift up to 63 is accepted"),
    }
}

pub fn space(v: u64) -> AddressSpace {
    match AddressSpace::try_from(v) {
        Ok(a) => a,
        Err(_) => vs::fail("an address space up to 2^23-1 is accepted"),
    }
}

/// A type of every kind.  `depth` bounds nesting.
pub const KINDS: u64 = 21;
pub fn build(k: u64, inner: &dyn Fn() -> Type) -> Option<Type> {
    Some(match k {
        0 => Type::Half,
        1 => Type::BFloat,
        2 => Type::Float,
        3 => Type::Double,
        4 => Type::Metadata,
        5 => Type::X86Fp80,
        6 => Type::Fp128,
        7 => Type::PpcFp128,
        8 => Type::Void,
        9 => Type::Label,
        10 => Type::X86Mmx,
        11 => Type::X86Amx,
        12 => Type::Token,
        13 => Type::new_integer(vs::range("width", 1, (1 << 24) - 1) as u32).ok()?,
        14 => Type::new_function(Type::Void, vec![inner()], vs::any_bool("vararg")).ok()?,
        15 => Type::new_pointer(inner(), space(vs::int("space", 23))).ok()?,
        16 => Type::OpaquePointer(space(vs::int("space", 23))),
        17 => Type::new_struct(None, vec![inner()], vs::any_bool("packed")).ok()?,
        18 => Type::new_array(vs::any_u64("elements"), inner()).ok()?,
        19 => Type::new_vector(vs::range("elements", 1, u32::MAX as u64), inner()).ok()?,
        _ => Type::new_scalable_vector(vs::range("elements", 1, u32::MAX as u64), inner()).ok()?,
    })
}

fn floating(k: u64) -> bool {
    matches!(k, 0 | 1 | 2 | 3 | 5 | 6 | 7)
}
// LLVM's rules, by kind number
fn ok_pointee(k: u64) -> bool {
    !matches!(k, 8 | 9 | 4 | 12 | 11)
}
fn ok_array(k: u64) -> bool {
    !matches!(k, 8 | 9 | 4 | 14 | 12 | 11 | 20)
}
fn ok_struct(k: u64) -> bool {
    !matches!(k, 8 | 9 | 4 | 14 | 12)
}
fn ok_vector(k: u64) -> bool {
    floating(k) || matches!(k, 13 | 15 | 16)
}
fn ok_argument(k: u64) -> bool {
    !matches!(k, 14 | 8)
}
fn ok_return(k: u64) -> bool {
    !matches!(k, 14 | 9 | 4)
}

macro_rules! codes {
    ($f:ident, $t:ty, $name:literal, { $($v:path = $n:literal),* $(,)? }) => {
        fn $f(v: u64) {
            let known = matches!(v, $($n)|*);
            match <$t>::try_from(v) {
                #[allow(unreachable_patterns)]
                Ok(x) => {
                    let n = match x { $($v => $n,)* _ => { vs::check(!known, concat!("a known code decodes to its own meaning: ", $name)); return } };
                    vs::check(n == v, concat!("a code decodes only to its own meaning: ", $name));
                    vs::reach(concat!("decoded ", $name));
                }
                Err(_) => vs::check(!known, concat!("a known code decodes: ", $name)),
            }
        }
    };
}

codes!(c_visibility, Visibility, "visibility", { Visibility::Default = 0, Visibility::Hidden = 1, Visibility::Protected = 2 });
codes!(c_dll, DllStorageClass, "dll storage class", { DllStorageClass::Default = 0, DllStorageClass::Import = 1, DllStorageClass::Export = 2 });
codes!(c_cc, CallingConvention, "calling convention", {
    CallingConvention::C = 0, CallingConvention::Fast = 8, CallingConvention::Cold = 9, CallingConvention::GHC = 10,
    CallingConvention::HiPE = 11, CallingConvention::WebKitJS = 12, CallingConvention::AnyReg = 13,
    CallingConvention::PreserveMost = 14, CallingConvention::PreserveAll = 15, CallingConvention::Swift = 16,
    CallingConvention::CXXFASTTLS = 17, CallingConvention::X86Stdcall = 64, CallingConvention::X86Fastcall = 65,
    CallingConvention::ARMAPCS = 66, CallingConvention::ARMAAPCS = 67, CallingConvention::ARMAAPCSVFP = 68,
    CallingConvention::MSP430INTR = 69, CallingConvention::X86ThisCall = 70, CallingConvention::PTXKernel = 71,
    CallingConvention::PTXDevice = 72, CallingConvention::SPIRFUNC = 75, CallingConvention::SPIRKERNEL = 76,
    CallingConvention::IntelOCLBI = 77, CallingConvention::X8664SysV = 78, CallingConvention::Win64 = 79,
    CallingConvention::X86VectorCall = 80, CallingConvention::HHVM = 81, CallingConvention::HHVMC = 82,
    CallingConvention::X86INTR = 83, CallingConvention::AVRINTR = 84, CallingConvention::AVRSIGNAL = 85,
    CallingConvention::AVRBUILTIN = 86, CallingConvention::AMDGPUVS = 87, CallingConvention::AMDGPUGS = 88,
    CallingConvention::AMDGPUPS = 89, CallingConvention::AMDGPUCS = 90, CallingConvention::AMDGPUKERNEL = 91,
    CallingConvention::X86RegCall = 92, CallingConvention::AMDGPUHS = 93, CallingConvention::MSP430BUILTIN = 94,
    CallingConvention::AMDGPULS = 95, CallingConvention::AMDGPUES = 96,
});
codes!(c_reserved_block, ReservedBlockId, "reserved block", {
    ReservedBlockId::BlockInfo = 0, ReservedBlockId::Reserved1 = 1, ReservedBlockId::Reserved2 = 2, ReservedBlockId::Reserved3 = 3,
    ReservedBlockId::Reserved4 = 4, ReservedBlockId::Reserved5 = 5, ReservedBlockId::Reserved6 = 6, ReservedBlockId::Reserved7 = 7,
});
codes!(c_block, IrBlockId, "block", {
    IrBlockId::Module = 8, IrBlockId::ParamAttr = 9, IrBlockId::ParamAttrGroup = 10, IrBlockId::Constants = 11,
    IrBlockId::Function = 12, IrBlockId::Identification = 13, IrBlockId::ValueSymtab = 14, IrBlockId::Metadata = 15,
    IrBlockId::MetadataAttachment = 16, IrBlockId::Type = 17, IrBlockId::Uselist = 18, IrBlockId::ModuleStrtab = 19,
    IrBlockId::GlobalValSummary = 20, IrBlockId::OperandBundleTags = 21, IrBlockId::MetadataKind = 22, IrBlockId::Strtab = 23,
    IrBlockId::FullLtoGlobalValSummary = 24, IrBlockId::Symtab = 25, IrBlockId::SyncScopeNames = 26,
});
codes!(c_reserved_abbrev, ReservedAbbrevId, "abbreviation id", {
    ReservedAbbrevId::EndBlock = 0, ReservedAbbrevId::EnterSubBlock = 1, ReservedAbbrevId::DefineAbbrev = 2, ReservedAbbrevId::UnabbrevRecord = 3,
});
codes!(c_enc, AbbrevOpEnc, "operand encoding", {
    AbbrevOpEnc::Fixed = 1, AbbrevOpEnc::Vbr = 2, AbbrevOpEnc::Array = 3, AbbrevOpEnc::Char6 = 4, AbbrevOpEnc::Blob = 5,
});
codes!(c_info, BlockInfoCode, "BLOCKINFO record", { BlockInfoCode::SetBid = 1, BlockInfoCode::BlockName = 2, BlockInfoCode::SetRecordName = 3 });
codes!(c_ident, IdentificationCode, "IDENTIFICATION record", { IdentificationCode::ProducerString = 1, IdentificationCode::Epoch = 2 });
codes!(c_module, ModuleCode, "MODULE record", {
    ModuleCode::Version = 1, ModuleCode::Triple = 2, ModuleCode::DataLayout = 3, ModuleCode::Asm = 4, ModuleCode::SectionName = 5,
    ModuleCode::DepLib = 6, ModuleCode::GlobalVar = 7, ModuleCode::Function = 8, ModuleCode::AliasOld = 9, ModuleCode::GcName = 11,
    ModuleCode::Comdat = 12, ModuleCode::VstOffset = 13, ModuleCode::Alias = 14, ModuleCode::MetadataValuesUnused = 15,
    ModuleCode::SourceFilename = 16, ModuleCode::Hash = 17, ModuleCode::IFunc = 18,
});
codes!(c_type, TypeCode, "TYPE record", {
    TypeCode::NumEntry = 1, TypeCode::Void = 2, TypeCode::Float = 3, TypeCode::Double = 4, TypeCode::Label = 5, TypeCode::Opaque = 6,
    TypeCode::Integer = 7, TypeCode::Pointer = 8, TypeCode::FunctionOld = 9, TypeCode::Half = 10, TypeCode::Array = 11,
    TypeCode::Vector = 12, TypeCode::X86Fp80 = 13, TypeCode::Fp128 = 14, TypeCode::PpcFp128 = 15, TypeCode::Metadata = 16,
    TypeCode::X86Mmx = 17, TypeCode::StructAnon = 18, TypeCode::StructName = 19, TypeCode::StructNamed = 20, TypeCode::Function = 21,
    TypeCode::Token = 22, TypeCode::BFloat = 23, TypeCode::X86Amx = 24, TypeCode::OpaquePointer = 25,
});
codes!(c_strtab, StrtabCode, "STRTAB record", { StrtabCode::Blob = 1 });
codes!(c_symtab, SymtabCode, "SYMTAB record", { SymtabCode::Blob = 1 });
codes!(c_attr, AttributeCode, "PARAMATTR record", { AttributeCode::EntryOld = 1, AttributeCode::Entry = 2, AttributeCode::GroupCodeEntry = 3 });
codes!(c_function, FunctionCode, "FUNCTION record", {
    FunctionCode::DeclareBlocks = 1, FunctionCode::InstBinop = 2, FunctionCode::InstCast = 3, FunctionCode::InstGepOld = 4,
    FunctionCode::InstSelect = 5, FunctionCode::InstExtractelt = 6, FunctionCode::InstInsertelt = 7, FunctionCode::InstShufflevec = 8,
    FunctionCode::InstCmp = 9, FunctionCode::InstRet = 10, FunctionCode::InstBr = 11, FunctionCode::InstSwitch = 12,
    FunctionCode::InstInvoke = 13, FunctionCode::InstUnreachable = 15, FunctionCode::InstPhi = 16, FunctionCode::InstAlloca = 19,
    FunctionCode::InstLoad = 20, FunctionCode::InstVaarg = 23, FunctionCode::InstStoreOld = 24, FunctionCode::InstExtractval = 26,
    FunctionCode::InstInsertval = 27, FunctionCode::InstCmp2 = 28, FunctionCode::InstVselect = 29, FunctionCode::InstInboundsGepOld = 30,
    FunctionCode::InstIndirectbr = 31, FunctionCode::DebugLocAgain = 33, FunctionCode::InstCall = 34, FunctionCode::DebugLoc = 35,
    FunctionCode::InstFence = 36, FunctionCode::InstCmpxchgOld = 37, FunctionCode::InstAtomicrmwOld = 38, FunctionCode::InstResume = 39,
    FunctionCode::InstLandingpadOld = 40, FunctionCode::InstLoadatomic = 41, FunctionCode::InstStoreatomicOld = 42,
    FunctionCode::InstGep = 43, FunctionCode::InstStore = 44, FunctionCode::InstStoreatomic = 45, FunctionCode::InstCmpxchg = 46,
    FunctionCode::InstLandingpad = 47, FunctionCode::InstCleanupret = 48, FunctionCode::InstCatchret = 49,
    FunctionCode::InstCatchpad = 50, FunctionCode::InstCleanuppad = 51, FunctionCode::InstCatchswitch = 52,
    FunctionCode::OperandBundle = 55, FunctionCode::InstUnop = 56, FunctionCode::Instcallbr = 57, FunctionCode::InstFreeze = 58,
    FunctionCode::InstAtomicrmw = 59,
});
codes!(c_unary, UnaryOpcode, "unary opcode", { UnaryOpcode::FNeg = 0 });
codes!(c_binary, BinaryOpcode, "binary opcode", {
    BinaryOpcode::Add = 0, BinaryOpcode::Sub = 1, BinaryOpcode::Mul = 2, BinaryOpcode::UDiv = 3, BinaryOpcode::SDiv = 4,
    BinaryOpcode::URem = 5, BinaryOpcode::SRem = 6, BinaryOpcode::Shl = 7, BinaryOpcode::LShr = 8, BinaryOpcode::AShr = 9,
    BinaryOpcode::And = 10, BinaryOpcode::Or = 11, BinaryOpcode::Xor = 12,
});
codes!(c_rmw, RMWOperation, "atomicrmw operation", {
    RMWOperation::Xchg = 0, RMWOperation::Add = 1, RMWOperation::Sub = 2, RMWOperation::And = 3, RMWOperation::Nand = 4,
    RMWOperation::Or = 5, RMWOperation::Xor = 6, RMWOperation::Max = 7, RMWOperation::Min = 8, RMWOperation::UMax = 9,
    RMWOperation::UMin = 10, RMWOperation::FAdd = 11, RMWOperation::FSub = 12,
});
codes!(c_attr_kind, AttributeKind, "attribute kind", {
    AttributeKind::Enum = 0, AttributeKind::IntKeyValue = 1, AttributeKind::StrKey = 3, AttributeKind::StrKeyValue = 4,
});
codes!(c_attr_id, AttributeId, "attribute id", {
    AttributeId::Alignment = 1, AttributeId::AlwaysInline = 2, AttributeId::ByVal = 3, AttributeId::InlineHint = 4, AttributeId::InReg = 5,
    AttributeId::MinSize = 6, AttributeId::Naked = 7, AttributeId::Nest = 8, AttributeId::NoAlias = 9, AttributeId::NoBuiltin = 10,
    AttributeId::NoCapture = 11, AttributeId::NoDuplicate = 12, AttributeId::NoImplicitFloat = 13, AttributeId::NoInline = 14,
    AttributeId::NonLazyBind = 15, AttributeId::NoRedZone = 16, AttributeId::NoReturn = 17, AttributeId::NoUnwind = 18,
    AttributeId::OptimizeForSize = 19, AttributeId::ReadNone = 20, AttributeId::ReadOnly = 21, AttributeId::Returned = 22,
    AttributeId::ReturnsTwice = 23, AttributeId::SExt = 24, AttributeId::StackAlignment = 25, AttributeId::StackProtect = 26,
    AttributeId::StackProtectReq = 27, AttributeId::StackProtectStrong = 28, AttributeId::StructRet = 29,
    AttributeId::SanitizeAddress = 30, AttributeId::SanitizeThread = 31, AttributeId::SanitizeMemory = 32, AttributeId::UwTable = 33,
    AttributeId::ZExt = 34, AttributeId::Builtin = 35, AttributeId::Cold = 36, AttributeId::OptimizeNone = 37, AttributeId::InAlloca = 38,
    AttributeId::NonNull = 39, AttributeId::JumpTable = 40, AttributeId::Dereferenceable = 41, AttributeId::DereferenceableOrNull = 42,
    AttributeId::Convergent = 43, AttributeId::SafeStack = 44, AttributeId::ArgMemOnly = 45, AttributeId::SwiftSelf = 46,
    AttributeId::SwiftError = 47, AttributeId::NoRecurse = 48, AttributeId::InaccessiblememOnly = 49,
    AttributeId::InaccessiblememOrArgmemonly = 50, AttributeId::AllocSize = 51, AttributeId::WriteOnly = 52,
    AttributeId::Speculatable = 53, AttributeId::StrictFp = 54, AttributeId::SanitizeHwAddress = 55, AttributeId::NoCfCheck = 56,
    AttributeId::OptForFuzzing = 57, AttributeId::Shadowcallstack = 58, AttributeId::SpeculativeLoadHardening = 59,
    AttributeId::ImmArg = 60, AttributeId::WillReturn = 61, AttributeId::NoFree = 62, AttributeId::NoSync = 63,
    AttributeId::SanitizeMemtag = 64, AttributeId::Preallocated = 65, AttributeId::NoMerge = 66, AttributeId::NullPointerIsValid = 67,
    AttributeId::NoUndef = 68, AttributeId::ByRef = 69, AttributeId::MustProgress = 70, AttributeId::NoCallback = 71,
    AttributeId::Hot = 72, AttributeId::NoProfile = 73, AttributeId::VScaleRange = 74, AttributeId::SwiftAsync = 75,
    AttributeId::NoSanitizeCoverage = 76, AttributeId::ElementType = 77, AttributeId::DisableSanitizerInstrumentation = 78,
    AttributeId::NoSanitizeBounds = 79, AttributeId::AllocAlign = 80, AttributeId::AllocatedPointer = 81, AttributeId::AllocKind = 82,
    AttributeId::PresplitCoroutine = 83, AttributeId::FnretthunkExtern = 84, AttributeId::SkipProfile = 85, AttributeId::Memory = 86,
});

harnesses! {
    fn h_align_new() {
        let v = vs::any_u64("v");
        match vs::choose("ctor", 3) {
            0 => match Align::from_byte_align(v) {
                Ok(a) => {
                    vs::reach("byte align");
                    vs::check(v & v.wrapping_sub(1) == 0 && v != 0, "only powers of two are alignments");
                    vs::check(a.byte_align() == v, "a byte alignment round-trips");
                    vs::check(1u64 << a.shift() == v, "the shift is the logarithm");
                }
                Err(_) => vs::check(v == 0 || v & (v - 1) != 0, "every power of two is an alignment"),
            },
            1 => match Align::from_bit_align(v) {
                Ok(a) => {
                    vs::reach("bit align");
                    vs::check(v % 8 == 0 && v != 0 && v & (v - 1) == 0, "only powers of two of whole bytes are bit alignments");
                    vs::check(a.byte_align() == v / 8, "a bit alignment is eight times the byte alignment");
                    vs::check(a.bit_align() == v, "a bit alignment round-trips");
                }
                Err(_) => vs::check(v < 8 || v & (v - 1) != 0, "every power of two of whole bytes is a bit alignment"),
            },
            _ => {
                let s = vs::any_u8("s");
                match Align::from_shift(s) {
                    Ok(a) => {
                        vs::reach("shift");
                        vs::check(s < 64, "shifts above 63 are refused");
                        vs::check(a.shift() == s, "a shift round-trips");
                        vs::check(a.byte_align() == 1u64 << (s & 63), "the byte alignment is two to the shift");
                        if s <= 60 {
                            vs::check(a.bit_align() == 8u64 << (s & 63), "the bit alignment is eight times that");
                        }
                        match Align::from_byte_align(a.byte_align()) {
                            Ok(b) => vs::check(a == b, "equal alignments compare equal"),
                            Err(_) => vs::fail("every power of two is an alignment"),
                        }
                        let t = vs::any_u8("t");
                        vs::assume(t < 64);
                        let b = align_of_shift(t);
                        vs::check((a < b) == (s < t) && (a == b) == (s == t) && (a > b) == (s > t), "alignments are ordered by size");
                    }
                    Err(_) => vs::check(s > 63, "shifts up to 63 are accepted"),
                }
            }
        }
    }

    /// 2^61 bytes and more do not fit 64 bits of bits
    fn h_align_bits_large() {
        let s = 61 + vs::choose("s", 3) as u8;
        let a = align_of_shift(s);
        vs::check(a.bit_align() == 8u64 << s, "the bit alignment is eight times the byte alignment");
    }

    fn h_align_maybe() {
        let (a, b) = (vs::any_u8("a"), vs::any_u8("b"));
        match (MaybeAlign::try_from(a), MaybeAlign::try_from(b)) {
            (Ok(x), Ok(y)) => {
                vs::reach("both");
                vs::check(a <= 64 && b <= 64, "encoded alignments stop at 64");
                vs::check((x == y) == (a == b), "different encodings are different alignments");
            }
            _ => vs::check(a > 64 || b > 64, "encoded alignments up to 64 are accepted"),
        }
    }

    fn h_align_width() {
        let v = vs::any_u32("v");
        match AlignedTypeWidth::try_from(v) {
            Ok(w) => {
                vs::reach("width");
                vs::check(v >= 1 && v < 1 << 23, "widths are 1..2^23");
                let u = vs::any_u32("u");
                if let Ok(x) = AlignedTypeWidth::try_from(u) {
                    vs::check((w == x) == (u == v) && (w < x) == (v < u), "widths compare as numbers");
                }
            }
            Err(e) => {
                vs::check(v == 0 || v >= 1 << 23, "widths in 1..2^23 are accepted");
                match e {
                    AlignedTypeWidthError::Zero => vs::check(v == 0, "only zero is reported as zero"),
                    AlignedTypeWidthError::TooBig(n) => vs::check(v != 0 && n == v, "only an oversized width is reported as too big"),
                }
            }
        }
    }

    fn h_align_space() {
        let v = vs::any_u64("v");
        match AddressSpace::try_from(v) {
            Ok(a) => {
                vs::reach("space");
                vs::check(v < 1 << 23, "address spaces are below 2^23");
                match AddressSpace::try_from(v as u32) {
                    Ok(b) => vs::check(a == b, "both widths of number give the same space"),
                    Err(_) => vs::fail("both widths of number are accepted"),
                }
                let u = vs::any_u64("u");
                if let Ok(b) = AddressSpace::try_from(u) {
                    vs::check((a == b) == (v == u) && (a < b) == (v < u), "spaces compare as numbers");
                }
            }
            Err(AddressSpaceError::TooBig(n)) => vs::check(v >= 1 << 23 && n == v, "address spaces below 2^23 are accepted"),
        }
        let w = vs::any_u32("w");
        vs::check(AddressSpace::try_from(w).is_ok() == (w < 1 << 23), "address spaces below 2^23 are accepted from either width");
    }

    /// Constructors of alignment specifications
    fn h_spec_new() {
        let (a, p) = (vs::int("abi", 6) as u8, vs::int("pref", 6) as u8);
        let (abi, pref) = (align_of_shift(a), align_of_shift(p));
        match vs::choose("spec", 2) {
            0 => match TypeAlignSpec::new(AlignedType::Aggregate, abi, pref) {
                Ok(s) => {
                    vs::reach("type spec");
                    vs::check(p >= a && p <= 15, "a specification prefers at least its ABI alignment, and both stay below 2^16 bits");
                    vs::check(s.abi_alignment == abi && s.preferred_alignment == pref, "a specification keeps its alignments");
                }
                Err(_) => vs::check(p < a || p > 15, "a valid type specification is accepted"),
            },
            _ => {
                let (size, index) = (vs::any_u64("size"), vs::any_u64("index"));
                let sp = space(vs::int("space", 23));
                match PointerAlignSpec::new(sp, abi, pref, size, index) {
                    Ok(s) => {
                        vs::reach("pointer spec");
                        vs::check(p >= a, "a pointer specification prefers at least its ABI alignment");
                        vs::check(s.abi_alignment == abi && s.preferred_alignment == pref && s.pointer_size == size && s.index_size == index && s.address_space == sp, "a pointer specification keeps its parts");
                    }
                    Err(_) => vs::check(p < a, "a valid pointer specification is accepted"),
                }
            }
        }
    }

    /// Alignable types are totally ordered: kind first, then width.
    fn h_spec_order() {
        let (ka, kb) = (vs::choose("ka", 4), vs::choose("kb", 4));
        let (wa, wb) = (vs::range("wa", 1, (1 << 23) - 1), vs::range("wb", 1, (1 << 23) - 1));
        let (a, b) = (aligned(ka, wa as u32), aligned(kb, wb as u32));
        let want = if ka != kb { ka.cmp(&kb) } else if ka == 0 { std::cmp::Ordering::Equal } else { wa.cmp(&wb) };
        vs::check(a.cmp(&b) == want, "types order by kind, then width");
        vs::check(a.partial_cmp(&b) == Some(want), "both orders agree");
        vs::check((a == b) == (want == std::cmp::Ordering::Equal), "order and equality agree");
        let (x, y) = (spec_of(a, vs::int("xa", 4) as u8), spec_of(b, vs::int("ya", 4) as u8));
        vs::check(x.cmp(&y) == want && (x == y) == (want == std::cmp::Ordering::Equal), "specifications order and compare by the type they are for");
    }

    /// Element, pointee, argument and return types follow LLVM's rules.
    fn h_types_valid() {
        let k = vs::choose("kind", KINDS);
        let nest = vs::choose("nest", 3);
        let t = match build(k, &|| match nest {
            0 => Type::Float,
            1 => Type::OpaquePointer(space(0)),
            _ => match Type::new_integer(vs::range("width", 1, 64) as u32) {
                Ok(t) => t,
                Err(_) => vs::fail("integers of 1..=64 bits are accepted"),
            },
        }) {
            Some(t) => t,
            None => vs::fail("a type of valid parts is accepted"),
        };
        vs::check(t.is_pointee() == ok_pointee(k), "pointee types");
        vs::check(t.is_array_element() == ok_array(k), "array element types");
        vs::check(t.is_struct_element() == ok_struct(k), "structure element types");
        vs::check(t.is_vector_element() == ok_vector(k), "vector element types");
        vs::check(t.is_argument() == ok_argument(k), "argument types");
        vs::check(t.is_return() == ok_return(k), "return types");
        vs::check(t.is_floating() == floating(k), "floating-point types");
        vs::check(t.is_integer() == (k == 13), "integer types");
        let vector = k >= 19;
        vs::check(t.is_floating_or_floating_vector() == (floating(k) || (vector && nest == 0)), "floating-point types and their vectors");
        vs::check(t.is_integer_or_integer_vector() == (k == 13 || (vector && nest == 2)), "integer types and their vectors");
        let n = vs::any_u64("n");
        match vs::choose("into", 7) {
            0 => vs::check(Type::new_pointer(t, space(0)).is_ok() == ok_pointee(k), "pointers are built to pointee types only"),
            1 => match Type::new_array(n, t.clone()) {
                Ok(Type::Array(a)) => {
                    vs::check(ok_array(k), "arrays hold array element types only");
                    vs::check(a.element() == &t, "an array has its element type");
                    vs::check(Type::new_array(n, t.clone()).ok() == Some(Type::Array(a)), "the same array twice is equal");
                }
                Ok(_) => vs::fail("an array is an array"),
                Err(_) => vs::check(!ok_array(k), "arrays of element types are built"),
            },
            2 => vs::check(Type::new_struct(None, vec![Type::Float, t], false).is_ok() == ok_struct(k), "structures hold structure element types only"),
            3 => {
                vs::assume(n > 0 && n < 1 << 32);
                match Type::new_vector(n, t.clone()) {
                    Ok(v @ Type::FixedVector(_)) => {
                        vs::check(ok_vector(k), "vectors hold vector element types only");
                        vs::check(v.scalar_type() == &t, "a vector's scalar type is its element type");
                    }
                    Ok(_) => vs::fail("a fixed vector is fixed"),
                    Err(_) => vs::check(!ok_vector(k), "vectors of element types are built"),
                }
            }
            4 => {
                vs::assume(n > 0 && n < 1 << 32);
                match Type::new_scalable_vector(n, t.clone()) {
                    Ok(v @ Type::ScalableVector(_)) => {
                        vs::check(ok_vector(k), "scalable vectors hold vector element types only");
                        vs::check(v.scalar_type() == &t, "a scalable vector's scalar type is its element type");
                    }
                    Ok(_) => vs::fail("a scalable vector is scalable"),
                    Err(_) => vs::check(!ok_vector(k), "scalable vectors of element types are built"),
                }
            }
            5 => vs::check(Type::new_function(t, vec![Type::Float], false).is_ok() == ok_return(k), "functions return return types only"),
            _ => vs::check(Type::new_function(Type::Void, vec![Type::Float, t], true).is_ok() == ok_argument(k), "functions take argument types only"),
        }
        vs::reach("type");
    }

    fn h_types_integer() {
        let w = vs::any_u32("w");
        match IntegerType::try_from(w) {
            Ok(t) => {
                vs::reach("integer");
                vs::check(w >= 1 && w < 1 << 24, "integers are 1..2^24 bits");
                vs::check(t.bit_width() == w, "an integer keeps its width");
                let b = t.byte_width();
                vs::check(b as u64 * 8 >= w as u64 && (b as u64 - 1) * 8 < w as u64, "the byte width is the smallest that holds the bits");
                match Type::new_integer(w) {
                    Ok(Type::Integer(i)) => vs::check(i == t, "both constructors agree"),
                    _ => vs::fail("both constructors accept"),
                }
            }
            Err(_) => {
                vs::check(w == 0 || w >= 1 << 24, "integers of 1..2^24 bits are accepted");
                vs::check(Type::new_integer(w).is_err(), "both constructors refuse");
            }
        }
    }

    fn h_opcode_binary() {
        let k = vs::choose("kind", KINDS);
        let fpvec = vs::choose("element", 3);
        let ty = match build(k, &|| match fpvec {
            0 => Type::Double,
            1 => Type::OpaquePointer(space(0)),
            _ => match Type::new_integer(8) {
                Ok(t) => t,
                Err(_) => vs::fail("i8"),
            },
        }) {
            Some(t) => t,
            None => vs::fail("a type of valid parts is accepted"),
        };
        let vector = k >= 19;
        let fp = floating(k) || (vector && fpvec == 0);
        let int = k == 13 || (vector && fpvec == 2);
        let opc = vs::any_u64("opcode");
        let want: Option<u64> = if opc > 12 || !(fp || int) {
            None
        } else if fp {
            match opc {
                0 => Some(100),
                1 => Some(101),
                2 => Some(102),
                4 => Some(104),
                6 => Some(106),
                _ => None,
            }
        } else {
            Some(opc)
        };
        match BinaryOp::try_from((opc, &ty)) {
            Ok(op) => {
                vs::reach("binary");
                let got = match op {
                    BinaryOp::Add => 0,
                    BinaryOp::Sub => 1,
                    BinaryOp::Mul => 2,
                    BinaryOp::UDiv => 3,
                    BinaryOp::SDiv => 4,
                    BinaryOp::URem => 5,
                    BinaryOp::SRem => 6,
                    BinaryOp::Shl => 7,
                    BinaryOp::LShr => 8,
                    BinaryOp::AShr => 9,
                    BinaryOp::And => 10,
                    BinaryOp::Or => 11,
                    BinaryOp::Xor => 12,
                    BinaryOp::FAdd => 100,
                    BinaryOp::FSub => 101,
                    BinaryOp::FMul => 102,
                    BinaryOp::FDiv => 104,
                    BinaryOp::FRem => 106,
                };
                vs::check(want == Some(got), "an opcode and an operand type give the instruction LLVM gives");
            }
            Err(_) => vs::check(want.is_none(), "a valid opcode and operand type are accepted"),
        }
    }

    fn h_opcode_unary() {
        let v = vs::any_u64("opcode");
        match UnaryOp::try_from(v) {
            Ok(UnaryOp::FNeg) => vs::check(v == 0, "fneg is opcode 0"),
            Err(_) => vs::check(v != 0, "fneg is accepted"),
        }
        vs::reach("unary");
    }

    /// p0: table
    fn h_codes() {
        let v = vs::any_u64("code");
        match vs::param(0) {
            0 => c_visibility(v),
            1 => c_dll(v),
            2 => c_cc(v),
            3 => c_reserved_block(v),
            4 => c_block(v),
            5 => c_reserved_abbrev(v),
            6 => c_enc(v),
            7 => c_info(v),
            8 => c_ident(v),
            9 => c_module(v),
            10 => c_type(v),
            11 => c_strtab(v),
            12 => c_symtab(v),
            13 => c_attr(v),
            14 => c_function(v),
            15 => c_unary(v),
            16 => c_binary(v),
            17 => c_rmw(v),
            18 => c_attr_kind(v),
            19 => c_attr_id(v),
            20 => {
                let want = match v {
                    0 | 5 | 6 | 15 => Linkage::External,
                    1 | 16 => Linkage::WeakAny,
                    2 => Linkage::Appending,
                    3 => Linkage::Internal,
                    4 | 18 => Linkage::LinkOnceAny,
                    7 => Linkage::ExternalWeak,
                    8 => Linkage::Common,
                    9 | 13 | 14 => Linkage::Private,
                    10 | 17 => Linkage::WeakOdr,
                    11 | 19 => Linkage::LinkOnceOdr,
                    12 => Linkage::AvailableExternally,
                    _ => Linkage::External,
                };
                vs::check(Linkage::from(v) == want, "linkage codes, old and new, mean what LLVM's reader takes them for");
                vs::reach("linkage");
            }
            21 => {
                let want = match v {
                    0 => ThreadLocalMode::NotThreadLocal,
                    2 => ThreadLocalMode::LocalDynamicTls,
                    3 => ThreadLocalMode::InitialExecTls,
                    4 => ThreadLocalMode::LocalExecTls,
                    _ => ThreadLocalMode::GeneralDynamicTls,
                };
                vs::check(ThreadLocalMode::from(v) == want, "thread-local modes mean what LLVM's reader takes them for");
            }
            22 => {
                let want = match v {
                    1 => UnnamedAddr::Global,
                    2 => UnnamedAddr::Local,
                    _ => UnnamedAddr::None,
                };
                vs::check(UnnamedAddr::from(v) == want, "unnamed_addr codes mean what LLVM's reader takes them for");
            }
            _ => {
                let want = if v == 1 { RuntimePreemption::DsoLocal } else { RuntimePreemption::DsoPreemptable };
                vs::check(RuntimePreemption::from(v) == want, "preemption codes mean what LLVM's reader takes them for");
            }
        }
    }
}

pub fn aligned(k: u64, w: u32) -> AlignedType {
    if k == 0 {
        return AlignedType::Aggregate;
    }
    match AlignedTypeWidth::try_from(w) {
        Ok(w) => match k {
            1 => AlignedType::Float(w),
            2 => AlignedType::Integer(w),
            _ => AlignedType::Vector(w),
        },
        Err(_) => vs::fail("widths in 1..2^23 are accepted"),
    }
}

pub fn spec_of(t: AlignedType, a: u8) -> TypeAlignSpec {
    match TypeAlignSpec::new(t, align_of_shift(a), align_of_shift(a)) {
        Ok(s) => s,
        Err(_) => vs::fail("a valid type specification is accepted"),
    }
}
