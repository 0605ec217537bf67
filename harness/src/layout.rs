//! Data layout strings.
use crate::text::*;
use crate::support::aligned;
use crate::vs;
use llvm_mapper::record::DataLayout;
use llvm_support::align::*;
use llvm_support::{Endian, Mangling};
use std::convert::TryFrom;

/// What the string says, by a reference reading.
struct Ref {
    little: bool,
    stack: Option<u64>,
    program: u64,
    globals: u64,
    alloca: u64,
    /// type, ABI and preferred bytes, starting with the defaults
    types: Vec<(AlignedType, u64, u64)>,
    /// space, size, ABI and preferred bytes, index size, starting with the defaults
    pointers: Vec<(AddressSpace, u64, u64, u64, u64)>,
    /// bytes
    aggregate: Option<u64>,
    /// kind ('i' or 'n') and bytes
    fun: Option<(u8, u64)>,
    mangling: Option<u8>,
    widths: Vec<u64>,
    nonint: Vec<u64>,
}

fn space(b: &[u8]) -> Option<u64> {
    num(b).filter(|v| *v < 1 << 23)
}

fn type_row(s: &TypeAlignSpec) -> (AlignedType, u64, u64) {
    (s.aligned_type, s.abi_alignment.byte_align(), s.preferred_alignment.byte_align())
}

fn pointer_row(s: &PointerAlignSpec) -> (AddressSpace, u64, u64, u64, u64) {
    (s.address_space, s.pointer_size, s.abi_alignment.byte_align(), s.preferred_alignment.byte_align(), s.index_size)
}

fn read(t: &[u8]) -> Want<Ref> {
    let mut r = Ref {
        little: false,
        stack: None,
        program: 0,
        globals: 0,
        alloca: 0,
        types: TypeAlignSpecs::default().verif_specs().iter().map(type_row).collect(),
        pointers: PointerAlignSpecs::default().verif_specs().iter().map(pointer_row).collect(),
        aggregate: None,
        fun: None,
        mangling: None,
        widths: Vec::new(),
        nonint: Vec::new(),
    };
    // LLVM reads a layout without specifications as the default one
    if t.is_empty() {
        return Want::Any;
    }
    // std takes a '+' sign, LLVM does not
    let mut open = false;
    for &c in t {
        if c >= 128 {
            return Want::Bad;
        }
        open |= c == b'+';
    }
    if open {
        return Want::Any;
    }
    for s in parts(t, b'-') {
        if s.is_empty() {
            return Want::Bad;
        }
        let b = &s[1..];
        let c = s[0];
        if c == b'e' || c == b'E' {
            // LLVM ignores what follows
            if !b.is_empty() {
                return Want::Any;
            }
            r.little = c == b'e';
        } else if c == b'S' {
            if num(b) == Some(0) {
                return Want::Any;
            }
            match bit_align(b) {
                Some(a) => r.stack = Some(a),
                None => return Want::Bad,
            }
        } else if c == b'P' || c == b'G' || c == b'A' {
            match space(b) {
                Some(v) => {
                    if c == b'P' {
                        r.program = v
                    } else if c == b'G' {
                        r.globals = v
                    } else {
                        r.alloca = v
                    }
                }
                None => return Want::Bad,
            }
        } else if c == b'p' {
            match want_pointer(s) {
                Want::Any => return Want::Any,
                Want::Bad => return Want::Bad,
                Want::Is((sp, size, abi, pref, index)) => {
                    let sp = match AddressSpace::try_from(sp) {
                        Ok(sp) => sp,
                        Err(_) => return Want::Bad,
                    };
                    let row = (sp, size, abi, pref, index);
                    match r.pointers.iter().position(|o| o.0 == sp) {
                        Some(i) => r.pointers[i] = row,
                        None => r.pointers.push(row),
                    }
                }
            }
        } else if c == b'i' || c == b'v' || c == b'f' || c == b'a' {
            match want_type(s) {
                Want::Any => return Want::Any,
                Want::Bad => return Want::Bad,
                Want::Is((kind, width, abi, pref)) => {
                    let ty = if kind == 0 { AlignedType::Aggregate } else { aligned(kind, width) };
                    if kind == 0 {
                        r.aggregate = Some(abi);
                    }
                    match r.types.iter().position(|o| o.0 == ty) {
                        Some(i) => r.types[i] = (ty, abi, pref),
                        None => r.types.push((ty, abi, pref)),
                    }
                }
            }
        } else if c == b'F' {
            if b.is_empty() || (b[0] != b'i' && b[0] != b'n') {
                return Want::Bad;
            }
            match bit_align(&b[1..]) {
                Some(a) => r.fun = Some((b[0], a)),
                None => return Want::Bad,
            }
        } else if c == b'm' {
            if b.is_empty() || b[0] != b':' || b.len() < 2 {
                return Want::Bad;
            }
            let k = b[1];
            if b.len() > 2 {
                return Want::Bad;
            }
            // GOFF came later
            if k == b'l' {
                return Want::Any;
            }
            if k != b'e' && k != b'm' && k != b'o' && k != b'x' && k != b'w' && k != b'a' {
                return Want::Bad;
            }
            r.mangling = Some(k);
        } else if c == b'n' {
            if b.is_empty() {
                return Want::Bad;
            }
            if b[0] == b'i' {
                if b.len() < 2 || b[1] != b':' {
                    return Want::Bad;
                }
                let mut v = Vec::new();
                for p in parts(&b[2..], b':') {
                    match space(p) {
                        Some(s) if s != 0 => v.push(s),
                        _ => return Want::Bad,
                    }
                }
                r.nonint = v;
            } else {
                let mut v = Vec::new();
                for p in parts(b, b':') {
                    match num(p) {
                        Some(n) if n != 0 && n < 1 << 32 => v.push(n),
                        _ => return Want::Bad,
                    }
                }
                r.widths = v;
            }
        } else if c == b's' {
            return Want::Any;
        } else {
            return Want::Bad;
        }
    }
    Want::Is(r)
}

fn is_space(a: &AddressSpace, v: u64) -> bool {
    AddressSpace::try_from(v).ok().as_ref() == Some(a)
}

fn compare(d: &DataLayout, r: &Ref) {
    vs::check((d.endianness == Endian::Little) == r.little, "endianness");
    vs::check(d.natural_stack_alignment.map(|a| a.byte_align()) == r.stack, "stack alignment");
    vs::check(is_space(&d.program_address_space, r.program), "program address space");
    vs::check(is_space(&d.global_variable_address_space, r.globals), "global variable address space");
    vs::check(is_space(&d.alloca_address_space, r.alloca), "alloca address space");
    let types = d.type_alignments.verif_specs();
    vs::check(types.len() == r.types.len(), "number of type alignments");
    for s in types {
        let row = type_row(s);
        vs::check(r.types.iter().any(|o| o.0 == row.0 && o.1 == row.1 && o.2 == row.2), "type alignments");
    }
    let pointers = d.pointer_alignments.verif_specs();
    vs::check(pointers.len() == r.pointers.len(), "number of pointer alignments");
    for s in pointers {
        vs::check(r.pointers.contains(&pointer_row(s)), "pointer alignments");
    }
    if let Some(a) = r.aggregate {
        vs::check(d.aggregate_alignment.byte_align() == a, "aggregate alignment");
    }
    match (&d.function_pointer_alignment, r.fun) {
        (None, None) => {}
        (Some(FunctionPointerAlign::Independent { abi_alignment }), Some((b'i', a))) => vs::check(abi_alignment.byte_align() == a, "function pointer alignment"),
        (Some(FunctionPointerAlign::MultipleOfFunctionAlign { abi_alignment }), Some((b'n', a))) => vs::check(abi_alignment.byte_align() == a, "function pointer alignment"),
        _ => vs::fail("function pointer alignment kind"),
    }
    let m = match &d.mangling {
        None => None,
        Some(Mangling::Elf) => Some(b'e'),
        Some(Mangling::Mips) => Some(b'm'),
        Some(Mangling::Macho) => Some(b'o'),
        Some(Mangling::WindowsX86Coff) => Some(b'x'),
        Some(Mangling::WindowsCoff) => Some(b'w'),
        Some(Mangling::XCoff) => Some(b'a'),
        #[allow(unreachable_patterns)]
        _ => vs::fail("mangling"),
    };
    vs::check(m == r.mangling, "mangling");
    vs::check(d.native_integer_widths.len() == r.widths.len(), "number of native widths");
    let mut i = 0;
    while i < r.widths.len() {
        vs::check(d.native_integer_widths[i] as u64 == r.widths[i], "native width");
        i += 1;
    }
    vs::check(d.non_integral_address_spaces.len() == r.nonint.len(), "number of non-integral spaces");
    let mut i = 0;
    while i < r.nonint.len() {
        vs::check(is_space(&d.non_integral_address_spaces[i], r.nonint[i]), "non-integral space");
        i += 1;
    }
}

fn decide(t: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    judge(t, s.parse::<DataLayout>().ok().as_ref());
}

pub fn judge(t: &[u8], got: Option<&DataLayout>) {
    match (got, read(t)) {
        (_, Want::Any) => {}
        (Some(d), Want::Is(r)) => {
            vs::reach("layout");
            compare(d, &r);
        }
        (None, Want::Bad) => vs::reach("bad layout"),
        (Some(_), Want::Bad) => vs::fail("a malformed layout is refused"),
        (None, Want::Is(_)) => vs::fail("a well-formed layout is accepted"),
    }
}

const KINDS: [&[u8]; 14] = [b"e", b"E", b"S", b"P", b"G", b"A", b"p", b"i", b"v", b"f", b"a", b"F", b"m", b"n"];

/// Append one specification of kind `k` with arbitrary numbers.
fn spec(t: &mut Vec<u8>, k: usize, dig: u64) {
    t.extend_from_slice(KINDS[k]);
    if k < 2 {
    } else if k < 6 {
        digits(t, dig);
    } else if k == 6 {
        digits(t, 1);
        t.push(b':');
        digits(t, dig);
        t.push(b':');
        digits(t, dig);
    } else if k < 11 {
        digits(t, dig);
        t.push(b':');
        digits(t, dig);
    } else if k == 11 {
        t.push(vs::any_u8("kind") & 127);
        digits(t, dig);
    } else if k == 12 {
        t.push(b':');
        t.push(vs::any_u8("kind") & 127);
    } else {
        if vs::choose("ni", 2) == 1 {
            t.extend_from_slice(b"i:");
        }
        digits(t, dig);
        t.push(b':');
        digits(t, dig);
    }
}

/// Layouts of LLVM targets.
const REAL: [&[u8]; 8] = [
    b"e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128",
    b"e-m:o-i64:64-i128:128-n32:64-S128",
    b"E-m:m-p:32:32-i8:8:32-i16:16:32-i64:64-n32-S64",
    b"e-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64",
    b"e-p:64:64-p1:64:64-p2:32:32-p3:32:32-p4:64:64-p5:32:32-p6:32:32-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-v2048:2048-n32:64-S32-A5-G1-ni:7",
    b"E-m:a-Fi64-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    b"e-P1-p:16:8-i8:8-i16:8-i32:8-i64:8-f32:8-f64:8-n8-a:8",
    b"e-m:x-p:32:32-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:32-n8:16:32-a:0:32-S32-ni:1:4:200",
];

harnesses! {
    // Layout p0 of a real target with any one character replaced by any other,
    // p1: or one character more.
    fn h_layout_real() {
        let mut t = REAL[vs::param(0) as usize].to_vec();
        let at = vs::choose("at", t.len() as u64 + vs::param(1)) as usize;
        let c = vs::any_u8("character");
        vs::assume(c < 128);
        if vs::param(1) == 1 {
            t.insert(at, c);
        } else {
            t[at] = c;
        }
        decide(&t);
    }

    // One specification of kind p0 with numbers at the edges of every type.
    fn h_layout_edges() {
        let e = vs::choose("edge", EDGES.len() as u64) as usize;
        let k = vs::param(0) as usize;
        let mut t = KINDS[k].to_vec();
        if k == 11 {
            t.push(b'i');
        } else if k == 13 && vs::choose("ni", 2) == 1 {
            t.extend_from_slice(b"i:");
        }
        let n = if k < 6 || k == 11 { 1 } else { 3 };
        let mut i = 0;
        while i < n {
            if i > 0 {
                t.push(b':');
            }
            edge(&mut t, e);
            i += 1;
        }
        decide(&t);
    }

    // p0 numbers or specifications, one digit arbitrary.  p1: 0 native widths,
    // 1 non-integral spaces, 2 pointers, 3 integers, 4 vectors
    fn h_layout_many() {
        let (n, k) = (vs::param(0), vs::param(1));
        let mut t: Vec<u8> = match k {
            0 => b"e-n".to_vec(),
            1 => b"e-ni:".to_vec(),
            _ => b"e".to_vec(),
        };
        let at = [0, 1, 7, 8, 9, n / 2, n - 1][vs::choose("at", 7) as usize];
        let mut i = 0;
        while i < n {
            match k {
                0 | 1 => {
                    if i > 0 {
                        t.push(b':')
                    }
                }
                2 => t.extend_from_slice(b"-p"),
                3 => t.extend_from_slice(b"-i"),
                _ => t.extend_from_slice(b"-v"),
            }
            // three digits, none of them out of order but by the arbitrary one
            let x = 100 + i * 37 % n;
            t.push(b'0' + (x / 100) as u8);
            t.push(b'0' + (x / 10 % 10) as u8);
            t.push(if i == at { vs::any_u8("digit") & 127 } else { b'0' + (x % 10) as u8 });
            match k {
                2 => t.extend_from_slice(b":32:32"),
                3 | 4 => t.extend_from_slice(b":64"),
                _ => {}
            }
            i += 1;
        }
        t.extend_from_slice(b"-S128");
        decide(&t);
    }

    // p0: bytes, p1: place of a two-byte character (99: none)
    fn h_layout_text() {
        let t = text(vs::param(0), vs::param(1));
        decide(&t);
    }

    // p0, p1: kinds of two specifications (99: none, 50: any), p2: digits in each number
    fn h_layout_specs() {
        let mut t = Vec::new();
        let mut i = 0;
        while i < 2 {
            let k = vs::param(i);
            let k = if k == 50 { vs::choose("spec", 14) } else { k };
            if k < 14 {
                if i > 0 {
                    t.push(b'-');
                }
                spec(&mut t, k as usize, vs::param(2));
            }
            i += 1;
        }
        decide(&t);
    }
}
