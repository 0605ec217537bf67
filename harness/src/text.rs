//! Alignment specifications as text.
use crate::support::*;
use crate::vs;
use llvm_support::align::*;
use std::convert::TryFrom;

/// A reference reading of a number below 2^64: decimal digits only.
pub fn num(b: &[u8]) -> Option<u64> {
    if b.is_empty() {
        return None;
    }
    let mut v = 0u64;
    let mut ok = true;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        ok &= c >= b'0' && c <= b'9';
        let d = c.wrapping_sub(b'0') as u64;
        if i >= 19 && ok {
            // 2^64 has twenty digits
            if v > 1844674407370955161 || (v == 1844674407370955161 && d > 5) {
                return None;
            }
        }
        v = v.wrapping_mul(10).wrapping_add(d);
        i += 1;
    }
    if ok {
        Some(v)
    } else {
        None
    }
}

pub fn parts(b: &[u8], sep: u8) -> Vec<&[u8]> {
    let mut out = Vec::new();
    let mut start = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i] == sep {
            out.push(&b[start..i]);
            start = i + 1;
        }
        i += 1;
    }
    out.push(&b[start..]);
    out
}

/// Bit alignments are powers of two of whole bytes.
pub fn bit_align(b: &[u8]) -> Option<u64> {
    let v = num(b)?;
    if v >= 8 && v & (v - 1) == 0 {
        Some(v / 8)
    } else {
        None
    }
}

pub enum Want<T> {
    Is(T),
    Bad,
    /// not specified here
    Any,
}

/// (kind, width, abi bytes, preferred bytes)
pub fn want_type(t: &[u8]) -> Want<(u64, u32, u64, u64)> {
    if t.is_empty() {
        return Want::Bad;
    }
    let kind = match t[0] {
        b'a' => 0,
        b'f' => 1,
        b'i' => 2,
        b'v' => 3,
        _ => return Want::Bad,
    };
    let p = parts(&t[1..], b':');
    if p.len() < 2 {
        return Want::Bad;
    }
    if p.len() > 3 {
        return Want::Any;
    }
    let width = if kind == 0 {
        if !p[0].is_empty() {
            // LLVM takes a0, which this parser refuses
            return if num(p[0]) == Some(0) { Want::Any } else { Want::Bad };
        }
        0
    } else {
        match num(p[0]) {
            Some(w) if w > 0 && w < 1 << 23 => w as u32,
            _ => return Want::Bad,
        }
    };
    let abi = if kind == 0 && num(p[1]) == Some(0) {
        1
    } else {
        match bit_align(p[1]) {
            Some(a) => a,
            None => return Want::Bad,
        }
    };
    let pref = if p.len() > 2 {
        match bit_align(p[2]) {
            Some(a) => a,
            None => return Want::Bad,
        }
    } else {
        abi
    };
    if pref < abi || pref > 1 << 15 {
        return Want::Bad;
    }
    Want::Is((kind, width, abi, pref))
}

/// (address space, size, abi bytes, preferred bytes, index size)
pub fn want_pointer(t: &[u8]) -> Want<(u64, u64, u64, u64, u64)> {
    if t.is_empty() || t[0] != b'p' {
        return Want::Bad;
    }
    let p = parts(&t[1..], b':');
    if p.len() < 3 {
        return Want::Bad;
    }
    if p.len() > 5 {
        return Want::Any;
    }
    let space = if p[0].is_empty() {
        0
    } else {
        match num(p[0]) {
            Some(s) if s < 1 << 23 => s,
            _ => return Want::Bad,
        }
    };
    let size = match num(p[1]) {
        Some(s) => s,
        None => return Want::Bad,
    };
    let abi = match bit_align(p[2]) {
        Some(a) => a,
        None => return Want::Bad,
    };
    let pref = if p.len() > 3 {
        match bit_align(p[3]) {
            Some(a) => a,
            None => return Want::Bad,
        }
    } else {
        abi
    };
    let index = if p.len() > 4 {
        match num(p[4]) {
            Some(i) => i,
            None => return Want::Bad,
        }
    } else {
        size
    };
    if pref < abi {
        return Want::Bad;
    }
    Want::Is((space, size, abi, pref, index))
}

/// One '+' is a sign to std's integer parsing but not to LLVM: left open.
fn open(t: &[u8]) -> bool {
    let mut plus = false;
    for &c in t {
        plus |= c == b'+';
    }
    plus
}

fn check_type(t: &[u8]) {
    // every byte is ASCII, or part of the one two-byte character
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    match (s.parse::<TypeAlignSpec>(), want_type(t)) {
        (_, Want::Any) => {}
        (Ok(x), Want::Is((kind, width, abi, pref))) => {
            vs::reach("type spec");
            let ty = if kind == 0 { AlignedType::Aggregate } else { aligned(kind, width) };
            vs::check(x.aligned_type == ty, "a parsed specification is for the type it names");
            vs::check(x.abi_alignment.byte_align() == abi, "a parsed specification has its ABI alignment");
            vs::check(x.preferred_alignment.byte_align() == pref, "a parsed specification prefers what it says, or its ABI alignment");
        }
        (Ok(_), Want::Bad) => vs::fail("a malformed type specification is refused"),
        (Err(_), Want::Is(_)) => vs::fail("a well-formed type specification is accepted"),
        (Err(_), Want::Bad) => vs::reach("bad type spec"),
    }
}

fn check_pointer(t: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    match (s.parse::<PointerAlignSpec>(), want_pointer(t)) {
        (_, Want::Any) => {}
        (Ok(x), Want::Is((sp, size, abi, pref, index))) => {
            vs::reach("pointer spec");
            vs::check(Ok(x.address_space) == AddressSpace::try_from(sp).map_err(|_| ()), "a parsed pointer specification is for the address space it names");
            vs::check(x.pointer_size == size && x.index_size == index, "a parsed pointer specification has its sizes");
            vs::check(x.abi_alignment.byte_align() == abi && x.preferred_alignment.byte_align() == pref, "a parsed pointer specification has its alignments");
        }
        (Ok(_), Want::Bad) => vs::fail("a malformed pointer specification is refused"),
        (Err(_), Want::Is(_)) => vs::fail("a well-formed pointer specification is accepted"),
        (Err(_), Want::Bad) => vs::reach("bad pointer spec"),
    }
}

/// `n` ASCII bytes, with a two-byte character at `at` if that is in range.
pub fn text(n: u64, at: u64) -> Vec<u8> {
    let mut t = vs::any_vec("text", n as usize);
    let mut i = 0;
    while i < t.len() {
        if i as u64 == at && i + 1 < t.len() {
            t[i] = 0xc3;
            vs::assume(t[i + 1] & 0xc0 == 0x80);
            i += 2;
        } else {
            vs::assume(t[i] < 0x80);
            i += 1;
        }
    }
    t
}

/// Digits: between 0 and `max` of them.
pub fn digits(t: &mut Vec<u8>, max: u64) {
    let n = vs::choose("digits", max + 1);
    let mut i = 0;
    while i < n {
        t.push(b'0' + vs::below("digit", 10) as u8);
        i += 1;
    }
}

/// Beginnings of numbers next to the limits of something: the last digit follows.
pub const EDGES: [&[u8]; 14] = [
    b"3276", b"6553", b"26214", b"52428", b"838860", b"1677721", b"429496729", b"858993459", b"3435973836", b"922337203685477580",
    b"1844674407370955161", b"3689348814741910323", b"0000000000000000000000000000", b"00000000000000000000000001844674407370955161",
];

/// A number: an ordinary one or one of the edges
pub fn edge(t: &mut Vec<u8>, k: usize) {
    match vs::choose("number", 3) {
        0 => t.extend_from_slice(b"64"),
        1 => {
            t.extend_from_slice(EDGES[k]);
            t.push(b'0' + vs::below("digit", 10) as u8);
        }
        _ => {}
    }
}

harnesses! {
    /// Numbers at the edges of every type. p0: 0 type, 1 pointer; p1: numbers
    fn h_spec_edges() {
        let k = vs::choose("edge", EDGES.len() as u64) as usize;
        let mut t = Vec::new();
        let pointer = vs::param(0) == 1;
        if pointer {
            t.push(b'p');
        } else {
            t.push([b'a', b'f', b'i', b'v'][vs::choose("kind", 4) as usize]);
        }
        let mut i = 0;
        while i < vs::param(1) {
            if i > 0 {
                t.push(b':');
            }
            edge(&mut t, k);
            i += 1;
        }
        if pointer {
            check_pointer(&t);
        } else {
            check_type(&t);
        }
    }

    /// p0: 0 type, 1 pointer; p1: bytes; p2: where a two-byte character stands (99 nowhere)
    fn h_spec_text() {
        let t = text(vs::param(1), vs::param(2));
        vs::assume(!open(&t));
        if vs::param(0) == 0 {
            check_type(&t);
        } else {
            check_pointer(&t);
        }
    }

    /// p0: 0 type, 1 pointer; p1: digits of a number at most; p2: numbers
    fn h_spec_long() {
        let mut t = Vec::new();
        let pointer = vs::param(0) == 1;
        if pointer {
            t.push(b'p');
        } else {
            t.push([b'a', b'f', b'i', b'v'][vs::choose("kind", 4) as usize]);
        }
        let mut i = 0;
        while i < vs::param(2) {
            if i > 0 {
                t.push(b':');
            }
            digits(&mut t, vs::param(1));
            i += 1;
        }
        if pointer {
            check_pointer(&t);
        } else {
            check_type(&t);
        }
    }
}
