//! Type tables.
use crate::mapper::*;
use crate::vs;
use llvm_mapper::block::{TypeTable, TypeTableError};
use llvm_mapper::map::MapError;
use llvm_mapper::unroll::{Block, Record};
use llvm_support::{AddressSpace, Type};
use std::convert::TryFrom;

pub enum E {
    Simple(u64),
    Int(u64),
    Ptr(u64, u64),
    OPtr(u64),
    Fun(u64, u64, Vec<u64>),
    Anon(u64, Vec<u64>),
    Named(Vec<u8>, u64, Vec<u64>),
    Opaque(Vec<u8>),
    Array(u64, u64),
    /// Count, element, and the flag for scalable ones, if there is one.
    Vector(u64, u64, Option<u64>),
    Broken,
}

/// The codes that are a type of their own.
pub const SIMPLE: [u64; 13] = [2, 3, 4, 5, 10, 13, 14, 15, 16, 17, 22, 23, 24];

fn simple(code: u64) -> Type {
    match code {
        2 => Type::Void,
        3 => Type::Float,
        4 => Type::Double,
        5 => Type::Label,
        10 => Type::Half,
        13 => Type::X86Fp80,
        14 => Type::Fp128,
        15 => Type::PpcFp128,
        16 => Type::Metadata,
        17 => Type::X86Mmx,
        22 => Type::Token,
        23 => Type::BFloat,
        _ => Type::X86Amx,
    }
}

/// The records that spell `e`.
pub fn spell(e: &E, out: &mut Vec<Record>) {
    match e {
        E::Simple(c) => out.push(rec(*c, &[])),
        E::Int(w) => out.push(rec(7, &[*w])),
        E::Ptr(t, a) => out.push(rec(8, &[*t, *a])),
        E::OPtr(a) => out.push(rec(25, &[*a])),
        E::Fun(v, r, p) => {
            let mut f = vec![*v, *r];
            f.extend_from_slice(p);
            out.push(rec(21, &f));
        }
        E::Anon(p, t) => {
            let mut f = vec![*p];
            f.extend_from_slice(t);
            out.push(rec(18, &f));
        }
        E::Named(n, p, t) => {
            out.push(text_rec(19, n));
            let mut f = vec![*p];
            f.extend_from_slice(t);
            out.push(rec(20, &f));
        }
        E::Opaque(n) => {
            out.push(text_rec(19, n));
            out.push(rec(6, &[0]));
        }
        E::Array(n, t) => out.push(rec(11, &[*n, *t])),
        E::Vector(n, t, s) => {
            match s {
                None => out.push(rec(12, &[*n, *t])),
                Some(s) => out.push(rec(12, &[*n, *t, *s])),
            }
        }
        E::Broken => {}
    }
}

/// The type an entry stands for; None if the table is to be refused.  `left`
/// is how much deeper types may nest before they must contain themselves.
pub fn resolve(es: &[E], i: u64, left: usize) -> Option<Type> {
    if left == 0 || i >= es.len() as u64 {
        return None;
    }
    let i = vs::concrete(i) as usize;
    let all = |ts: &[u64]| -> Option<Vec<Type>> {
        let mut v = Vec::with_capacity(ts.len());
        for t in ts {
            v.push(resolve(es, *t, left - 1)?);
        }
        Some(v)
    };
    match &es[i] {
        E::Simple(c) => Some(simple(*c)),
        E::Int(w) => {
            if *w > 0xffff_ffff {
                None
            } else {
                Type::new_integer(*w as u32).ok()
            }
        }
        E::Ptr(t, a) => {
            let a = AddressSpace::try_from(*a).ok()?;
            Type::new_pointer(resolve(es, *t, left - 1)?, a).ok()
        }
        E::OPtr(a) => Some(Type::OpaquePointer(AddressSpace::try_from(*a).ok()?)),
        E::Fun(v, r, p) => {
            let ret = resolve(es, *r, left - 1)?;
            Type::new_function(ret, all(p)?, *v != 0).ok()
        }
        E::Anon(p, t) => Type::new_struct(None, all(t)?, *p != 0).ok(),
        E::Named(n, p, t) => {
            let name = String::from_utf8(n.clone()).ok()?;
            Type::new_struct(Some(name), all(t)?, *p != 0).ok()
        }
        E::Opaque(n) => {
            let name = String::from_utf8(n.clone()).ok()?;
            Type::new_struct(Some(name), vec![], false).ok()
        }
        E::Array(n, t) => Type::new_array(*n, resolve(es, *t, left - 1)?).ok(),
        E::Vector(n, t, s) => {
            let t = resolve(es, *t, left - 1)?;
            if s.unwrap_or(0) == 0 {
                Type::new_vector(*n, t).ok()
            } else {
                Type::new_scalable_vector(*n, t).ok()
            }
        }
        E::Broken => None,
    }
}

fn name(n: usize) -> Vec<u8> {
    let mut v = vs::any_vec("name", n);
    for b in v.iter_mut() {
        *b &= 127;
    }
    v
}

fn refs(max: u64) -> Vec<u64> {
    let n = vs::choose("references", max + 1);
    words("type", n as usize)
}

pub fn entry(k: u64, nrefs: u64) -> E {
    match k {
        0 => E::Simple(SIMPLE[vs::choose("simple", 13) as usize]),
        1 => E::Int(vs::any_u64("width")),
        2 => E::Ptr(vs::any_u64("type"), vs::any_u64("space")),
        3 => E::OPtr(vs::any_u64("space")),
        4 => E::Fun(vs::any_u64("vararg"), vs::any_u64("type"), refs(nrefs)),
        5 => E::Anon(vs::any_u64("packed"), refs(nrefs)),
        6 => E::Named(name(3), vs::any_u64("packed"), refs(nrefs)),
        7 => E::Opaque(name(2)),
        8 => E::Array(vs::any_u64("count"), vs::any_u64("type")),
        9 => E::Vector(vs::any_u64("count"), vs::any_u64("type"), match vs::choose("scalable", 2) {
            0 => None,
            _ => Some(vs::any_u64("flag")),
        }),
        10 => E::Simple(4),
        _ => E::Int(32),
    }
}

/// What is wrong in a table, as bits.
const INT: u64 = 1;
const PTR: u64 = 2;
const ARRAY: u64 = 4;
const VECTOR: u64 = 8;
const STRUCT: u64 = 16;
const FUNCTION: u64 = 32;
const SPACE: u64 = 64;
const DEEP: u64 = 128;
const WIDE: u64 = 256;
const NAME: u64 = 512;

/// All that is wrong with an entry and what it refers to, and the references
/// that lead nowhere.
fn wrong(es: &[E], i: u64, left: usize, dangling: &mut Vec<u64>) -> (Option<Type>, u64) {
    if i >= es.len() as u64 {
        dangling.push(i);
        return (None, 0);
    }
    if left == 0 {
        return (None, DEEP);
    }
    let i = vs::concrete(i) as usize;
    let mut w = 0;
    let mut all = |ts: &[u64], w: &mut u64| -> Option<Vec<Type>> {
        let mut v = Some(Vec::new());
        for t in ts {
            let (t, x) = wrong(es, *t, left - 1, dangling);
            *w |= x;
            match (t, &mut v) {
                (Some(t), Some(v)) => v.push(t),
                _ => v = None,
            }
        }
        v
    };
    let t = match &es[i] {
        E::Simple(c) => Some(simple(*c)),
        E::Int(n) => {
            if *n > 0xffff_ffff {
                w |= WIDE;
                None
            } else {
                let t = Type::new_integer(*n as u32).ok();
                if t.is_none() {
                    w |= INT;
                }
                t
            }
        }
        E::Ptr(t, a) => {
            let a = AddressSpace::try_from(*a).ok();
            if a.is_none() {
                w |= SPACE;
            }
            match (all(&[*t], &mut w).and_then(|mut v| v.pop()), a) {
                (Some(t), Some(a)) => {
                    let t = Type::new_pointer(t, a).ok();
                    if t.is_none() {
                        w |= PTR;
                    }
                    t
                }
                _ => None,
            }
        }
        E::OPtr(a) => {
            let a = AddressSpace::try_from(*a).ok();
            if a.is_none() {
                w |= SPACE;
            }
            a.map(Type::OpaquePointer)
        }
        E::Fun(v, r, p) => {
            let r = all(&[*r], &mut w).and_then(|mut v| v.pop());
            match (r, all(p, &mut w)) {
                (Some(r), Some(p)) => {
                    let t = Type::new_function(r, p, *v != 0).ok();
                    if t.is_none() {
                        w |= FUNCTION;
                    }
                    t
                }
                _ => None,
            }
        }
        E::Anon(p, t) | E::Named(_, p, t) => {
            let n = match &es[i] {
                E::Named(n, _, _) => Some(String::from_utf8(n.clone()).unwrap_or_default()),
                _ => None,
            };
            match all(t, &mut w) {
                Some(f) => {
                    let t = Type::new_struct(n, f, *p != 0).ok();
                    if t.is_none() {
                        w |= STRUCT;
                    }
                    t
                }
                None => None,
            }
        }
        E::Opaque(n) => Type::new_struct(Some(String::from_utf8(n.clone()).unwrap_or_default()), vec![], false).ok(),
        E::Array(n, t) => match all(&[*t], &mut w).and_then(|mut v| v.pop()) {
            Some(t) => {
                let t = Type::new_array(*n, t).ok();
                if t.is_none() {
                    w |= ARRAY;
                }
                t
            }
            None => None,
        },
        E::Vector(n, t, s) => match all(&[*t], &mut w).and_then(|mut v| v.pop()) {
            Some(t) => {
                let t = if s.unwrap_or(0) == 0 { Type::new_vector(*n, t) } else { Type::new_scalable_vector(*n, t) }.ok();
                if t.is_none() {
                    w |= VECTOR;
                }
                t
            }
            None => None,
        },
        E::Broken => None,
    };
    (t, w)
}

/// Is the refusal of a table about a defect it has?
fn types_why(e: &TypeTableError, es: &[E], claimed: u64) {
    let mut dangling = Vec::new();
    let mut all = 0;
    let mut i = 0;
    while i < es.len() {
        all |= wrong(es, i as u64, es.len(), &mut dangling).1;
        i += 1;
    }
    let has = |b: u64| all & b != 0;
    match e {
        TypeTableError::BadSize(a, b) => vs::check(*a as u64 == claimed && *b == es.len() && *a != *b, "a right size is called wrong"),
        TypeTableError::BadIndex(i) => {
            let mut said = false;
            for d in &dangling {
                said |= *d == *i as u64;
            }
            vs::check(said, "a reference that is good or not there is called bad");
        }
        TypeTableError::BadTable => vs::check(has(WIDE), "a well-formed table is called broken"),
        TypeTableError::InvalidIntegerType(_) => vs::check(has(INT), "a good integer type is called invalid"),
        TypeTableError::InvalidPointerType(_) => vs::check(has(PTR), "a good pointer type is called invalid"),
        TypeTableError::InvalidArrayType(_) => vs::check(has(ARRAY), "a good array type is called invalid"),
        TypeTableError::InvalidVectorType(_) => vs::check(has(VECTOR), "a good vector type is called invalid"),
        TypeTableError::InvalidStructType(_) => vs::check(has(STRUCT), "a good structure type is called invalid"),
        TypeTableError::InvalidFunctionType(_) => vs::check(has(FUNCTION), "a good function type is called invalid"),
        TypeTableError::Map(MapError::Unsupported(_)) => vs::check(has(DEEP), "a type that does not contain itself is called recursive"),
        TypeTableError::Map(MapError::Invalid(_)) => vs::check(has(SPACE), "a good address space is called bad"),
        TypeTableError::Map(MapError::RecordString(_)) => vs::check(has(NAME), "a good name is called bad"),
        _ => vs::fail("an error that is none of this table"),
    }
}

fn decide(es: &[E], claimed: u64, why: bool) {
    let mut records = vec![rec(1, &[claimed])];
    for e in es {
        spell(e, &mut records);
    }
    decide_records(es, claimed, records, why)
}

fn decide_records(es: &[E], claimed: u64, records: Vec<Record>, why: bool) {
    let got = TypeTable::try_from(&Block::verif_new(17, records, vec![]));
    let mut want = Vec::with_capacity(es.len());
    let mut bad = claimed != es.len() as u64;
    let mut i = 0;
    while i < es.len() && !bad {
        match resolve(es, i as u64, es.len()) {
            Some(t) => want.push(t),
            None => bad = true,
        }
        i += 1;
    }
    match got {
        Err(e) => {
            vs::reach("refused");
            vs::check(bad, "a good type table is refused");
            if why {
                types_why(&e, es, claimed);
            }
        }
        Ok(t) => {
            vs::reach("types");
            vs::check(!bad, "a bad type table is accepted");
            vs::check(t.verif_get(es.len() as u64).is_none(), "one type too many");
            let i = vs::any_u64("beyond");
            if i >= es.len() as u64 {
                vs::check(t.verif_get(i).is_none(), "a type beyond the table");
            }
            let mut i = 0;
            while i < es.len() {
                vs::check(t.verif_get(i as u64) == Some(&want[i]), "the type an entry stands for");
                i += 1;
            }
        }
    }
}

fn type_table(why: bool) {
    let mut es = Vec::new();
    let mut i = 0;
    while i < 4 {
        let k = vs::param(i);
        if k != 99 {
            let k = if k == 50 { vs::choose("kind", 10) } else if k == 51 { 1 + vs::choose("kind", 9) } else { k };
            es.push(entry(k, vs::param(4)));
        }
        i += 1;
    }
    let n = es.len() as u64;
    decide(&es, if vs::param(5) == 1 { vs::any_u64("claimed") } else { n }, why);
}

fn type_many(why: bool) {
    let copies = vs::param(0);
    let mut es = Vec::new();
    let mut c = 0;
    while c < copies {
        let b = c * 16;
        es.push(E::Int(32));
        es.push(E::Simple(3));
        es.push(E::Ptr(b + 4, 1));
        es.push(E::Named(b"pair".to_vec(), 0, vec![b, b + 1, b + 2]));
        es.push(E::Fun(0, b, vec![b, b + 10, b + 1]));
        es.push(E::Anon(1, vec![b + 1, b + 13, b + 3]));
        es.push(E::Array(7, b + 3));
        es.push(E::Vector(4, b, Some(1)));
        es.push(E::Vector(2, b + 1, None));
        es.push(E::Opaque(b"opaque".to_vec()));
        es.push(E::OPtr(3));
        es.push(E::Fun(1, b + 12, vec![b + 10, b, b, b + 2]));
        es.push(E::Simple(2));
        es.push(E::Named(b"more".to_vec(), 1, vec![b + 6, b + 9, b + 10, b + 8, b + 7]));
        es.push(E::Ptr(b + 13, 0));
        es.push(E::Vector(8, b + 14, Some(0)));
        c += 1;
    }
    // what is arbitrary
    let at = vs::choose("entry", es.len() as u64) as usize;
    let r = match vs::choose("target", copies * 16 + 1) {
        k if k < copies * 16 => k,
        _ => {
            let r = vs::any_u64("type");
            vs::assume(r >= copies * 16);
            r
        }
    };
    match &mut es[at] {
        E::Ptr(t, _) | E::Array(_, t) | E::Vector(_, t, _) => *t = r,
        E::Fun(_, t, p) => match vs::choose("place", p.len() as u64 + 1) {
            0 => *t = r,
            k => p[k as usize - 1] = r,
        },
        E::Anon(_, p) | E::Named(_, _, p) => {
            let k = vs::choose("place", p.len() as u64) as usize;
            p[k] = r
        }
        E::Int(w) => *w = r,
        E::OPtr(a) => *a = r,
        _ => {}
    }
    let n = es.len() as u64;
    let mut records = vec![rec(1, &[n])];
    for e in &es {
        spell(e, &mut records);
        // a name holds until a type takes it
        let k = records.len();
        if vs::param(1) == 1 && k > 4 && records[k - 2].code() == 19 && records[k - 3].code() != 19 && records[k - 3].code() != 1 {
            records.swap(k - 2, k - 3);
        }
    }
    decide_records(&es, n, records, why);
}

fn type_wide(why: bool) {
    let n = vs::param(0);
    let mut es = Vec::new();
    let mut i = 0;
    while i < n {
        es.push(E::Int(1 + i));
        i += 1;
    }
    let at = [0, 1, 127, 128, 129, 254, 255, 256, 257, n - 1, n, n + 1, n + 2, n + 256, 1 << 32, (1 << 32) + 1];
    let r = at[vs::choose("target", 16) as usize];
    let most: Vec<u64> = (0..n).filter(|i| i % 7 != 3).collect();
    match vs::param(1) {
        0 => es.push(E::Ptr(r, vs::any_u64("space"))),
        1 => es.push(E::Array(vs::any_u64("count"), r)),
        2 => es.push(E::Vector(vs::any_u64("count"), r, None)),
        3 => {
            let mut m = most.clone();
            let k = [0, 1, 2, 127, 128, m.len() - 1][vs::choose("place", 6) as usize];
            m[k] = r;
            es.push(E::Fun(vs::any_u64("vararg"), most[0], m));
        }
        _ => {
            let mut m = most.clone();
            let k = [0, 1, 2, 127, 128, m.len() - 1][vs::choose("place", 6) as usize];
            m[k] = r;
            es.push(E::Named(vec![b'n'; n as usize], vs::any_u64("packed"), m));
        }
    }
    es.push(E::OPtr(3));
    let n = es.len() as u64;
    decide(&es, n, why);
}

/// Is the refusal of i32 and a record about a defect of the record?
fn record_why(e: &TypeTableError, code: u64, f: &[u64]) {
    let n = f.len() as u64;
    let least = match code {
        7 | 18 | 20 | 25 => 1,
        8 | 11 | 12 | 21 => 2,
        _ => 0,
    };
    let is = |c: u64| code == c && n >= least;
    let refers = |i: u64| {
        let mut k = 0;
        let mut said = false;
        while k < n {
            // what is a reference in each kind of record
            let r = match code {
                8 => k == 0,
                11 | 12 => k == 1,
                18 | 20 | 21 => k > 0,
                _ => false,
            };
            said |= r && f[k as usize] == i;
            k += 1;
        }
        said
    };
    match e {
        TypeTableError::UnknownTypeCode(c) => vs::check(c.number == code && (code == 0 || code > 25), "a known code is called unknown"),
        TypeTableError::BadTable => vs::check(n < least || (code == 7 && f[0] > 0xffff_ffff), "a complete record is called broken"),
        // codes that are no types of their own
        TypeTableError::BadSize(a, b) => vs::check(*a == 2 && *b == 1 && (code == 1 || code == 19), "a type is not counted"),
        TypeTableError::BadIndex(i) => vs::check(n >= least && *i >= 2 && refers(*i as u64), "a reference that is good or not there is called bad"),
        TypeTableError::InvalidIntegerType(_) => vs::check(is(7) && (f[0] == 0 || f[0] >= 1 << 24), "a good integer type is called invalid"),
        TypeTableError::Map(MapError::Unsupported(_)) => vs::check(code == 9 || (n >= least && refers(1)), "a supported type is called unsupported"),
        TypeTableError::Map(MapError::Invalid(_)) => vs::check((is(8) && f[1] >= 1 << 23) || (is(25) && f[0] >= 1 << 23) || code == 6, "a good type is called invalid"),
        TypeTableError::Map(MapError::RecordString(_)) => vs::check(code == 19 && (n < 2 || as_bytes(f).filter(|b| utf8(b)).is_none()), "a good name is called bad"),
        // i32 may be a part of anything
        _ => vs::fail("an error that is none of this record"),
    }
}

fn type_record(why: bool) {
    let n = vs::param(0) as usize;
    let code = vs::any_u64("code");
    let f = words("field", n);
    let records = vec![rec(1, &[2]), rec(7, &[32]), Record::verif_new(code, f.clone())];
    let got = TypeTable::try_from(&Block::verif_new(17, records, vec![]));
    let known = code >= 1 && code <= 25;
    match got {
        Ok(t) => {
            vs::check(known, "unknown type code accepted");
            let t = match t.verif_get(1) {
                Some(t) => t,
                None => vs::fail("type lost"),
            };
            // records too short for their code are never completed
            let min = match t {
                Type::Integer(_) | Type::OpaquePointer(_) => 1,
                Type::Pointer(_) | Type::Array(_) | Type::FixedVector(_) | Type::ScalableVector(_) | Type::Function(_) => 2,
                Type::Struct(_) => 1,
                _ => 0,
            };
            vs::check(n >= min, "a short record is refused");
            vs::reach("type");
        }
        Err(e) => {
            vs::reach("refused");
            if why {
                record_why(&e, code, &f);
            }
        }
    }
}

harnesses! {
    // p0..: kinds (50 any of 0..10, 51 any, 99 none), p4: references at most, p5: 1 an arbitrary size claim
    fn h_type_table() {
        type_table(false)
    }
    fn h_why_type_table() {
        type_table(true)
    }

    // A table of many kinds of types, one reference in it arbitrary.  p0: copies
    // of the table after each other, p1: 1 names come early
    fn h_type_many() {
        type_many(false)
    }
    fn h_why_type_many() {
        type_many(true)
    }

    // A table of p0 integers of different widths and one or two types that refer to some of
    // them (p1: which kind; 3 and 4 refer to all but a few in order)
    fn h_type_wide() {
        type_wide(false)
    }
    fn h_why_type_wide() {
        type_wide(true)
    }

    // one record of any code and p0 arbitrary fields
    fn h_type_record() {
        type_record(false)
    }
    fn h_why_type_record() {
        type_record(true)
    }

    // p0: types nested in one another; p1: 0 each in the one before it, 1 in the one after it
    fn h_type_nesting() {
        let n = vs::param(0);
        let space = vs::int("space", 16);
        let mut r = Vec::with_capacity(n as usize + 2);
        r.push(rec(1, &[n + 1]));
        let mut i = 0;
        if vs::param(1) == 1 {
            r.push(rec(7, &[8]));
        }
        while i < n {
            r.push(rec(8, &[if vs::param(1) == 1 { i } else { i + 1 }, space]));
            i += 1;
        }
        if vs::param(1) == 0 {
            r.push(rec(7, &[8]));
        }
        vs::reach(if TypeTable::try_from(&Block::verif_new(17, r, vec![])).is_ok() { "nested" } else { "refused" });
    }

    // p0: structures of two of the type before
    fn h_type_bomb() {
        let n = vs::param(0);
        let w = vs::range("width", 1, 0xff_ffff);
        let mut r = vec![rec(1, &[n + 1]), rec(7, &[w])];
        let mut i = 0;
        while i < n {
            r.push(rec(18, &[0, i, i]));
            i += 1;
        }
        let block = Block::verif_new(17, r, vec![]);
        let before = vs::allocated();
        vs::reach(if TypeTable::try_from(&block).is_ok() { "expanded" } else { "refused" });
        let used = vs::allocated() - before;
        vs::check(used <= 1000 * (n + 1) * (n + 1), "types expand out of proportion to their table");
    }
}
