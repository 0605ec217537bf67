//! Function bodies, judged record by record.
use crate::mapper::*;
use crate::records::*;
use crate::vs;
use llvm_mapper::block::function::{Function, FunctionError};
use llvm_mapper::block::TypeTable;
use llvm_mapper::map::MapError;
use llvm_mapper::unroll::{Block, ConsistencyError, Record};
use llvm_support::{BinaryOpError, Type, UnaryOpError};
use std::convert::TryFrom;

/// i32, float, void, <4 x i32>, <vscale x 2 x double>, double, ptr, [3 x i32], i1, label
fn types() -> TypeTable {
    let records = vec![
        rec(1, &[10]),
        rec(7, &[32]),
        rec(3, &[]),
        rec(2, &[]),
        rec(12, &[4, 0]),
        rec(12, &[2, 5, 1]),
        rec(4, &[]),
        rec(25, &[0]),
        rec(11, &[3, 0]),
        rec(7, &[1]),
        rec(5, &[]),
    ];
    match TypeTable::try_from(&Block::verif_new(17, records, vec![])) {
        Ok(t) => t,
        Err(_) => vs::fail("types refused"),
    }
}

const TYPES: u64 = 10;

/// 0: neither, 1: integers, 2: floating point
fn class(t: u64) -> u64 {
    [1, 2, 0, 1, 2, 2, 0, 0, 1, 0][t as usize]
}

fn known(code: u64) -> bool {
    code >= 1 && code <= 59 && ![14, 17, 18, 21, 22, 25, 32, 53, 54].contains(&code)
}

#[derive(PartialEq, Clone, Copy)]
enum Verdict {
    NoCount,
    Counts,
    BadCount,
    Unknown(u64),
    BadInst,
    /// an opcode there is none of
    BinCode(u64),
    /// a type that has no such operations at all, or not this one
    BinType(u64),
    BinFit(u64),
    UnCode(u64),
    Unsupported,
}

fn judge(body: &[(u64, Vec<u64>)]) -> Verdict {
    let mut counts = 0;
    let mut count = None;
    for (c, f) in body {
        if *c == 1 {
            counts += 1;
            count = f.first().copied();
        }
    }
    if counts == 0 {
        return Verdict::NoCount;
    }
    if counts > 1 {
        return Verdict::Counts;
    }
    match count {
        None | Some(0) => return Verdict::BadCount,
        _ => {}
    }
    for (c, f) in body {
        let c = *c;
        if c == 1 {
            continue;
        }
        if !known(c) {
            return Verdict::Unknown(c);
        }
        if c == 2 || c == 56 {
            // [value, type, (value,) opcode]
            if f.len() != (if c == 2 { 4 } else { 3 }) || f[1] >= TYPES {
                return Verdict::BadInst;
            }
            let op = f[f.len() - 1];
            if c == 56 {
                if op != 0 {
                    return Verdict::UnCode(op);
                }
                continue;
            }
            if op > 12 {
                return Verdict::BinCode(op);
            }
            let t = vs::concrete(f[1]);
            let k = class(t);
            if k == 0 {
                return Verdict::BinType(t);
            }
            if k == 2 && !(op <= 2 || op == 4 || op == 6) {
                return Verdict::BinFit(t);
            }
        } else if c == 3 || c == 19 || c == 20 || c == 44 {
            // cast, alloca, load, store
            if f.len() != 4 {
                return Verdict::BadInst;
            }
        } else {
            return Verdict::Unsupported;
        }
    }
    Verdict::Unsupported
}

fn is_type(t: &Type, i: u64, table: &TypeTable) -> bool {
    table.verif_get(i) == Some(t)
}

fn agrees(e: &FunctionError, want: Verdict, types: &TypeTable) -> bool {
    match (e, want) {
        (FunctionError::InvalidBlockCount, Verdict::BadCount) => true,
        (FunctionError::Map(MapError::Inconsistent(ConsistencyError::MissingRecord(c))), Verdict::NoCount) => *c == 1,
        (FunctionError::Map(MapError::Inconsistent(ConsistencyError::TooManyRecords(c))), Verdict::Counts) => *c == 1,
        (FunctionError::UnknownFunctionCode(n), Verdict::Unknown(c)) => n.number == c,
        (FunctionError::BadInst(_), Verdict::BadInst) => true,
        (FunctionError::BadBinOp(BinaryOpError::Opcode(n)), Verdict::BinCode(c)) => n.number == c,
        (FunctionError::BadBinOp(BinaryOpError::InvalidType(t)), Verdict::BinType(i)) => is_type(t, i, types),
        (FunctionError::BadBinOp(BinaryOpError::IncompatibleType(t)), Verdict::BinFit(i)) => is_type(t, i, types),
        (FunctionError::BadUnOp(UnaryOpError::Opcode(n)), Verdict::UnCode(c)) => n.number == c,
        (FunctionError::Map(MapError::Unsupported(_)), Verdict::Unsupported) => true,
        _ => false,
    }
}

fn decide(body: Vec<(u64, Vec<u64>)>, version: u64) {
    let mut c = context();
    c.types = types();
    let m = c.map(version);
    let records = body.iter().map(|(c, f)| Record::verif_new(*c, f.clone())).collect();
    let block = Block::verif_new(12, records, vec![Block::verif_new(14, vec![], vec![])]);
    let want = judge(&body);
    match Function::try_from((&block, &m)) {
        Ok(_) => vs::fail("function bodies are refused"),
        Err(e) => {
            let ok = agrees(&e, want, &c.types);
            match want {
                Verdict::NoCount => vs::check(ok, "no block count"),
                Verdict::Counts => vs::check(ok, "several block counts"),
                Verdict::BadCount => vs::check(ok, "block count missing or zero"),
                Verdict::Unknown(_) => vs::check(ok, "unknown record"),
                Verdict::BadInst => vs::check(ok, "bad instruction"),
                Verdict::BinCode(_) => vs::check(ok, "unknown binary opcode"),
                Verdict::BinType(_) => vs::check(ok, "type without binary operations"),
                Verdict::BinFit(_) => vs::check(ok, "type without this binary operation"),
                Verdict::UnCode(_) => vs::check(ok, "unknown unary opcode"),
                Verdict::Unsupported => vs::check(ok, "nothing wrong but unsupported"),
            }
            vs::reach(match want {
                Verdict::NoCount | Verdict::Counts | Verdict::BadCount => "block count",
                Verdict::Unknown(_) => "unknown",
                Verdict::BadInst => "bad instruction",
                Verdict::BinCode(_) | Verdict::BinType(_) | Verdict::BinFit(_) => "bad operation",
                Verdict::UnCode(_) => "bad unary operation",
                Verdict::Unsupported => "unsupported",
            });
        }
    }
}

/// 0: a block count, 1: an instruction this reader looks into, good or not,
/// 2: one of any code, 3: one that is good, 4: a good block count
fn record(kind: u64, m: u64) -> (u64, Vec<u64>) {
    match kind {
        0 => (1, words("blocks", vs::choose("fields", 3) as usize)),
        1 => {
            let code = [2, 3, 19, 20, 44, 56][vs::choose("instruction", 6) as usize];
            (code, words("operand", vs::choose("operands", m + 1) as usize))
        }
        2 => (vs::any_u64("code"), words("operand", vs::choose("operands", m + 1) as usize)),
        3 => match vs::choose("good", 6) {
            0 => (2, vec![vs::any_u64("value"), 0, vs::any_u64("value"), vs::below("opcode", 13)]),
            1 => (2, vec![vs::any_u64("value"), 4, vs::any_u64("value"), vs::below("opcode", 3)]),
            2 => (56, vec![vs::any_u64("value"), 5, 0]),
            3 => (19, words("operand", 4)),
            4 => (44, words("operand", 4)),
            _ => (20, words("operand", 4)),
        },
        _ => (1, vec![vs::any_u64("blocks") | 1]),
    }
}

harnesses! {
    // p0..p3: kinds of record (50 any, 99 none); p4: the most operands
    fn h_body() {
        let mut body = Vec::new();
        let mut i = 0;
        while i < 4 {
            let k = vs::param(i);
            if k != 99 {
                let k = if k == 50 { vs::choose("kind", 4) } else { k };
                body.push(record(k, vs::param(4)));
            }
            i += 1;
        }
        decide(body, 2);
    }

    // one in a row of p0 good instructions is any
    fn h_body_long() {
        let n = vs::param(0);
        let at = vs::choose("at", n);
        let count = vs::choose("count", n + 1);
        let mut body = Vec::new();
        let mut i = 0;
        while i < n {
            if i == count {
                body.push((1, vec![1]));
            }
            if i == at {
                body.push(record(2, 5));
            } else {
                body.push(match i % 3 {
                    0 => (2, vec![1, i % 2, 2, 4]),
                    1 => (3, vec![1, 2, 3, i]),
                    _ => (56, vec![9, 1, 0]),
                });
            }
            i += 1;
        }
        if count == n {
            body.push((1, vec![1]));
        }
        decide(body, 2);
    }

    // p0 good instructions, one of any operands at an edge, the count first or last
    fn h_body_many() {
        let n = vs::param(0);
        let at = [0, 1, 127, 128, 255, 256, n - 1][vs::choose("at", 7) as usize];
        let first = vs::choose("first", 2) == 1;
        let mut body = Vec::new();
        if first {
            body.push((1, vec![n]));
        }
        let mut i = 0;
        while i < n {
            body.push(if i == at {
                record(1, 4)
            } else {
                (2, vec![1, i % 2, 2, 4])
            });
            i += 1;
        }
        if !first {
            body.push((1, vec![n]));
        }
        decide(body, 2);
    }

    // what a version says about names and operands
    fn h_versions() {
        let v = vs::any_u64("version");
        let c = context();
        let m = c.map(v);
        vs::reach("version");
        vs::check(m.version == v, "version");
        vs::check(m.use_strtab() == (v >= 2), "names in the string table");
        vs::check(m.use_relative_ids() == (v >= 1), "relative operands");
    }
}
