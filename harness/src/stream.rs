//! llvm-bitstream against the reference reader.
use crate::bits::W;
use crate::refstream::{Entry, Op, Ref, Stop, Why};
use crate::vs;
use llvm_bitcursor::BitCursor;
use llvm_bitstream::abbrev::{Abbrev, AbbrevOp};
use llvm_bitstream::error::Error;
use llvm_bitstream::parser::StreamEntry;
use llvm_bitstream::Bitstream;
use std::io::{Seek, SeekFrom};
use std::sync::atomic::{AtomicBool, Ordering};

pub const MAGIC: u32 = 0xdec04342;
pub const WRAPPER: u32 = 0x0b17c0de;

fn same_op(a: &AbbrevOp, b: &Op) -> bool {
    match (a, b) {
        (AbbrevOp::Literal(x), Op::Lit(y)) => x == y,
        (AbbrevOp::Fixed(x), Op::Fixed(y)) => x == y,
        (AbbrevOp::Vbr(x), Op::Vbr(y)) => x == y,
        (AbbrevOp::Char6, Op::Char6) => true,
        (AbbrevOp::Blob, Op::Blob) => true,
        (AbbrevOp::Array(x), Op::Array(y)) => same_op(x, y),
        _ => false,
    }
}

fn to_op(b: &Op) -> AbbrevOp {
    match b {
        Op::Lit(v) => AbbrevOp::Literal(*v),
        Op::Fixed(v) => AbbrevOp::Fixed(*v),
        Op::Vbr(v) => AbbrevOp::Vbr(*v),
        Op::Char6 => AbbrevOp::Char6,
        Op::Blob => AbbrevOp::Blob,
        Op::Array(e) => AbbrevOp::Array(Box::new(to_op(e))),
    }
}

fn fields_equal(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

/// Whether errors have to name what is wrong.
static NAMED: AtomicBool = AtomicBool::new(false);

fn named(run: extern "C" fn()) {
    NAMED.store(true, Ordering::Relaxed);
    run()
}

fn names(e: &Error, why: Why) -> bool {
    match (e, why) {
        (_, Why::Nothing) => false,
        (Error::Cursor(_), Why::Cut) => true,
        (Error::AbbrevParse(_), Why::Definition) => true,
        (Error::BadAbbrevOpEnc(n), Why::Encoding(c)) => n.number == c,
        (Error::BadScope(_), Why::Scope) => true,
        (Error::StreamParse(_), Why::Unabbrev | Why::Target) => true,
        (Error::BadAbbrev(n), Why::Undefined(a)) => *n == a,
        (Error::BadBlockInfoCode(n), Why::Info(c)) => n.number == c,
        _ => false,
    }
}

fn check_named(e: &Error, r: &Ref) {
    if NAMED.load(Ordering::Relaxed) {
        vs::reach(match r.why {
            Why::Nothing => "nothing",
            Why::Cut => "cut short",
            Why::Definition => "bad definition",
            Why::Encoding(_) => "bad encoding",
            Why::Scope => "bad scope",
            Why::Unabbrev => "unabbreviated outside",
            Why::Target => "no target",
            Why::Undefined(_) => "undefined abbreviation",
            Why::Info(_) => "unknown block information",
        });
        vs::check(names(e, r.why) || names(e, r.or), "an error names what is wrong");
    }
}

/// Read the reference entries of a stream (after its magic).
fn reference<'a>(buf: &'a [u8], at: usize, max: usize) -> (Vec<Entry>, Option<Stop>, Ref<'a>) {
    let mut r = Ref::new(buf, at);
    let mut out = Vec::new();
    while out.len() < max {
        match r.next() {
            Ok(e) => out.push(e),
            Err(s) => return (out, Some(s), r),
        }
    }
    (out, None, r)
}

/// The real parser must deliver exactly these entries.
fn expect(s: &mut Bitstream<&[u8]>, want: &[Entry], stop: Option<Stop>, r: &Ref) {
    for e in want {
        let got = match s.next() {
            Some(Ok(g)) => g,
            Some(Err(_)) => vs::fail("a well-formed entry is delivered"),
            None => vs::fail("the stream does not end before its entries do"),
        };
        match (e, got) {
            (Entry::Block { id, words }, StreamEntry::SubBlock(b)) => {
                vs::reach("block");
                vs::check(b.block_id == *id, "a block is delivered with its id");
                vs::check(b.len == *words * 4, "a block is delivered with its length in bytes");
            }
            (Entry::End, StreamEntry::EndBlock) => vs::reach("end block"),
            (Entry::Record { abbrev, code, fields }, StreamEntry::Record(r)) => {
                if abbrev.is_some() {
                    vs::reach("abbreviated record");
                } else {
                    vs::reach("unabbreviated record");
                }
                vs::check(r.abbrev_id == *abbrev, "a record names the abbreviation it was read with");
                vs::check(r.code == *code, "a record is delivered with its code");
                vs::check(r.fields.len() == fields.len(), "a record has as many fields as its encoding");
                vs::check(fields_equal(&r.fields, fields), "a record's fields are the encoded values in order");
                if !fields.is_empty() {
                    vs::observe("field", r.fields[r.fields.len() - 1]);
                }
            }
            _ => vs::fail("entries are delivered in the order they are encoded"),
        }
    }
    match stop {
        Some(Stop::Open) if matches!(r.why, Why::Info(_)) => {
            // LLVM skips it, this library refuses it
            if let Some(Err(e)) = s.next() {
                check_named(&e, r)
            }
        }
        None | Some(Stop::Open) => {}
        Some(Stop::End) => {
            vs::reach("stream end");
            vs::check(s.next().is_none(), "a stream ends where its data ends");
        }
        Some(Stop::Bad) => {
            vs::reach("malformed");
            match s.next() {
                Some(Err(e)) => check_named(&e, r),
                None => vs::fail("malformed data is not reported as a clean end"),
                Some(Ok(_)) => vs::fail("malformed data is reported as an error"),
            }
        }
    }
}

fn compare(buf: &[u8], max: usize) {
    let (want, stop, r) = reference(buf, 32, max);
    match Bitstream::from_raw(buf) {
        Ok(mut s) => {
            vs::check(s.magic == MAGIC, "the magic is the first word");
            expect(&mut s, &want, stop, &r);
        }
        Err(_) => vs::fail("a raw stream of whole words is accepted"),
    }
}

/// An operand with every width (kind by choice), emitted in definition form.
/// Small menu of scalar encodings.
fn menu_scalar(name: &'static str) -> Op {
    match vs::choose(name, 7) {
        0 => Op::Lit(vs::any_u8("literal") as u64),
        1 => Op::Fixed(1),
        2 => Op::Fixed(7),
        3 => Op::Fixed(32),
        4 => Op::Vbr(6),
        5 => Op::Vbr(8),
        _ => Op::Char6,
    }
}

/// Write an operand of a definition.
fn define_op(w: &mut W, op: &Op) {
    match op {
        Op::Lit(v) => {
            w.emit(1, 1);
            // one VBR8 chunk pair spells any 8-bit literal
            w.emit(*v & 127, 7);
            w.emit(1, 1);
            w.emit(*v >> 7, 8);
        }
        Op::Fixed(n) => {
            w.emit(0, 1);
            w.emit(1, 3);
            w.vbr(*n, 5);
        }
        Op::Vbr(n) => {
            w.emit(0, 1);
            w.emit(2, 3);
            w.vbr(*n, 5);
        }
        Op::Array(e) => {
            w.emit(0, 1);
            w.emit(3, 3);
            define_op(w, e);
        }
        Op::Char6 => {
            w.emit(0, 1);
            w.emit(4, 3);
        }
        Op::Blob => {
            w.emit(0, 1);
            w.emit(5, 3);
        }
    }
}

fn define(w: &mut W, aw: usize, ops: &[Op]) {
    w.emit(2, aw);
    let mut n = ops.len() as u64;
    if let Op::Array(_) = ops[ops.len() - 1] {
        n += 1;
    }
    w.vbr(n, 5);
    for o in ops {
        define_op(w, o);
    }
}

/// Write one value of `op` with symbolic contents.
fn put(w: &mut W, op: &Op, chunks: usize) {
    match op {
        Op::Lit(_) => {}
        Op::Fixed(n) => {
            let v = vs::int("fixed", *n as u32);
            w.emit(v, *n as usize)
        }
        Op::Vbr(n) => {
            w.vbr_sym("vbr", *n as usize, chunks);
        }
        Op::Char6 => {
            let v = vs::int("char6", 6);
            w.emit(v, 6)
        }
        _ => {}
    }
}

/// The definition at bit `skip` is read as the reference reads it.
fn definition(buf: &[u8], skip: usize) {
    let mut r = Ref::new(buf, skip);
    let want = r.abbrev();
    let mut c = BitCursor::new(buf);
    if c.seek_bit(skip).is_err() {
        return;
    }
    let got = Abbrev::new(&mut c);
    match (want, got) {
        (Err(Stop::Open), _) => {}
        (Ok(ops), Ok(a)) => {
            vs::reach("definition ok");
            vs::check(a.operands.len() == ops.len(), "a definition has the operands it encodes");
            let mut i = 0;
            while i < ops.len() {
                vs::check(same_op(&a.operands[i], &ops[i]), "each operand has the kind, width and value encoded");
                i += 1;
            }
            vs::check(c.tell_bit() == r.pos, "a definition consumes exactly its own bits");
        }
        (Err(_), Err(e)) => {
            vs::reach("definition refused");
            check_named(&e, &r)
        }
        (Ok(_), Err(_)) => vs::fail("a well-formed definition is accepted"),
        (Err(_), Ok(_)) => vs::fail("a malformed definition is refused"),
    }
}

/// The record at bit `skip` is read as the reference reads it.
fn record(ops: &[Op], buf: &[u8], skip: usize) {
    let mut r = Ref::new(buf, skip);
    let want = r.values(ops);
    let a = Abbrev { operands: ops.iter().map(to_op).collect() };
    let mut c = BitCursor::new(buf);
    if c.seek_bit(skip).is_err() {
        return;
    }
    let got = a.parse(&mut c);
    match (want, got) {
        (Err(Stop::Open), _) => {}
        (Ok(w), Ok(g)) => {
            vs::reach("record ok");
            vs::check(w.len() == g.len(), "a record has as many values as its encoding");
            vs::check(fields_equal(&w, &g), "each value is the one encoded, in order");
            vs::check(c.tell_bit() == r.pos, "a record consumes exactly its own bits");
            if !g.is_empty() {
                vs::observe("last", g[g.len() - 1]);
            }
        }
        (Err(_), Err(e)) => {
            vs::reach("record refused");
            check_named(&e, &r)
        }
        (Ok(_), Err(_)) => vs::fail("a well-formed record is read"),
        (Err(_), Ok(_)) => vs::fail("a truncated record is refused"),
    }
}

/// A definition, an unabbreviated and an abbreviated record, an empty block, in
/// a block of abbreviation width `aw`, as far as its ids fit.
fn some_records(w: &mut W, aw: usize) {
    if aw > 1 {
        define(w, aw, &[Op::Fixed(3), Op::Vbr(6)]);
        w.emit(3, aw);
        w.vbr_sym("code", 6, 1);
        w.vbr(1, 6);
        w.vbr_sym("op", 6, 2);
    }
    if aw > 2 {
        w.emit(4, aw);
        put(w, &Op::Fixed(3), 1);
        put(w, &Op::Vbr(6), 2);
    }
    w.enter(aw, 11, 2);
    w.end(2);
}

/// A record with an array or blob of `n`, p0 bits to skip, p1 element encoding.
fn long_record(n: u64) {
    let skip = vs::param(0) as usize;
    let (op, bits) = match vs::param(1) {
        0 => (Op::Array(Box::new(Op::Fixed(1))), 1),
        1 => (Op::Array(Box::new(Op::Fixed(8))), 8),
        2 => (Op::Array(Box::new(Op::Fixed(32))), 32),
        3 => (Op::Array(Box::new(Op::Char6)), 6),
        4 => (Op::Array(Box::new(Op::Vbr(6))), 6),
        _ => (Op::Blob, 8),
    };
    let ops = vec![Op::Fixed(3), op];
    let mut w = W::new();
    w.emit(0, skip);
    let v = vs::int("first", 3);
    w.emit(v, 3);
    w.vbr(n, 6);
    if vs::param(1) == 5 {
        w.align32();
    }
    let mut i = 0;
    while i < n {
        // the first, the last and some others are arbitrary
        let v = if i < 2 || i + 2 >= n || i == 32 { vs::int("element", if vs::param(1) == 4 { 5 } else { bits }) } else { i & 1 };
        w.emit(v, bits as usize);
        i += 1;
    }
    if vs::param(1) == 5 {
        w.align32();
    }
    // whole, or cut short
    if vs::choose("cut", 2) == 1 {
        let m = w.buf.len();
        w.buf.truncate(m - 1);
    }
    record(&ops, &w.buf, skip);
}

harnesses! {
    /// DEFINE_ABBREV bodies: p0 arbitrary bytes, p1 bits to skip
    fn h_abbrev_define() {
        let buf = vs::any_vec("def", vs::param(0) as usize);
        let skip = vs::param(1) as usize;
        definition(&buf, skip);
    }

    /// Abbreviated records: p0 arbitrary bytes, p1 bits to skip, p2 shape
    fn h_abbrev_record() {
        let skip = vs::param(1) as usize;
        let ops: Vec<Op> = match vs::param(2) {
            0 => {
                // one scalar of any legal width
                match vs::choose("kind", 4) {
                    0 => vec![Op::Fixed(vs::choose("w", 32) + 1)],
                    1 => vec![Op::Vbr(vs::choose("w", 31) + 2)],
                    2 => vec![Op::Char6],
                    _ => vec![Op::Lit(vs::any_u64("literal"))],
                }
            }
            1 => vec![menu_scalar("a"), menu_scalar("b"), menu_scalar("c")],
            2 => vec![menu_scalar("a"), Op::Array(Box::new(match vs::choose("elem", 5) {
                0 => Op::Fixed(1),
                1 => Op::Fixed(8),
                2 => Op::Vbr(6),
                3 => Op::Fixed(15),
                _ => Op::Char6,
            }))],
            _ => vec![menu_scalar("a"), Op::Blob],
        };
        let buf = vs::any_vec("data", vs::param(0) as usize);
        record(&ops, &buf, skip);
    }

    /// A whole stream of arbitrary bytes.
    /// p0 bytes, p1: 0 = right after the magic, n = inside a block of abbreviation width n
    /// p2: block id there (0 = BLOCKINFO)
    fn h_stream_bytes() {
        let mut w = W::new();
        w.u32(MAGIC);
        let aw = vs::param(1);
        if aw > 0 {
            w.enter(2, vs::param(2), aw);
        }
        let tail = vs::any_vec("tail", vs::param(0) as usize);
        w.buf.extend_from_slice(&tail);
        compare(&w.buf, 64);
    }

    /// Well-formed programs of p0 elements in a block of abbreviation width p1,
    /// data symbolic.  p2 fixes the first element (9: any); the program may end
    /// anywhere, and in one undefined abbreviation id.
    fn h_stream_program() {
        let mut w = W::new();
        w.u32(MAGIC);
        let n = vs::param(0);
        let aw = vs::param(1) as usize;
        w.enter(2, 8, aw as u64);
        let mut scopes: Vec<(usize, Vec<Vec<Op>>)> = vec![(2, vec![]), (aw, vec![])];
        let mut i = 0;
        while i < n {
            let depth = scopes.len();
            let cur = scopes[depth - 1].0;
            let top = depth - 1;
            let k = if i == 0 && vs::param(2) < 9 { vs::param(2) } else { vs::choose("element", 9) };
            // outside every block there are only blocks
            if depth == 1 && k != 1 && k != 2 {
                vs::assume(false);
            }
            match k {
                0 => {
                    w.end(cur);
                    scopes.pop();
                }
                1 => {
                    w.enter(cur, 8, 3);
                    scopes.push((3, vec![]));
                }
                2 => {
                    // any block id of 14 bits
                    w.emit(1, cur);
                    let id = w.vbr_sym("block id", 8, 2);
                    vs::assume(id != 0);
                    w.vbr(5, 4);
                    w.align32();
                    let l = vs::any_u32("length");
                    w.u32(l);
                    scopes.push((5, vec![]));
                }
                3 => {
                    let d = vec![Op::Lit(5), Op::Fixed(0), Op::Vbr(6)];
                    define(&mut w, cur, &d);
                    scopes[top].1.push(d);
                }
                4 => {
                    let d = vec![Op::Fixed(3), Op::Char6, Op::Array(Box::new(Op::Fixed(9)))];
                    define(&mut w, cur, &d);
                    scopes[top].1.push(d);
                }
                5 => {
                    let d = vec![Op::Vbr(7), Op::Blob];
                    define(&mut w, cur, &d);
                    scopes[top].1.push(d);
                }
                6 => {
                    w.emit(3, cur);
                    w.vbr_sym("code", 6, 1);
                    w.vbr(2, 6);
                    w.vbr_sym("op", 6, 1);
                    w.vbr_sym("op", 6, 12);
                }
                7 => {
                    w.emit(3, cur);
                    w.vbr_sym("code", 6, 3);
                    w.vbr(0, 6);
                }
                _ => {
                    // a record with any abbreviation of this scope, or one past the last
                    let have = scopes[top].1.len() as u64;
                    let a = vs::choose("abbreviation", have + 1);
                    if (a + 4) >> cur != 0 {
                        vs::assume(false);
                    }
                    w.emit(a + 4, cur);
                    if a == have {
                        i = n;
                    } else {
                        let d = scopes[top].1[a as usize].clone();
                        for op in d.iter() {
                            match op {
                                Op::Array(e) => {
                                    let m = vs::choose("elements", 3);
                                    w.vbr(m, 6);
                                    let mut j = 0;
                                    while j < m {
                                        put(&mut w, e, 1);
                                        j += 1;
                                    }
                                }
                                Op::Blob => {
                                    let m = vs::choose("blob bytes", 3) * 2;
                                    w.vbr(m, 6);
                                    w.align32();
                                    let mut j = 0;
                                    while j < m {
                                        let v = vs::any_u8("blob");
                                        w.emit(v as u64, 8);
                                        j += 1;
                                    }
                                    w.align32();
                                }
                                o => put(&mut w, o, 2),
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        w.align32();
        compare(&w.buf, 64);
    }

    /// BLOCKINFO: p0 elements registering abbreviations for two arbitrary
    /// blocks, then p1 elements using them from blocks that also define their own.
    fn h_stream_blockinfo() {
        let mut w = W::new();
        w.u32(MAGIC);
        w.enter(2, 0, 2);
        let ids = [vs::int("id a", 7), vs::int("id b", 7)];
        vs::assume(ids[0] != 0 && ids[1] != 0);
        let same = ids[0] == ids[1];
        let defs = [vec![Op::Lit(7), Op::Fixed(5)], vec![Op::Fixed(4), Op::Vbr(6), Op::Char6], vec![Op::Fixed(2), Op::Fixed(6)]];
        let mut info: [Vec<usize>; 2] = [vec![], vec![]];
        let mut target: Option<usize> = None;
        let mut i = 0;
        while i < vs::param(0) {
            match vs::choose("info", 6) {
                k @ (0 | 1) => {
                    w.emit(3, 2);
                    w.vbr(1, 6);
                    w.vbr(1, 6);
                    let v = ids[k as usize];
                    w.emit(v & 31, 5);
                    w.emit(1, 1);
                    w.emit(v >> 5, 6);
                    target = Some(k as usize);
                }
                k @ (2 | 3) => {
                    define(&mut w, 2, &defs[k as usize - 2]);
                    match target {
                        // nothing to attach it to: refused
                        None => {
                            w.align32();
                            compare(&w.buf, 64);
                            return;
                        }
                        Some(t) => {
                            info[t].push(k as usize - 2);
                            if same {
                                info[1 - t].push(k as usize - 2);
                            }
                        }
                    }
                }
                4 => w.unabbrev(2, 2, &[65, 66]),
                _ => w.unabbrev(2, 3, &[1, 65, 66]),
            }
            i += 1;
        }
        w.end(2);
        let mut i = 0;
        let mut scopes: Vec<(usize, Vec<usize>)> = vec![(2, vec![])];
        while i < vs::param(1) {
            let top = scopes.len() - 1;
            let cur = scopes[top].0;
            match if top == 0 { vs::choose("block", 2) } else { vs::choose("element", 5) } {
                k @ (0 | 1) => {
                    w.emit(1, cur);
                    w.emit(ids[k as usize], 8);
                    w.vbr(4, 4);
                    w.align32();
                    w.u32(0);
                    scopes.push((4, info[k as usize].clone()));
                }
                2 => {
                    define(&mut w, cur, &defs[2]);
                    scopes[top].1.push(2);
                }
                3 => {
                    w.end(cur);
                    scopes.pop();
                }
                _ => {
                    let have = scopes[top].1.len() as u64;
                    let a = vs::choose("abbreviation", have + 1);
                    w.emit(a + 4, cur);
                    if a == have {
                        break;
                    }
                    for op in defs[scopes[top].1[a as usize]].iter() {
                        put(&mut w, op, 1);
                    }
                }
            }
            i += 1;
        }
        w.align32();
        compare(&w.buf, 64);
    }

    /// Long definitions, written with the bit writer.  p0 bits to skip, p1 shape:
    /// 0 literals of every length, 1 widths of every length, 2 many operands,
    /// 3 an array or a blob after many operands
    fn h_abbrev_long() {
        let skip = vs::param(0) as usize;
        let mut w = W::new();
        w.emit(0, skip);
        match vs::param(1) {
            0 => {
                w.vbr(3, 5);
                define_op(&mut w, &Op::Fixed(3));
                w.emit(1, 1);
                let n = vs::choose("chunks", 10) as usize + 1;
                w.vbr_sym("literal", 8, n);
                w.emit(1, 1);
                w.vbr_sym("literal", 8, 1);
            }
            1 => {
                w.vbr(2, 5);
                for name in ["width", "second width"] {
                    w.emit(0, 1);
                    w.emit(vs::choose("encoding", 2) + 1, 3);
                    let n = vs::choose("chunks", 16) as usize + 1;
                    w.vbr_sym(name, 5, n);
                }
            }
            k => {
                let n = match vs::choose("operands", 7) {
                    0 => 15,
                    1 => 16,
                    2 => 17,
                    3 => 31,
                    4 => 255,
                    5 => 300,
                    _ => 5000,
                };
                w.vbr(n, 5);
                let tail = if k == 2 { 0 } else { vs::choose("tail", 4) };
                let plain = match (k, tail) {
                    (2, _) => n,
                    (_, 0) => n - 1,
                    _ => n - 2,
                };
                let mut i = 0;
                while i < plain {
                    match i % 3 {
                        0 => {
                            w.emit(1, 1);
                            if i < 3 || i + 4 > plain {
                                w.vbr_sym("literal", 8, 2);
                            } else {
                                w.vbr(i, 8);
                            }
                        }
                        1 => define_op(&mut w, &Op::Fixed(i % 32 + 1)),
                        _ => define_op(&mut w, &Op::Char6),
                    }
                    i += 1;
                }
                if k != 2 {
                    match tail {
                        0 => define_op(&mut w, &Op::Blob),
                        1 => define_op(&mut w, &Op::Array(Box::new(Op::Char6))),
                        2 => define_op(&mut w, &Op::Array(Box::new(Op::Fixed([1, 7, 15, 16, 31, 32][vs::choose("element", 6) as usize])))),
                        _ => define_op(&mut w, &Op::Array(Box::new(Op::Vbr([2, 6, 15, 16, 32][vs::choose("element", 5) as usize])))),
                    }
                }
            }
        }
        let after = vs::any_u8("after");
        w.emit(after as u64, 8);
        definition(&w.buf, skip);
    }

    /// Records with long arrays and blobs. p0 bits to skip, p1 element
    /// encoding (5: a blob)
    fn h_abbrev_long_record() {
        long_record([0, 1, 31, 32, 33, 257, 1025][vs::choose("length", 7) as usize])
    }

    /// The same of p2 elements
    fn h_abbrev_longer_record() {
        long_record(vs::param(2))
    }

    /// A record of p1 operands, p0 bits to skip
    fn h_abbrev_wide_record() {
        let (skip, n) = (vs::param(0) as usize, vs::param(1));
        let kinds = [Op::Fixed(3), Op::Vbr(6), Op::Char6, Op::Lit(77), Op::Fixed(32), Op::Vbr(32), Op::Fixed(17)];
        let mut w = W::new();
        w.emit(0, skip);
        let mut ops = Vec::new();
        let at = [0, 1, 31, 32, 33, 255, 256, n - 1][vs::choose("at", 8) as usize];
        let mut i = 0;
        while i < n {
            let op = kinds[(i % 7) as usize].clone();
            if i == at {
                put(&mut w, &op, 2);
            } else {
                match op {
                    Op::Lit(_) => {}
                    Op::Vbr(k) => w.vbr(i, k as usize),
                    Op::Char6 => w.emit(i & 63, 6),
                    Op::Fixed(k) => w.emit(i & ((1 << k) - 1), k as usize),
                    _ => {}
                }
            }
            ops.push(op);
            i += 1;
        }
        if vs::choose("cut", 2) == 1 {
            let m = w.buf.len();
            w.buf.truncate(m - 1);
        }
        record(&ops, &w.buf, skip);
    }

    /// Blocks of every abbreviation width: a block of width p0 with a block of
    /// any other width inside, with a definition, records and uses in both.
    fn h_stream_widths() {
        let a = vs::param(0) as usize;
        let b = vs::choose("inner width", 32) as usize + 1;
        let mut w = W::new();
        w.u32(MAGIC);
        w.enter(2, 8, a as u64);
        if a > 1 {
            define(&mut w, a, &[Op::Fixed(7), Op::Fixed(9)]);
        }
        w.enter(a, 9, b as u64);
        some_records(&mut w, b);
        w.end(b);
        if a > 2 {
            w.emit(4, a);
            put(&mut w, &Op::Fixed(7), 1);
            put(&mut w, &Op::Fixed(9), 1);
        }
        w.end(a);
        w.enter(2, 10, a as u64);
        some_records(&mut w, a);
        w.end(a);
        compare(&w.buf, 64);
    }

    /// Long unabbreviated records and codes; p0 operands.
    fn h_stream_long_record() {
        let n = vs::param(0);
        let mut w = W::new();
        w.u32(MAGIC);
        w.enter(2, 8, 3);
        w.emit(3, 3);
        let c = vs::choose("code chunks", 13) as usize + 1;
        w.vbr_sym("code", 6, c);
        w.vbr(n, 6);
        let mut i = 0;
        while i < n {
            if i < 2 || i + 2 >= n || i == 32 {
                w.vbr_sym("op", 6, 1 + (i % 3) as usize);
            } else {
                w.vbr(i & 31, 6);
            }
            i += 1;
        }
        w.unabbrev(3, 6, &[1, 2]);
        w.end(3);
        compare(&w.buf, 64);
    }

    /// One number of a stream is any number of 64 bits, spelled in p1 chunks:
    /// p0 0 the operands of a record, 1 the elements of an array, 2 the bytes of
    /// a blob, 3 the operands of a definition, 4 a block's id, 5 a block's
    /// abbreviation width, 6 the id that a definition is registered for, 7 a
    /// record's code, 8 an operand
    fn h_stream_counts() {
        let (kind, n) = (vs::param(0), vs::param(1) as usize);
        let mut w = W::new();
        w.u32(MAGIC);
        let mut pay = 6;
        match kind {
            0 => {
                w.enter(2, 8, 3);
                w.unabbrev(3, 9, &[1]);
                w.emit(3, 3);
                w.vbr(7, 6);
                w.vbr_sym("operands", 6, n);
            }
            1 | 2 => {
                w.enter(2, 8, 3);
                let last = if kind == 1 { Op::Array(Box::new(Op::Fixed(5))) } else { Op::Blob };
                define(&mut w, 3, &[Op::Lit(5), last]);
                w.emit(4, 3);
                w.vbr_sym("length", 6, n);
                w.align32();
                pay = 0;
                w.emit(0x0123_4567_89ab_cdef, 64);
                w.emit(0xa5, 8);
            }
            3 => {
                w.enter(2, 8, 3);
                w.emit(2, 3);
                w.vbr_sym("operands", 5, n);
                let mut i = 0;
                while i < 3 {
                    define_op(&mut w, &Op::Lit(200 + i));
                    i += 1;
                }
                pay = 0;
            }
            4 | 6 => {
                w.enter(2, 0, 3);
                w.emit(3, 3);
                w.vbr(1, 6);
                w.vbr(1, 6);
                if kind == 6 {
                    w.vbr_sym("block", 6, n);
                } else {
                    w.vbr(9, 6);
                }
                define(&mut w, 3, &[Op::Lit(5), Op::Fixed(5)]);
                w.end(3);
                w.emit(1, 2);
                if kind == 4 {
                    w.vbr_sym("block", 8, n);
                } else {
                    w.vbr(9, 8);
                }
                w.vbr(3, 4);
                w.align32();
                w.u32(1);
                w.emit(4, 3);
                pay = 5;
            }
            7 | 8 => {
                w.enter(2, 8, 3);
                w.emit(3, 3);
                if kind == 7 {
                    w.vbr_sym("code", 6, n);
                } else {
                    w.vbr(9, 6);
                }
                w.vbr(2, 6);
                if kind == 8 {
                    w.vbr_sym("operand", 6, n);
                } else {
                    w.vbr(77, 6);
                }
            }
            _ => {
                w.enter(2, 8, 3);
                w.emit(1, 3);
                w.vbr(9, 8);
                w.vbr_sym("width", 4, n);
                w.align32();
                w.u32(2);
                w.emit(0x9d2c_5680, 32);
                pay = 0;
            }
        }
        let v = vs::int("payload", pay);
        w.emit(v, pay as usize);
        w.align32();
        w.end(3);
        compare(&w.buf, 16);
    }

    /// Behind p0 blobs of 30000 bytes: a block, some records, and the end, cut short by p1 words.
    fn h_stream_far() {
        let mut w = W::new();
        w.u32(MAGIC);
        w.enter(2, 8, 3);
        let d = vec![Op::Lit(5), Op::Blob];
        define(&mut w, 3, &d);
        let mut i = 0;
        while i < vs::param(0) {
            w.emit(4, 3);
            w.vbr(30000, 6);
            w.align32();
            let b = vs::any_u8("first");
            w.emit(b as u64, 8);
            let mut j = 1;
            while j < 29999 {
                w.buf.push((j * 3) as u8);
                j += 1;
            }
            w.bit += 29998 * 8;
            let b = vs::any_u8("last");
            w.emit(b as u64, 8);
            w.align32();
            i += 1;
        }
        w.enter(3, 9, 4);
        some_records(&mut w, 4);
        w.end(4);
        w.end(3);
        let n = w.buf.len() - vs::param(1) as usize * 4;
        w.buf.truncate(n);
        compare(&w.buf, 64);
    }

    /// Sequences of p0 elements with BLOCKINFO blocks anywhere: beside, after
    /// and inside the blocks they speak of. p1 fixes the first (9: any)
    fn h_stream_info_anywhere() {
        let mut w = W::new();
        w.u32(MAGIC);
        let defs = [vec![Op::Lit(7), Op::Fixed(5)], vec![Op::Fixed(4), Op::Vbr(6)], vec![Op::Fixed(2), Op::Fixed(6)]];
        let ids = [8, 17];
        let mut info: [Vec<usize>; 2] = [vec![], vec![]];
        let mut scopes: Vec<(usize, Vec<usize>)> = vec![(2, vec![])];
        let mut i = 0;
        while i < vs::param(0) {
            let top = scopes.len() - 1;
            let cur = scopes[top].0;
            let k = if i == 0 && vs::param(1) < 9 { vs::param(1) } else { vs::choose("element", if top == 0 { 5 } else { 8 }) };
            match k {
                0 | 1 => {
                    w.enter(cur, ids[k as usize], 4);
                    let l = info[k as usize].clone();
                    scopes.push((4, l));
                }
                2 | 3 => {
                    // one registration, for either block
                    w.enter(cur, 0, 2);
                    w.unabbrev(2, 1, &[ids[k as usize - 2]]);
                    define(&mut w, 2, &defs[k as usize - 2]);
                    info[k as usize - 2].push(k as usize - 2);
                    w.end(2);
                }
                4 => {
                    // a block of registrations starts without a subject
                    w.enter(cur, 0, 2);
                    if vs::choose("subject", 2) == 1 {
                        w.unabbrev(2, 1, &[ids[0]]);
                        w.unabbrev(2, 1, &[ids[1]]);
                        define(&mut w, 2, &defs[0]);
                        define(&mut w, 2, &defs[2]);
                        w.unabbrev(2, 1, &[ids[0]]);
                        define(&mut w, 2, &defs[1]);
                        info[1].push(0);
                        info[1].push(2);
                        info[0].push(1);
                        w.end(2);
                    } else {
                        define(&mut w, 2, &defs[0]);
                        w.align32();
                        compare(&w.buf, 64);
                        return;
                    }
                }
                5 => {
                    define(&mut w, cur, &defs[2]);
                    scopes[top].1.push(2);
                }
                6 => {
                    w.end(cur);
                    scopes.pop();
                }
                _ => {
                    // all abbreviations there are, and the one past them
                    let have = scopes[top].1.len() as u64;
                    let mut a = 0;
                    while a < have {
                        w.emit(a + 4, cur);
                        for op in defs[scopes[top].1[a as usize]].iter() {
                            put(&mut w, op, 1);
                        }
                        a += 1;
                    }
                    if vs::choose("one more", 2) == 1 {
                        w.emit(a + 4, cur);
                        break;
                    }
                }
            }
            i += 1;
        }
        w.align32();
        compare(&w.buf, 64);
    }

    /// p0 entries in a row that are not delivered: p1 kind. The parser neither
    /// recurses nor gets lost.
    fn h_stream_long_run() {
        let n = vs::param(0);
        let kind = vs::param(1);
        let mut w = W::new();
        w.u32(MAGIC);
        match kind {
            0 | 1 => w.enter(2, 0, 2),
            2 => w.enter(2, 8, 3),
            _ => 0,
        };
        if kind == 1 {
            w.unabbrev(2, 1, &[8]);
        }
        let mut i = 0;
        while i < n {
            match kind {
                0 => {
                    w.unabbrev(2, 1, &[i & 31]);
                }
                1 => define(&mut w, 2, &[Op::Fixed(3)]),
                2 => define(&mut w, 3, &[Op::Fixed(3)]),
                _ => {
                    w.enter(2, 0, 2);
                    w.end(2);
                }
            }
            i += 1;
        }
        match kind {
            0 | 1 => {
                w.end(2);
                w.enter(2, 8, 3);
            }
            2 => {}
            _ => {
                w.enter(2, 8, 3);
            }
        }
        if kind == 1 || kind == 2 {
            w.emit(4, 3);
            put(&mut w, &Op::Fixed(3), 1);
        }
        w.unabbrev(3, 6, &[1, 2]);
        w.end(3);
        compare(&w.buf, 64);
    }

    /// Large histories: p0 nested blocks, definitions in one block, block IDs
    /// with registrations, or blocks in a row (p1: which).
    fn h_stream_large() {
        let n = vs::param(0);
        let mut w = W::new();
        w.u32(MAGIC);
        match vs::param(1) {
            0 => {
                // every level has its own width and its own definition
                let aw = |i: u64| if i == 0 { 2 } else { 3 + (i * 7 % 30) as usize };
                let value = |w: &mut W, i: u64| {
                    let bits = 1 + (i % 32) as usize;
                    w.emit(4, aw(i));
                    if i < 3 || i + 3 > n || i == 255 || i == 256 {
                        put(w, &Op::Fixed(bits as u64), 1)
                    } else {
                        w.emit(i & 1, bits)
                    }
                };
                let mut i = 1;
                while i <= n {
                    w.enter(aw(i - 1), 8 + i % 300, aw(i) as u64);
                    define(&mut w, aw(i), &[Op::Lit(i & 255), Op::Fixed(1 + i % 32)]);
                    value(&mut w, i);
                    i += 1;
                }
                while i > 1 {
                    i -= 1;
                    value(&mut w, i);
                    w.end(aw(i));
                }
            }
            1 => {
                w.enter(2, 8, 12);
                let mut i = 0;
                while i < n {
                    define(&mut w, 12, &[Op::Lit(i & 255), Op::Fixed(1 + i / 256), Op::Vbr(2 + i % 7)]);
                    i += 1;
                }
                let at = [0, 1, 27, 28, 29, 123, 124, 125, 251, 252, 253, 255, 256, n - 1, n];
                let k = at[vs::choose("definition", 15) as usize];
                w.emit(k + 4, 12);
                put(&mut w, &Op::Fixed(1 + k / 256), 1);
                put(&mut w, &Op::Vbr(2 + k % 7), 1);
                w.end(12);
            }
            2 => {
                // three rounds of registrations, out of order
                let id = |i: u64| 8 + i * 37 % n;
                let mut have = vec![0; n as usize + 9];
                w.enter(2, 0, 2);
                let mut i = 0;
                while i < 3 * n {
                    let b = id(i % n);
                    if i < 2 * n || b % 3 == 0 {
                        w.unabbrev(2, 1, &[b]);
                        define(&mut w, 2, &[Op::Lit(b & 255), Op::Fixed(1 + i / n), Op::Fixed(1 + b % 20)]);
                        have[b as usize] += 1;
                    }
                    i += 1;
                }
                w.end(2);
                let at = [8, 9, 10, 11, 31, 32, 63, 64, 127, 128, 129, 255, 256, n + 7, n + 8];
                let b = at[vs::choose("block", 15) as usize];
                w.enter(2, b, 4);
                let mut k = 0;
                while k < have[b as usize] {
                    w.emit(4 + k, 4);
                    put(&mut w, &Op::Fixed(1 + k), 1);
                    put(&mut w, &Op::Fixed(1 + b % 20), 1);
                    k += 1;
                }
                if vs::choose("one more", 2) == 1 {
                    w.emit(4 + k, 4);
                } else {
                    w.end(4);
                }
            }
            _ => {
                let mut i = 0;
                while i < n {
                    w.enter(2, 8 + i % 3, 3);
                    define(&mut w, 3, &[Op::Lit(i & 255), Op::Fixed(1 + i % 32)]);
                    w.emit(4, 3);
                    if i < 2 || i + 2 > n {
                        put(&mut w, &Op::Fixed(1 + i % 32), 1);
                    } else {
                        w.emit(i & 1, 1 + (i % 32) as usize);
                    }
                    w.end(3);
                    i += 1;
                }
                w.enter(2, 8, 3);
                w.emit(4, 3);
            }
        }
        w.align32();
        compare(&w.buf, 8 * n as usize + 64);
    }

    /// Containers: p0 arbitrary bytes
    fn h_container() {
        let buf = vs::any_vec("file", vs::param(0) as usize);
        let n = buf.len();
        let word = |i: usize| u32::from_le_bytes([buf[i], buf[i + 1], buf[i + 2], buf[i + 3]]);
        match vs::choose("api", 3) {
            0 => match Bitstream::from_raw(&buf[..]) {
                Ok(s) => {
                    vs::reach("raw ok");
                    vs::check(n >= 4 && n % 4 == 0, "a raw stream is whole words and holds its magic");
                    vs::check(s.magic == word(0), "the magic is the first word");
                }
                Err(_) => vs::check(n < 4 || n % 4 != 0, "a raw stream of whole words is accepted"),
            },
            1 => wrapped(&buf, Bitstream::from_wrapped(&buf[..]).ok().map(|(h, s)| (Some(h), s))),
            _ => {
                let r = Bitstream::from(&buf[..]).ok();
                if n < 4 {
                    vs::check(r.is_none(), "a file too short for a magic is refused");
                } else if word(0) == WRAPPER {
                    wrapped(&buf, r)
                } else {
                    match r {
                        Some((h, s)) => {
                            vs::reach("detected raw");
                            vs::check(h.is_none(), "a raw file has no wrapper");
                            vs::check(n % 4 == 0, "a raw stream is whole words");
                            vs::check(s.magic == word(0), "the magic is the first word");
                        }
                        None => vs::check(n % 4 != 0, "a raw file is accepted"),
                    }
                }
            }
        }
    }

    /// A wrapped stream reads exactly as the stream it wraps.
    /// p0 words before the stream, p1 words in it, p2 bytes after
    fn h_wrapped_content() {
        let (before, words, after) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2) as usize);
        let mut w = W::new();
        w.u32(WRAPPER);
        w.u32(0);
        w.u32((before * 4) as u32);
        w.u32((words * 4) as u32);
        w.u32(vs::any_u32("cpu"));
        let free = if before > 64 { 44 } else { before * 4 - 20 };
        let pad = vs::any_vec("pad", free);
        w.buf.extend_from_slice(&pad);
        // in front of far streams, another stream that is not the one meant
        while w.buf.len() < before * 4 {
            w.buf.extend_from_slice(&MAGIC.to_le_bytes());
        }
        let mut inner = W::new();
        inner.u32(MAGIC);
        inner.enter(2, 9, 2);
        let body = vs::any_vec("body", words * 4 - 12);
        inner.buf.extend_from_slice(&body);
        w.buf.extend_from_slice(&inner.buf);
        let junk = vs::any_vec("junk", if after > 64 { 64 } else { after });
        w.buf.extend_from_slice(&junk);
        w.buf.resize(before * 4 + words * 4 + after, 0xff);
        let (want, stop, r) = reference(&inner.buf, 32, 32);
        match Bitstream::from_wrapped(&w.buf[..]) {
            Ok((h, mut s)) => {
                vs::reach("wrapped content");
                vs::check(s.magic == MAGIC, "the magic is the first word of the wrapped stream");
                vs::check(h.offset as usize == before * 4 && h.size as usize == words * 4, "the wrapper is delivered as encoded");
                expect(&mut s, &want, stop, &r);
            }
            Err(_) => vs::fail("a wrapped stream inside the file is accepted"),
        }
    }

    /// The same harnesses, where errors have to name what is wrong.
    fn h_why_stream_bytes() {
        named(h_stream_bytes)
    }
    fn h_why_stream_program() {
        named(h_stream_program)
    }
    fn h_why_stream_blockinfo() {
        named(h_stream_blockinfo)
    }
    fn h_why_stream_info_anywhere() {
        named(h_stream_info_anywhere)
    }
    fn h_why_stream_counts() {
        named(h_stream_counts)
    }
    fn h_why_stream_large() {
        named(h_stream_large)
    }
    fn h_why_abbrev_define() {
        named(h_abbrev_define)
    }
    fn h_why_abbrev_record() {
        named(h_abbrev_record)
    }
    fn h_why_abbrev_long() {
        named(h_abbrev_long)
    }
    fn h_why_abbrev_long_record() {
        named(h_abbrev_long_record)
    }

    /// Refusals to open a file of p0 arbitrary bytes name what is wrong.
    fn h_why_container() {
        let n = vs::param(0) as usize;
        let buf = vs::any_vec("file", n);
        let word = |i: usize| u32::from_le_bytes([buf[i], buf[i + 1], buf[i + 2], buf[i + 3]]);
        let raw = |e: &Error| vs::check(matches!(e, Error::BadContainer(_)) && (n % 4 != 0 || n < 4), "a raw file of whole words is called bad");
        let wrapped = |e: &Error| {
            if n < 20 {
                vs::check(matches!(e, Error::Cursor(_)), "a wrapper cut short is called something else");
                return;
            }
            let (off, size) = (word(8) as u64, word(12) as u64);
            match e {
                Error::Cursor(_) => vs::check(off + size > n as u64, "a wrapper that points inside its file is called outside"),
                Error::BadContainer(_) => vs::check((off + size) % 4 != 0 || size < 4, "a good wrapped stream is called bad"),
                _ => vs::fail("an error that is none of this wrapper"),
            }
        };
        match vs::choose("way", 3) {
            0 => {
                if let Err(e) = Bitstream::from_raw(&buf[..]) {
                    vs::reach("raw refused");
                    raw(&e)
                }
            }
            1 => {
                if let Err(e) = Bitstream::from_wrapped(&buf[..]) {
                    vs::reach("wrapped refused");
                    wrapped(&e)
                }
            }
            _ => {
                if let Err(e) = Bitstream::from(&buf[..]) {
                    vs::reach("refused");
                    if n < 4 {
                        vs::check(matches!(e, Error::Cursor(_) | Error::BadContainer(_)), "a file without magic is called something else");
                    } else if word(0) == WRAPPER {
                        wrapped(&e)
                    } else {
                        raw(&e)
                    }
                }
            }
        }
    }

    /// Records of block information of any code.
    fn h_why_info() {
        let mut w = W::new();
        w.u32(MAGIC);
        w.enter(2, 0, 2);
        w.emit(3, 2);
        let n = vs::choose("chunks", 13) as usize + 1;
        w.vbr_sym("code", 6, n);
        w.vbr(vs::choose("fields", 3), 6);
        w.vbr_sym("field", 6, 1);
        w.vbr_sym("field", 6, 1);
        w.align32();
        NAMED.store(true, Ordering::Relaxed);
        compare(&w.buf, 8);
    }

    /// What is undefined, unknown or unfinished is named: a block of
    /// abbreviation width p0 with p1 definitions, then a record by any id.
    fn h_why_ids() {
        let aw = vs::param(0);
        let have = vs::param(1);
        let mut w = W::new();
        w.u32(MAGIC);
        w.enter(2, 9, aw);
        let mut i = 0;
        while i < have {
            define(&mut w, aw as usize, &[Op::Lit(7), Op::Fixed(5)]);
            i += 1;
        }
        let id = vs::int("id", aw as u32);
        vs::assume(id >= 4);
        w.emit(id, aw as usize);
        w.emit(0, 5);
        w.align32();
        w.u32(0);
        match Bitstream::from_raw(&w.buf[..]) {
            Ok(mut s) => {
                if !matches!(s.next(), Some(Ok(StreamEntry::SubBlock(_)))) {
                    vs::fail("a block is delivered");
                }
                match s.next() {
                    Some(Ok(StreamEntry::Record(r))) => {
                        vs::reach("defined id");
                        vs::check(id - 4 < have && r.abbrev_id == Some(id), "an undefined abbreviation is used");
                    }
                    Some(Err(Error::BadAbbrev(n))) => {
                        vs::reach("undefined id");
                        vs::check(id - 4 >= have && n == id, "the undefined abbreviation is named");
                    }
                    _ => vs::fail("an error that is none of this stream"),
                }
            }
            Err(_) => vs::fail("a good start is accepted"),
        }
    }

    /// Nothing in p0 arbitrary bytes makes the parser panic, allocate wildly
    /// or deliver more entries than it has bits.  p1/p2 as h_stream_bytes
    fn h_stream_robust() {
        let mut w = W::new();
        w.u32(MAGIC);
        let aw = vs::param(1);
        if aw > 0 {
            w.enter(2, vs::param(2), aw);
        }
        let tail = vs::any_vec("tail", vs::param(0) as usize);
        w.buf.extend_from_slice(&tail);
        let bits = w.buf.len() * 8;
        match Bitstream::from_raw(&w.buf[..]) {
            Ok(mut s) => {
                let mut n = 0;
                loop {
                    match s.next() {
                        None => {
                            vs::reach("clean end");
                            break;
                        }
                        Some(Err(e)) => {
                            vs::reach("error");
                            vs::check(!matches!(e, Error::Exhausted), "the end of the data is not an error item");
                            break;
                        }
                        Some(Ok(_)) => n += 1,
                    }
                    vs::check(n <= bits, "each entry consumes data");
                }
                vs::observe("entries", n as u64);
            }
            Err(_) => {}
        }
    }

    /// Abbrev::new and Abbrev::parse never panic on p0 arbitrary bytes.
    fn h_abbrev_robust() {
        let buf = vs::any_vec("data", vs::param(0) as usize);
        let mut c = BitCursor::new(&buf[..]);
        if let Ok(a) = Abbrev::new(&mut c) {
            vs::reach("defined");
            if c.seek(SeekFrom::Start(0)).is_err() {
                vs::fail("seek to start");
            }
            if a.parse(&mut c).is_ok() {
                vs::reach("parsed");
            }
        }
    }
}

fn wrapped(buf: &[u8], r: Option<(Option<llvm_bitstream::BitcodeWrapper>, Bitstream<&[u8]>)>) {
    let n = buf.len();
    let word = |i: usize| u32::from_le_bytes([buf[i], buf[i + 1], buf[i + 2], buf[i + 3]]);
    if n < 20 {
        vs::check(r.is_none(), "a file too short for a wrapper is refused");
        return;
    }
    let (off, size) = (word(8) as u64, word(12) as u64);
    let inside = off + size <= n as u64 && size >= 4 && size % 4 == 0;
    match r {
        Some((h, s)) => {
            vs::reach("wrapped ok");
            match h {
                Some(h) => {
                    vs::check(h.magic == word(0), "the wrapper's magic is as encoded");
                    vs::check(h.version == word(4), "the wrapper's version is as encoded");
                    vs::check(h.offset as u64 == off, "the wrapper's offset is as encoded");
                    vs::check(h.size as u64 == size, "the wrapper's size is as encoded");
                    vs::check(h.cpu_type == word(16), "the wrapper's CPU type is as encoded");
                }
                None => vs::fail("a wrapped file has a wrapper"),
            }
            vs::check(off + size <= n as u64 && size >= 4, "a wrapper that points outside its file is refused");
            let o = vs::concrete(off) as usize;
            vs::check(s.magic == word(o), "the magic is the first word at the offset");
        }
        None => vs::check(!inside || off % 4 != 0, "a wrapper that points inside its file is accepted"),
    }
}
