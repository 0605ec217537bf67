//! Whole files: which modules a stream of blocks makes, and what arbitrary bytes do.
use crate::bits::W;
use crate::mapper::*;
use crate::vs;
use llvm_bitstream::error::Error as BsError;
use llvm_bitstream::Bitstream;
use llvm_mapper::block::{BlockMapError, IdentificationError, StrtabError, SymtabError};
use llvm_mapper::error::Error;
use llvm_mapper::unroll::Bitcode;
use std::convert::TryFrom;

/// A record of code `code` with the given texts, unabbreviated.
fn text(w: &mut W, aw: usize, code: u64, t: &[u8]) {
    w.emit(3, aw);
    w.vbr(code, 6);
    w.vbr(t.len() as u64, 6);
    for b in t {
        // two chunks of five bits are enough for a byte in ASCII
        w.emit((*b & 31) as u64, 5);
        w.emit(1, 1);
        w.emit((*b >> 5) as u64, 5);
        w.emit(0, 1);
    }
}

fn ascii(name: &'static str, n: usize) -> Vec<u8> {
    let mut v = vs::any_vec(name, n);
    for b in v.iter_mut() {
        *b &= 127;
    }
    v
}

fn block(w: &mut W, aw: usize, id: u64, inner: usize, f: &mut dyn FnMut(&mut W)) {
    let at = w.enter(aw, id, inner as u64);
    f(w);
    w.end(inner);
    w.patch_len(at);
}

fn magic() -> W {
    let mut w = W::new();
    w.u32(0xdec04342);
    w
}

/// Parts of a definition: a literal, or an operand of an encoding.
fn lit(w: &mut W, v: u64) {
    w.emit(1, 1);
    w.vbr(v, 8);
}

fn kind(w: &mut W, e: u64, v: Option<u64>) {
    w.emit(0, 1);
    w.emit(e, 3);
    if let Some(v) = v {
        w.vbr(v, 5);
    }
}

/// What a module of the file is to be.
struct Part {
    producer: Vec<u8>,
    epoch: u64,
    triple: Option<Vec<u8>>,
    strtab: Option<Vec<u8>>,
    symtab: Option<Vec<u8>>,
}

/// A block that a reader passes over, with contents that would matter elsewhere.
fn distraction(w: &mut W, aw: usize) {
    block(w, aw, 60, 3, &mut |w| {
        w.unabbrev(3, 1, &[120, 121]);
        w.unabbrev(3, 2, &[122, 123]);
        block(w, 3, 13, 4, &mut |w| w.unabbrev(4, 2, &[99]));
    });
}

fn same_opt(got: Option<&[u8]>, want: &Option<Vec<u8>>) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => same(g, w),
        _ => false,
    }
}

fn unroll(why: bool) {
    let deep = vs::param(6) == 1;
    let mut kinds = Vec::new();
    let mut i = 0;
    while i < 6 {
        match vs::param(i) {
            99 => {}
            50 => kinds.push(vs::choose("block", 4)),
            51 => kinds.push(vs::choose("block", 5)),
            k => kinds.push(k),
        }
        i += 1;
    }
    file_of(&kinds, deep, vs::param(7) as usize, why)
}

// p0 modules, each with the tables behind it in any order or none
fn tables(why: bool) {
    let mut kinds = Vec::new();
    let mut i = 0;
    while i < vs::param(0) {
        kinds.extend_from_slice(&[0, 1]);
        kinds.extend_from_slice([&[][..], &[2], &[3], &[2, 3], &[3, 2], &[2, 2], &[3, 3]][vs::choose("tables", 7) as usize]);
        i += 1;
    }
    file_of(&kinds, false, 0, why)
}

fn file_of(kinds: &[u64], deep: bool, cut: usize, why: bool) {
    let mut w = magic();
    let mut parts: Vec<Part> = Vec::new();
    let mut bad = false;
    for k in kinds.iter().copied() {
        match k {
            0 => {
                let p = ascii("producer", 2);
                let mut epoch = 0;
                block(&mut w, 2, 13, 5, &mut |w| {
                    if deep {
                        distraction(w, 5);
                    }
                    text(w, 5, 1, &p);
                    w.emit(3, 5);
                    w.vbr(2, 6);
                    w.vbr(1, 6);
                    epoch = w.vbr_sym("epoch", 6, 2);
                    if deep {
                        distraction(w, 5);
                    }
                });
                parts.push(Part { producer: p, epoch, triple: None, strtab: None, symtab: None });
            }
            1 => {
                let t = ascii("triple", 2);
                block(&mut w, 2, 8, 3, &mut |w| {
                    w.unabbrev(3, 1, &[2]);
                    block(w, 3, 17, 4, &mut |w| w.unabbrev(4, 1, &[0]));
                    if deep {
                        distraction(w, 3);
                    }
                    text(w, 3, 2, &t);
                    block(w, 3, 14, 4, &mut |_| {});
                });
                match parts.last_mut() {
                    Some(p) if p.triple.is_none() => p.triple = Some(t),
                    _ => bad = true,
                }
            }
            2 | 3 => {
                let t = ascii("table", 2);
                block(&mut w, 2, if k == 2 { 23 } else { 25 }, 3, &mut |w| {
                    if deep {
                        distraction(w, 3);
                    }
                    text(w, 3, 1, &t);
                });
                for p in parts.iter_mut() {
                    let to = if k == 2 { &mut p.strtab } else { &mut p.symtab };
                    if to.is_none() {
                        *to = Some(t.clone());
                    }
                }
            }
            _ => {
                let id = vs::int("id", 7);
                // 0 is the block of block information
                vs::assume(id != 0 && id != 13 && id != 8 && id != 23 && id != 25);
                let at = {
                    w.emit(1, 2);
                    w.emit(id, 7);
                    w.emit(0, 1);
                    w.vbr(3, 4);
                    w.align32();
                    let at = w.buf.len();
                    w.u32(0);
                    at
                };
                w.end(3);
                w.patch_len(at);
                bad = true;
            }
        }
    }
    if cut > 0 {
        let n = w.buf.len() - cut;
        w.buf.truncate(n);
        bad = true;
    }
    for p in parts.iter() {
        bad |= p.triple.is_none() || p.strtab.is_none();
    }
    match Bitcode::try_from(&w.buf[..]) {
        Err(e) => {
            vs::reach("file refused");
            if why {
                match e {
                    Error::Unroll(_) => {}
                    Error::Parse(BsError::Cursor(_)) => vs::check(cut > 0, "a good stream is called bad"),
                    Error::Parse(BsError::BadContainer(_)) => vs::check(cut % 4 != 0, "a file of whole words is called bad"),
                    _ => vs::fail("an error that is none of this file"),
                }
            }
            vs::check(bad, "a good file is refused");
        }
        Ok(b) => {
            vs::reach("file");
            vs::check(!bad, "a bad file is accepted");
            vs::check(b.modules.len() == parts.len(), "number of modules");
            let mut i = 0;
            while i < parts.len() {
                let (m, p) = (&b.modules[i], &parts[i]);
                vs::check(same(m.identification.producer.as_bytes(), &p.producer), "producer");
                vs::check(m.identification.epoch == p.epoch, "epoch");
                vs::check(same_opt(Some(m.module.triple.as_bytes()), &p.triple), "triple");
                vs::check(same_opt(Some(m.strtab.as_ref()), &p.strtab), "string table");
                vs::check(same_opt(m.symtab.as_ref().map(|s| s.as_ref()), &p.symtab), "symbol table");
                i += 1;
            }
        }
    }
}

harnesses! {
    fn h_unroll_tables() {
        tables(false)
    }
    fn h_why_unroll_tables() {
        tables(true)
    }

    // p0 modules, each with its own or a shared string table; p1: 1 a shared one
    fn h_unroll_many() {
        let (n, shared) = (vs::param(0), vs::param(1) == 1);
        let mut w = magic();
        let name = |i: u64| vec![97 + (i % 26) as u8, 97 + (i / 26 % 26) as u8];
        let edge = |i: u64| i < 2 || i == 255 || i + 1 == n;
        let mut triples = Vec::new();
        let mut tables = Vec::new();
        let mut i = 0;
        while i < n {
            block(&mut w, 2, 13, 5, &mut |w| {
                text(w, 5, 1, &name(i));
                w.unabbrev(5, 2, &[i]);
            });
            let t = if edge(i) { ascii("triple", 2) } else { name(i + 3) };
            block(&mut w, 2, 8, 3, &mut |w| {
                w.unabbrev(3, 1, &[2]);
                block(w, 3, 17, 4, &mut |w| w.unabbrev(4, 1, &[0]));
                text(w, 3, 2, &t);
                block(w, 3, 14, 4, &mut |_| {});
            });
            triples.push(t);
            if !shared || i + 1 == n {
                let t = if edge(i) { ascii("table", 2) } else { name(i + 5) };
                block(&mut w, 2, 23, 3, &mut |w| text(w, 3, 1, &t));
                tables.push(t);
            }
            i += 1;
        }
        match Bitcode::try_from(&w.buf[..]) {
            Err(_) => vs::fail("a good file is refused"),
            Ok(b) => {
                vs::reach("file");
                vs::check(b.modules.len() as u64 == n, "number of modules");
                let mut i = 0;
                while i < n as usize {
                    let m = &b.modules[i];
                    vs::check(same(m.identification.producer.as_bytes(), &name(i as u64)), "producer");
                    vs::check(m.identification.epoch == i as u64, "epoch");
                    vs::check(same(m.module.triple.as_bytes(), &triples[i]), "triple");
                    vs::check(same(m.strtab.as_ref(), &tables[if shared { 0 } else { i }]), "string table");
                    vs::check(m.symtab.is_none(), "symbol table");
                    i += 1;
                }
            }
        }
    }

    // a module as LLVM writes it: block information, abbreviations, arrays,
    // blobs, and blocks in LLVM's order, with references into all its tables
    fn h_file_rich() {
        let mut w = magic();
        let producer = ascii("producer", 2);
        block(&mut w, 2, 13, 5, &mut |w| {
            // [1, array char6], [2, vbr6]
            w.emit(2, 5);
            w.vbr(3, 5);
            lit(w, 1);
            kind(w, 3, None);
            kind(w, 1, Some(7));
            w.emit(4, 5);
            w.vbr(2, 6);
            for b in &producer {
                w.emit(*b as u64, 7);
            }
            w.emit(2, 5);
            w.vbr(2, 5);
            lit(w, 2);
            kind(w, 2, Some(6));
            w.emit(5, 5);
            w.vbr(0, 6);
        });
        let triple = ascii("triple", 2);
        let asm = ascii("asm", 2);
        let lib = ascii("library", 2);
        let (attribute, ty, section, gc, place, size) =
            (vs::int("attribute", 4), vs::int("type", 4), vs::int("section", 4), vs::int("collector", 4), vs::int("place", 6), vs::int("size", 5));
        block(&mut w, 2, 8, 3, &mut |w| {
            w.unabbrev(3, 1, &[2]);
            // what is written for types and below comes from here
            block(w, 3, 0, 2, &mut |w| {
                w.unabbrev(2, 1, &[17]);
                w.emit(2, 2);
                w.vbr(2, 5);
                lit(w, 7);
                kind(w, 1, Some(6));
                w.unabbrev(2, 1, &[9]);
                w.emit(2, 2);
                w.vbr(3, 5);
                lit(w, 2);
                kind(w, 3, None);
                kind(w, 2, Some(6));
            });
            block(w, 3, 10, 3, &mut |w| {
                w.unabbrev(3, 3, &[4, 0xffff_ffff, 0, 18]);
                w.unabbrev(3, 3, &[5, 1, 0, 9, 1, 41, 8]);
            });
            block(w, 3, 9, 3, &mut |w| {
                w.emit(4, 3);
                w.vbr(2, 6);
                w.vbr(5, 6);
                w.vbr(4, 6);
                w.unabbrev(3, 2, &[4]);
            });
            block(w, 3, 17, 4, &mut |w| {
                w.unabbrev(4, 1, &[4]);
                w.emit(4, 4);
                w.emit(32, 6);
                w.unabbrev(4, 2, &[]);
                w.unabbrev(4, 21, &[0, 1, 0]);
                w.unabbrev(4, 25, &[0]);
            });
            text(w, 3, 2, &triple);
            text(w, 3, 3, b"e-p:64:64");
            text(w, 3, 4, &asm);
            text(w, 3, 5, b".s");
            text(w, 3, 11, b"gc");
            text(w, 3, 6, &lib);
            // [12, vbr6, vbr6, fixed 3]
            w.emit(2, 3);
            w.vbr(4, 5);
            lit(w, 12);
            kind(w, 2, Some(6));
            kind(w, 2, Some(6));
            kind(w, 1, Some(3));
            w.emit(4, 3);
            w.vbr(0, 6);
            w.vbr(3, 6);
            w.emit(2, 3);
            // a function: every field
            w.emit(3, 3);
            w.vbr(8, 6);
            w.vbr(16, 6);
            let sym = |w: &mut W, v: u64| {
                w.emit(v & 31, 5);
                w.emit(1, 1);
                w.emit(v >> 5, 5);
                w.emit(0, 1);
            };
            for f in [place, size, ty, 0, 0, 3, attribute, 4, section, 0, gc, 1, 0, 0, 1, 0] {
                sym(w, f);
            }
            // constants, metadata kinds and other blocks are passed over
            block(w, 3, 22, 3, &mut |w| w.unabbrev(3, 6, &[0, 100, 98, 103]));
            distraction(w, 3);
            block(w, 3, 14, 4, &mut |w| w.unabbrev(4, 3, &[0, 12]));
        });
        let table = vs::any_vec("table", 5);
        let blob = |w: &mut W, id: u64, t: &[u8]| {
            block(w, 2, id, 3, &mut |w| {
                w.emit(2, 3);
                w.vbr(2, 5);
                lit(w, 1);
                kind(w, 5, None);
                w.emit(4, 3);
                w.vbr(t.len() as u64, 6);
                w.align32();
                for b in t {
                    w.emit(*b as u64, 8);
                }
                w.align32();
            })
        };
        let symbols = vs::any_vec("symbols", 3);
        blob(&mut w, 25, &symbols);
        blob(&mut w, 23, &table);
        let name = |o: u64, s: u64| s > 0 && o < 5 && s <= 5 - o && {
            let (o, s) = (vs::concrete(o) as usize, vs::concrete(s) as usize);
            utf8(&table[o..o + s])
        };
        let good = name(0, 3) && attribute <= 2 && ty == 2 && section <= 1 && gc <= 1 && name(place, size);
        match Bitcode::try_from(&w.buf[..]) {
            Err(_) => {
                vs::reach("file refused");
                vs::check(!good, "a good file is refused");
            }
            Ok(b) => {
                vs::reach("file");
                vs::check(good, "a bad file is accepted");
                vs::check(b.modules.len() == 1, "number of modules");
                let m = &b.modules[0];
                vs::check(same(m.identification.producer.as_bytes(), &producer), "producer");
                vs::check(m.identification.epoch == 0, "epoch");
                vs::check(same(m.module.triple.as_bytes(), &triple), "triple");
                let mut lines = vec![vec![]];
                for c in &asm {
                    let k = lines.len() - 1;
                    if *c == 10 {
                        lines.push(vec![]);
                    } else {
                        lines[k].push(*c);
                    }
                }
                vs::check(m.module.asm.len() == lines.len(), "lines of assembly");
                let mut i = 0;
                while i < lines.len() {
                    vs::check(same(m.module.asm[i].as_bytes(), &lines[i]), "assembly");
                    i += 1;
                }
                vs::check(m.module.deplibs.len() == 1 && same(m.module.deplibs[0].as_bytes(), &lib), "dependent library");
                vs::check(same(m.strtab.as_ref(), &table), "string table");
                vs::check(same_opt(m.symtab.as_ref().map(|s| s.as_ref()), &Some(symbols)), "symbol table");
            }
        }
    }

    // p0..p5: kinds of top-level block (0 identification, 1 module, 2 string table, 3 symbol table,
    // 4 unknown, 50 any of 0..4, 51 any of 0..5, 99 none); p6: 1 with nested blocks; p7: bytes to cut off the end
    fn h_unroll() {
        unroll(false)
    }
    fn h_why_unroll() {
        unroll(true)
    }

    // any bytes after the magic.  p0: bytes; p1: 0 from the bytes, 1 from the stream
    fn h_file_robust() {
        let n = vs::param(0) as usize;
        let mut w = magic();
        w.buf.extend_from_slice(&vs::any_vec("bytes", n));
        let before = vs::allocated();
        let ok = if vs::param(1) == 0 {
            Bitcode::try_from(&w.buf[..]).is_ok()
        } else {
            match Bitstream::from(&w.buf[..]) {
                Ok((_, s)) => Bitcode::try_from(s).is_ok(),
                Err(_) => false,
            }
        };
        vs::check(vs::allocated() - before <= 65536, "memory out of proportion");
        vs::reach(if ok { "read" } else { "refused" });
    }

    // any bytes inside a block of a file that is otherwise good.  p0: id of the
    // block (8 the module itself), p1: bytes
    fn h_file_block_robust() {
        let (id, n) = (vs::param(0), vs::param(1) as usize);
        let junk = vs::any_vec("bytes", n);
        let mut w = magic();
        block(&mut w, 2, 13, 5, &mut |w| {
            w.unabbrev(5, 1, &[76, 76]);
            w.unabbrev(5, 2, &[0]);
        });
        let put = |w: &mut W| {
            for b in &junk {
                w.emit(*b as u64, 8);
            }
        };
        block(&mut w, 2, 8, 3, &mut |w| {
            w.unabbrev(3, 1, &[2]);
            block(w, 3, 14, 4, &mut |_| {});
            if id != 17 {
                block(w, 3, 17, 4, &mut |w| {
                    w.unabbrev(4, 1, &[1]);
                    w.unabbrev(4, 7, &[32]);
                });
            }
            if id == 8 {
                w.align32();
                put(w);
            } else {
                block(w, 3, id, 3, &mut |w| put(w));
            }
        });
        block(&mut w, 2, 23, 3, &mut |w| w.unabbrev(3, 1, &[97, 98]));
        let before = vs::allocated();
        let ok = Bitcode::try_from(&w.buf[..]).is_ok();
        vs::check(vs::allocated() - before <= 65536, "memory out of proportion");
        vs::reach(if ok { "read" } else { "refused" });
    }

    // p0: blocks nested in one another.  They need not be terminated to be entered.
    fn h_file_nesting() {
        let n = vs::param(0) as usize;
        let mut one = W::new();
        one.emit(1, 2);
        one.vbr(60, 8);
        one.vbr(2, 4);
        one.align32();
        one.u32(vs::any_u32("length"));
        let mut b = Vec::with_capacity(8 * n + 4);
        b.extend_from_slice(&[0x42, 0x43, 0xc0, 0xde]);
        let mut i = 0;
        while i < n {
            b.extend_from_slice(&one.buf);
            i += 1;
        }
        vs::reach(if Bitcode::try_from(&b[..]).is_ok() { "read" } else { "refused" });
    }

    // a file with one block whose only record has another code
    fn h_why_file() {
        let at = vs::choose("block", 5);
        let mut code = 0;
        let mut w = magic();
        let put = |w: &mut W, aw: usize, here: u64, good: u64, f: &[u64], code: &mut u64| {
            if here != at {
                return w.unabbrev(aw, good, f);
            }
            w.emit(3, aw);
            *code = w.vbr_sym("code", 6, 1);
            w.vbr(f.len() as u64, 6);
            for x in f {
                w.vbr(*x, 6);
            }
        };
        block(&mut w, 2, 13, 5, &mut |w| {
            put(w, 5, 0, 1, &[97, 98], &mut code);
            put(w, 5, 1, 2, &[1], &mut code);
        });
        block(&mut w, 2, 8, 3, &mut |w| {
            block(w, 3, 17, 4, &mut |w| w.unabbrev(4, 1, &[0]));
            block(w, 3, 14, 4, &mut |_| {});
            put(w, 3, 2, 1, &[2], &mut code);
        });
        block(&mut w, 2, 23, 3, &mut |w| put(w, 3, 3, 1, &[97, 98], &mut code));
        block(&mut w, 2, 25, 3, &mut |w| put(w, 3, 4, 1, &[97, 98], &mut code));
        let good = code == [1, 2, 1, 1, 1][at as usize];
        match Bitcode::try_from(&w.buf[..]) {
            Ok(_) => vs::check(good, "a bad file is accepted"),
            Err(e) => {
                vs::reach("file refused");
                vs::check(!good, "a good file is refused");
                let ok = match e {
                    Error::Map(BlockMapError::Identification(IdentificationError::MissingProducer)) => at == 0,
                    Error::Map(BlockMapError::Identification(IdentificationError::BadProducer)) => at == 1 && code == 1,
                    Error::Map(BlockMapError::Identification(IdentificationError::MissingEpoch)) => at == 1,
                    // whatever else the module's record is then
                    Error::Map(BlockMapError::Module(_)) => at == 2,
                    Error::Map(BlockMapError::Strtab(StrtabError::MissingBlob)) => at == 3,
                    Error::Map(BlockMapError::Symtab(SymtabError::MissingBlob)) => at == 4,
                    _ => false,
                };
                vs::check(ok, "what is wrong with a file");
            }
        }
    }
}
