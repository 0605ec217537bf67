//! Modules, and what arbitrary records and blocks do.
use crate::mapper::*;
use crate::records::*;
use crate::vs;
use llvm_mapper::block::function::FunctionError;
use llvm_mapper::block::{AttributeError, AttributeGroups, BlockId, Module, ModuleError, TypeTable};
use llvm_mapper::map::MapError;
use llvm_mapper::record::RecordStringError;
use llvm_mapper::unroll::{Block, ConsistencyError, Record};
use llvm_support::bitcodes::{IrBlockId, ReservedBlockId};
use llvm_support::Endian;
use std::convert::TryFrom;

/// The codes of the records a module is made of.
const HANDLED: [u64; 10] = [1, 2, 3, 4, 5, 6, 8, 11, 12, 14];

fn texts(t: &[Vec<u64>]) -> Option<Vec<Vec<u8>>> {
    let mut out = Vec::with_capacity(t.len());
    for f in t {
        if f.len() < 2 {
            return None;
        }
        let b = as_bytes(f)?;
        if !utf8(&b) {
            return None;
        }
        out.push(b);
    }
    Some(out)
}

fn same_texts(got: &[String], want: &[Vec<u8>]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < got.len() {
        ok &= same(got[i].as_bytes(), &want[i]);
        i += 1;
    }
    ok
}

fn lines(t: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![Vec::new()];
    for b in t {
        if *b == b'\n' {
            out.push(Vec::new());
        } else {
            let k = out.len() - 1;
            out[k].push(*b);
        }
    }
    out
}

/// A function record whose section, collector, type and name vary.
fn function(section: u64, gc: u64, ty: u64) -> Record {
    rec(8, &[0, 2, ty, 0, 1, 0, 0, 0, section, 0, gc])
}

fn type_block() -> Block {
    Block::verif_new(17, type_records(), vec![])
}

fn module(records: Vec<Record>, mut more: Vec<Block>) -> Block {
    more.push(type_block());
    more.push(Block::verif_new(14, vec![], vec![]));
    Block::verif_new(8, records, more)
}

/// What the records of a module are to say.
#[derive(Default)]
struct Want {
    versions: Vec<Vec<u64>>,
    triples: Vec<Vec<u64>>,
    layouts: Vec<u64>,
    asms: Vec<Vec<u64>>,
    sections: Vec<Vec<u64>>,
    deplibs: Vec<Vec<u64>>,
    gcs: Vec<Vec<u64>>,
    comdats: Vec<[u64; 3]>,
    functions: Vec<[u64; 3]>,
    aliases: Vec<u64>,
}

impl Want {
    fn add(&mut self, kind: u64, m: usize) -> Record {
        let keep = |code: u64, to: &mut Vec<Vec<u64>>| {
            let f = words("text", m);
            to.push(f.clone());
            Record::verif_new(code, f)
        };
        match kind {
            0 => {
                let n = vs::choose("fields", 3) as usize;
                let f = words("version", n);
                self.versions.push(f.clone());
                Record::verif_new(1, f)
            }
            1 => keep(2, &mut self.triples),
            2 => {
                let k = vs::choose("layout", 4);
                self.layouts.push(k);
                text_rec(3, match k {
                    0 => b"e-S64",
                    1 => b"E-S128",
                    2 => b"e-p1:64:64-A5",
                    _ => b"e-Sx",
                })
            }
            3 => keep(4, &mut self.asms),
            4 => keep(5, &mut self.sections),
            5 => keep(6, &mut self.deplibs),
            6 => keep(11, &mut self.gcs),
            7 => {
                let f = [vs::any_u64("offset"), vs::any_u64("size"), vs::range("selection", 1, 5)];
                self.comdats.push(f);
                rec(12, &f)
            }
            8 => {
                let f = [vs::any_u64("section"), vs::any_u64("collector"), vs::any_u64("type")];
                self.functions.push(f);
                function(f[0], f[1], f[2])
            }
            9 => {
                let t = vs::any_u64("type");
                self.aliases.push(t);
                rec(14, &[0, 2, t, 0, 0, 0])
            }
            _ => {
                // not part of what a module is mapped to
                let code = vs::any_u64("code");
                for h in HANDLED {
                    vs::assume(code != h);
                }
                Record::verif_new(code, words("field", m))
            }
        }
    }

    /// Is there a module with these records?
    fn good(&self) -> bool {
        if self.versions.len() != 1 || self.versions[0].is_empty() || self.triples.len() > 1 || self.layouts.len() > 1 || self.asms.len() > 1 {
            return false;
        }
        if self.layouts.len() == 1 && self.layouts[0] == 3 {
            return false;
        }
        let v2 = self.versions[0][0] >= 2;
        if !v2 && !(self.comdats.is_empty() && self.functions.is_empty() && self.aliases.is_empty()) {
            return false;
        }
        for t in [&self.triples, &self.asms, &self.sections, &self.deplibs, &self.gcs] {
            if texts(t).is_none() {
                return false;
            }
        }
        for c in &self.comdats {
            if name_at(c[0], c[1]).is_none() {
                return false;
            }
        }
        for f in &self.functions {
            if f[0] > self.sections.len() as u64 || f[1] > self.gcs.len() as u64 || !is_function(f[2]) {
                return false;
            }
        }
        for t in &self.aliases {
            if *t >= 5 {
                return false;
            }
        }
        true
    }
}

/// What else a module is made of.
#[derive(Default)]
struct Around {
    types: u64,
    groups: u64,
    attrs: u64,
    functions: u64,
    /// a list of attributes names a group that there is none of
    missing: bool,
    /// the attributes of its function
    attribute: u64,
}

fn text_why(e: &RecordStringError, tables: &[&Vec<Vec<u64>>]) -> bool {
    let mut ok = false;
    for t in tables {
        for f in t.iter() {
            let b = as_bytes(f);
            ok |= match e {
                RecordStringError::BadIndex(i, n) => *i == 0 && f.len() < 2 && *n == f.len(),
                RecordStringError::BadCharacter(_) => f.len() > 1 && b.is_none(),
                RecordStringError::BadEncoding(_) => f.len() > 1 && b.map_or(false, |b| !utf8(&b)),
                _ => false,
            };
        }
    }
    ok
}

fn module_why(e: &ModuleError, w: &Want, x: &Around) {
    let version = w.versions.first().and_then(|f| f.first().copied());
    let v = version.unwrap_or(0);
    match e {
        ModuleError::MissingVersion => vs::check(w.versions.len() == 1 && version.is_none(), "a version that is there is called missing"),
        ModuleError::Map(MapError::Inconsistent(ConsistencyError::MissingRecord(c))) => vs::check(*c == 1 && w.versions.is_empty(), "a record that is there is called missing"),
        ModuleError::Map(MapError::Inconsistent(ConsistencyError::TooManyRecords(c))) => {
            let n = match *c {
                1 => w.versions.len(),
                2 => w.triples.len(),
                3 => w.layouts.len(),
                4 => w.asms.len(),
                _ => 0,
            };
            vs::check(n > 1, "a single record is called too many");
        }
        ModuleError::Map(MapError::Inconsistent(ConsistencyError::MissingBlock(id))) => {
            vs::check(*id == BlockId::Ir(IrBlockId::Type) && x.types == 0, "a block that is there is called missing");
        }
        ModuleError::Map(MapError::Inconsistent(ConsistencyError::TooManyBlocks(id))) => {
            let n = match id {
                BlockId::Ir(IrBlockId::Type) => x.types,
                BlockId::Ir(IrBlockId::ParamAttrGroup) => x.groups,
                BlockId::Ir(IrBlockId::ParamAttr) => x.attrs,
                _ => 0,
            };
            vs::check(n > 1, "a single block is called too many");
        }
        ModuleError::Map(MapError::RecordString(e)) => {
            vs::check(text_why(e, &[&w.triples, &w.asms, &w.sections, &w.deplibs, &w.gcs]), "a good text is called bad");
        }
        ModuleError::DataLayoutRecord(_) => vs::check(w.layouts.contains(&3), "a good datalayout is called bad"),
        ModuleError::AttributeBlock(AttributeError::BadAttributeGroup(g)) => {
            vs::check(x.attrs > 0 && (x.missing || x.groups == 0), "a good attribute block is called bad");
            vs::check(x.groups == 0 || *g != 9, "a group that is there is called unknown");
        }
        ModuleError::ComdatRecord(e) => {
            for c in &w.comdats {
                if v < 2 || name_at(c[0], c[1]).is_none() {
                    return comdat_why(e, c, version);
                }
            }
            vs::fail("a good COMDAT record is called bad");
        }
        ModuleError::FunctionRecord(e) => {
            for f in &w.functions {
                if v < 2 || f[0] > w.sections.len() as u64 || f[1] > w.gcs.len() as u64 || !is_function(f[2]) || x.attribute > x.attrs {
                    let r = [0, 2, f[2], 0, 1, 0, x.attribute, 0, f[0], 0, f[1]];
                    return function_why(e, &r, v, x.attrs, w.sections.len(), w.gcs.len());
                }
            }
            vs::fail("a good function record is called bad");
        }
        ModuleError::Alias(e) => {
            for t in &w.aliases {
                if v < 2 || *t >= 5 {
                    return alias_why(e, &[0, 2, *t, 0, 0, 0], v);
                }
            }
            vs::fail("a good alias record is called bad");
        }
        ModuleError::FunctionBlock(e) => {
            vs::check(x.functions > 0, "a function body that is not there is called bad");
            vs::check(matches!(e, FunctionError::Map(MapError::Unsupported(_))), "what is wrong with a function body");
        }
        _ => vs::fail("an error that is none of this module"),
    }
}

fn decide(w: &Want, block: &Block, good: bool, why: Option<Around>) {
    let mut seen = false;
    let got = Module::verif_map(block, strtab(), |ctx| {
        seen = true;
        if !good {
            return;
        }
        vs::check(ctx.version == w.versions[0][0], "version");
        vs::check(same_texts(ctx.section_table, &texts(&w.sections).unwrap_or_default()), "section names");
        vs::check(same_texts(ctx.gc_table, &texts(&w.gcs).unwrap_or_default()), "collector names");
        vs::check(same(ctx.strtab.as_ref(), TEXT), "string table");
        vs::check(ctx.type_table.verif_get(4).is_some() && ctx.type_table.verif_get(5).is_none(), "types");
        vs::check(ctx.comdats.len() == w.comdats.len(), "number of COMDATs");
        let mut i = 0;
        while i < w.comdats.len() {
            let c = w.comdats[i];
            vs::check(same(ctx.comdats[i].name.as_bytes(), name_at(c[0], c[1]).unwrap_or(b"")), "COMDAT name");
            vs::check(crate::records::selection(&ctx.comdats[i]) == c[2], "COMDAT selection kind");
            i += 1;
        }
        if w.layouts.len() == 1 {
            let k = w.layouts[0];
            vs::check((ctx.datalayout.endianness == Endian::Little) == (k != 1), "endianness");
            let s = ctx.datalayout.natural_stack_alignment.map(|a| a.byte_align());
            vs::check(s == [Some(8), Some(16), None][k as usize], "stack alignment");
            vs::check((ctx.datalayout.alloca_address_space != Default::default()) == (k == 2), "alloca address space");
        } else {
            vs::check(ctx.datalayout.natural_stack_alignment.is_none(), "no stack alignment");
        }
    });
    match got {
        Err(e) => {
            vs::reach("module refused");
            if let Some(x) = why {
                module_why(&e, w, &x);
            }
            vs::check(!good, "a good module is refused");
        }
        Ok(m) => {
            vs::reach("module");
            vs::check(good, "a bad module is accepted");
            vs::check(seen, "no context");
            if w.triples.len() == 1 {
                vs::check(same_texts(&[m.triple], &texts(&w.triples).unwrap_or_default()), "triple");
            }
            match texts(&w.asms) {
                Some(t) if t.len() == 1 => vs::check(same_texts(&m.asm, &lines(&t[0])), "assembly lines"),
                _ => vs::check(m.asm.is_empty(), "no assembly"),
            }
            vs::check(same_texts(&m.deplibs, &texts(&w.deplibs).unwrap_or_default()), "dependent libraries");
        }
    }
}

fn module_records(why: bool) {
    let m = vs::param(4) as usize;
    let mut w = Want::default();
    let mut records = Vec::new();
    let mut i = 0;
    while i < 4 {
        let k = vs::param(i);
        if k != 99 {
            let k = if k == 50 { vs::choose("kind", 11) } else { k };
            records.push(w.add(k, m));
        }
        i += 1;
    }
    if vs::param(5) == 0 {
        w.versions.push(vec![2]);
        records.push(rec(1, &[2]));
    }
    let good = w.good();
    decide(&w, &module(records, vec![]), good, if why { Some(Around { types: 1, ..Around::default() }) } else { None });
}

fn module_blocks(why: bool) {
    let n = vs::param(0);
    let mut w = Want::default();
    w.versions.push(vec![2]);
    let (mut types, mut groups, mut attrs, mut functions) = (0, 0, 0, 0);
    let mut missing = false;
    let mut blocks = Vec::new();
    let mut i = 0;
    while i < n {
        match vs::choose("block", 5) {
            0 => {
                types += 1;
                blocks.push(type_block());
            }
            1 => {
                groups += 1;
                blocks.push(Block::verif_new(10, vec![rec(3, &[9, 1, 1, 41, 100])], vec![]));
            }
            2 => {
                attrs += 1;
                let g = vs::any_u32("group") as u64;
                missing |= g != 9;
                blocks.push(Block::verif_new(9, vec![rec(2, &[g])], vec![]));
            }
            3 => {
                // a block that means nothing here, with records that would
                let id = vs::any_u64("id");
                for h in [9, 10, 12, 14, 17] {
                    vs::assume(id != h);
                }
                let inner = vec![text_rec(2, b"triple"), rec(1, &[7]), rec(12, &[0, 0, 0])];
                blocks.push(Block::verif_new(id, inner, vec![type_block()]));
            }
            _ => {
                functions += 1;
                blocks.push(Block::verif_new(12, vec![rec(1, &[1])], vec![]));
            }
        }
        i += 1;
    }
    blocks.push(Block::verif_new(14, vec![], vec![]));
    let attribute = vs::any_u64("attribute");
    let triple = vec![b'x' as u64, b'y' as u64];
    w.triples.push(triple.clone());
    let records = vec![rec(1, &[2]), rec(8, &[0, 2, 2, 0, 1, 0, attribute, 0, 0, 0]), Record::verif_new(2, triple)];
    // function bodies are not supported
    let good = types == 1 && groups <= 1 && attrs <= 1 && functions == 0 && (attrs == 0 || (groups == 1 && !missing)) && attribute <= attrs;
    w.functions.push([0, 0, 2]);
    let around = Around { types, groups, attrs, functions, missing, attribute };
    decide(&w, &Block::verif_new(8, records, blocks), good, if why { Some(around) } else { None });
}

/// A module with p0 of each of its tables, and one reference into one of them.
fn module_many(why: bool) {
    let n = vs::param(0);
    let mut w = Want::default();
    w.versions.push(vec![2]);
    let mut records = vec![rec(1, &[2])];
    let mut i = 0;
    while i < n {
        let t = |a: u64| vec![97 + i % 26, 97 + i / 26 % 26, 97 + a];
        for (code, a) in [(5, 0), (11, 1), (6, 2)] {
            let mut f = t(a);
            if (i == 0 || i == 255 || i + 1 == n) && code == 6 {
                f[0] = vs::int("letter", 7);
            }
            records.push(Record::verif_new(code, f.clone()));
            match code {
                5 => w.sections.push(f),
                11 => w.gcs.push(f),
                _ => w.deplibs.push(f),
            }
        }
        let c = [i % 2, 2 - i % 2, 1 + i % 5];
        records.push(rec(12, &c));
        w.comdats.push(c);
        i += 1;
    }
    let at = [0, 1, 2, 255, 256, 257, n, n + 1, n + 256, 1 << 32, (1 << 32) + 1];
    let k = at[vs::choose("index", 11) as usize];
    let f = if vs::choose("table", 2) == 0 { [k, n, 2] } else { [n, k, 4] };
    records.push(function(f[0], f[1], f[2]));
    w.functions.push(f);
    let good = w.good();
    decide(&w, &module(records, vec![]), good, if why { Some(Around { types: 1, ..Around::default() }) } else { None });
}

harnesses! {
    // p0: entries in each table
    fn h_module_many() {
        module_many(false)
    }
    fn h_why_module_many() {
        module_many(true)
    }

    // the record of a data layout: p0 fields of 9 bits behind p1 and a bar
    fn h_layout_record() {
        let n = vs::param(0) as usize;
        let mut f: Vec<u64> = Vec::new();
        if vs::param(1) == 1 {
            f.extend(b"e-m:e-p:32:32-i64:64-n8:16:32-".iter().map(|b| *b as u64));
        }
        f.extend((0..n).map(|_| vs::int("field", 9)));
        let mut record = rec(3, &f);
        // it is the text that counts, not where it is
        if vs::param(1) == 2 {
            f = b"E-p1:64:64:64:32-S32-A5-ni:1:2".iter().map(|b| *b as u64).collect();
            let at = vs::choose("at", f.len() as u64) as usize;
            f[at] = vs::int("field", 9);
            record = rec(3, &f);
        }
        let block = module(vec![rec(1, &[2]), record], vec![]);
        let mut seen = false;
        let text = texts(&[f]);
        let ok = Module::verif_map(&block, strtab(), |ctx| {
            seen = true;
            match &text {
                Some(t) => crate::layout::judge(&t[0], Some(&ctx.datalayout)),
                None => vs::fail("a layout that is no text is accepted"),
            }
        });
        if ok.is_err() && !seen {
            match &text {
                Some(t) => crate::layout::judge(&t[0], None),
                None => vs::reach("bad layout"),
            }
        }
    }

    // texts of p0 fields and as many lines, one of them arbitrary
    fn h_module_long() {
        let n = vs::param(0);
        let mut w = Want::default();
        w.versions.push(vec![2]);
        let mut records = vec![rec(1, &[2])];
        let at = [0, 1, 127, 128, 255, 256, n - 1][vs::choose("at", 7) as usize];
        let odd = vs::choose("text", 5);
        let mut k = 0;
        for code in [2, 4, 5, 6, 11] {
            let mut f = Vec::new();
            let mut i = 0;
            while i < n {
                f.push(if i == at && k == odd {
                    vs::int("letter", 9)
                } else if code == 4 && i % 2 == 1 {
                    10
                } else {
                    97 + i % 26
                });
                i += 1;
            }
            records.push(Record::verif_new(code, f.clone()));
            match code {
                2 => w.triples.push(f),
                4 => w.asms.push(f),
                5 => w.sections.push(f),
                6 => w.deplibs.push(f),
                _ => w.gcs.push(f),
            }
            k += 1;
        }
        let good = w.good();
        decide(&w, &module(records, vec![]), good, None);
    }

    // p0..p3: kinds of record (50 any, 99 none); p4: fields of texts; p5: 1 without the version that is otherwise there
    fn h_module_records() {
        module_records(false)
    }
    fn h_why_module_records() {
        module_records(true)
    }

    // which blocks a module has.  p0: blocks besides its value symbols
    fn h_module_blocks() {
        module_blocks(false)
    }
    fn h_why_module_blocks() {
        module_blocks(true)
    }

    fn h_block_ids() {
        let v = vs::any_u64("id");
        match BlockId::from(v) {
            BlockId::Reserved(r) => vs::check(v < 8 && r as u64 == v, "reserved block id"),
            BlockId::Ir(i) => vs::check(v >= 8 && i as u64 == v, "IR block id"),
            BlockId::Unknown(u) => vs::check(u == v && v > 26, "unknown block id"),
        }
        if v <= 7 {
            vs::reach("reserved");
            vs::check(BlockId::from(v) == BlockId::Reserved(match ReservedBlockId::try_from(v) {
                Ok(r) => r,
                Err(_) => vs::fail("reserved block id"),
            }), "reserved block id");
        }
        if let Ok(i) = IrBlockId::try_from(v) {
            vs::reach("IR");
            vs::check(BlockId::from(v) == BlockId::Ir(i), "IR block id");
        } else if v > 7 {
            vs::reach("unknown");
            vs::check(BlockId::from(v) == BlockId::Unknown(v), "unknown block id");
        }
    }

    // whatever a module contains, mapping it ends.  p0: records, p1: fields of
    // each, p2: block ids at the end (99: none), p3: their records, p4: fields of those
    fn h_module_robust() {
        let mut records = vec![rec(1, &[vs::any_u64("version")]), text_rec(5, b"section"), text_rec(11, b"gc")];
        let mut i = 0;
        while i < vs::param(0) {
            let n = vs::choose("fields", vs::param(1) + 1) as usize;
            records.push(Record::verif_new(vs::any_u64("code"), words("field", n)));
            i += 1;
        }
        let id = vs::param(2);
        let mut blocks = Vec::new();
        if id != 99 {
            blocks.push(any_block(id, vs::param(3), vs::param(4)));
        }
        if id != 17 {
            blocks.push(type_block());
        }
        if id != 14 {
            blocks.push(Block::verif_new(14, vec![], vec![]));
        }
        let block = Block::verif_new(8, records, blocks);
        let table = strtab();
        let before = vs::allocated();
        let got = Module::verif_map(&block, table, |_| {});
        vs::check(vs::allocated() - before <= 65536, "memory out of proportion");
        match got {
            Ok(_) => {
                vs::reach("mapped");
                vs::check(id != 12, "function bodies are refused");
            }
            Err(_) => vs::reach("refused"),
        }
    }

    // p0: block id; p1: records; p2: fields of each
    fn h_block_robust() {
        let b = any_block(vs::param(0), vs::param(1), vs::param(2));
        let ok = match vs::param(0) {
            17 => TypeTable::try_from(&b).is_ok(),
            10 => AttributeGroups::try_from(&b).is_ok(),
            _ => llvm_mapper::block::Identification::try_from(&b).is_ok(),
        };
        vs::reach(if ok { "mapped" } else { "refused" });
    }

    // a body of one instruction after its block count, of every code.  p0: fields
    fn h_function_body() {
        let n = vs::param(0) as usize;
        let code = vs::any_u64("code");
        let f = words("field", n);
        let body = vec![rec(1, &[vs::any_u64("blocks")]), Record::verif_new(code, f)];
        let records = vec![rec(1, &[2])];
        match Module::verif_map(&module(records, vec![Block::verif_new(12, body, vec![])]), strtab(), |_| {}) {
            Ok(_) => vs::fail("function bodies are refused"),
            Err(_) => vs::reach("refused"),
        }
    }
}

fn any_block(id: u64, n: u64, m: u64) -> Block {
    let mut r = Vec::new();
    if id == 12 {
        r.push(rec(1, &[vs::any_u64("blocks")]));
    }
    let mut i = 0;
    while i < n {
        let k = vs::choose("fields", m + 1) as usize;
        r.push(Record::verif_new(vs::any_u64("code"), words("field", k)));
        i += 1;
    }
    Block::verif_new(id, r, vec![])
}
