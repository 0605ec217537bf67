//! Function, alias and COMDAT records, modules, and what arbitrary records do.
use crate::mapper::*;
use crate::vs;
use llvm_mapper::block::{AttributeGroups, Attributes, Strtab, StrtabError, TypeTable};
use llvm_mapper::map::{MapCtx, MapCtxError, MapError};
use llvm_mapper::record::{Alias, AliasError, Comdat, ComdatError, DataLayout, Function, FunctionError, SelectionKind};
use llvm_mapper::unroll::{Block, Record};
use llvm_support::*;
use std::convert::TryFrom;

/// The string table of these harnesses; its `é` can be cut in half.
pub const TEXT: &[u8] = b"ab\xc3\xa9c";

pub fn strtab() -> Strtab {
    match Strtab::try_from(&Block::verif_new(23, vec![text_rec(1, TEXT)], vec![])) {
        Ok(t) => t,
        Err(_) => vs::fail("string table refused"),
    }
}

/// The name a reference means (M02 decides arbitrary tables).
pub fn name_at(o: u64, s: u64) -> Option<&'static [u8]> {
    let n = TEXT.len() as u64;
    if s == 0 || o >= n || s > n - o {
        return None;
    }
    let (o, s) = (vs::concrete(o) as usize, vs::concrete(s) as usize);
    let t = &TEXT[o..o + s];
    if utf8(t) {
        Some(t)
    } else {
        None
    }
}

/// i32, void (), label, i32 (i32, ...)
pub fn type_records() -> Vec<Record> {
    vec![
        rec(1, &[5]),
        rec(7, &[32]),
        rec(2, &[]),
        rec(21, &[0, 1]),
        rec(5, &[]),
        rec(21, &[1, 0, 0]),
    ]
}

pub fn is_function(t: u64) -> bool {
    t == 2 || t == 4
}

pub struct Ctx {
    pub layout: DataLayout,
    pub sections: Vec<String>,
    pub gcs: Vec<String>,
    pub strtab: Strtab,
    pub groups: AttributeGroups,
    pub attributes: Attributes,
    pub types: TypeTable,
}

pub fn context() -> Ctx {
    let group = || match AttributeGroups::try_from(&Block::verif_new(
        10,
        vec![rec(3, &[9, 1, 1, 41, 100]), rec(3, &[8, 2, 1, 41, 101])],
        vec![],
    )) {
        Ok(g) => g,
        Err(_) => vs::fail("groups refused"),
    };
    let attributes = match Attributes::verif_map(&Block::verif_new(9, vec![rec(2, &[9]), rec(2, &[8, 9])], vec![]), group()) {
        Ok(a) => a,
        Err(_) => vs::fail("attributes refused"),
    };
    let types = match TypeTable::try_from(&Block::verif_new(17, type_records(), vec![])) {
        Ok(t) => t,
        Err(_) => vs::fail("types refused"),
    };
    Ctx {
        layout: DataLayout::default(),
        sections: vec!["one".into(), "two!".into()],
        gcs: vec!["gc".into(), "gcgc".into(), "x".into()],
        strtab: strtab(),
        groups: group(),
        attributes,
        types,
    }
}

impl Ctx {
    pub fn map(&self, version: u64) -> MapCtx<'_> {
        MapCtx::verif_new(
            version,
            &self.layout,
            &self.sections,
            &self.gcs,
            &self.strtab,
            &self.groups,
            &self.attributes,
            &self.types,
            &[],
        )
    }
}

/// Field `i`: arbitrary if it is one of those the run varies, else `v`.
fn vary(mask: u64, i: usize, v: u64) -> u64 {
    if mask >> i & 1 == 1 {
        vs::any_u64("field")
    } else {
        v
    }
}

/// Does a one-based reference into a table of texts say `got`?
fn text_ref(got: Option<&str>, v: u64, table: &[String]) -> bool {
    match got {
        None => v == 0,
        Some(g) => {
            if v == 0 || v > table.len() as u64 {
                return false;
            }
            let mut ok = false;
            let mut i = 0;
            while i < table.len() {
                ok |= v == i as u64 + 1 && same(g.as_bytes(), table[i].as_bytes());
                i += 1;
            }
            ok
        }
    }
}

fn good_or_absent(f: &[u64], i: usize, good: impl Fn(u64) -> bool) -> bool {
    i >= f.len() || good(f[i])
}

pub fn selection(c: &Comdat) -> u64 {
    match c.selection_kind {
        SelectionKind::Any => 1,
        SelectionKind::ExactMatch => 2,
        SelectionKind::Largest => 3,
        SelectionKind::NoDeduplicate => 4,
        SelectionKind::SameSize => 5,
        _ => 0,
    }
}

/// Is a string table error about this reference?
pub fn strtab_why(e: &StrtabError, o: u64, s: u64) {
    let n = TEXT.len() as u64;
    let inside = s > 0 && o < n && s <= n - o;
    match e {
        StrtabError::BadRange => vs::check(!inside, "a good reference is called outside the string table"),
        StrtabError::BadString(_) => vs::check(inside && name_at(o, s).is_none(), "a good name is called no UTF-8"),
        _ => vs::fail("not an error of a reference into the string table"),
    }
}

/// `lists`, `sections` and `gcs`: how many there are.
pub fn function_why(e: &FunctionError, f: &[u64], version: u64, lists: u64, sections: usize, gcs: usize) {
    match e {
        FunctionError::V1Unsupported => vs::check(version < 2, "a record of a new format is called old"),
        FunctionError::TooShort(n) => vs::check(*n == f.len() && f.len() < 10, "a long record is called short"),
        _ if f.len() < 10 || version < 2 => vs::fail("an error about fields that are not there"),
        FunctionError::Strtab(e) => strtab_why(e, f[0], f[1]),
        FunctionError::TypeId(t) => vs::check(*t == f[2] && *t >= 5, "a type that is there is called unknown"),
        FunctionError::Type => vs::check(f[2] < 5 && !is_function(f[2]), "a function type is called none"),
        FunctionError::CallingConvention(n) => vs::check(n.number == f[3] && CallingConvention::try_from(f[3]).is_err(), "a known calling convention is called unknown"),
        FunctionError::Attribute(n) => vs::check(*n == f[6] && *n > lists, "an attribute list that is there is called unknown"),
        FunctionError::Alignment(_) => vs::check(f[7] > 64, "a good alignment is called invalid"),
        // sections and collectors are counted from 1 in records, from 0 in errors
        FunctionError::Section(n) => vs::check(*n as u64 == f[8].wrapping_sub(1) && *n >= sections, "a section that is there is called unknown"),
        FunctionError::Visibility(n) => vs::check(n.number == f[9] && Visibility::try_from(f[9]).is_err(), "a known visibility is called unknown"),
        FunctionError::Gc(n) => vs::check(f.len() > 10 && *n as u64 == f[10].wrapping_sub(1) && *n >= gcs, "a collector that is there is called unknown"),
        FunctionError::DllStorageClass(n) => vs::check(f.len() > 13 && n.number == f[13] && DllStorageClass::try_from(f[13]).is_err(), "a known storage class is called unknown"),
    }
}

pub fn alias_why(e: &AliasError, f: &[u64], version: u64) {
    match e {
        AliasError::V1Unsupported => vs::check(version < 2, "a record of a new format is called old"),
        AliasError::TooShort(n) => vs::check(*n == f.len() && f.len() < 6, "a long record is called short"),
        _ if f.len() < 6 || version < 2 => vs::fail("an error about fields that are not there"),
        AliasError::Strtab(e) => strtab_why(e, f[0], f[1]),
        AliasError::Type(t) => vs::check(*t == f[2] && *t >= 5, "a type that is there is called unknown"),
        AliasError::Visibility(n) => vs::check(f.len() > 6 && n.number == f[6] && Visibility::try_from(f[6]).is_err(), "a known visibility is called unknown"),
        AliasError::DllStorageClass(n) => vs::check(f.len() > 7 && n.number == f[7] && DllStorageClass::try_from(f[7]).is_err(), "a known storage class is called unknown"),
    }
}

pub fn comdat_why(e: &ComdatError, f: &[u64], version: Option<u64>) {
    match e {
        ComdatError::Map(MapError::Context(MapCtxError::NoVersion)) => vs::check(version.is_none(), "a version that is there is called missing"),
        ComdatError::V1Unsupported => vs::check(version.is_some() && version < Some(2), "a record of a new format is called old"),
        // LLVM ignores what follows the third field
        ComdatError::TooShort(n) => vs::check(*n == f.len() && f.len() != 3, "a long record is called short"),
        _ if f.len() < 3 || version < Some(2) => vs::fail("an error about fields that are not there"),
        ComdatError::Name(e) => strtab_why(e, f[0], f[1]),
        ComdatError::SelectionKind(n) => vs::check(n.number == f[2] && (f[2] == 0 || f[2] > 5), "a known selection kind is called unknown"),
        _ => vs::fail("an error that is none of a COMDAT record"),
    }
}

// p0: fields, p1: mask of the arbitrary ones, p2: 1 any version
fn function_record(why: bool) {
    let n = vs::param(0) as usize;
    let mask = vs::param(1);
    let version = if vs::param(2) == 1 { vs::any_u64("version") } else { 2 };
    let base = [0, 2, 2, 8, 1, 3, 1, 5, 2, 1, 3, 2, 7, 1, 9, 9, 9, 1, 0, 77];
    let mut f = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        f.push(vary(mask, i, base[i]));
        i += 1;
    }
    let c = context();
    let m = c.map(version);
    let record = Record::verif_new(8, f.clone());
    let got = Function::verif_map(&record, &m);
    let mut ok = version >= 2 && n >= 10;
    let mut name = None;
    if ok {
        name = name_at(f[0], f[1]);
        ok = name.is_some()
            && is_function(f[2])
            && CallingConvention::try_from(f[3]).is_ok()
            && f[6] <= 2
            && f[7] <= 64
            && f[8] <= c.sections.len() as u64
            && Visibility::try_from(f[9]).is_ok()
            && good_or_absent(&f, 10, |v| v <= c.gcs.len() as u64)
            && good_or_absent(&f, 13, |v| DllStorageClass::try_from(v).is_ok());
    }
    match got {
        Err(e) => {
            vs::reach("function refused");
            if why {
                function_why(&e, &f, version, 2, c.sections.len(), c.gcs.len());
            }
            vs::check(!ok, "a good function record is refused");
        }
        Ok(g) => {
            vs::reach("function");
            vs::check(ok, "a bad function record is accepted");
            vs::check(name.is_some() && same(g.name.as_bytes(), name.unwrap_or(b"")), "name");
            match c.types.verif_get(vs::concrete(f[2])) {
                Some(Type::Function(t)) => vs::check(*t == *g.ty, "type"),
                _ => vs::fail("type"),
            }
            vs::check(CallingConvention::try_from(f[3]).ok() == Some(g.calling_convention), "calling convention");
            vs::check(g.is_declaration == (f[4] != 0), "declaration");
            vs::check(g.linkage == Linkage::from(f[5]), "linkage");
            match g.attributes {
                None => vs::check(f[6] == 0, "attributes"),
                Some(a) => {
                    let gs = a.verif_groups();
                    vs::check(f[6] as usize == gs.len(), "attributes");
                    let last = gs.len() - 1;
                    vs::check(gs[last].attributes.len() == 1 && attr_is(&gs[last].attributes[0], &RefAttr::Int(41, 100)), "attributes");
                }
            }
            vs::check(align_is(&g.alignment, f[7]), "alignment");
            vs::check(text_ref(g.section, f[8], &c.sections), "section");
            vs::check(Visibility::try_from(f[9]).ok() == Some(g.visibility), "visibility");
            vs::check(text_ref(g.gc_name, if n > 10 { f[10] } else { 0 }, &c.gcs), "garbage collector");
            let u = if n > 11 { UnnamedAddr::from(f[11]) } else { UnnamedAddr::None };
            vs::check(g.unnamed_addr == u, "unnamed_addr");
            let d = if n > 13 { DllStorageClass::try_from(f[13]).ok() } else { Some(DllStorageClass::Default) };
            vs::check(d == Some(g.storage_class), "storage class");
        }
    }
}

// p0: fields, p1: mask of the arbitrary ones, p2: 1 any version
fn alias_record(why: bool) {
    let n = vs::param(0) as usize;
    let mask = vs::param(1);
    let version = if vs::param(2) == 1 { vs::any_u64("version") } else { 2 };
    let base = [1, 3, 3, 6, 7, 3, 1, 2, 3, 2, 1, 0, 0];
    let mut f = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        f.push(vary(mask, i, base[i]));
        i += 1;
    }
    let c = context();
    let m = c.map(version);
    let record = Record::verif_new(14, f.clone());
    let got = Alias::verif_map(&record, &m);
    let mut ok = version >= 2 && n >= 6;
    let mut name = None;
    if ok {
        name = name_at(f[0], f[1]);
        ok = name.is_some()
            && f[2] < 5
            && good_or_absent(&f, 6, |v| Visibility::try_from(v).is_ok())
            && good_or_absent(&f, 7, |v| DllStorageClass::try_from(v).is_ok());
    }
    match got {
        Err(e) => {
            vs::reach("alias refused");
            if why {
                alias_why(&e, &f, version);
            }
            vs::check(!ok, "a good alias record is refused");
        }
        Ok(g) => {
            vs::reach("alias");
            vs::check(ok, "a bad alias record is accepted");
            vs::check(name.is_some() && same(g.name.as_bytes(), name.unwrap_or(b"")), "name");
            vs::check(c.types.verif_get(vs::concrete(f[2])) == Some(g.ty), "type");
            vs::check(g.value_index == f[4], "aliasee");
            vs::check(g.linkage == Linkage::from(f[5]), "linkage");
            let v = if n > 6 { Visibility::try_from(f[6]).ok() } else { Some(Visibility::Default) };
            vs::check(v == Some(g.visibility), "visibility");
            let d = if n > 7 { DllStorageClass::try_from(f[7]).ok() } else { Some(DllStorageClass::Default) };
            vs::check(d == Some(g.storage_class), "storage class");
            let t = if n > 8 { ThreadLocalMode::from(f[8]) } else { ThreadLocalMode::NotThreadLocal };
            vs::check(g.tls_mode == t, "thread-local mode");
            let u = if n > 9 { UnnamedAddr::from(f[9]) } else { UnnamedAddr::None };
            vs::check(g.unnamed_addr == u, "unnamed_addr");
            let p = if n > 10 { RuntimePreemption::from(f[10]) } else { RuntimePreemption::DsoPreemptable };
            vs::check(g.preemption_specifier == p, "preemption");
        }
    }
}

// p0: fields
fn comdat_record(why: bool) {
    let n = vs::param(0) as usize;
    let f = words("field", n);
    let have = vs::any_bool("versioned");
    let version = vs::any_u64("version");
    let got = Comdat::verif_map(&Record::verif_new(12, f.clone()), if have { Some(version) } else { None }, strtab());
    let name = if n >= 3 { name_at(f[0], f[1]) } else { None };
    let v2 = have && version >= 2;
    match got {
        Ok(c) => {
            vs::reach("comdat");
            vs::check(v2 && n >= 3, "accepted");
            vs::check(name.is_some() && same(c.name.as_bytes(), name.unwrap_or(b"")), "name");
            let k = selection(&c);
            // LLVM takes unknown kinds for Any
            vs::check(k == f[2] || (k == 1 && (f[2] == 0 || f[2] > 5)), "selection kind");
        }
        Err(e) => {
            vs::reach("comdat refused");
            if why {
                comdat_why(&e, &f, if have { Some(version) } else { None });
            }
            vs::check(!(v2 && n == 3 && name.is_some() && f[2] >= 1 && f[2] <= 5), "a good COMDAT record is refused");
        }
    }
}
harnesses! {
    fn h_function_record() {
        function_record(false)
    }
    fn h_alias_record() {
        alias_record(false)
    }
    fn h_comdat_record() {
        comdat_record(false)
    }
    // the same, and what errors say
    fn h_function_why() {
        function_record(true)
    }
    fn h_alias_why() {
        alias_record(true)
    }
    fn h_comdat_why() {
        comdat_record(true)
    }
}
