//! Records, string tables, small blocks and attributes.
use crate::vs;
use llvm_mapper::block::*;
use llvm_mapper::map::MapError;
use llvm_mapper::record::{RecordBlobError, RecordStringError};
use llvm_mapper::unroll::{Block, Record};
use llvm_support::bitcodes::AttributeCode;
use llvm_support::{AttributeId, StrtabRef};
use std::convert::TryFrom;

pub fn rec(code: u64, fields: &[u64]) -> Record {
    Record::verif_new(code, fields.to_vec())
}

/// A record holding a text from its field 0 on.
pub fn text_rec(code: u64, text: &[u8]) -> Record {
    Record::verif_new(code, text.iter().map(|b| *b as u64).collect())
}

pub fn words(name: &'static str, n: usize) -> Vec<u64> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(vs::any_u64(name));
        i += 1;
    }
    v
}

/// Well-formed UTF-8, after table 3-7 of the Unicode standard.
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = if c < 0x80 {
            (0, 0, 0)
        } else if c >= 0xc2 && c <= 0xdf {
            (1, 0x80, 0xbf)
        } else if c == 0xe0 {
            (2, 0xa0, 0xbf)
        } else if c == 0xed {
            (2, 0x80, 0x9f)
        } else if c >= 0xe1 && c <= 0xef {
            (2, 0x80, 0xbf)
        } else if c == 0xf0 {
            (3, 0x90, 0xbf)
        } else if c >= 0xf1 && c <= 0xf3 {
            (3, 0x80, 0xbf)
        } else if c == 0xf4 {
            (3, 0x80, 0x8f)
        } else {
            return false;
        };
        if i + n >= b.len() {
            return false;
        }
        let mut k = 1;
        while k <= n {
            let d = b[i + k];
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if d < l || d > h {
                return false;
            }
            k += 1;
        }
        i += n + 1;
    }
    true
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < a.len() {
        ok &= a[i] == b[i];
        i += 1;
    }
    ok
}

/// The bytes of fields, if each is one.
pub fn as_bytes(f: &[u64]) -> Option<Vec<u8>> {
    let mut ok = true;
    let mut v = Vec::with_capacity(f.len());
    for x in f {
        ok &= *x < 256;
        v.push(*x as u8);
    }
    if ok {
        Some(v)
    } else {
        None
    }
}

/// The ids of the attributes that take an integer.
pub fn takes_int(id: u64) -> bool {
    // align, alignstack, dereferenceable, dereferenceable_or_null, allocsize,
    // vscale_range, allockind, memory; uwtable takes one optionally
    id == 1 || id == 25 || id == 41 || id == 42 || id == 51 || id == 74 || id == 82 || id == 86
}

pub fn known_attr(id: u64) -> bool {
    id >= 1 && id <= 86
}

/// An alignment as attributes and functions encode it: 0 is none, else 1 + log2.
pub fn enc_align(v: u64) -> Option<u64> {
    if v == 0 {
        Some(0)
    } else if v <= 64 {
        Some(1 << (v - 1))
    } else {
        None
    }
}

/// Is `a` the alignment encoded as `v`?  (S01 decides the single values.)
pub fn align_is(a: &llvm_support::MaybeAlign, v: u64) -> bool {
    enc_align(v).is_some() && llvm_support::MaybeAlign::try_from(v as u8).ok() == Some(*a)
}

/// What a reference reader makes of the attribute at `f[at..]`.
pub enum RefAttr {
    Enum(u64),
    Int(u64, u64),
    Str(Vec<u8>),
    Pair(Vec<u8>, Vec<u8>),
    Bad,
    /// not specified
    Any,
}

fn ref_text(f: &[u64], at: &mut usize) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut ok = true;
    loop {
        if *at >= f.len() {
            return None;
        }
        let x = f[*at];
        *at += 1;
        if x == 0 {
            break;
        }
        ok &= x < 256;
        v.push(x as u8);
    }
    if ok && utf8(&v) {
        Some(v)
    } else {
        None
    }
}

pub fn ref_attr(f: &[u64], at: &mut usize) -> RefAttr {
    if *at >= f.len() {
        return RefAttr::Bad;
    }
    let kind = f[*at];
    *at += 1;
    if kind == 0 || kind == 1 {
        if *at >= f.len() {
            return RefAttr::Bad;
        }
        let id = f[*at];
        *at += 1;
        if kind == 0 {
            return if known_attr(id) && !takes_int(id) { RefAttr::Enum(id) } else { RefAttr::Bad };
        }
        if *at >= f.len() {
            return RefAttr::Bad;
        }
        let v = f[*at];
        *at += 1;
        if !(known_attr(id) && (takes_int(id) || id == 33)) {
            return RefAttr::Bad;
        }
        if (id == 1 || id == 25) && enc_align(v).is_none() {
            return RefAttr::Bad;
        }
        if id == 51 && v == 0 {
            return RefAttr::Bad;
        }
        if id == 33 && v > 2 {
            return RefAttr::Bad;
        }
        return RefAttr::Int(id, v);
    }
    if kind == 3 || kind == 4 {
        let k = match ref_text(f, at) {
            None => return RefAttr::Bad,
            Some(k) => k,
        };
        if k.is_empty() {
            return RefAttr::Bad;
        }
        if kind == 3 {
            return RefAttr::Str(k);
        }
        let v = match ref_text(f, at) {
            None => return RefAttr::Bad,
            Some(k) => k,
        };
        // LLVM writes empty values, this reader refuses them
        if v.is_empty() {
            return RefAttr::Any;
        }
        return RefAttr::Pair(k, v);
    }
    RefAttr::Bad
}

/// Does `a` say what the reference reader read?
pub fn attr_is(a: &Attribute, r: &RefAttr) -> bool {
    match (a, r) {
        (Attribute::Enum(e), RefAttr::Enum(id)) => *e as u64 == *id,
        (Attribute::Int(i), RefAttr::Int(id, v)) => int_is(i, *id, *v),
        (Attribute::Str(s), RefAttr::Str(k)) => same(s.as_bytes(), k),
        (Attribute::StrKeyValue(s, t), RefAttr::Pair(k, v)) => same(s.as_bytes(), k) && same(t.as_bytes(), v),
        _ => false,
    }
}

fn int_is(i: &IntAttribute, id: u64, v: u64) -> bool {
    match i {
        IntAttribute::Alignment(a) => id == 1 && align_is(a, v),
        IntAttribute::StackAlignment(a) => id == 25 && align_is(a, v),
        IntAttribute::Dereferenceable(n) => id == 41 && *n == v,
        IntAttribute::DereferenceableOrNull(n) => id == 42 && *n == v,
        IntAttribute::AllocSize(a, b) => {
            id == 51
                && *a as u64 == v >> 32
                && match b {
                    None => v & 0xffff_ffff == 0xffff_ffff,
                    Some(b) => v & 0xffff_ffff != 0xffff_ffff && *b as u64 == v & 0xffff_ffff,
                }
        }
        // no maximum is spelled 0
        IntAttribute::VScaleRange(min, max) => {
            id == 74 && *min as u64 == v >> 32 && (v & 0xffff_ffff == 0 || *max as u64 == v & 0xffff_ffff)
        }
        IntAttribute::UwTable(k) => id == 33 && *k as u64 == v,
        IntAttribute::AllocKind(n) => id == 82 && *n == v,
        IntAttribute::MemoryKind(n) => id == 86 && *n == v,
        _ => false,
    }
}

/// A record of fields `f` gives the text and blob at `idx` that they spell.
fn record_text(r: &Record, f: &[u64], idx: usize) {
    let n = f.len();
    vs::check(r.fields().len() == n, "fields kept");
    let got = r.try_string(idx);
    let ok_idx = idx < n && idx + 1 < n;
    if !ok_idx {
        vs::reach("bad index");
        vs::check(matches!(got, Err(RecordStringError::BadIndex(i, l)) if i == idx && l == n), "string at a bad index");
        vs::check(matches!(r.try_blob(idx), Err(RecordBlobError::BadIndex(i, l)) if i == idx && l == n), "blob at a bad index");
        return;
    }
    let want = as_bytes(&f[idx..]);
    match (&got, &want) {
        (Ok(s), Some(w)) => {
            vs::reach("string");
            vs::check(utf8(w), "string out of bytes that are not UTF-8");
            vs::check(same(s.as_bytes(), w), "string bytes");
        }
        (Err(RecordStringError::BadCharacter(_)), None) => vs::reach("not bytes"),
        (Err(RecordStringError::BadEncoding(_)), Some(w)) => {
            vs::reach("not utf8");
            vs::check(!utf8(w), "good UTF-8 refused");
        }
        _ => vs::fail("string outcome"),
    }
    match (r.try_blob(idx), &want) {
        (Ok(b), Some(w)) => vs::check(same(&b, w), "blob bytes"),
        (Err(RecordBlobError::BadByte(_)), None) => {}
        _ => vs::fail("blob outcome"),
    }
}

/// The table answers a reference with the bytes it names, or not.
fn lookup(t: &Strtab, bytes: &[u8], o: u64, s: u64) {
    let n = bytes.len();
    let sref: StrtabRef = (o, s).into();
    let inside = s > 0 && o < n as u64 && s <= n as u64 - o;
    match t.try_get(&sref) {
        Ok(x) => {
            vs::reach("found");
            vs::check(inside, "reference outside the table answered");
            vs::check(same(x.as_bytes(), &bytes[o as usize..(o + s) as usize]), "referenced bytes");
            vs::check(utf8(x.as_bytes()), "not UTF-8");
            vs::check(t.get(&sref) == Some(x), "get agrees");
        }
        Err(e) => {
            if inside {
                vs::reach("not utf8");
                vs::check(matches!(e, StrtabError::BadString(_)), "kind of refusal");
                vs::check(!utf8(&bytes[o as usize..(o + s) as usize]), "good reference refused");
            } else {
                vs::reach("bad range");
                vs::check(matches!(e, StrtabError::BadRange), "kind of refusal");
            }
            vs::check(t.get(&sref).is_none(), "get agrees");
        }
    }
}

fn blob_why(e: &RecordBlobError, f: &[u64]) {
    match e {
        RecordBlobError::BadIndex(i, n) => vs::check(*i == 0 && *n == f.len() && f.len() < 2, "a blob that is there is called missing"),
        RecordBlobError::BadByte(_) => vs::check(as_bytes(f).is_none(), "good bytes are called bad"),
        _ => vs::fail("an error that is none of a blob"),
    }
}

/// Is a refusal of the attribute at `f[at..]` about a defect it has?
pub fn attr_why(e: &AttributeError, f: &[u64], at: usize) {
    let n = f.len() - at;
    let kind = f[at];
    let text = kind == 3 || kind == 4;
    let id = if n > 1 { f[at + 1] } else { 0 };
    // what its texts are, as far as they go
    let mut texts = Vec::new();
    let mut cut = false;
    if text {
        let mut i = at + 1;
        let mut k = 0;
        while k < kind - 2 && !cut {
            let mut t = Vec::new();
            loop {
                if i >= f.len() {
                    cut = true;
                    break;
                }
                i += 1;
                if f[i - 1] == 0 {
                    break;
                }
                t.push(f[i - 1]);
            }
            if !cut {
                texts.push(t);
            }
            k += 1;
        }
    }
    match e {
        AttributeError::UnknownAttributeKind(k) => vs::check(k.number == kind && kind > 1 && !text, "a known kind of attribute is called unknown"),
        AttributeError::UnknownAttributeId(k) => vs::check(kind < 2 && n > 1 && k.number == id && !known_attr(id), "a known attribute is called unknown"),
        AttributeError::TooShort => vs::check((kind == 0 && n < 2) || (kind == 1 && n < 3) || cut, "a complete attribute is called short"),
        AttributeError::BadString => {
            let mut bad = false;
            for t in &texts {
                bad |= t.is_empty() || as_bytes(t).filter(|b| utf8(b)).is_none();
            }
            vs::check(bad, "a good text is called bad");
        }
        AttributeError::AttributeMalformed(_, k) | AttributeError::IntAttributeUnsupported(k) => {
            vs::check(kind < 2 && n > 1 && *k as u64 == id, "another attribute is called malformed");
            if kind == 0 {
                vs::check(takes_int(id), "a good attribute is called malformed");
            } else {
                let mut i = at;
                vs::check(n > 2 && matches!(ref_attr(f, &mut i), RefAttr::Bad), "a good attribute is called malformed");
            }
        }
        _ => vs::fail("an error that is none of an attribute"),
    }
}

fn identification(why: bool) {
    let (n, m) = (vs::param(0), vs::param(1) as usize);
    let mut records = Vec::new();
    let mut producer: Option<Vec<u64>> = None;
    let mut epoch: Option<u64> = None;
    let mut have_epoch = false;
    let mut i = 0;
    while i < n {
        let code = vs::concrete(vs::below("code", 5));
        let len = vs::choose("fields", m as u64 + 1) as usize;
        let f = words("field", len);
        if code == 1 && producer.is_none() {
            producer = Some(f.clone());
        }
        if code == 2 && !have_epoch {
            have_epoch = true;
            epoch = f.first().copied();
        }
        records.push(Record::verif_new(code, f));
        i += 1;
    }
    let block = Block::verif_new(13, records, vec![]);
    let have_producer = producer.is_some();
    let text = match producer {
        Some(f) if f.len() >= 2 => as_bytes(&f).filter(|b| utf8(b)),
        _ => None,
    };
    match Identification::try_from(&block) {
        Ok(id) => {
            vs::reach("identified");
            match (text, epoch) {
                (Some(t), Some(e)) => {
                    vs::check(same(id.producer.as_bytes(), &t), "producer");
                    vs::check(id.epoch == e, "epoch");
                }
                _ => vs::fail("incomplete identification accepted"),
            }
        }
        Err(e) => {
            vs::reach("not identified");
            if why {
                match e {
                    IdentificationError::MissingProducer => vs::check(!have_producer, "a producer that is there is called missing"),
                    IdentificationError::BadProducer => vs::check(have_producer && text.is_none(), "a good producer is called malformed"),
                    IdentificationError::MissingEpoch => vs::check(epoch.is_none(), "an epoch that is there is called missing"),
                    _ => vs::fail("an error that is none of an identification block"),
                }
            }
            vs::check(text.is_none() || epoch.is_none(), "complete identification refused");
        }
    }
}

fn attr_group(why: bool) {
    let n = vs::param(0) as usize;
    let k = vs::param(1);
    let id = vs::any_u64("group") & 0xffff_ffff;
    let id = if vs::param(2) == 1 { id } else { 5 };
    let slot = vs::any_u32("slot") as u64;
    let mut f = words("field", n);
    if k != 9 && n > 0 {
        f[0] = k;
    }
    let mut all = vec![id, slot];
    all.extend_from_slice(&f);
    let block = Block::verif_new(10, vec![Record::verif_new(3, all.clone())], vec![]);
    let mut want = Vec::new();
    let mut at = 2;
    let mut last = 2;
    let mut bad = n == 0;
    while at < all.len() && !bad {
        last = at;
        match ref_attr(&all, &mut at) {
            RefAttr::Bad => bad = true,
            RefAttr::Any => return,
            x => want.push(x),
        }
    }
    match AttributeGroups::try_from(&block) {
        Ok(g) => {
            vs::reach("group");
            vs::check(!bad, "malformed group accepted");
            match g.verif_get(id as u32) {
                None => vs::fail("group lost"),
                Some(g) => {
                    vs::check(g.attributes.len() == want.len(), "number of attributes");
                    let mut i = 0;
                    while i < want.len() {
                        vs::check(attr_is(&g.attributes[i], &want[i]), "attribute");
                        i += 1;
                    }
                    match g.disposition {
                        AttributeGroupDisposition::Return => vs::check(slot == 0, "return"),
                        AttributeGroupDisposition::Function => vs::check(slot == 0xffff_ffff, "function"),
                        AttributeGroupDisposition::Parameter(p) => {
                            vs::check(p as u64 == slot && slot != 0 && slot != 0xffff_ffff, "parameter")
                        }
                    }
                }
            }
        }
        Err(e) => {
            vs::reach("group refused");
            if why && n == 0 {
                vs::check(matches!(e, AttributeError::GroupTooShort(AttributeCode::GroupCodeEntry, 2)), "a short group is not called that");
            } else if why {
                attr_why(&e, &all, last);
            }
            vs::check(bad, "good group refused");
        }
    }
}

fn attr_ids(why: bool) {
    let kind = vs::param(0);
    let id = vs::any_u64("id");
    let v = vs::any_u64("value");
    let f = if kind == 0 { vec![7, 0, 0, id] } else { vec![7, 0, 1, id, v] };
    let mut at = 2;
    let all = f.clone();
    let want = ref_attr(&f, &mut at);
    let block = Block::verif_new(10, vec![Record::verif_new(3, f)], vec![]);
    match AttributeGroups::try_from(&block) {
        Ok(g) => {
            vs::reach("attribute");
            match g.verif_get(7) {
                Some(g) => {
                    vs::check(g.attributes.len() == 1, "one attribute");
                    vs::check(attr_is(&g.attributes[0], &want), "attribute");
                }
                None => vs::fail("group lost"),
            }
        }
        Err(e) => {
            vs::reach("refused");
            if why {
                attr_why(&e, &all, 2);
            }
            vs::check(matches!(want, RefAttr::Bad), "good attribute refused");
        }
    }
    // the conversions on their own
    if let Ok(a) = AttributeId::try_from(id) {
        vs::check(known_attr(id), "id");
        if kind == 0 {
            match EnumAttribute::try_from(a) {
                Ok(e) => vs::check(!takes_int(id) && e as u64 == id, "enum attribute"),
                Err(e) => {
                    vs::check(takes_int(id), "enum attribute refused");
                    if why {
                        attr_why(&e, &all, 2);
                    }
                }
            }
        }
    } else {
        vs::check(!known_attr(id), "id refused");
    }
}

fn attr_entries(why: bool) {
    let (ng, ne, nr) = (vs::param(0) as usize, vs::param(1) as usize, vs::param(2) as usize);
    let mut groups = Vec::new();
    let mut ids: Vec<u64> = Vec::new();
    let mut i = 0;
    while i < ng {
        let id = vs::any_u32("group") as u64;
        // a group is told apart by its slot and its attribute
        groups.push(rec(3, &[id, i as u64 + 1, 1, 41, i as u64 + 100]));
        let mut j = 0;
        while j < ids.len() {
            vs::assume(ids[j] != id);
            j += 1;
        }
        ids.push(id);
        i += 1;
    }
    let g = match AttributeGroups::try_from(&Block::verif_new(10, groups, vec![])) {
        Ok(g) => g,
        Err(_) => vs::fail("groups refused"),
    };
    let mut entries = Vec::new();
    let mut want: Vec<Vec<usize>> = Vec::new();
    let mut bad = false;
    let mut listed = Vec::new();
    let mut e = 0;
    while e < ne {
        let len = vs::choose("groups listed", nr as u64 + 1) as usize;
        let mut f = Vec::new();
        let mut w = Vec::new();
        let mut j = 0;
        while j < len {
            let id = vs::any_u32("listed") as u64;
            f.push(id);
            listed.push(id);
            let mut hit = ng;
            let mut q = 0;
            while q < ng {
                if ids[q] == id {
                    hit = q;
                }
                q += 1;
            }
            if hit == ng {
                bad = true;
            }
            w.push(hit);
            j += 1;
        }
        entries.push(rec(2, &f));
        want.push(w);
        e += 1;
    }
    let got = Attributes::verif_map(&Block::verif_new(9, entries, vec![]), g);
    match got {
        Err(e) => {
            vs::reach("unknown group");
            if why {
                match e {
                    AttributeError::BadAttributeGroup(g) => {
                        let mut there = false;
                        for id in &ids {
                            there |= *id == g as u64;
                        }
                        let mut said = false;
                        for f in &listed {
                            said |= *f == g as u64;
                        }
                        vs::check(said && !there, "a group that is there is called unknown");
                    }
                    _ => vs::fail("an error that is none of these entries"),
                }
            }
            vs::check(bad, "entries refused");
        }
        Ok(a) => {
            vs::reach("entries");
            vs::check(!bad, "unknown group accepted");
            vs::check(a.verif_get(ne as u64).is_none(), "one entry too many");
            let mut e = 0;
            while e < ne {
                match a.verif_get(e as u64) {
                    None => vs::fail("entry lost"),
                    Some(x) => {
                        let gs = x.verif_groups();
                        vs::check(gs.len() == want[e].len(), "groups in entry");
                        let mut j = 0;
                        while j < gs.len() {
                            let q = want[e][j] as u64;
                            vs::check(matches!(gs[j].disposition, AttributeGroupDisposition::Parameter(p) if p as u64 == q + 1), "group's place");
                            vs::check(gs[j].attributes.len() == 1 && attr_is(&gs[j].attributes[0], &RefAttr::Int(41, q + 100)), "group's attribute");
                            j += 1;
                        }
                    }
                }
                e += 1;
            }
        }
    }
}

fn blob_block(why: bool) {
    let (k, n, m) = (vs::param(0), vs::param(1), vs::param(2) as usize);
    let mut records = Vec::new();
    let mut first: Option<Vec<u64>> = None;
    let mut i = 0;
    while i < n {
        let code = vs::any_u64("code");
        let f = words("field", m);
        if code == 1 && first.is_none() {
            first = Some(f.clone());
        }
        records.push(Record::verif_new(code, f));
        i += 1;
    }
    let block = Block::verif_new(if k == 0 { 23 } else { 25 }, records, vec![]);
    let want = first.clone().map(|f| if f.len() < 2 { None } else { as_bytes(&f) });
    let (got, missing) = if k == 0 {
        match Strtab::try_from(&block) {
            Ok(t) => (Some(t.as_ref().to_vec()), false),
            Err(e) => {
                if why {
                    match (&e, &first) {
                        (StrtabError::MissingBlob, None) => {}
                        (StrtabError::BadBlob(e), Some(f)) => blob_why(e, f),
                        _ => vs::fail("an error that is none of this block"),
                    }
                }
                (None, matches!(e, StrtabError::MissingBlob))
            }
        }
    } else {
        match Symtab::try_from(&block) {
            Ok(t) => (Some(t.as_ref().to_vec()), false),
            Err(e) => {
                if why {
                    match (&e, &first) {
                        (SymtabError::MissingBlob, None) => {}
                        (SymtabError::InvalidBlob(e), Some(f)) => blob_why(e, f),
                        _ => vs::fail("an error that is none of this block"),
                    }
                }
                (None, matches!(e, SymtabError::MissingBlob))
            }
        }
    };
    match (got, want) {
        (Some(g), Some(Some(w))) => {
            vs::reach("blob");
            vs::check(same(&g, &w), "blob contents");
        }
        (None, Some(None)) => {
            vs::reach("bad blob");
            vs::check(!missing, "kind of refusal");
        }
        (None, None) => {
            vs::reach("no blob");
            vs::check(missing, "kind of refusal");
        }
        _ => vs::fail("blob outcome"),
    }
}

fn attr_codes(why: bool) {
    let k = vs::param(0);
    let code = vs::any_u64("code");
    let n = vs::concrete(vs::below("fields", 4)) as usize;
    let f = [1, 0, 0, 2];
    let r = rec(code, &f[..n]);
    if k == 0 {
        match AttributeGroups::try_from(&Block::verif_new(10, vec![r], vec![])) {
            Ok(_) => vs::fail("incomplete group accepted"),
            Err(AttributeError::GroupTooShort(c, l)) => vs::check(code == 3 && n < 3 && (!why || (c as u64 == 3 && l == n)), "kind of refusal"),
            Err(AttributeError::WrongBlock(c)) => vs::check((code == 1 || code == 2) && (!why || c as u64 == code), "kind of refusal"),
            Err(AttributeError::UnknownAttributeCode(c)) => vs::check((code == 0 || code > 3) && (!why || c.number == code), "kind of refusal"),
            Err(_) => {
                vs::reach("incomplete group");
                vs::check(code == 3 && n == 3, "kind of refusal")
            }
        }
    } else {
        match Attributes::verif_map(&Block::verif_new(9, vec![r], vec![]), AttributeGroups::default()) {
            Ok(_) => {
                vs::reach("empty entry");
                vs::check(code == 2 && n == 0, "entry accepted")
            }
            Err(AttributeError::WrongBlock(c)) => vs::check(code == 3 && (!why || c as u64 == code), "kind of refusal"),
            Err(AttributeError::UnknownAttributeCode(c)) => vs::check((code == 0 || code > 3) && (!why || c.number == code), "kind of refusal"),
            Err(AttributeError::BadAttributeGroup(g)) => vs::check(code == 2 && n > 0 && g == 1, "kind of refusal"),
            Err(AttributeError::Map(MapError::Unsupported(_))) => vs::check(code == 1, "kind of refusal"),
            Err(_) => vs::check(code == 1 && !why, "kind of refusal"),
        }
    }
}

harnesses! {
    // p0: fields
    fn h_record_text() {
        let n = vs::param(0) as usize;
        let f = words("field", n);
        let idx = vs::any_u64("index") as usize;
        let r = Record::verif_new(vs::any_u64("code"), f.clone());
        record_text(&r, &f, idx);
    }

    // p0: bytes
    fn h_strtab_get() {
        let n = vs::param(0) as usize;
        let bytes = vs::any_vec("strtab", n);
        let block = Block::verif_new(23, vec![text_rec(1, &bytes)], vec![]);
        let t = match Strtab::try_from(&block) {
            Ok(t) => t,
            Err(_) => vs::fail("string table refused"),
        };
        vs::check(same(t.as_ref(), &bytes), "string table bytes");
        lookup(&t, &bytes, vs::any_u64("offset"), vs::any_u64("size"));
    }

    // p0: 0 STRTAB, 1 SYMTAB; p1: records; p2: fields of each
    fn h_blob_block() {
        blob_block(false)
    }
    fn h_why_blob_block() {
        blob_block(true)
    }

    // p0: records, p1: fields of each
    fn h_identification() {
        identification(false)
    }
    fn h_why_identification() {
        identification(true)
    }

    // every enum or integer attribute id with every value
    fn h_attr_ids() {
        attr_ids(false)
    }
    fn h_why_attr_ids() {
        attr_ids(true)
    }

    // p0: fields after the group's two; p1: records with a concrete first kind (9: any)
    fn h_attr_group() {
        attr_group(false)
    }
    fn h_why_attr_group() {
        attr_group(true)
    }

    // Long records: p0 fields, a few of them arbitrary, any index up to p1 or
    // near the end.
    fn h_record_text_long() {
        let n = vs::param(0) as usize;
        let mut f = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            f.push(33 + (i % 90) as u64);
            i += 1;
        }
        // a character of up to four bytes, anywhere in the last six
        let at = n - 6 + vs::choose("at", 3) as usize;
        for i in at..at + 4 {
            f[i] = vs::int("byte", 8);
        }
        let far = vs::choose("far", 3);
        if far > 0 {
            f[if far == 1 { 0 } else { n / 2 }] = vs::int("field", 9);
        }
        let idx = vs::any_u64("index") as usize;
        vs::assume(idx < n && (idx < vs::param(1) as usize || idx >= n - 7));
        let idx = vs::concrete(idx as u64) as usize;
        let r = Record::verif_new(1, f.clone());
        record_text(&r, &f, idx);
    }

    // The same of ASCII letters but for one field, from the first or the second
    fn h_record_text_whole() {
        let n = vs::param(0);
        let at = [0, 1, 127, 255, 256, 4096, 65535, 65536, n - 1][vs::choose("at", 9) as usize];
        let mut f = Vec::with_capacity(n as usize);
        let mut i = 0;
        while i < n {
            f.push(if i == at { vs::int("field", 9) } else { 33 + i % 90 });
            i += 1;
        }
        let r = Record::verif_new(1, f.clone());
        record_text(&r, &f, vs::choose("index", 2) as usize);
    }

    // A table of p0 bytes, any offset, sizes around 0, 256 and the whole.
    fn h_strtab_long() {
        let n = vs::param(0) as usize;
        let mut bytes = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            bytes.push(33 + (i % 90) as u8);
            i += 1;
        }
        bytes[n - 1] = vs::any_u8("last");
        bytes[n / 2] = vs::any_u8("middle");
        let block = Block::verif_new(23, vec![text_rec(1, &bytes)], vec![]);
        let t = match Strtab::try_from(&block) {
            Ok(t) => t,
            Err(_) => vs::fail("string table refused"),
        };
        let size = match vs::choose("size", 10) {
            8 => 65535,
            9 => 65537,
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 255,
            4 => 256,
            5 => 257,
            6 => n as u64 - vs::choose("less", 3),
            _ => n as u64 + 1,
        };
        let far = [0u64, 1, 255, 256, 4095, 65535, 65536, (n as u64).saturating_sub(258), n as u64 - 2, n as u64 - 1];
        let offsets = if n > 1000 { 10 } else { n as u64 };
        let offset = match vs::choose("offset", offsets + 1) {
            k if k < offsets => if n > 1000 { far[k as usize] } else { k },
            _ => {
                let o = vs::any_u64("offset");
                vs::assume(o >= n as u64);
                o
            }
        };
        lookup(&t, &bytes, offset, size);
    }

    // Groups of p0 attributes in good form with arbitrary contents; p1: bytes in a text
    fn h_attr_seq() {
        let mut all = vec![9, vs::any_u32("slot") as u64];
        let slot = all[1];
        let mut want = Vec::new();
        let mut i = 0;
        while i < vs::param(0) {
            let at = all.len();
            match vs::choose("kind", 4) {
                0 => all.extend_from_slice(&[0, vs::int("id", 7)]),
                1 => all.extend_from_slice(&[1, vs::int("id", 7), vs::any_u64("value")]),
                k => {
                    all.push(k + 1);
                    let mut n = 0;
                    while n < k - 1 {
                        let len = 1 + vs::choose("more bytes", vs::param(1));
                        let mut j = 0;
                        while j < len {
                            all.push(vs::range("byte", 1, 127));
                            j += 1;
                        }
                        all.push(0);
                        n += 1;
                    }
                }
            }
            let mut at = at;
            match ref_attr(&all, &mut at) {
                RefAttr::Bad | RefAttr::Any => vs::assume(false),
                x => want.push(x),
            }
            i += 1;
        }
        let block = Block::verif_new(10, vec![Record::verif_new(3, all)], vec![]);
        match AttributeGroups::try_from(&block) {
            Ok(g) => {
                vs::reach("group");
                match g.verif_get(9) {
                    None => vs::fail("group lost"),
                    Some(g) => {
                        vs::check(g.attributes.len() == want.len(), "number of attributes");
                        let mut i = 0;
                        while i < want.len() {
                            vs::check(attr_is(&g.attributes[i], &want[i]), "attribute");
                            i += 1;
                        }
                        vs::check(matches!(g.disposition, AttributeGroupDisposition::Function) == (slot == 0xffff_ffff), "place");
                    }
                }
            }
            Err(_) => vs::fail("good group refused"),
        }
    }

    // groups and the entries that list them.  p0: groups, p1: entries, p2: group ids per entry
    fn h_attr_entries() {
        attr_entries(false)
    }
    fn h_why_attr_entries() {
        attr_entries(true)
    }

    // p0 groups of attributes and as many lists of them, out of order
    fn h_attr_many() {
        let n = vs::param(0);
        let id = |i: u64| 1 + i * 37 % n;
        let mut groups = Vec::new();
        let mut i = 0;
        while i < n {
            let extra = if i == 0 || i == 255 || i + 1 == n { vs::any_u32("value") as u64 } else { i + 7 };
            groups.push((id(i), extra));
            i += 1;
        }
        let records = groups.iter().map(|(g, x)| rec(3, &[*g, *g + 1, 1, 41, *x, 0, 9])).collect();
        let g = match AttributeGroups::try_from(&Block::verif_new(10, records, vec![])) {
            Ok(g) => g,
            Err(_) => vs::fail("groups refused"),
        };
        vs::check(g.verif_get(0).is_none() && g.verif_get(n as u32 + 1).is_none(), "one group too many");
        // the list at i has the groups i+1, 2i+1, ...; the first one has them all
        let lists: Vec<Vec<u64>> = (0..n)
            .map(|i| {
                let k = if i == 0 { n } else { 1 + i % 4 };
                (0..k).map(|j| 1 + if i == 0 { j } else { i * (j + 1) % n }).collect()
            })
            .collect();
        let lists_of = lists.iter().map(|l| rec(2, l)).collect();
        let a = match Attributes::verif_map(&Block::verif_new(9, lists_of, vec![]), g) {
            Ok(a) => a,
            Err(_) => vs::fail("lists refused"),
        };
        vs::check(a.verif_get(n).is_none(), "one list too many");
        let at = [0, 1, 2, 3, 127, 128, 254, 255, 256, n - 1];
        let k = at[vs::choose("list", 10) as usize];
        vs::reach("entries");
        match a.verif_get(k) {
            None => vs::fail("list lost"),
            Some(x) => {
                let l = &lists[k as usize];
                let gs = x.verif_groups();
                vs::check(gs.len() == l.len(), "groups in list");
                let mut j = 0;
                while j < gs.len() {
                    let q = l[j];
                    let mut x = 0;
                    for (g, v) in &groups {
                        if *g == q {
                            x = *v;
                        }
                    }
                    vs::check(matches!(gs[j].disposition, AttributeGroupDisposition::Parameter(p) if p as u64 == q + 1), "group's place");
                    vs::check(gs[j].attributes.len() == 2 && attr_is(&gs[j].attributes[0], &RefAttr::Int(41, x)), "group's attribute");
                    j += 1;
                }
            }
        }
    }

    // A group of an attribute with texts of p0 bytes, p0 others, and one more.
    fn h_attr_long() {
        let n = vs::param(0);
        let mut f = vec![1, 0xffff_ffff];
        let at = [0, 1, 126, 127, 254, 255, 256, n - 1][vs::choose("at", 8) as usize];
        let mut k = Vec::new();
        let mut v = Vec::new();
        let mut i = 0;
        while i < n {
            let odd = i == at;
            k.push(if odd { vs::range("key", 1, 127) } else { 97 + i % 26 });
            v.push(if odd { vs::range("value", 1, 127) } else { 65 + i % 26 });
            i += 1;
        }
        f.push(4);
        f.extend_from_slice(&k);
        f.push(0);
        f.extend_from_slice(&v);
        f.push(0);
        let mut i = 0;
        while i < n {
            f.extend_from_slice(&[1, 41, if i == at { vs::any_u64("bytes") } else { i }]);
            i += 1;
        }
        // no value, then an attribute of its own
        f.push(3);
        f.extend_from_slice(&k);
        f.extend_from_slice(&[0, 0, 9]);
        let r = Record::verif_new(3, f.clone());
        let g = match AttributeGroups::try_from(&Block::verif_new(10, vec![r], vec![])) {
            Ok(g) => g,
            Err(_) => vs::fail("groups refused"),
        };
        let g = match g.verif_get(1) {
            Some(g) => g,
            None => vs::fail("group lost"),
        };
        let text = |t: &[u64]| as_bytes(t).unwrap_or_default();
        vs::reach("group");
        vs::check(matches!(g.disposition, AttributeGroupDisposition::Function), "group's place");
        vs::check(g.attributes.len() as u64 == n + 3, "number of attributes");
        vs::check(attr_is(&g.attributes[0], &RefAttr::Pair(text(&k), text(&v))), "a long text");
        let mut i = 0;
        while i < n {
            let at = 5 + 2 * n + 3 * i + 2;
            vs::check(attr_is(&g.attributes[1 + i as usize], &RefAttr::Int(41, f[at as usize])), "one of many attributes");
            i += 1;
        }
        vs::check(attr_is(&g.attributes[1 + n as usize], &RefAttr::Str(text(&k))), "a long text without value");
        vs::check(attr_is(&g.attributes[2 + n as usize], &RefAttr::Enum(9)), "the last attribute");
    }

    // The producer's text of p0 bytes behind p1 records of other codes.
    fn h_identification_long() {
        let (n, m) = (vs::param(0), vs::param(1));
        let mut records = Vec::new();
        let mut i = 0;
        while i < m {
            records.push(rec(3 + i, &[i, 7]));
            i += 1;
        }
        let at = [0, 1, 127, 128, 255, 256, n - 1][vs::choose("at", 7) as usize];
        let mut f = Vec::new();
        let mut i = 0;
        while i < n {
            f.push(if i == at { vs::int("letter", 9) } else { 97 + i % 26 });
            i += 1;
        }
        let epoch = vs::any_u64("epoch");
        records.push(Record::verif_new(1, f.clone()));
        records.push(rec(2, &[epoch]));
        match Identification::try_from(&Block::verif_new(13, records, vec![])) {
            Ok(id) => {
                vs::reach("identified");
                vs::check(same(id.producer.as_bytes(), &as_bytes(&f).unwrap_or_default()), "producer");
                vs::check(id.epoch == epoch, "epoch");
            }
            Err(_) => {
                vs::reach("not identified");
                vs::check(f[at as usize] > 127, "a good identification is refused");
            }
        }
    }

    // A blob of p1 bytes behind 20 records of other codes.  p0: 0 string table, 1 symbol table
    fn h_blob_block_long() {
        let (k, n) = (vs::param(0), vs::param(1));
        let mut records = Vec::new();
        let mut i = 0;
        while i < 20 {
            records.push(rec(2 + i, &[i, 7]));
            i += 1;
        }
        let at = [0, 1, 255, 256, 65535, 65536, n - 1][vs::choose("at", 7) as usize];
        let mut f = Vec::with_capacity(n as usize);
        let mut i = 0;
        while i < n {
            f.push(if i == at { vs::int("byte", 9) } else { i % 251 });
            i += 1;
        }
        records.push(Record::verif_new(1, f.clone()));
        let block = Block::verif_new(if k == 0 { 23 } else { 25 }, records, vec![]);
        let got = if k == 0 {
            Strtab::try_from(&block).ok().map(|t| t.as_ref().to_vec())
        } else {
            Symtab::try_from(&block).ok().map(|t| t.as_ref().to_vec())
        };
        match got {
            Some(b) => {
                vs::reach("blob");
                vs::check(b.len() as u64 == n, "length of the blob");
                vs::check(f.iter().zip(b.iter()).fold(true, |ok, (x, y)| ok & (*x == *y as u64)), "bytes of the blob");
            }
            None => {
                vs::reach("bad blob");
                vs::check(at < n && f[at as usize] > 255, "a good blob is refused");
            }
        }
    }

    // which records belong in which attribute block. p0: 0 groups, 1 entries
    fn h_attr_codes() {
        attr_codes(false)
    }
    fn h_why_attr_codes() {
        attr_codes(true)
    }
}
