//! The tables that alignment specifications are collected in.
use crate::support::*;
use crate::vs;
use llvm_support::align::*;

harnesses! {
    /// p0: updates
    fn h_table_types() {
        let mut table = TypeAlignSpecs::default();
        let mut all: Vec<TypeAlignSpec> = table.verif_specs().to_vec();
        let defaults = all.len();
        let mut i = 0;
        while i < vs::param(0) {
            let kind = vs::choose("kind", 4);
            let ty = aligned(kind, vs::range("width", 1, (1 << 23) - 1) as u32);
            let abi = vs::below("abi", 16) as u8;
            let pref = vs::below("pref", 16) as u8;
            vs::assume(pref >= abi);
            let s = match TypeAlignSpec::new(ty, align_of_shift(abi), align_of_shift(pref)) {
                Ok(s) => s,
                Err(_) => vs::fail("a valid type specification is accepted"),
            };
            table.update(s);
            all.push(s);
            i += 1;
        }
        let got = table.verif_specs();
        let mut i = 1;
        while i < got.len() {
            vs::check(got[i - 1].aligned_type < got[i].aligned_type, "the table is sorted, with each type once");
            i += 1;
        }
        // the last word on each type
        let mut last = 0;
        let mut i = 0;
        while i < all.len() {
            let mut later = false;
            let mut j = if i + 1 > defaults { i + 1 } else { defaults };
            while j < all.len() {
                later |= all[j].aligned_type == all[i].aligned_type;
                j += 1;
            }
            if !later {
                last += 1;
                let mut found = false;
                let mut j = 0;
                while j < got.len() {
                    found |= got[j].aligned_type == all[i].aligned_type
                        && got[j].abi_alignment == all[i].abi_alignment
                        && got[j].preferred_alignment == all[i].preferred_alignment;
                    j += 1;
                }
                vs::check(found, "each type has the alignments it was last given");
            }
            i += 1;
        }
        vs::check(last == got.len(), "the table holds nothing else");
        vs::reach("updated");
    }

    /// p0: updates
    fn h_table_pointers() {
        let mut table = PointerAlignSpecs::default();
        let mut all: Vec<PointerAlignSpec> = table.verif_specs().to_vec();
        let mut i = 0;
        while i < vs::param(0) {
            let abi = vs::below("abi", 64) as u8;
            let pref = vs::below("pref", 64) as u8;
            vs::assume(pref >= abi);
            let sp = space(vs::int("space", 23));
            let s = match PointerAlignSpec::new(sp, align_of_shift(abi), align_of_shift(pref), vs::any_u64("size"), vs::any_u64("index")) {
                Ok(s) => s,
                Err(_) => vs::fail("a valid pointer specification is accepted"),
            };
            table.update(s);
            all.push(s);
            i += 1;
        }
        let got = table.verif_specs();
        let mut i = 1;
        while i < got.len() {
            vs::check(got[i - 1].address_space < got[i].address_space, "the table is sorted, with each address space once");
            i += 1;
        }
        let mut last = 0;
        let mut i = 0;
        while i < all.len() {
            let mut later = false;
            let mut j = i + 1;
            while j < all.len() {
                later |= all[j].address_space == all[i].address_space;
                j += 1;
            }
            if !later {
                last += 1;
                let mut found = false;
                let mut j = 0;
                while j < got.len() {
                    found |= got[j] == all[i];
                    j += 1;
                }
                vs::check(found, "each address space has the specification it was last given");
            }
            i += 1;
        }
        vs::check(last == got.len(), "the table holds nothing else");
        vs::reach("updated");
    }

    /// p0 updates of different keys, out of order, then one of any of them or of
    /// a new one.  p1: 0 types, 1 pointers
    fn h_table_many() {
        let n = vs::param(0);
        let places = [0, 1, 14, 15, 16, 17, n / 2, n - 1, n];
        // keys are even; an odd one is new
        let key = |i: u64| 1000 + (i * 37 % n) * 2;
        let k = vs::choose("place", 9) as usize;
        let last = if k == 8 { key(n / 3) + 1 } else { key(places[k]) };
        let abi = vs::below("abi", 16) as u8;
        let pref = vs::below("pref", 16) as u8;
        vs::assume(pref >= abi);
        if vs::param(1) == 0 {
            // kinds sort by what they are first
            let ty = |w: u64| aligned(1 + w / 2 % 3, w as u32);
            let spec = |w: u64, a: u8, p: u8| match TypeAlignSpec::new(ty(w), align_of_shift(a), align_of_shift(p)) {
                Ok(s) => s,
                Err(_) => vs::fail("a valid type specification is accepted"),
            };
            let mut table = TypeAlignSpecs::default();
            let defaults = table.verif_specs().len();
            let mut i = 0;
            while i < n {
                table.update(spec(key(i), (i % 7) as u8, 8));
                i += 1;
            }
            table.update(spec(last, abi, pref));
            let got = table.verif_specs();
            vs::check(got.len() == defaults + n as usize + (last & 1) as usize, "the table holds nothing else");
            let mut i = 1;
            while i < got.len() {
                vs::check(got[i - 1].aligned_type < got[i].aligned_type, "the table is sorted, with each type once");
                i += 1;
            }
            let find = |w: u64| got.iter().find(|s| s.aligned_type == ty(w));
            let is = |w: u64, a: u8, p: u8| match find(w) {
                Some(s) => s.abi_alignment == align_of_shift(a) && s.preferred_alignment == align_of_shift(p),
                None => false,
            };
            let mut i = 0;
            while i < n {
                let w = key(i);
                vs::check(w == last || is(w, (i % 7) as u8, 8), "each type has the alignments it was last given");
                i += 1;
            }
            vs::check(is(last, abi, pref), "each type has the alignments it was last given");
        } else {
            let spec = |w: u64, a: u8, p: u8, size: u64| match PointerAlignSpec::new(space(w), align_of_shift(a), align_of_shift(p), size, size) {
                Ok(s) => s,
                Err(_) => vs::fail("a valid pointer specification is accepted"),
            };
            let mut table = PointerAlignSpecs::default();
            let mut i = 0;
            while i < n {
                table.update(spec(key(i), (i % 7) as u8, 8, i));
                i += 1;
            }
            let size = vs::any_u64("size");
            table.update(spec(last, abi, pref, size));
            let got = table.verif_specs();
            vs::check(got.len() == 1 + n as usize + (last & 1) as usize, "the table holds nothing else");
            let mut i = 1;
            while i < got.len() {
                vs::check(got[i - 1].address_space < got[i].address_space, "the table is sorted, with each address space once");
                i += 1;
            }
            let find = |w: u64| got.iter().find(|s| s.address_space == space(w));
            let is = |w: u64, a: u8, p: u8, size: u64| match find(w) {
                Some(s) => *s == spec(w, a, p, size),
                None => false,
            };
            let mut i = 0;
            while i < n {
                let w = key(i);
                vs::check(w == last || is(w, (i % 7) as u8, 8, i), "each address space has the specification it was last given");
                i += 1;
            }
            vs::check(is(last, abi, pref, size), "each address space has the specification it was last given");
        }
        vs::reach("updated");
    }
}
