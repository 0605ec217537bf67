//! A little-endian bit writer with concrete layout and possibly symbolic data.
use crate::vs;

pub struct W {
    pub buf: Vec<u8>,
    pub bit: usize,
}

impl W {
    pub fn new() -> W {
        W { buf: Vec::with_capacity(64), bit: 0 }
    }
    /// The low `n` bits of `v`.
    pub fn emit(&mut self, v: u64, n: usize) {
        let mut v = v;
        let mut n = n;
        while n > 0 {
            let off = self.bit % 8;
            if off == 0 {
                self.buf.push(0);
            }
            let take = if 8 - off < n { 8 - off } else { n };
            let k = self.buf.len() - 1;
            self.buf[k] |= ((v & ((1 << take) - 1)) << off) as u8;
            v >>= take;
            n -= take;
            self.bit += take;
        }
    }
    /// The canonical VBR of a (concrete) value.
    pub fn vbr(&mut self, v: u64, w: usize) {
        let mut v = v;
        let top = 1u64 << (w - 1);
        while v >= top {
            self.emit((v & (top - 1)) | top, w);
            v >>= w - 1;
        }
        self.emit(v, w);
    }
    /// A VBR of `chunks` chunks spelling a symbolic value; returns the value.
    pub fn vbr_sym(&mut self, name: &'static str, w: usize, chunks: usize) -> u64 {
        let mut bits = chunks * (w - 1);
        if bits > 64 {
            bits = 64;
        }
        let v = vs::int(name, bits as u32);
        let mut i = 0;
        while i < chunks {
            let p = (v >> (i * (w - 1))) & ((1 << (w - 1)) - 1);
            self.emit(p, w - 1);
            self.emit((i + 1 < chunks) as u64, 1);
            i += 1;
        }
        v
    }
    pub fn align32(&mut self) {
        while self.bit % 32 != 0 {
            self.emit(0, 1);
        }
    }
    pub fn u32(&mut self, v: u32) {
        self.emit(v as u64, 32);
    }
    /// ENTER_SUBBLOCK with the current abbreviation width `aw`; returns the
    /// word index of the length field.
    pub fn enter(&mut self, aw: usize, id: u64, new_aw: u64) -> usize {
        self.emit(1, aw);
        self.vbr(id, 8);
        self.vbr(new_aw, 4);
        self.align32();
        let at = self.buf.len();
        self.u32(0);
        at
    }
    pub fn patch_len(&mut self, at: usize) {
        let words = (self.buf.len() - at - 4) / 4;
        let b = (words as u32).to_le_bytes();
        self.buf[at..at + 4].copy_from_slice(&b);
    }
    pub fn end(&mut self, aw: usize) {
        self.emit(0, aw);
        self.align32();
    }
    /// UNABBREV_RECORD of concrete values
    pub fn unabbrev(&mut self, aw: usize, code: u64, f: &[u64]) {
        self.emit(3, aw);
        self.vbr(code, 6);
        self.vbr(f.len() as u64, 6);
        for x in f {
            self.vbr(*x, 6);
        }
    }
}
