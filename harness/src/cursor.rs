//! llvm-bitcursor against a reference model: the data as one big
//! little-endian integer, a position, and nothing else.
use crate::vs;
use llvm_bitcursor::error::Error;
use llvm_bitcursor::BitCursor;
use std::io::{Seek, SeekFrom};

/// Reference read: the `n` (1..=64) bits of `buf` from bit `pos`; bits beyond
/// the data are zero.
pub fn field(buf: &[u8], pos: usize, n: usize) -> u64 {
    let mut v = 0u128;
    let mut i = 0;
    while i < 9 {
        let k = pos / 8 + i;
        if k < buf.len() {
            v |= (buf[k] as u128) << (i * 8);
        }
        i += 1;
    }
    ((v >> (pos % 8)) as u64) & (u64::MAX >> (64 - n as u32 & 63))
}

/// Model of a cursor: returns whether `n` bits can be read at `pos`.
fn readable(pos: usize, n: usize, len: usize) -> bool {
    n >= 1 && n <= 63 && pos + n <= len * 8
}

fn do_read(c: &mut BitCursor<&[u8]>, buf: &[u8], pos: &mut usize, len: usize, n: usize) -> bool {
    match c.read(n) {
        Ok(v) => {
            vs::reach("read ok");
            vs::check(readable(*pos, n, len), "a read succeeds only for widths 1..=63 inside the data");
            vs::check(v == field(buf, *pos, n), "a read returns the next bits, least significant first");
            *pos += n;
            vs::check(c.tell_bit() == *pos, "the position advances by exactly the bits read");
            vs::observe("v", v);
            true
        }
        Err(e) => {
            vs::reach("read error");
            vs::check(!readable(*pos, n, len), "a read of available bits succeeds");
            vs::check(matches!(e, Error::InvalidReadSize) == (n == 0 || n >= 64), "a bad width, and only that, is reported as an invalid read size");
            false
        }
    }
}

fn state(c: &BitCursor<&[u8]>, pos: usize, len: usize) {
    vs::check(c.tell_bit() == pos, "tell_bit reports the position");
    vs::check(c.tell_byte() == pos / 8, "tell_byte reports the position in whole bytes");
    vs::check(c.exhausted() == (pos >= len * 8), "exhausted holds exactly at the end");
    vs::check(c.byte_len() == len, "the length is the visible length");
    vs::check(c.bit_len() == len * 8, "the bit length is eight times the length");
    vs::observe("pos", pos as u64);
}

/// A cursor over `len` arbitrary bytes, limited to an arbitrary visible length.
fn limited<'a>(buf: &'a [u8]) -> (BitCursor<&'a [u8]>, usize) {
    if vs::param(2) == 0 {
        return (BitCursor::new(buf), buf.len());
    }
    let lim = vs::choose("limit", buf.len() as u64 + 2) as usize;
    match BitCursor::new_with_len(buf, lim) {
        Ok(c) => {
            vs::check(lim <= buf.len(), "a limit beyond the data is refused");
            (c, lim)
        }
        Err(_) => {
            vs::check(lim > buf.len(), "a limit inside the data is accepted");
            vs::assume(false);
            unreachable!()
        }
    }
}

fn vbr_ref(buf: &[u8], len: usize, mut pos: usize, width: usize) -> Option<(u64, usize, bool)> {
    // Some(value, end, exact) or None when the encoding does not end inside the data
    let mut v = 0u128;
    let mut shift = 0usize;
    let mut exact = true;
    loop {
        if pos + width > len * 8 {
            return None;
        }
        let b = field(buf, pos, width);
        pos += width;
        let pay = b & ((1 << (width - 1)) - 1);
        if shift < 64 {
            v |= (pay as u128) << shift;
            exact &= v >> 64 == 0;
        } else {
            // more than 64 bits of shift: not representable
            return Some((0, usize::MAX, false));
        }
        if b >> (width - 1) == 0 {
            return Some((v as u64, pos, exact));
        }
        shift += width - 1;
    }
}

harnesses! {
    /// One operation from every reachable cursor state.  The state of a cursor
    /// is where its current block starts and how much of it is consumed; a byte
    /// seek followed by one read reaches all of them.
    /// p0 = bytes, p1 = operation, p2 = limit the length, p3 = byte sought
    fn h_cursor_step() {
        let buf = vs::any_vec("buf", vs::param(0) as usize);
        let (mut c, len) = limited(&buf);
        state(&c, 0, len);
        let s = vs::param(3) as usize;
        vs::assume(s <= len);
        if c.seek(SeekFrom::Start(s as u64)).is_err() {
            vs::fail("a seek inside the data succeeds");
        }
        let mut pos = s * 8;
        let k = vs::choose("consumed", 64) as usize;
        if k > 0 && !do_read(&mut c, &buf, &mut pos, len, k) {
            return;
        }
        state(&c, pos, len);
        match vs::param(1) {
            0 => {
                let n = vs::int("n", 7) as usize;
                let n = if n >= 1 && n < 64 { vs::concrete(n as u64) as usize } else { n };
                if !do_read(&mut c, &buf, &mut pos, len, n) {
                    return;
                }
            }
            1 => {
                let p = vs::any_u64("seekbit") as usize;
                let p = if p <= len * 8 { vs::concrete(p as u64) as usize } else { p };
                match c.seek_bit(p) {
                    Ok(()) => {
                        vs::reach("seek_bit ok");
                        vs::check(p <= len * 8, "a bit seek past the end is refused");
                        pos = p;
                    }
                    Err(_) => {
                        vs::reach("seek_bit refused");
                        vs::check(p > len * 8, "a bit seek inside the data succeeds");
                        return;
                    }
                }
            }
            2 => {
                let kind = vs::choose("whence", 3);
                let o = vs::any_u64("off");
                let base = match kind {
                    0 => o as i128,
                    1 => len as i128 + o as i64 as i128,
                    _ => (pos / 8) as i128 + o as i64 as i128,
                };
                let inside = base >= 0 && base <= len as i128;
                let o = if inside { vs::concrete(o) } else { o };
                let from = match kind {
                    0 => SeekFrom::Start(o),
                    1 => SeekFrom::End(o as i64),
                    _ => SeekFrom::Current(o as i64),
                };
                match c.seek(from) {
                    Ok(r) => {
                        vs::reach("seek ok");
                        vs::check(inside, "a seek outside the data is refused");
                        vs::check(r as i128 == base, "a seek returns the new position");
                        pos = r as usize * 8;
                    }
                    Err(_) => {
                        vs::reach("seek refused");
                        // End(0), the end itself, is documented as unsupported: either answer is accepted
                        vs::check(!inside || (kind == 1 && o == 0), "a seek inside the data succeeds");
                        vs::check(c.tell_bit() == pos, "a refused seek leaves the position alone");
                    }
                }
                vs::check(c.stream_position().ok() == Some((pos / 8) as u64), "stream_position is the byte position");
            }
            3 => {
                c.align32();
                vs::reach("align32");
                pos = (pos + 31) / 32 * 32;
                if pos > len * 8 {
                    pos = len * 8;
                }
            }
            _ => {
                let r = match vs::choose("as", 3) {
                    0 => c.read_exact::<u8>().map(|v| (v as u64, 8)),
                    1 => c.read_exact::<u16>().map(|v| (v as u64, 16)),
                    _ => c.read_exact::<u32>().map(|v| (v as u64, 32)),
                };
                match r {
                    Ok((v, n)) => {
                        vs::reach("read_exact ok");
                        vs::check(pos + n <= len * 8, "an exact read stays inside the data");
                        vs::check(v == field(&buf, pos, n), "an exact read returns the next bits of its type");
                        pos += n;
                    }
                    Err(_) => {
                        vs::check(pos + 32 > len * 8, "an exact read of available bits succeeds");
                        return;
                    }
                }
            }
        }
        state(&c, pos, len);
        // whatever comes next is read from the position reported
        let left = len * 8 - pos;
        let n = if left == 0 { 1 } else if left > 63 { 63 } else { left };
        do_read(&mut c, &buf, &mut pos, len, n);
    }

    /// p0 = bytes: typed reads of an arbitrary width
    fn h_cursor_as() {
        let buf = vs::any_vec("buf", vs::param(0) as usize);
        let len = buf.len();
        let mut c = BitCursor::new(&buf[..]);
        let pos = vs::choose("skip", 64) as usize;
        if c.seek_bit(pos).is_err() {
            return;
        }
        let n = vs::choose("n", 128) as usize;
        let (r, max) = match vs::choose("as", 6) {
            0 => (c.read_as::<u8>(n).map(|v| v as u64), u8::MAX as u64),
            1 => (c.read_as::<u16>(n).map(|v| v as u64), u16::MAX as u64),
            2 => (c.read_as::<u32>(n).map(|v| v as u64), u32::MAX as u64),
            3 => (c.read_as::<u64>(n), u64::MAX),
            4 => (c.read_as::<i8>(n).map(|v| v as u64), i8::MAX as u64),
            _ => (c.read_as::<i32>(n).map(|v| v as u64), i32::MAX as u64),
        };
        match r {
            Ok(v) => {
                vs::reach("read_as ok");
                vs::check(readable(pos, n, len), "a typed read succeeds only for valid widths inside the data");
                vs::check(v == field(&buf, pos, n) && v <= max, "a typed read returns the bits unchanged");
                vs::check(c.tell_bit() == pos + n, "a typed read advances by its width");
            }
            Err(e) => {
                if readable(pos, n, len) {
                    vs::check(field(&buf, pos, n) > max, "a typed read of a value that fits succeeds");
                    vs::check(matches!(e, Error::BadCast), "a value that does not fit is a bad cast");
                    vs::reach("bad cast");
                }
            }
        }
    }

    /// p0 = bytes, p1 = width (0: arbitrary), p2 = first bit (64: arbitrary below 64)
    fn h_cursor_vbr() {
        let buf = vs::any_vec("buf", vs::param(0) as usize);
        let len = buf.len();
        let mut c = BitCursor::new(&buf[..]);
        let pos = if vs::param(2) == 64 { vs::choose("skip", 64) } else { vs::param(2) } as usize;
        if c.seek_bit(pos).is_err() {
            return;
        }
        let width = vs::param(1) as usize;
        let r = c.read_vbr(width);
        match vbr_ref(&buf, len, pos, width) {
            None => {
                vs::reach("vbr truncated");
                vs::check(r.is_err(), "a VBR that does not end inside the data is an error");
            }
            Some((_, usize::MAX, _)) => {
                vs::reach("vbr too long");
                vs::check(r.is_err(), "a VBR with more than 64 bits of payload is an error");
            }
            Some((v, end, exact)) => match r {
                Ok(x) => {
                    vs::reach("vbr ok");
                    vs::check(x == v, "a VBR decodes to the value its chunks spell, low chunk first");
                    vs::check(c.tell_bit() == end, "a VBR read stops right after its last chunk");
                    vs::observe("v", x);
                }
                Err(_) => vs::check(!exact, "a VBR that fits 64 bits decodes"),
            },
        }
    }

    /// p0 = bytes: widths outside 2..=32 are refused, others are not
    fn h_cursor_vbr_width() {
        let buf = vs::any_vec("buf", vs::param(0) as usize);
        let mut c = BitCursor::new(&buf[..]);
        let width = vs::any_u64("width") as usize;
        if width >= 2 && width <= 32 {
            vs::assume(buf[0] == 0 && buf[1] == 0 && buf[2] == 0 && buf[3] == 0);
            match c.read_vbr(width) {
                Ok(v) => vs::check(v == 0 && c.tell_bit() == width, "a single zero chunk is zero"),
                Err(_) => vs::fail("a VBR width in 2..=32 is accepted"),
            }
        } else {
            vs::reach("bad vbr width");
            vs::check(matches!(c.read_vbr(width), Err(Error::InvalidVbrWidth)), "a VBR width outside 2..=32 is refused");
            vs::check(c.tell_bit() == 0, "a refused VBR read consumes nothing");
        }
    }

    /// p0 = bytes, p1 = width, p2 = first bit
    fn h_cursor_svbr() {
        let buf = vs::any_vec("buf", vs::param(0) as usize);
        let len = buf.len();
        let mut c = BitCursor::new(&buf[..]);
        let pos = if vs::param(2) == 64 { vs::choose("skip", 64) } else { vs::param(2) } as usize;
        if c.seek_bit(pos).is_err() {
            return;
        }
        let width = vs::param(1) as usize;
        let r = c.read_svbr(width);
        match vbr_ref(&buf, len, pos, width) {
            None | Some((_, usize::MAX, _)) => vs::check(r.is_err(), "a bad signed VBR is an error"),
            Some((v, end, exact)) => {
                let want = if v & 1 == 0 {
                    (v >> 1) as i64
                } else if v == 1 {
                    i64::MIN
                } else {
                    -((v >> 1) as i64)
                };
                match r {
                    Ok(x) => {
                        vs::reach("svbr ok");
                        vs::check(x as i64 == want, "a signed VBR decodes its sign from the lowest bit");
                        vs::check(c.tell_bit() == end, "a signed VBR read stops right after its last chunk");
                        vs::observe("v", x as u64);
                    }
                    Err(_) => vs::check(!exact, "a signed VBR that fits 64 bits decodes"),
                }
            }
        }
    }

    /// A history of operations on one cursor, each checked against the model.
    /// p0 = bytes, p1 = operations, p2 = limit the length
    fn h_cursor_seq() {
        let buf = vs::any_vec("buf", vs::param(0) as usize);
        let (mut c, len) = limited(&buf);
        let mut pos = 0usize;
        let mut i = 0;
        while i < vs::param(1) {
            match vs::choose("operation", 16) {
                k @ 0..=5 => {
                    let n = [1, 7, 31, 32, 33, 63][k as usize];
                    if !do_read(&mut c, &buf, &mut pos, len, n) {
                        return;
                    }
                }
                k @ 6..=10 => {
                    let p = [0, 3, 40, 64, 77][(k - 6) as usize];
                    match c.seek_bit(p) {
                        Ok(()) => {
                            vs::check(p <= len * 8, "a bit seek past the end is refused");
                            pos = p;
                        }
                        Err(_) => {
                            vs::check(p > len * 8, "a bit seek inside the data succeeds");
                            return;
                        }
                    }
                }
                11 => {
                    c.align32();
                    pos = ((pos + 31) / 32 * 32).min(len * 8);
                }
                12 => {
                    match vbr_ref(&buf, len, pos, 6) {
                        Some((v, end, true)) if end != usize::MAX => {
                            vs::reach("vbr");
                            vs::check(c.read_vbr(6).ok() == Some(v), "a VBR decodes to the value its chunks spell, low chunk first");
                            pos = end;
                        }
                        _ => return,
                    }
                }
                k => {
                    let (from, to) = match k {
                        13 => (SeekFrom::Start(5), 5),
                        14 => (SeekFrom::Current(1), pos as i64 / 8 + 1),
                        _ => (SeekFrom::End(-2), len as i64 - 2),
                    };
                    let good = to >= 0 && to <= len as i64;
                    match c.seek(from) {
                        Ok(r) => {
                            vs::reach("seek ok");
                            vs::check(good && r == to as u64, "a seek returns the new position");
                            pos = to as usize * 8;
                        }
                        Err(_) => vs::check(!good, "a seek inside the data succeeds"),
                    }
                }
            }
            state(&c, pos, len);
            i += 1;
        }
        let left = len * 8 - pos;
        let n = if left == 0 { 1 } else if left > 40 { 40 } else { left };
        do_read(&mut c, &buf, &mut pos, len, n);
    }

    /// Far into long data, which is a fixed pattern but for 24 arbitrary bytes
    /// around the place of interest.
    /// p0 = bytes, p1 = the place (a byte), p2 = way of getting there
    fn h_cursor_far() {
        let size = vs::param(0) as usize;
        let at = vs::param(1) as usize;
        let mut buf = vec![0u8; size];
        let mut i = 0;
        while i < size {
            buf[i] = (i * 7 + i / 256) as u8;
            i += 1;
        }
        let first = if at < 8 { 0 } else { at - 8 };
        let last = if at + 16 > size { size } else { at + 16 };
        vs::bytes("around", &mut buf[first..last]);
        let mut c = BitCursor::new(&buf[..]);
        let len = size;
        let mut pos;
        match vs::param(2) {
            0 => {
                let k = vs::choose("bit", 64) as usize;
                pos = at * 8 + k;
                if pos > len * 8 {
                    return;
                }
                if c.seek_bit(pos).is_err() {
                    vs::fail("a bit seek inside the data succeeds");
                }
            }
            1 => {
                vs::check(c.seek(SeekFrom::Start(at as u64)).ok() == Some(at as u64), "a seek returns the new position");
                pos = at * 8;
            }
            2 => {
                if at < size {
                    vs::check(c.seek(SeekFrom::End(at as i64 - size as i64)).ok() == Some(at as u64), "a seek returns the new position");
                }
                pos = c.tell_bit();
                vs::check(pos == at * 8 || at == size, "a seek from the end goes there");
            }
            3 => {
                vs::check(c.seek(SeekFrom::Start(16)).is_ok(), "a seek inside the data succeeds");
                vs::check(c.seek(SeekFrom::Current(at as i64 - 16)).ok() == Some(at as u64), "a seek returns the new position");
                pos = at * 8;
            }
            _ => {
                // one read after another
                pos = 0;
                let k = vs::choose("start", 8) as usize;
                if k > 0 && !do_read(&mut c, &buf, &mut pos, len, k) {
                    return;
                }
                while pos / 8 + 8 <= at {
                    let n = if pos % 3 == 0 { 63 } else { 61 };
                    match c.read(n) {
                        Ok(v) => vs::check(v == field(&buf, pos, n), "a read returns the next bits, least significant first"),
                        Err(_) => vs::fail("a read of available bits succeeds"),
                    }
                    pos += n;
                }
            }
        }
        vs::reach("far");
        state(&c, pos, len);
        match vs::choose("then", 3) {
            0 => {
                let n = vs::choose("n", 63) as usize + 1;
                if !do_read(&mut c, &buf, &mut pos, len, n) {
                    return;
                }
            }
            1 => {
                c.align32();
                pos = ((pos + 31) / 32 * 32).min(len * 8);
            }
            _ => {
                let back = vs::choose("back", 4) as usize * 3;
                if back > pos / 8 {
                    return;
                }
                if c.seek(SeekFrom::Current(-(back as i64))).is_err() {
                    vs::fail("a seek inside the data succeeds");
                }
                pos = (pos / 8 - back) * 8;
            }
        }
        state(&c, pos, len);
        let left = len * 8 - pos;
        let n = if left == 0 { 1 } else if left > 63 { 63 } else { left };
        do_read(&mut c, &buf, &mut pos, len, n);
    }
}
