//! A reference reader for LLVM's bitstream format, written from the format's
//! documentation, deliberately plain: one buffer, one bit position, no reuse of
//! the code under test.
use crate::cursor::field;
use crate::vs;

#[derive(Clone)]
pub enum Op {
    Lit(u64),
    Fixed(u64),
    Vbr(u64),
    Array(Box<Op>),
    Char6,
    Blob,
}

/// Why reading stopped.
#[derive(Clone, Copy, PartialEq)]
pub enum Stop {
    /// the data ended between entries
    End,
    /// malformed: must be reported as an error
    Bad,
    /// the format does not say, or the implementation may be stricter
    Open,
}

/// What is wrong with malformed data.
#[derive(Clone, Copy, PartialEq)]
pub enum Why {
    Nothing,
    /// the data ends within an entry
    Cut,
    /// a definition without operands, an array or a blob that is not last, an element that cannot be one
    Definition,
    /// an operand encoding there is none of
    Encoding(u64),
    /// a block end, a definition or an abbreviated record outside any block, a block with ids of no bits
    Scope,
    /// an unabbreviated record outside any block
    Unabbrev,
    /// a definition without a block to attach it to, no block id
    Target,
    /// an abbreviation id not defined
    Undefined(u64),
    /// a record of block information that is none of its three kinds
    Info(u64),
}

pub enum Entry {
    Block { id: u64, words: u64 },
    End,
    Record { abbrev: Option<u64>, code: u64, fields: Vec<u64> },
}

struct Scope {
    width: u64,
    id: u64,
    abbrevs: Vec<Vec<Op>>,
    cur: Option<u64>,
}

pub struct Ref<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    scopes: Vec<Scope>,
    info: Vec<(u64, Vec<Op>)>,
    /// why the last `Stop::Bad`
    pub why: Why,
    /// the definition at fault outside any block may be reported for itself
    pub or: Why,
}

pub const CHAR6: &[u8; 64] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";

impl<'a> Ref<'a> {
    pub fn new(buf: &'a [u8], pos: usize) -> Ref<'a> {
        Ref { buf, pos, scopes: Vec::new(), info: Vec::new(), why: Why::Nothing, or: Why::Nothing }
    }
    fn bad(&mut self, why: Why) -> Stop {
        self.why = why;
        Stop::Bad
    }
    fn bits(&self) -> usize {
        self.buf.len() * 8
    }
    pub fn read(&mut self, n: u64) -> Result<u64, Stop> {
        if n == 0 || n > 32 {
            return Err(Stop::Open);
        }
        let n = vs::concrete(n);
        if self.pos + n as usize > self.bits() {
            return Err(self.bad(Why::Cut));
        }
        let v = field(self.buf, self.pos, n as usize);
        self.pos += n as usize;
        Ok(v)
    }
    pub fn vbr(&mut self, w: u64) -> Result<u64, Stop> {
        if w < 2 || w > 32 {
            return Err(Stop::Open);
        }
        let w = vs::concrete(w);
        let mut v = 0u64;
        let mut sh = 0;
        loop {
            let b = self.read(w)?;
            let pay = b & ((1 << (w - 1)) - 1);
            if sh >= 64 || (sh + (w - 1) > 64 && pay >> (64 - sh) != 0) {
                // exceeds 64 bits, or is longer than they take
                return Err(Stop::Open);
            }
            v |= pay << sh;
            sh += w - 1;
            if b >> (w - 1) == 0 {
                return Ok(v);
            }
        }
    }
    pub fn align32(&mut self) {
        self.pos = (self.pos + 31) / 32 * 32;
        if self.pos > self.bits() {
            self.pos = self.bits();
        }
    }
    fn encoding(&mut self, array_at: bool, last: bool, elem: bool) -> Result<Op, Stop> {
        match self.read(3)? {
            1 => {
                let w = self.vbr(5)?;
                // a field without bits is zero
                Ok(if w == 0 && !elem { Op::Lit(0) } else { Op::Fixed(w) })
            }
            2 => {
                let w = self.vbr(5)?;
                Ok(if w == 0 && !elem { Op::Lit(0) } else { Op::Vbr(w) })
            }
            3 if !elem => {
                if !array_at {
                    return Err(self.bad(Why::Definition));
                }
                if self.read(1)? == 1 {
                    // a literal is not an element type
                    return Err(self.bad(Why::Definition));
                }
                Ok(Op::Array(Box::new(self.encoding(false, false, true)?)))
            }
            4 => Ok(Op::Char6),
            5 if !elem => {
                if !last {
                    return Err(self.bad(Why::Definition));
                }
                Ok(Op::Blob)
            }
            e if e == 0 || e > 5 => Err(self.bad(Why::Encoding(e))),
            _ => Err(self.bad(Why::Definition)),
        }
    }
    /// The body of a DEFINE_ABBREV.
    pub fn abbrev(&mut self) -> Result<Vec<Op>, Stop> {
        let n = self.vbr(5)?;
        if n == 0 {
            return Err(self.bad(Why::Definition));
        }
        let mut ops = Vec::new();
        let mut i = 0;
        while i < n {
            if self.read(1)? == 1 {
                ops.push(Op::Lit(self.vbr(8)?));
                i += 1;
                continue;
            }
            let op = self.encoding(i + 2 == n, i + 1 == n, false)?;
            if let Op::Array(_) = op {
                i += 1;
            }
            i += 1;
            ops.push(op);
        }
        Ok(ops)
    }
    fn scalar(&mut self, op: &Op) -> Result<u64, Stop> {
        match op {
            Op::Lit(v) => Ok(*v),
            Op::Fixed(w) => self.read(*w),
            Op::Vbr(w) => self.vbr(*w),
            Op::Char6 => {
                let i = self.read(6)?;
                Ok(CHAR6[i as usize] as u64)
            }
            _ => Err(Stop::Open),
        }
    }
    /// The values of a record laid out by `ops`.
    pub fn values(&mut self, ops: &[Op]) -> Result<Vec<u64>, Stop> {
        let mut out = Vec::new();
        for op in ops {
            match op {
                Op::Array(e) => {
                    let n = self.vbr(6)?;
                    let mut i = 0;
                    while i < n {
                        out.push(self.scalar(e)?);
                        i += 1;
                    }
                }
                Op::Blob => {
                    let n = self.vbr(6)?;
                    self.align32();
                    let mut i = 0;
                    while i < n {
                        out.push(self.read(8)?);
                        i += 1;
                    }
                    self.align32();
                }
                o => out.push(self.scalar(o)?),
            }
        }
        Ok(out)
    }
    pub fn next(&mut self) -> Result<Entry, Stop> {
        loop {
            if self.pos >= self.bits() {
                return Err(Stop::End);
            }
            let depth = self.scopes.len();
            let width = if depth == 0 { 2 } else { self.scopes[depth - 1].width };
            let info = depth > 0 && self.scopes[depth - 1].id == 0;
            match self.read(width)? {
                0 => {
                    self.align32();
                    if depth == 0 {
                        return Err(self.bad(Why::Scope));
                    }
                    self.scopes.pop();
                    if !info {
                        return Ok(Entry::End);
                    }
                }
                1 => {
                    let id = self.vbr(8)?;
                    let w = self.vbr(4)?;
                    if w == 0 {
                        return Err(self.bad(Why::Scope));
                    }
                    if w > 32 || info {
                        return Err(Stop::Open);
                    }
                    let w = vs::concrete(w);
                    self.align32();
                    let words = self.read(32)?;
                    let mut abbrevs = Vec::new();
                    for (b, a) in self.info.iter() {
                        if *b == id {
                            abbrevs.push(a.clone());
                        }
                    }
                    let isinfo = id == 0;
                    self.scopes.push(Scope { width: w, id, abbrevs, cur: None });
                    if !isinfo {
                        return Ok(Entry::Block { id, words });
                    }
                }
                2 => {
                    // only blocks define abbreviations
                    let ops = self.abbrev();
                    if depth == 0 {
                        if let Err(Stop::Open) = ops {
                            return Err(Stop::Open);
                        }
                        self.or = self.why;
                        return Err(self.bad(Why::Scope));
                    }
                    let ops = ops?;
                    if info {
                        match self.scopes[depth - 1].cur {
                            None => return Err(self.bad(Why::Target)),
                            Some(b) => self.info.push((b, ops)),
                        }
                    } else {
                        self.scopes[depth - 1].abbrevs.push(ops);
                    }
                }
                3 => {
                    if depth == 0 {
                        return Err(self.bad(Why::Unabbrev));
                    }
                    let code = self.vbr(6)?;
                    let n = self.vbr(6)?;
                    let mut fields = Vec::new();
                    let mut i = 0;
                    while i < n {
                        fields.push(self.vbr(6)?);
                        i += 1;
                    }
                    if info {
                        if code == 1 {
                            if fields.len() == 0 {
                                return Err(self.bad(Why::Target));
                            }
                            self.scopes[depth - 1].cur = Some(fields[0]);
                        } else if code != 2 && code != 3 {
                            self.why = Why::Info(code);
                            return Err(Stop::Open);
                        }
                        continue;
                    }
                    return Ok(Entry::Record { abbrev: None, code, fields });
                }
                a => {
                    if depth == 0 {
                        return Err(self.bad(Why::Scope));
                    }
                    let k = a - 4;
                    if k >= self.scopes[depth - 1].abbrevs.len() as u64 {
                        return Err(self.bad(Why::Undefined(a)));
                    }
                    let ops = self.scopes[depth - 1].abbrevs[k as usize].clone();
                    match ops[0] {
                        // the record code is a scalar
                        Op::Array(_) | Op::Blob => return Err(Stop::Open),
                        _ => {}
                    }
                    let mut fields = self.values(&ops)?;
                    let code = fields.remove(0);
                    if info {
                        return Err(Stop::Open);
                    }
                    return Ok(Entry::Record { abbrev: Some(a), code, fields });
                }
            }
        }
    }
}
