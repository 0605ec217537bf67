//! Parser for textual LLVM IR (the subset rustc emits, opaque pointers).
use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}
pub type T = Rc<Ty>;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8).next_multiple_of(self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, p) => {
                let mut o = 0u64;
                for t in v {
                    if !*p {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if !*p {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(v, p) => {
                let mut o = 0u64;
                for (k, t) in v.iter().enumerate() {
                    if !*p {
                        o = o.next_multiple_of(t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off"),
        }
    }
    /// Scalar bit width.
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Opn {
    Reg(u32),
    K(Kon),
}
#[derive(Clone, Debug)]
pub enum Kon {
    I(u128),
    Agg(Rc<Vec<Kon>>),
    Zero,
    Undef,
    Bytes(Rc<Vec<u8>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, T, Opn, Opn),
    Icmp(Pred, T, Opn, Opn),
    Cast(Cast, T, Opn, T),
    Load(T, Opn),
    Store(T, Opn, Opn),
    Gep(Opn, u64, Vec<(u64, Opn, u16)>),
    Alloca(u64, u64),
    Select(T, Opn, Opn, Opn, bool),
    Call { callee: Callee, args: Vec<(T, Opn)>, ret: T, normal: Option<u32> },
    ExtractValue(Opn, Vec<u32>, T),
    InsertValue(T, Opn, T, Opn, Vec<u32>),
    ExtractElem(T, Opn, Opn),
    InsertElem(T, Opn, Opn, Opn),
    Shuffle(T, Opn, Opn, Vec<u32>),
    AtomicRmw(String, T, Opn, Opn),
    CmpXchg(T, Opn, Opn, Opn),
    Freeze(T, Opn),
    Nop,
    Br(u32),
    CondBr(Opn, u32, u32),
    Switch(u16, Opn, u32, Vec<(u128, u32)>),
    Ret(Option<(T, Opn)>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32),
    Ind(Opn),
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub i: I,
    pub dst: u32, // u32::MAX none
    pub dbg: u32, // 0 none
}
#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: T,
    pub inc: Vec<(u32, Opn)>,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub code: Vec<Inst>,
}
pub struct Func {
    pub sym: u32,
    pub params: Vec<u32>,
    pub param_tys: Vec<T>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub dbg: u32,
}
pub struct Global {
    pub sym: u32,
    pub ty: T,
    pub init: Option<Kon>,
    pub constant: bool,
}
#[derive(Default, Clone)]
pub struct DbgNode {
    pub kind: u8, // 1 location, 2 subprogram, 3 lexical block, 4 file
    pub line: u32,
    pub scope: u32,
    pub inlined: u32,
    pub file: u32,
    pub name: String,
    pub link: String,
}

pub struct Module {
    pub syms: Vec<String>,
    pub sym_ix: HashMap<String, u32>,
    pub funcs: Vec<Option<Func>>, // by sym
    pub globals: Vec<Global>,
    pub types: HashMap<String, T>,
    pub dbg: FxMap<u32, DbgNode>,
}

pub const SYM_SHIFT: u32 = 32;
pub fn sym_addr(s: u32) -> u64 {
    ((s as u64) + 16) << SYM_SHIFT
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    W(&'a str),
    L(String),
    G(String),
    M(&'a str),
    S(Vec<u8>),
    P(u8),
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    cur: Tok<'a>,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Lex<'a> {
        let mut l = Lex { s: s.as_bytes(), p: 0, cur: Tok::Eof };
        l.next();
        l
    }
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut e = st;
            while self.s[e] != b'"' {
                e += 1
            }
            self.p = e + 1;
            String::from_utf8_lossy(&unescape(&self.s[st..e])).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && idc(self.s[self.p]) {
                self.p += 1
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn next(&mut self) -> Tok<'a> {
        let s = self.s;
        while self.p < s.len() && (s[self.p] == b' ' || s[self.p] == b'\n' || s[self.p] == b'\t') {
            self.p += 1
        }
        let t = if self.p >= s.len() || s[self.p] == b';' {
            Tok::Eof
        } else {
            let c = s[self.p];
            match c {
                b'%' => {
                    self.p += 1;
                    Tok::L(self.name())
                }
                b'@' => {
                    self.p += 1;
                    Tok::G(self.name())
                }
                b'!' => {
                    self.p += 1;
                    let st = self.p;
                    if self.p < s.len() && s[self.p] == b'"' {
                        self.p += 1;
                        while s[self.p] != b'"' {
                            self.p += 1
                        }
                        self.p += 1;
                        Tok::M("\"")
                    } else {
                        while self.p < s.len() && idc(s[self.p]) {
                            self.p += 1
                        }
                        Tok::M(std::str::from_utf8(&s[st..self.p]).unwrap())
                    }
                }
                b'"' => {
                    let st = self.p + 1;
                    let mut e = st;
                    while s[e] != b'"' {
                        e += 1
                    }
                    self.p = e + 1;
                    Tok::S(unescape(&s[st..e]))
                }
                b'c' if self.p + 1 < s.len() && s[self.p + 1] == b'"' => {
                    let st = self.p + 2;
                    let mut e = st;
                    while s[e] != b'"' {
                        e += 1
                    }
                    self.p = e + 1;
                    Tok::S(unescape(&s[st..e]))
                }
                c if idc(c) || c == b'#' => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < s.len() && idc(s[self.p]) {
                        self.p += 1
                    }
                    Tok::W(std::str::from_utf8(&s[st..self.p]).unwrap())
                }
                c => {
                    self.p += 1;
                    Tok::P(c)
                }
            }
        };
        std::mem::replace(&mut self.cur, t)
    }
    fn is_p(&self, c: u8) -> bool {
        self.cur == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' got {:?} in {}", c as char, self.cur, String::from_utf8_lossy(self.s));
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(&self.cur, Tok::W(x) if *x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        self.need(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

struct FCtx {
    regs: FxMap<String, u32>,
    labels: FxMap<String, u32>,
}
impl FCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(k)
    }
}

pub fn parse(src: &str) -> Module {
    let mut m = Module {
        syms: vec![],
        sym_ix: HashMap::new(),
        funcs: vec![],
        globals: vec![],
        types: HashMap::new(),
        dbg: Default::default(),
    };
    let lines: Vec<&str> = src.lines().collect();
    // named types first
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let mut x = Lex::new(l);
            if let Tok::L(n) = x.next() {
                x.need(b'=');
                x.next();
                let t = m.ty(&mut x);
                m.types.insert(n, t);
            }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            m.global(l);
        } else if l.starts_with("define ") {
            let st = i;
            while lines[i] != "}" {
                i += 1
            }
            m.func(&lines[st..i]);
        } else if l.starts_with("declare ") {
            // external; symbol appears on use
        } else if l.starts_with('!') {
            m.meta(l);
        }
        i += 1;
    }
    m.funcs.resize_with(m.syms.len(), || None);
    m
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let p = l.find(k)?;
    let r = &l[p + k.len()..];
    if let Some(r2) = r.strip_prefix('"') {
        return Some(&r2[..r2.find('"')?]);
    }
    let e = r.find([',', ')']).unwrap_or(r.len());
    Some(&r[..e])
}
fn mref(l: &str, k: &str) -> u32 {
    field(l, k).and_then(|s| s.strip_prefix('!')).and_then(|s| s.parse().ok()).unwrap_or(0)
}

impl Module {
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(s) = self.sym_ix.get(n) {
            return *s;
        }
        let k = self.syms.len() as u32;
        self.syms.push(n.to_string());
        self.sym_ix.insert(n.to_string(), k);
        k
    }
    fn meta(&mut self, l: &str) {
        let e = match l.find(" = ") {
            Some(e) => e,
            None => return,
        };
        let id: u32 = match l[1..e].parse() {
            Ok(x) => x,
            Err(_) => return,
        };
        let b = &l[e + 3..];
        let b = b.strip_prefix("distinct ").unwrap_or(b);
        let kind = if b.starts_with("!DILocation(") {
            1
        } else if b.starts_with("!DISubprogram(") {
            2
        } else if b.starts_with("!DILexicalBlock") {
            3
        } else if b.starts_with("!DIFile(") {
            4
        } else {
            return;
        };
        let mut n = DbgNode { kind, ..Default::default() };
        n.line = field(b, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
        n.scope = mref(b, "scope: ");
        n.inlined = mref(b, "inlinedAt: ");
        n.file = mref(b, "file: ");
        if kind == 2 {
            n.name = field(b, "name: ").unwrap_or("").to_string();
            n.link = field(b, "linkageName: ").unwrap_or("").to_string();
        } else if kind == 4 {
            let f = field(b, "filename: ").unwrap_or("");
            let d = field(b, "directory: ").unwrap_or("");
            n.name = if f.starts_with('/') || d.is_empty() { f.to_string() } else { format!("{}/{}", d, f) };
        }
        self.dbg.insert(id, n);
    }
    fn ty(&mut self, x: &mut Lex) -> T {
        let t = match x.next() {
            Tok::W(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if x.is_w("addrspace") {
                        x.next();
                        x.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                w if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Tok::P(b'[') => {
                let n: u64 = match x.next() {
                    Tok::W(w) => w.parse().unwrap(),
                    t => panic!("arr {:?}", t),
                };
                x.next();
                let t = self.ty(x);
                x.need(b']');
                Ty::Arr(n, t)
            }
            Tok::P(b'{') => {
                let v = self.tys(x, b'}');
                Ty::Struct(v, false)
            }
            Tok::P(b'<') => {
                if x.eat(b'{') {
                    let v = self.tys(x, b'}');
                    x.need(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n: u32 = match x.next() {
                        Tok::W(w) => w.parse().unwrap(),
                        t => panic!("vec {:?}", t),
                    };
                    x.next();
                    let t = self.ty(x);
                    x.need(b'>');
                    Ty::Vec(n, t)
                }
            }
            Tok::L(n) => {
                return self.types.get(&n).cloned().unwrap_or(Rc::new(Ty::Other));
            }
            t => panic!("type {:?} in {}", t, String::from_utf8_lossy(x.s)),
        };
        // function type suffix
        Rc::new(t)
    }
    fn tys(&mut self, x: &mut Lex, end: u8) -> Vec<T> {
        let mut v = vec![];
        if x.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty(x));
            if !x.eat(b',') {
                break;
            }
        }
        x.need(end);
        v
    }
    fn konst(&mut self, x: &mut Lex, ty: &T) -> Kon {
        match x.next() {
            Tok::G(n) => Kon::I(sym_addr(self.sym(&n)) as u128),
            Tok::S(b) => Kon::Bytes(Rc::new(b)),
            Tok::W(w) => match w {
                "true" => Kon::I(1),
                "false" => Kon::I(0),
                "null" => Kon::I(0),
                "none" => Kon::I(0),
                "zeroinitializer" => Kon::Zero,
                "undef" | "poison" => Kon::Undef,
                "splat" => {
                    x.need(b'(');
                    let t = self.ty(x);
                    let k = self.konst(x, &t);
                    x.need(b')');
                    let n = match &**ty {
                        Ty::Vec(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    Kon::Agg(Rc::new(vec![k; n as usize]))
                }
                "getelementptr" => {
                    while !x.is_p(b'(') {
                        x.next();
                    }
                    x.need(b'(');
                    let t = self.ty(x);
                    x.need(b',');
                    let pt = self.ty(x);
                    let base = match self.konst(x, &pt) {
                        Kon::I(k) => k as u64,
                        _ => 0,
                    };
                    let mut idx = vec![];
                    while x.eat(b',') {
                        let t = self.ty(x);
                        let k = self.konst(x, &t);
                        idx.push(match k {
                            Kon::I(k) => crate::expr::sx(k, t.bits()) as i64,
                            _ => 0,
                        });
                    }
                    x.need(b')');
                    let mut off = 0i64;
                    let mut cur = t;
                    for (n, i) in idx.iter().enumerate() {
                        if n == 0 {
                            off += i * cur.size() as i64;
                            continue;
                        }
                        let nx = match &*cur {
                            Ty::Arr(_, t) => {
                                off += i * t.size() as i64;
                                t.clone()
                            }
                            Ty::Struct(v, _) => {
                                off += cur.field_off(*i as usize) as i64;
                                v[*i as usize].clone()
                            }
                            t => panic!("gep const {:?}", t),
                        };
                        cur = nx;
                    }
                    Kon::I(base.wrapping_add(off as u64) as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    x.need(b'(');
                    let t = self.ty(x);
                    let k = self.konst(x, &t);
                    x.next(); // to
                    let to = self.ty(x);
                    x.need(b')');
                    match k {
                        Kon::I(k) => Kon::I(k & crate::expr::mask(to.bits())),
                        k => k,
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    let op = w;
                    while !x.is_p(b'(') {
                        x.next();
                    }
                    x.need(b'(');
                    let t = self.ty(x);
                    let a = self.konst(x, &t);
                    x.need(b',');
                    let t2 = self.ty(x);
                    let b = self.konst(x, &t2);
                    x.need(b')');
                    match (a, b) {
                        (Kon::I(a), Kon::I(b)) => {
                            let r = match op {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "mul" => a.wrapping_mul(b),
                                _ => a ^ b,
                            };
                            Kon::I(r & crate::expr::mask(t.bits()))
                        }
                        _ => Kon::Undef,
                    }
                }
                "asm" => Kon::Undef,
                w => {
                    if ty.is_scalar() {
                        let bits = ty.bits();
                        if let Ok(k) = w.parse::<i128>() {
                            Kon::I(k as u128 & crate::expr::mask(bits))
                        } else if let Ok(k) = w.parse::<u128>() {
                            Kon::I(k & crate::expr::mask(bits))
                        } else if let Some(h) = w.strip_prefix("0x") {
                            // double bit pattern
                            let k = u64::from_str_radix(h, 16).unwrap_or(0);
                            if **ty == Ty::F32 {
                                Kon::I((f64::from_bits(k) as f32).to_bits() as u128)
                            } else {
                                Kon::I(k as u128)
                            }
                        } else if let Ok(f) = w.parse::<f64>() {
                            if **ty == Ty::F32 {
                                Kon::I((f as f32).to_bits() as u128)
                            } else {
                                Kon::I(f.to_bits() as u128)
                            }
                        } else {
                            // float with sign/exponent may be split by '+'
                            Kon::Undef
                        }
                    } else {
                        panic!("const {} of {:?}", w, ty)
                    }
                }
            },
            Tok::P(b'[') => self.agg(x, b']'),
            Tok::P(b'{') => self.agg(x, b'}'),
            Tok::P(b'<') => {
                if x.eat(b'{') {
                    let k = self.agg(x, b'}');
                    x.need(b'>');
                    k
                } else {
                    self.agg(x, b'>')
                }
            }
            Tok::M(_) => {
                // metadata operand
                if x.is_p(b'(') {
                    x.skip_paren();
                }
                Kon::Undef
            }
            t => panic!("const {:?} in {}", t, String::from_utf8_lossy(x.s)),
        }
    }
    fn agg(&mut self, x: &mut Lex, end: u8) -> Kon {
        let mut v = vec![];
        if x.eat(end) {
            return Kon::Agg(Rc::new(v));
        }
        loop {
            let t = self.ty(x);
            v.push(self.konst(x, &t));
            if !x.eat(b',') {
                break;
            }
        }
        x.need(end);
        Kon::Agg(Rc::new(v))
    }
    fn global(&mut self, l: &str) {
        let mut x = Lex::new(l);
        let n = match x.next() {
            Tok::G(n) => n,
            _ => return,
        };
        x.need(b'=');
        let mut ext = false;
        let constant;
        loop {
            match x.next() {
                Tok::W("global") => {
                    constant = false;
                    break;
                }
                Tok::W("constant") => {
                    constant = true;
                    break;
                }
                Tok::W("external") | Tok::W("extern_weak") => ext = true,
                Tok::W("alias") => {
                    // alias: treat as the aliasee
                    let _ = self.ty(&mut x);
                    x.need(b',');
                    let t = self.ty(&mut x);
                    if let Tok::G(t2) = x.cur.clone() {
                        let s = self.sym(&t2);
                        self.sym_ix.insert(n, s);
                    }
                    let _ = t;
                    return;
                }
                Tok::W("thread_local") | Tok::W("addrspace") => {
                    if x.is_p(b'(') {
                        x.skip_paren()
                    }
                }
                Tok::Eof => panic!("global {}", l),
                _ => {}
            }
        }
        let ty = self.ty(&mut x);
        let init = if ext { None } else { Some(self.konst(&mut x, &ty)) };
        let sym = self.sym(&n);
        self.globals.push(Global { sym, ty, init, constant });
    }
    fn opn(&mut self, x: &mut Lex, f: &mut FCtx, ty: &T) -> Opn {
        if let Tok::L(n) = &x.cur {
            let r = f.reg(n);
            x.next();
            return Opn::Reg(r);
        }
        Opn::K(self.konst(x, ty))
    }
    fn tyopn(&mut self, x: &mut Lex, f: &mut FCtx) -> (T, Opn) {
        let t = self.ty(x);
        let o = self.opn(x, f, &t);
        (t, o)
    }
    fn skip_attrs(&mut self, x: &mut Lex) {
        loop {
            match &x.cur {
                Tok::W(w) => {
                    let w = *w;
                    let is_ty = w == "ptr"
                        || w == "void"
                        || w == "float"
                        || w == "double"
                        || w == "metadata"
                        || (w.starts_with('i') && w[1..].parse::<u16>().is_ok());
                    let is_val = w.parse::<i128>().is_ok()
                        || w.parse::<u128>().is_ok()
                        || w.parse::<f64>().is_ok() && !w.starts_with("inf") && !w.starts_with("nan")
                        || w.starts_with("0x")
                        || matches!(
                            w,
                            "true"
                                | "false"
                                | "null"
                                | "undef"
                                | "poison"
                                | "zeroinitializer"
                                | "getelementptr"
                                | "inttoptr"
                                | "ptrtoint"
                                | "splat"
                                | "asm"
                                | "none"
                                | "sub"
                                | "add"
                                | "trunc"
                        );
                    if is_ty || is_val {
                        return;
                    }
                    x.next();
                    if x.is_p(b'(') {
                        x.skip_paren();
                    }
                    // `align 8`
                    if w == "align" {
                        x.next();
                    }
                }
                Tok::S(_) => {
                    x.next();
                    if x.eat(b'=') {
                        x.next();
                    }
                }
                _ => return,
            }
        }
    }
    fn func(&mut self, ls: &[&str]) {
        let mut f = FCtx { regs: Default::default(), labels: Default::default() };
        let h = ls[0];
        let at = h.find('@').unwrap();
        let mut x = Lex::new(&h[at..]);
        let n = match x.next() {
            Tok::G(n) => n,
            _ => panic!(),
        };
        let sym = self.sym(&n);
        x.need(b'(');
        let mut params = vec![];
        let mut param_tys = vec![];
        let mut auto = 0u32;
        if !x.eat(b')') {
            loop {
                if x.is_p(b'.') || x.is_w("...") {
                    x.next();
                    if x.eat(b')') {
                        break;
                    }
                    continue;
                }
                let t = self.ty(&mut x);
                self.skip_attrs(&mut x);
                let name = if let Tok::L(n) = &x.cur {
                    let n = n.clone();
                    x.next();
                    n
                } else {
                    let s = auto.to_string();
                    s
                };
                if name.parse::<u32>().is_ok() {
                    auto = name.parse::<u32>().unwrap() + 1;
                }
                params.push(f.reg(&name));
                param_tys.push(t);
                if x.eat(b',') {
                    continue;
                }
                x.need(b')');
                break;
            }
        }
        let dbg = match h.find("!dbg !") {
            Some(p) => h[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0),
            None => 0,
        };
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut i = 1;
        // the entry block may be unlabeled: its implicit name is the next number
        let first_label = ls.get(1).map(|l| !l.starts_with(' ') && l.contains(':')).unwrap_or(false);
        let mut cur = Block::default();
        let mut cur_label = if first_label { u32::MAX } else { f.label(&auto.to_string()) };
        let mut started = !first_label;
        while i < ls.len() {
            let l = ls[i];
            if l.is_empty() || l.starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                if started {
                    blocks.push((cur_label, std::mem::take(&mut cur)));
                }
                started = true;
                let name = if let Some(r) = l.strip_prefix('"') {
                    &r[..r.find('"').unwrap()]
                } else {
                    &l[..l.find(':').unwrap()]
                };
                cur_label = f.label(name);
                i += 1;
                continue;
            }
            let mut text = l.trim_start().to_string();
            // joins
            if text.contains("switch ") && text.trim_end().ends_with('[') {
                loop {
                    i += 1;
                    text.push(' ');
                    text.push_str(ls[i].trim());
                    if ls[i].trim_start().starts_with(']') {
                        break;
                    }
                }
            } else {
                while i + 1 < ls.len() && ls[i + 1].starts_with("          ") {
                    i += 1;
                    text.push(' ');
                    text.push_str(ls[i].trim());
                }
            }
            i += 1;
            if text.starts_with('#') {
                continue; // debug record
            }
            self.inst(&text, &mut f, &mut cur);
        }
        if started {
            blocks.push((cur_label, cur));
        }
        // reorder by label id: entry must be first executed; keep a map
        let nb = f.labels.len();
        let mut bl: Vec<Block> = vec![Block::default(); nb];
        let entry = blocks[0].0;
        for (k, b) in blocks {
            bl[k as usize] = b;
        }
        // put the entry at index 0 by swapping ids
        if entry != 0 {
            // remap: swap 0 and entry
            let sw = |k: u32| {
                if k == 0 {
                    entry
                } else if k == entry {
                    0
                } else {
                    k
                }
            };
            bl.swap(0, entry as usize);
            for b in bl.iter_mut() {
                for p in b.phis.iter_mut() {
                    for (k, _) in p.inc.iter_mut() {
                        *k = sw(*k)
                    }
                }
                for c in b.code.iter_mut() {
                    match &mut c.i {
                        I::Br(a) => *a = sw(*a),
                        I::CondBr(_, a, b) => {
                            *a = sw(*a);
                            *b = sw(*b)
                        }
                        I::Switch(_, _, d, v) => {
                            *d = sw(*d);
                            for (_, k) in v.iter_mut() {
                                *k = sw(*k)
                            }
                        }
                        I::Call { normal: Some(k), .. } => *k = sw(*k),
                        _ => {}
                    }
                }
            }
        }
        let nregs = f.regs.len() as u32;
        while self.funcs.len() <= sym as usize {
            self.funcs.push(None)
        }
        self.funcs[sym as usize] = Some(Func { sym, params, param_tys, blocks: bl, nregs, dbg });
    }
    fn inst(&mut self, text: &str, f: &mut FCtx, b: &mut Block) {
        let dbg = match text.rfind("!dbg !") {
            Some(p) => text[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0),
            None => 0,
        };
        let mut x = Lex::new(text);
        let mut dst = u32::MAX;
        if let Tok::L(n) = &x.cur {
            dst = f.reg(n);
            x.next();
            x.need(b'=');
        }
        let op = match x.next() {
            Tok::W(w) => w,
            t => panic!("inst {:?} {}", t, text),
        };
        let mut op = op;
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match x.next() {
                Tok::W(w) => w,
                _ => panic!(),
            };
        }
        let binop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        let flags = |x: &mut Lex| {
            while let Tok::W(w) = &x.cur {
                if matches!(
                    *w,
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak"
                ) {
                    x.next();
                } else {
                    break;
                }
            }
        };
        let i = if let Some(o) = binop {
            flags(&mut x);
            let (t, a) = self.tyopn(&mut x, f);
            x.need(b',');
            let c = self.opn(&mut x, f, &t);
            I::Bin(o, t, a, c)
        } else {
            match op {
                "icmp" => {
                    flags(&mut x);
                    let p = match x.next() {
                        Tok::W(w) => match w {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            w => panic!("icmp {}", w),
                        },
                        t => panic!("{:?}", t),
                    };
                    let (t, a) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let c = self.opn(&mut x, f, &t);
                    I::Icmp(p, t, a, c)
                }
                "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                    flags(&mut x);
                    let (t, a) = self.tyopn(&mut x, f);
                    x.next();
                    let to = self.ty(&mut x);
                    let k = match op {
                        "trunc" => Cast::Trunc,
                        "zext" => Cast::ZExt,
                        "sext" => Cast::SExt,
                        "bitcast" => Cast::Bit,
                        _ => {
                            if !t.is_scalar() {
                                Cast::Bit
                            } else if to.bits() < t.bits() {
                                Cast::Trunc
                            } else {
                                Cast::ZExt
                            }
                        }
                    };
                    I::Cast(k, t, a, to)
                }
                "load" => {
                    flags(&mut x);
                    let t = self.ty(&mut x);
                    x.need(b',');
                    let (_, p) = self.tyopn(&mut x, f);
                    I::Load(t, p)
                }
                "store" => {
                    flags(&mut x);
                    let (t, v) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (_, p) = self.tyopn(&mut x, f);
                    I::Store(t, v, p)
                }
                "getelementptr" => {
                    flags(&mut x);
                    if x.is_w("inrange") {
                        x.next();
                        x.skip_paren();
                    }
                    let t = self.ty(&mut x);
                    x.need(b',');
                    let (pt, base) = self.tyopn(&mut x, f);
                    if let Ty::Vec(..) = &*pt {
                        I::Unsupported(text.to_string())
                    } else {
                        let mut off = 0u64;
                        let mut dynv = vec![];
                        let mut cur = t;
                        let mut first = true;
                        while x.eat(b',') {
                            if let Tok::M(_) = x.cur {
                                break;
                            }
                            let (it, iv) = self.tyopn(&mut x, f);
                            let (sz, nx) = if first {
                                (cur.size(), cur.clone())
                            } else {
                                match &*cur {
                                    Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), t.clone()),
                                    Ty::Struct(v, _) => {
                                        let k = match &iv {
                                            Opn::K(Kon::I(k)) => *k as usize,
                                            Opn::K(Kon::Zero) => 0,
                                            _ => panic!("struct gep"),
                                        };
                                        off = off.wrapping_add(cur.field_off(k));
                                        let n = v[k].clone();
                                        cur = n;
                                        first = false;
                                        continue;
                                    }
                                    t => panic!("gep {:?} {}", t, text),
                                }
                            };
                            first = false;
                            match &iv {
                                Opn::K(Kon::I(k)) => off = off.wrapping_add((crate::expr::sx(*k, it.bits()) as i64 as u64).wrapping_mul(sz)),
                                Opn::K(Kon::Zero) | Opn::K(Kon::Undef) => {}
                                o => dynv.push((sz, o.clone(), it.bits())),
                            }
                            cur = nx;
                        }
                        I::Gep(base, off, dynv)
                    }
                }
                "alloca" => {
                    let t = self.ty(&mut x);
                    let mut n = 1u64;
                    let mut al = t.align();
                    while x.eat(b',') {
                        if x.eat_w("align") {
                            if let Tok::W(w) = x.next() {
                                al = w.parse().unwrap()
                            }
                        } else if let Tok::M(_) = x.cur {
                            break;
                        } else {
                            let (_, o) = self.tyopn(&mut x, f);
                            if let Opn::K(Kon::I(k)) = o {
                                n = k as u64
                            }
                        }
                    }
                    I::Alloca(t.size() * n, al)
                }
                "select" => {
                    flags(&mut x);
                    let (ct, c) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (t, a) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (_, d) = self.tyopn(&mut x, f);
                    let vec = matches!(&*ct, Ty::Vec(..));
                    I::Select(t, c, a, d, vec)
                }
                "freeze" => {
                    let (t, a) = self.tyopn(&mut x, f);
                    I::Freeze(t, a)
                }
                "call" | "invoke" => {
                    // skip cc / attrs
                    flags(&mut x);
                    loop {
                        match &x.cur {
                            Tok::W(w) => {
                                let w = *w;
                                let is_ty = w == "ptr" || w == "void" || w == "float" || w == "double" || (w.starts_with('i') && w[1..].parse::<u16>().is_ok());
                                if is_ty {
                                    break;
                                }
                                x.next();
                                if x.is_p(b'(') {
                                    x.skip_paren();
                                }
                                if w == "align" {
                                    x.next();
                                }
                            }
                            Tok::S(_) => {
                                x.next();
                            }
                            _ => break,
                        }
                    }
                    let ret = self.ty(&mut x);
                    // function type in varargs calls
                    if x.is_p(b'(') {
                        x.skip_paren();
                    }
                    let mut asm = false;
                    let callee = match x.cur.clone() {
                        Tok::G(n) => {
                            x.next();
                            Callee::Sym(self.sym(&n))
                        }
                        Tok::L(n) => {
                            x.next();
                            Callee::Ind(Opn::Reg(f.reg(&n)))
                        }
                        Tok::W("asm") => {
                            while !x.is_p(b'(') {
                                x.next();
                            }
                            asm = true;
                            Callee::Ind(Opn::K(Kon::Undef))
                        }
                        _ => {
                            let pt = Rc::new(Ty::Ptr);
                            let k = self.konst(&mut x, &pt);
                            Callee::Ind(Opn::K(k))
                        }
                    };
                    x.need(b'(');
                    let mut args = vec![];
                    if !x.eat(b')') {
                        loop {
                            if x.is_w("metadata") {
                                x.next();
                                // metadata operand: skip to , or )
                                let mut d = 0;
                                loop {
                                    match &x.cur {
                                        Tok::P(b'(') | Tok::P(b'{') => d += 1,
                                        Tok::P(b')') | Tok::P(b'}') if d > 0 => d -= 1,
                                        Tok::P(b')') | Tok::P(b',') if d == 0 => break,
                                        _ => {}
                                    }
                                    x.next();
                                }
                                args.push((Rc::new(Ty::Other), Opn::K(Kon::Undef)));
                            } else {
                                let t = self.ty(&mut x);
                                self.skip_attrs(&mut x);
                                let o = self.opn(&mut x, f, &t);
                                args.push((t, o));
                            }
                            if x.eat(b',') {
                                continue;
                            }
                            x.need(b')');
                            break;
                        }
                    }
                    let mut normal = None;
                    if op == "invoke" {
                        while !x.is_w("to") {
                            x.next();
                        }
                        x.next();
                        x.next();
                        if let Tok::L(n) = x.next() {
                            normal = Some(f.label(&n));
                        }
                    }
                    if asm {
                        I::Unsupported(format!("asm {}", text))
                    } else {
                        I::Call { callee, args, ret, normal }
                    }
                }
                "extractvalue" => {
                    let (t, a) = self.tyopn(&mut x, f);
                    let mut v = vec![];
                    while x.eat(b',') {
                        if let Tok::W(w) = x.cur {
                            v.push(w.parse().unwrap());
                            x.next();
                        } else {
                            break;
                        }
                    }
                    I::ExtractValue(a, v, t)
                }
                "insertvalue" => {
                    let (t, a) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (t2, c) = self.tyopn(&mut x, f);
                    let mut v = vec![];
                    while x.eat(b',') {
                        if let Tok::W(w) = x.cur {
                            v.push(w.parse().unwrap());
                            x.next();
                        } else {
                            break;
                        }
                    }
                    I::InsertValue(t, a, t2, c, v)
                }
                "extractelement" => {
                    let (t, a) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (_, k) = self.tyopn(&mut x, f);
                    I::ExtractElem(t, a, k)
                }
                "insertelement" => {
                    let (t, a) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (_, e) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (_, k) = self.tyopn(&mut x, f);
                    I::InsertElem(t, a, e, k)
                }
                "shufflevector" => {
                    let (t, a) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (_, c) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (mt, m) = self.tyopn(&mut x, f);
                    let n = match &*mt {
                        Ty::Vec(n, _) => *n,
                        _ => panic!(),
                    };
                    let v = match m {
                        Opn::K(Kon::Agg(v)) => v
                            .iter()
                            .map(|k| match k {
                                Kon::I(k) => *k as u32,
                                _ => 0,
                            })
                            .collect(),
                        _ => vec![0; n as usize],
                    };
                    I::Shuffle(t, a, c, v)
                }
                "atomicrmw" => {
                    flags(&mut x);
                    let o = match x.next() {
                        Tok::W(w) => w.to_string(),
                        _ => panic!(),
                    };
                    let (_, p) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (t, v) = self.tyopn(&mut x, f);
                    I::AtomicRmw(o, t, p, v)
                }
                "cmpxchg" => {
                    flags(&mut x);
                    let (_, p) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (t, c) = self.tyopn(&mut x, f);
                    x.need(b',');
                    let (_, n) = self.tyopn(&mut x, f);
                    I::CmpXchg(t, p, c, n)
                }
                "fence" => I::Nop,
                "br" => {
                    if x.eat_w("label") {
                        match x.next() {
                            Tok::L(n) => I::Br(f.label(&n)),
                            _ => panic!(),
                        }
                    } else {
                        let (_, c) = self.tyopn(&mut x, f);
                        x.need(b',');
                        x.next();
                        let a = match x.next() {
                            Tok::L(n) => f.label(&n),
                            _ => panic!(),
                        };
                        x.need(b',');
                        x.next();
                        let d = match x.next() {
                            Tok::L(n) => f.label(&n),
                            _ => panic!(),
                        };
                        I::CondBr(c, a, d)
                    }
                }
                "switch" => {
                    let (t, v) = self.tyopn(&mut x, f);
                    x.need(b',');
                    x.next();
                    let d = match x.next() {
                        Tok::L(n) => f.label(&n),
                        _ => panic!(),
                    };
                    x.need(b'[');
                    let mut cs = vec![];
                    while !x.eat(b']') {
                        let (_, k) = self.tyopn(&mut x, f);
                        x.need(b',');
                        x.next();
                        let l = match x.next() {
                            Tok::L(n) => f.label(&n),
                            _ => panic!(),
                        };
                        match k {
                            Opn::K(Kon::I(k)) => cs.push((k, l)),
                            _ => panic!("switch const"),
                        }
                    }
                    I::Switch(t.bits(), v, d, cs)
                }
                "ret" => {
                    if x.is_w("void") {
                        I::Ret(None)
                    } else {
                        let (t, v) = self.tyopn(&mut x, f);
                        I::Ret(Some((t, v)))
                    }
                }
                "unreachable" => I::Unreachable,
                "phi" => {
                    flags(&mut x);
                    let ty = self.ty(&mut x);
                    let mut inc = vec![];
                    loop {
                        if !x.eat(b'[') {
                            break;
                        }
                        let v = self.opn(&mut x, f, &ty);
                        x.need(b',');
                        let l = match x.next() {
                            Tok::L(n) => f.label(&n),
                            _ => panic!(),
                        };
                        x.need(b']');
                        inc.push((l, v));
                        if !x.eat(b',') {
                            break;
                        }
                    }
                    b.phis.push(Phi { dst, ty, inc });
                    return;
                }
                _ => I::Unsupported(text.to_string()),
            }
        };
        b.code.push(Inst { i, dst, dbg });
    }
}
