//! Hash-consed bit-vector expressions with construction-time simplification.
//!
//! Every node is a bit vector of width 1..=128; booleans are width 1.  `zext`
//! is `Concat(0, x)` and constant shifts are `Concat`/`Extract`, so that the
//! bit slicing the code under test does normalises to slices of input bytes.
#![allow(static_mut_refs)]
use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    Sub,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // k = lo, width = w
    Ite,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128,
    pub lo: u128,
    pub hi: u128,
}

#[derive(PartialEq, Eq, Hash, Clone, Copy)]
struct Key(Op, u16, Ex, Ex, Ex, u128);

#[derive(Default, Clone, Copy)]
struct FxHasher(u64);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
#[derive(Default, Clone, Copy)]
pub struct Fx;
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(FxHasher(0))
    }
}
pub struct FxH(FxHasher);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        std::hash::Hasher::finish(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn write_u8(&mut self, x: u8) {
        self.0.write_u8(x)
    }
    fn write_u16(&mut self, x: u16) {
        self.0.write_u16(x)
    }
    fn write_u32(&mut self, x: u32) {
        self.0.write_u32(x)
    }
    fn write_u64(&mut self, x: u64) {
        self.0.write_u64(x)
    }
    fn write_u128(&mut self, x: u128) {
        self.0.write_u128(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.0.write_usize(x)
    }
    fn write_isize(&mut self, x: isize) {
        self.0.write_isize(x)
    }
}
pub type FxMap<K, V> = HashMap<K, V, Fx>;

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Key, Ex>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    vars: Vec<Option<std::rc::Rc<[u32]>>>,
    pub var_w: Vec<u16>,
}

static mut AR: Option<Arena> = None;

#[inline(always)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if AR.is_none() {
            AR = Some(Arena {
                n: vec![Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0, lo: 0, hi: 0 }],
                map: Default::default(),
                memo: vec![(0, 0)],
                epoch: 0,
                vars: vec![],
                var_w: vec![],
            });
        }
        AR.as_mut().unwrap()
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(k: u128, w: u16) -> i128 {
    if w >= 128 {
        k as i128
    } else {
        let s = 128 - w as u32;
        ((k << s) as i128) >> s
    }
}

#[inline(always)]
pub fn nd(e: Ex) -> &'static Node {
    &ar().n[e as usize]
}
#[inline(always)]
pub fn width(e: Ex) -> u16 {
    nd(e).w
}
#[inline(always)]
pub fn as_const(e: Ex) -> Option<u128> {
    let n = nd(e);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}

fn intern(op: Op, w: u16, a: Ex, b: Ex, c: Ex, k: u128) -> Ex {
    let key = Key(op, w, a, b, c, k);
    if let Some(&e) = ar().map.get(&key) {
        return e;
    }
    let (lo, hi) = range(op, w, a, b, c, k);
    if lo == hi && op != Op::Const {
        let e = cst(w, lo);
        ar().map.insert(key, e);
        return e;
    }
    let id = ar().n.len() as Ex;
    ar().n.push(Node { op, w, a, b, c, k, lo, hi });
    ar().memo.push((0, 0));
    ar().map.insert(key, id);
    id
}

fn range(op: Op, w: u16, a: Ex, b: Ex, c: Ex, k: u128) -> (u128, u128) {
    let m = mask(w);
    match op {
        Op::Const => (k, k),
        Op::Concat => {
            let (x, y) = (nd(a), nd(b));
            ((x.lo << y.w) | y.lo, (x.hi << y.w) | y.hi)
        }
        Op::Extract => {
            let x = nd(a);
            let lo = k as u32;
            let (l, h) = (x.lo >> lo, x.hi >> lo);
            if h <= m {
                (l, h)
            } else {
                (0, m)
            }
        }
        Op::Ite => {
            let (x, y) = (nd(b), nd(c));
            (x.lo.min(y.lo), x.hi.max(y.hi))
        }
        Op::And => (0, nd(a).hi.min(nd(b).hi)),
        Op::Or | Op::Xor => {
            let mx = nd(a).hi | nd(b).hi;
            let bits = 128 - mx.leading_zeros();
            let h = if bits >= 128 { !0 } else { (1u128 << bits) - 1 };
            if op == Op::Or {
                (nd(a).lo.max(nd(b).lo), h & m)
            } else {
                (0, h & m)
            }
        }
        Op::Add => {
            let (x, y) = (nd(a), nd(b));
            match x.hi.checked_add(y.hi) {
                Some(h) if h <= m => (x.lo + y.lo, h),
                _ => {
                    // all sums overflow exactly once?
                    if w < 128 && x.lo + y.lo > m && x.hi + y.hi <= 2 * m + 1 {
                        ((x.lo + y.lo) & m, (x.hi + y.hi) & m)
                    } else {
                        (0, m)
                    }
                }
            }
        }
        Op::Sub => {
            let (x, y) = (nd(a), nd(b));
            if x.lo >= y.hi {
                (x.lo - y.hi, x.hi - y.lo)
            } else {
                (0, m)
            }
        }
        Op::Mul => {
            let (x, y) = (nd(a), nd(b));
            match x.hi.checked_mul(y.hi) {
                Some(h) if h <= m => (x.lo * y.lo, h),
                _ => (0, m),
            }
        }
        Op::UDiv => {
            let (x, y) = (nd(a), nd(b));
            if y.lo > 0 {
                (x.lo / y.hi, x.hi / y.lo)
            } else {
                (0, m)
            }
        }
        Op::URem => {
            let (x, y) = (nd(a), nd(b));
            if y.lo > 0 {
                (0, x.hi.min(y.hi - 1))
            } else {
                (0, m)
            }
        }
        Op::LShr => (0, nd(a).hi),
        Op::Shl => {
            let (x, y) = (nd(a), nd(b));
            if y.hi < w as u128 && x.hi.leading_zeros() as u128 >= y.hi + (128 - w as u128) {
                (x.lo << y.lo, x.hi << y.hi)
            } else {
                (0, m)
            }
        }
        Op::Eq | Op::Ult | Op::Slt => (0, 1),
        _ => (0, m),
    }
}

pub fn cst(w: u16, k: u128) -> Ex {
    intern(Op::Const, w, 0, 0, 0, k & mask(w))
}
pub fn tru() -> Ex {
    cst(1, 1)
}
pub fn fls() -> Ex {
    cst(1, 0)
}
pub fn var(id: u32, w: u16) -> Ex {
    while ar().var_w.len() <= id as usize {
        ar().var_w.push(0);
    }
    ar().var_w[id as usize] = w;
    intern(Op::Var, w, 0, 0, 0, id as u128)
}

/// Segments, most significant first.
fn segs(e: Ex, out: &mut Vec<Ex>) {
    let n = nd(e);
    if n.op == Op::Concat {
        let (a, b) = (n.a, n.b);
        segs(a, out);
        segs(b, out);
    } else {
        out.push(e);
    }
}

fn try_join(a: Ex, b: Ex) -> Option<Ex> {
    // a is more significant
    let (x, y) = (*nd(a), *nd(b));
    if x.op == Op::Const && y.op == Op::Const {
        return Some(cst(x.w + y.w, (x.k << y.w) | y.k));
    }
    // extract adjacency
    let (sa, la) = if x.op == Op::Extract { (x.a, x.k as u16) } else { (a, 0) };
    let (sb, lb) = if y.op == Op::Extract { (y.a, y.k as u16) } else { (b, 0) };
    if sa == sb && (x.op == Op::Extract || y.op == Op::Extract) && la == lb + y.w {
        return Some(extract(sa, lb, x.w + y.w));
    }
    if x.op == Op::Ite && y.op == Op::Ite && x.a == y.a {
        if let (Some(p), Some(q), Some(r), Some(s)) = (as_const(x.b), as_const(x.c), as_const(y.b), as_const(y.c)) {
            let w = x.w + y.w;
            return Some(ite(x.a, cst(w, (p << y.w) | r), cst(w, (q << y.w) | s)));
        }
    }
    None
}

fn from_segs(v: &[Ex]) -> Ex {
    let mut o: Vec<Ex> = Vec::with_capacity(v.len());
    for &s in v {
        let mut s = s;
        while let Some(&t) = o.last() {
            if let Some(j) = try_join(t, s) {
                o.pop();
                s = j;
            } else {
                break;
            }
        }
        // a join may itself be a concat; keep it flat
        if nd(s).op == Op::Concat {
            segs(s, &mut o);
        } else {
            o.push(s);
        }
    }
    let mut it = o.iter().rev();
    let mut r = *it.next().unwrap();
    for &h in it {
        r = intern(Op::Concat, width(h) + width(r), h, r, 0, 0);
    }
    r
}

pub fn concat(a: Ex, b: Ex) -> Ex {
    let mut v = vec![];
    segs(a, &mut v);
    segs(b, &mut v);
    from_segs(&v)
}

pub fn extract(e: Ex, lo: u16, w: u16) -> Ex {
    let n = *nd(e);
    if lo == 0 && w == n.w {
        return e;
    }
    debug_assert!(lo + w <= n.w);
    match n.op {
        Op::Const => cst(w, n.k >> lo),
        Op::Extract => extract(n.a, n.k as u16 + lo, w),
        Op::Concat => {
            let bw = width(n.b);
            if lo >= bw {
                extract(n.a, lo - bw, w)
            } else if lo + w <= bw {
                extract(n.b, lo, w)
            } else {
                let h = extract(n.a, 0, lo + w - bw);
                let l = extract(n.b, lo, bw - lo);
                concat(h, l)
            }
        }
        Op::Ite => match (as_const(n.b), as_const(n.c)) {
            (Some(p), Some(q)) => ite(n.a, cst(w, p >> lo), cst(w, q >> lo)),
            (Some(_), None) | (None, Some(_)) => ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w)),
            _ => intern(Op::Extract, w, e, 0, 0, lo as u128),
        },
        _ => {
            if lo > 0 && n.hi >> lo == 0 {
                return cst(w, 0);
            }
            // low bits of an op whose high operand bits do not matter
            if lo == 0 && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor) {
                let ca = nd(n.a).op == Op::Const || nd(n.b).op == Op::Const || w == 1;
                if ca {
                    let (x, y) = (extract(n.a, 0, w), extract(n.b, 0, w));
                    return bin(n.op, x, y);
                }
            }
            intern(Op::Extract, w, e, 0, 0, lo as u128)
        }
    }
}

pub fn zext(e: Ex, w: u16) -> Ex {
    let x = width(e);
    if w == x {
        e
    } else {
        concat(cst(w - x, 0), e)
    }
}
pub fn sext(e: Ex, w: u16) -> Ex {
    let x = width(e);
    if w == x {
        return e;
    }
    if let Some(k) = as_const(e) {
        return cst(w, sx(k, x) as u128);
    }
    let s = extract(e, x - 1, 1);
    if let Some(b) = as_const(s) {
        return concat(cst(w - x, if b == 1 { !0 } else { 0 }), e);
    }
    if nd(e).hi < (1u128 << (x - 1)) {
        return zext(e, w);
    }
    let hi = ite(s, cst(w - x, !0), cst(w - x, 0));
    concat(hi, e)
}
pub fn resize(e: Ex, w: u16) -> Ex {
    let x = width(e);
    if w < x {
        extract(e, 0, w)
    } else {
        zext(e, w)
    }
}

pub fn not(e: Ex) -> Ex {
    debug_assert!(width(e) == 1);
    let n = *nd(e);
    match n.op {
        Op::Const => cst(1, n.k ^ 1),
        Op::Xor if as_const(n.b) == Some(1) => n.a,
        _ => intern(Op::Xor, 1, e, tru(), 0, 0),
    }
}
pub fn is_not(e: Ex) -> Option<Ex> {
    let n = nd(e);
    if n.w == 1 && n.op == Op::Xor && as_const(n.b) == Some(1) {
        Some(n.a)
    } else {
        None
    }
}

/// Split two vectors of segments so that boundaries coincide; returns pairs.
fn align_segs(a: Ex, b: Ex) -> Vec<(Ex, Ex)> {
    let (mut x, mut y) = (vec![], vec![]);
    segs(a, &mut x);
    segs(b, &mut y);
    x.reverse();
    y.reverse(); // now pop() gives most significant
    let mut out = vec![];
    // x,y are least significant first after reverse; process from msb via pop on un-reversed
    x.reverse();
    y.reverse();
    let (mut i, mut j) = (0, 0);
    let (mut cx, mut cy): (Option<Ex>, Option<Ex>) = (None, None);
    loop {
        if cx.is_none() {
            if i == x.len() {
                break;
            }
            cx = Some(x[i]);
            i += 1;
        }
        if cy.is_none() {
            cy = Some(y[j]);
            j += 1;
        }
        let (p, q) = (cx.unwrap(), cy.unwrap());
        let (wp, wq) = (width(p), width(q));
        if wp == wq {
            out.push((p, q));
            cx = None;
            cy = None;
        } else if wp > wq {
            out.push((extract(p, wp - wq, wq), q));
            cx = Some(extract(p, 0, wp - wq));
            cy = None;
        } else {
            out.push((p, extract(q, wq - wp, wp)));
            cy = Some(extract(q, 0, wq - wp));
            cx = None;
        }
    }
    out
}

fn mask_runs(k: u128, w: u16) -> Vec<(bool, u16)> {
    // msb first runs
    let mut v: Vec<(bool, u16)> = vec![];
    for i in (0..w).rev() {
        let b = (k >> i) & 1 == 1;
        match v.last_mut() {
            Some(l) if l.0 == b => l.1 += 1,
            _ => v.push((b, 1)),
        }
    }
    v
}

fn and_mask(a: Ex, k: u128) -> Option<Ex> {
    let w = width(a);
    let runs = mask_runs(k, w);
    if runs.len() > 9 {
        return None;
    }
    let mut pos = w;
    let mut v = vec![];
    for (b, l) in runs {
        pos -= l;
        if b {
            segs(extract(a, pos, l), &mut v);
        } else {
            v.push(cst(l, 0));
        }
    }
    Some(from_segs(&v))
}

fn is_zero(e: Ex) -> bool {
    as_const(e) == Some(0)
}

/// If for every aligned segment pair one side is the constant zero, or both are
/// disjoint constants, merge.
fn disjoint_merge(a: Ex, b: Ex) -> Option<Ex> {
    let (ca, cb) = (nd(a).op == Op::Concat, nd(b).op == Op::Concat);
    if !ca && !cb {
        return None;
    }
    let p = align_segs(a, b);
    let mut v = vec![];
    for (x, y) in p {
        if is_zero(x) {
            segs(y, &mut v)
        } else if is_zero(y) {
            segs(x, &mut v)
        } else {
            match (as_const(x), as_const(y)) {
                (Some(p), Some(q)) if p & q == 0 => v.push(cst(width(x), p | q)),
                _ => return None,
            }
        }
    }
    Some(from_segs(&v))
}

pub fn cbin(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (p, q) = (sx(x, w), sx(y, w));
            if q == 0 {
                if p < 0 {
                    1
                } else {
                    m
                }
            } else {
                p.wrapping_div(q) as u128
            }
        }
        Op::SRem => {
            let (p, q) = (sx(x, w), sx(y, w));
            if q == 0 {
                x
            } else {
                p.wrapping_rem(q) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sx(x, w);
            (if y >= w as u128 {
                s >> 127
            } else {
                s >> y
            }) as u128
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        _ => unreachable!(),
    };
    if matches!(op, Op::Eq | Op::Ult | Op::Slt) {
        r
    } else {
        r & m
    }
}

pub fn bin(op: Op, a: Ex, b: Ex) -> Ex {
    let (na, nb) = (*nd(a), *nd(b));
    let w = na.w;
    debug_assert!(w == nb.w, "width mismatch {:?} {} {}", op, w, nb.w);
    if na.op == Op::Const && nb.op == Op::Const {
        let r = cbin(op, w, na.k, nb.k);
        return cst(if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w }, r);
    }
    match op {
        Op::Eq => return eq(a, b),
        Op::Ult => return ult(a, b),
        Op::Slt => return slt(a, b),
        _ => {}
    }
    // constants to the right for commutative ops
    if na.op == Op::Const && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
        return bin(op, b, a);
    }
    let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
    let m = mask(w);
    match op {
        Op::Add => {
            if kb == Some(0) {
                return a;
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
            if let Some(k) = kb {
                if na.op == Op::Add {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::Add, na.a, cst(w, k.wrapping_add(k2)));
                    }
                }
                if na.op == Op::Ite {
                    if let (Some(p), Some(q)) = (as_const(na.b), as_const(na.c)) {
                        return ite(na.a, cst(w, p.wrapping_add(k)), cst(w, q.wrapping_add(k)));
                    }
                }
            } else {
                // (x + k) + y -> (x + y) + k
                if na.op == Op::Add {
                    if as_const(na.b).is_some() {
                        return bin(Op::Add, bin(Op::Add, na.a, b), na.b);
                    }
                }
                if nb.op == Op::Add {
                    if as_const(nb.b).is_some() {
                        return bin(Op::Add, bin(Op::Add, a, nb.a), nb.b);
                    }
                }
            }
            if let Some(r) = disjoint_merge(a, b) {
                return r;
            }
            if kb.is_none() && a > b {
                return intern(Op::Add, w, b, a, 0, 0);
            }
        }
        Op::Sub => {
            if a == b {
                return cst(w, 0);
            }
            if let Some(k) = kb {
                return bin(Op::Add, a, cst(w, k.wrapping_neg()));
            }
            if w == 1 {
                return bin(Op::Xor, a, b);
            }
            // (x + y) - x
            if na.op == Op::Add {
                if na.a == b {
                    return na.b;
                }
                if na.b == b {
                    return na.a;
                }
                if as_const(na.b).is_some() {
                    return bin(Op::Add, bin(Op::Sub, na.a, b), na.b);
                }
            }
            if nb.op == Op::Add {
                if let Some(k) = as_const(nb.b) {
                    return bin(Op::Add, bin(Op::Sub, a, nb.a), cst(w, k.wrapping_neg()));
                }
            }
        }
        Op::Mul => {
            if let Some(k) = kb {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, cst(w, k.trailing_zeros() as u128));
                }
            } else if a > b {
                return intern(Op::Mul, w, b, a, 0, 0);
            }
        }
        Op::UDiv => {
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, cst(w, k.trailing_zeros() as u128));
                }
            }
        }
        Op::URem => {
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, cst(w, k - 1));
                }
                if na.hi < k {
                    return a;
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(k) = kb {
                if k == 0 {
                    return b;
                }
                if k == m {
                    return a;
                }
                if let Some(r) = and_mask(a, k) {
                    return r;
                }
            }
            if w == 1 {
                if is_not(a) == Some(b) || is_not(b) == Some(a) {
                    return cst(1, 0);
                }
                // absorption: x & (x & y)
                if na.op == Op::And && (na.a == b || na.b == b) {
                    return a;
                }
                if nb.op == Op::And && (nb.a == a || nb.b == a) {
                    return b;
                }
            } else if na.op == Op::Concat || nb.op == Op::Concat {
                let p = align_segs(a, b);
                if p.iter().all(|&(x, y)| nd(x).op == Op::Const || nd(y).op == Op::Const || x == y) {
                    let v: Vec<Ex> = p.iter().map(|&(x, y)| bin(Op::And, x, y)).collect();
                    let mut o = vec![];
                    for s in v {
                        segs(s, &mut o)
                    }
                    return from_segs(&o);
                }
            }
            if kb.is_none() && a > b {
                return intern(Op::And, w, b, a, 0, 0);
            }
        }
        Op::Or | Op::Xor => {
            if a == b {
                return if op == Op::Or { a } else { cst(w, 0) };
            }
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if op == Op::Or && k == m {
                    return b;
                }
            }
            if w == 1 {
                if op == Op::Or {
                    // normalise to not(and(not, not))
                    return not(bin(Op::And, not(a), not(b)));
                }
                if kb == Some(1) {
                    return not(a);
                }
                if let Some(x) = is_not(a) {
                    return not(bin(Op::Xor, x, b));
                }
                if let Some(y) = is_not(b) {
                    return not(bin(Op::Xor, a, y));
                }
            } else {
                if let Some(r) = disjoint_merge(a, b) {
                    return r;
                }
                if na.op == Op::Xor && kb.is_some() && op == Op::Xor {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::Xor, na.a, cst(w, kb.unwrap() ^ k2));
                    }
                }
                if let Some(k) = kb {
                    if op == Op::Or {
                        let runs = mask_runs(k, w);
                        if runs.len() <= 5 {
                            let mut pos = w;
                            let mut v = vec![];
                            for (bit, l) in runs {
                                pos -= l;
                                if bit {
                                    v.push(cst(l, !0));
                                } else {
                                    segs(extract(a, pos, l), &mut v);
                                }
                            }
                            return from_segs(&v);
                        }
                    }
                }
            }
            if kb.is_none() && a > b {
                return intern(op, w, b, a, 0, 0);
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return match op {
                        Op::AShr => sext(extract(a, w - 1, 1), w),
                        _ => cst(w, 0),
                    };
                }
                let k = k as u16;
                return match op {
                    Op::Shl => concat(extract(a, 0, w - k), cst(k, 0)),
                    Op::LShr => zext(extract(a, k, w - k), w),
                    _ => sext(extract(a, k, w - k), w),
                };
            }
            if is_zero(a) {
                return a;
            }
            // shift by ite of constants
            if nb.op == Op::Ite && as_const(nb.b).is_some() && as_const(nb.c).is_some() {
                let (x, y) = (bin(op, a, nb.b), bin(op, a, nb.c));
                return ite(nb.a, x, y);
            }
        }
        _ => {}
    }
    intern(op, w, a, b, 0, 0)
}

pub fn eq(a: Ex, b: Ex) -> Ex {
    if a == b {
        return tru();
    }
    let (na, nb) = (*nd(a), *nd(b));
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(1, (na.k == nb.k) as u128);
    }
    if na.op == Op::Const {
        return eq(b, a);
    }
    if na.hi < nb.lo || nb.hi < na.lo {
        return fls();
    }
    let w = na.w;
    if w == 1 {
        return match as_const(b) {
            Some(1) => a,
            Some(_) => not(a),
            None => not(bin(Op::Xor, a, b)),
        };
    }
    if nb.op == Op::Const {
        let k = nb.k;
        match na.op {
            Op::Add => {
                if let Some(c) = as_const(na.b) {
                    return eq(na.a, cst(w, k.wrapping_sub(c)));
                }
            }
            Op::Xor => {
                if let Some(c) = as_const(na.b) {
                    return eq(na.a, cst(w, k ^ c));
                }
                if k == 0 {
                    return eq(na.a, na.b);
                }
            }
            Op::Sub => {
                if k == 0 {
                    return eq(na.a, na.b);
                }
            }
            Op::Ite => {
                let (x, y) = (nd(na.b).op, nd(na.c).op);
                if x == Op::Const || y == Op::Const {
                    let (p, q) = (eq(na.b, b), eq(na.c, b));
                    return ite(na.a, p, q);
                }
            }
            Op::Concat => {
                let mut v = vec![];
                segs(a, &mut v);
                let mut r = tru();
                let mut pos = w;
                let mut parts = vec![];
                for s in v {
                    let sw = width(s);
                    pos -= sw;
                    let kk = cst(sw, k >> pos);
                    if nd(s).op == Op::Const {
                        if s != kk {
                            return fls();
                        }
                    } else {
                        parts.push((s, kk));
                    }
                }
                if parts.len() <= 16 {
                    for (s, kk) in parts {
                        r = bin(Op::And, r, eq(s, kk));
                    }
                    return r;
                }
            }
            _ => {}
        }
    } else {
        if na.op == Op::Concat || nb.op == Op::Concat {
            let p = align_segs(a, b);
            // strip equal parts; only split when it removes something
            let trivial = p.iter().any(|&(x, y)| x == y || (nd(x).op == Op::Const && nd(y).op == Op::Const));
            if trivial && p.len() <= 16 {
                let mut r = tru();
                for (x, y) in p {
                    r = bin(Op::And, r, eq(x, y));
                }
                return r;
            }
        }
    }
    if nb.op != Op::Const && a > b {
        return intern(Op::Eq, 1, b, a, 0, 0);
    }
    intern(Op::Eq, 1, a, b, 0, 0)
}

pub fn ult(a: Ex, b: Ex) -> Ex {
    if a == b {
        return fls();
    }
    let (na, nb) = (*nd(a), *nd(b));
    if na.hi < nb.lo {
        return tru();
    }
    if na.lo >= nb.hi {
        return fls();
    }
    let w = na.w;
    if let Some(k) = as_const(b) {
        if k == 1 {
            return eq(a, cst(w, 0));
        }
        if k == mask(w) {
            return not(eq(a, b));
        }
    }
    if let Some(k) = as_const(a) {
        if k == 0 {
            return not(eq(b, a));
        }
        if k == mask(w) - 1 {
            return eq(b, cst(w, mask(w)));
        }
    }
    if w == 1 {
        return bin(Op::And, not(a), b);
    }
    // strip common leading zeros
    let lz = |n: &Node| (n.hi.leading_zeros() as i32 - (128 - w as i32)) as u16;
    let z = lz(&na).min(lz(&nb));
    if z > 0 && z < w {
        let (x, y) = (extract(a, 0, w - z), extract(b, 0, w - z));
        return ult(x, y);
    }
    if nb.op == Op::Const && na.op == Op::Ite && (nd(na.b).op == Op::Const || nd(na.c).op == Op::Const) {
        return ite(na.a, ult(na.b, b), ult(na.c, b));
    }
    if na.op == Op::Const && nb.op == Op::Ite && (nd(nb.b).op == Op::Const || nd(nb.c).op == Op::Const) {
        return ite(nb.a, ult(a, nb.b), ult(a, nb.c));
    }
    // x < k  with low bits of k zero: compare the high parts
    if let Some(k) = as_const(b) {
        let t = k.trailing_zeros() as u16;
        if t > 0 && t < w {
            return ult(extract(a, t, w - t), cst(w - t, k >> t));
        }
    }
    if let Some(k) = as_const(a) {
        // k < x where k = ..111: x >= k+1 with trailing zeros
        let k1 = k + 1;
        let t = k1.trailing_zeros() as u16;
        if t > 0 && t < w && k1 <= mask(w) {
            return not(ult(extract(b, t, w - t), cst(w - t, k1 >> t)));
        }
        // canonical: k < x  ==  not (x < k+1)
        if k1 <= mask(w) {
            return not(ult(b, cst(w, k1)));
        }
    }
    intern(Op::Ult, 1, a, b, 0, 0)
}
pub fn ule(a: Ex, b: Ex) -> Ex {
    not(ult(b, a))
}
pub fn slt(a: Ex, b: Ex) -> Ex {
    if a == b {
        return fls();
    }
    let (na, nb) = (*nd(a), *nd(b));
    let w = na.w;
    let half = 1u128 << (w - 1);
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(1, (sx(na.k, w) < sx(nb.k, w)) as u128);
    }
    if w > 1 {
        if na.hi < half && nb.hi < half {
            return ult(a, b);
        }
        if na.lo >= half && nb.lo >= half {
            return ult(a, b);
        }
        if na.hi < half && nb.lo >= half {
            return fls();
        }
        if nb.hi < half && na.lo >= half {
            return tru();
        }
        if as_const(b) == Some(0) {
            return extract(a, w - 1, 1);
        }
        if as_const(a) == Some(mask(w)) {
            return not(extract(b, w - 1, 1));
        }
    }
    if nb.op == Op::Const && na.op == Op::Ite && (nd(na.b).op == Op::Const || nd(na.c).op == Op::Const) {
        return ite(na.a, slt(na.b, b), slt(na.c, b));
    }
    intern(Op::Slt, 1, a, b, 0, 0)
}
pub fn sle(a: Ex, b: Ex) -> Ex {
    not(slt(b, a))
}

pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    if let Some(x) = is_not(c) {
        return ite(x, b, a);
    }
    let w = width(a);
    debug_assert!(w == width(b));
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(_)) => return c,
            (Some(_), Some(_)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(_), None) => return bin(Op::And, not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(_)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    let (na, nb) = (*nd(a), *nd(b));
    if na.op == Op::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    if nb.op == Op::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if nb.op == Op::Ite && nb.b == a {
        return ite(bin(Op::Or, c, nb.a), a, nb.c);
    }
    if nb.op == Op::Ite && nb.c == a && w > 1 {
        return ite(bin(Op::Or, c, not(nb.a)), a, nb.b);
    }
    if na.op == Op::Ite && na.c == b && w > 1 {
        return ite(bin(Op::And, c, na.a), na.b, b);
    }
    if na.op == Op::Ite && na.b == b && w > 1 {
        return ite(bin(Op::And, c, not(na.a)), na.c, b);
    }
    // common leading zeros
    if w > 1 && na.op == Op::Concat && nb.op == Op::Concat && is_zero(na.a) && is_zero(nb.a) {
        let z = width(na.a).min(width(nb.a));
        let r = ite(c, extract(a, 0, w - z), extract(b, 0, w - z));
        return concat(cst(z, 0), r);
    }
    intern(Op::Ite, w, c, a, b, 0)
}

pub fn and(a: Ex, b: Ex) -> Ex {
    bin(Op::And, a, b)
}
pub fn or(a: Ex, b: Ex) -> Ex {
    bin(Op::Or, a, b)
}

// ---------------------------------------------------------------- evaluation

pub struct Model {
    pub v: Vec<u128>,
}
impl Model {
    pub fn get(&self, i: usize) -> u128 {
        self.v.get(i).copied().unwrap_or(0)
    }
}

pub fn new_epoch() {
    ar().epoch += 1;
}
/// Evaluate under a model within the current memo epoch.
pub fn eval_e(e: Ex, m: &Model) -> u128 {
    let n = *nd(e);
    if n.op == Op::Const {
        return n.k;
    }
    let ep = ar().epoch;
    let me = ar().memo[e as usize];
    if me.0 == ep {
        return me.1;
    }
    let r = match n.op {
        Op::Const => n.k,
        Op::Var => m.get(n.k as usize) & mask(n.w),
        Op::Concat => {
            let lw = width(n.b);
            (eval_e(n.a, m) << lw) | eval_e(n.b, m)
        }
        Op::Extract => (eval_e(n.a, m) >> n.k as u32) & mask(n.w),
        Op::Ite => {
            if eval_e(n.a, m) == 1 {
                eval_e(n.b, m)
            } else {
                eval_e(n.c, m)
            }
        }
        op => cbin(op, width(n.a), eval_e(n.a, m), eval_e(n.b, m)),
    };
    ar().memo[e as usize] = (ep, r);
    r
}
pub fn eval(e: Ex, m: &Model) -> u128 {
    new_epoch();
    eval_e(e, m)
}

pub fn vars(e: Ex) -> std::rc::Rc<[u32]> {
    let a = ar();
    if a.vars.len() < a.n.len() {
        a.vars.resize(a.n.len(), None);
    }
    if let Some(v) = &a.vars[e as usize] {
        return v.clone();
    }
    let n = *nd(e);
    let r: std::rc::Rc<[u32]> = match n.op {
        Op::Const => [].into(),
        Op::Var => [n.k as u32].into(),
        _ => {
            let mut v: Vec<u32> = vars(n.a).to_vec();
            if n.op != Op::Extract {
                v.extend_from_slice(&vars(n.b));
            }
            if n.op == Op::Ite {
                v.extend_from_slice(&vars(n.c));
            }
            v.sort_unstable();
            v.dedup();
            v.into()
        }
    };
    ar().vars[e as usize] = Some(r.clone());
    r
}

/// Rebuild `e` with nodes of known value replaced.
pub fn simp_known(e: Ex, f: &dyn Fn(Ex) -> Option<u128>, memo: &mut std::collections::HashMap<Ex, Ex, Fx>) -> Ex {
    let n = *nd(e);
    if n.op == Op::Const {
        return e;
    }
    if let Some(k) = f(e) {
        return cst(n.w, k);
    }
    if n.op == Op::Var {
        return e;
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let r = match n.op {
        Op::Extract => {
            let a = simp_known(n.a, f, memo);
            extract(a, n.k as u16, n.w)
        }
        Op::Concat => {
            let (a, b) = (simp_known(n.a, f, memo), simp_known(n.b, f, memo));
            concat(a, b)
        }
        Op::Ite => {
            let c = simp_known(n.a, f, memo);
            match as_const(c) {
                Some(1) => simp_known(n.b, f, memo),
                Some(_) => simp_known(n.c, f, memo),
                None => {
                    let (a, b) = (simp_known(n.b, f, memo), simp_known(n.c, f, memo));
                    ite(c, a, b)
                }
            }
        }
        op => {
            let (a, b) = (simp_known(n.a, f, memo), simp_known(n.b, f, memo));
            if a == n.a && b == n.b {
                e
            } else {
                rebuild(op, a, b)
            }
        }
    };
    memo.insert(e, r);
    r
}

/// Rebuild `e` with some variables replaced by constants.
pub fn subst(e: Ex, f: &dyn Fn(u32) -> Option<u128>, memo: &mut std::collections::HashMap<Ex, Ex, Fx>) -> Ex {
    let n = *nd(e);
    match n.op {
        Op::Const => return e,
        Op::Var => {
            return match f(n.k as u32) {
                Some(k) => cst(n.w, k),
                None => e,
            }
        }
        _ => {}
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    if !vars(e).iter().any(|v| f(*v).is_some()) {
        return e;
    }
    let r = match n.op {
        Op::Extract => {
            let a = subst(n.a, f, memo);
            extract(a, n.k as u16, n.w)
        }
        Op::Concat => {
            let (a, b) = (subst(n.a, f, memo), subst(n.b, f, memo));
            concat(a, b)
        }
        Op::Ite => {
            let c = subst(n.a, f, memo);
            match as_const(c) {
                Some(1) => subst(n.b, f, memo),
                Some(_) => subst(n.c, f, memo),
                None => {
                    let (a, b) = (subst(n.b, f, memo), subst(n.c, f, memo));
                    ite(c, a, b)
                }
            }
        }
        op => {
            let (a, b) = (subst(n.a, f, memo), subst(n.b, f, memo));
            rebuild(op, a, b)
        }
    };
    memo.insert(e, r);
    r
}
fn rebuild(op: Op, a: Ex, b: Ex) -> Ex {
    match op {
        Op::Eq => eq(a, b),
        Op::Ult => ult(a, b),
        Op::Slt => slt(a, b),
        _ => bin(op, a, b),
    }
}

pub fn show(e: Ex, depth: usize) -> String {
    let n = *nd(e);
    if n.op == Op::Const {
        return format!("{}:{}", n.k, n.w);
    }
    if n.op == Op::Var {
        return format!("v{}:{}", n.k, n.w);
    }
    if depth == 0 {
        return "..".into();
    }
    let d = depth - 1;
    match n.op {
        Op::Extract => format!("{}[{}+{}]", show(n.a, d), n.k, n.w),
        Op::Ite => format!("ite({}, {}, {})", show(n.a, d), show(n.b, d), show(n.c, d)),
        op => format!("{:?}({}, {})", op, show(n.a, d), show(n.b, d)),
    }
}
