//! Bit-vector queries to libz3 (C API).  One incremental QF_BV solver; each
//! distinct constraint gets a guard literal, a query is a set of guards.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, id: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: u8, out: *mut P) -> u8;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: *const c_void);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    bv: Vec<P>,   // ast per expr (bv), null if not translated
    bo: Vec<P>,   // bool ast for width-1
    guard: FxMap<Ex, P>,
    refs: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub solver_s: f64,
    pub slowest_s: f64,
    guard_max: usize,
    cache: std::collections::HashMap<Vec<Ex>, Res>,
    pool: std::collections::VecDeque<Rc<Model>>,
    pub timeout_ms: u32,
    dump: Option<(String, u32, u32)>,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = cs("model");
            let v = cs("true");
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, std::ptr::null());
            let mut r = Solver {
                ctx,
                s: std::ptr::null_mut(),
                bv: vec![],
                bo: vec![],
                guard: Default::default(),
                refs: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cache_hits: 0,
                solver_s: 0.0,
                slowest_s: 0.0,
                guard_max: std::env::var("SYMEX_GUARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(100),
                cache: Default::default(),
                pool: Default::default(),
                timeout_ms,
                dump: std::env::var("SYMEX_DUMP").ok().map(|d| (d, 0, std::env::var("SYMEX_DUMP_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(40))),
            };
            r.fresh();
            r
        }
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.ctx, self.s);
            }
            for a in self.refs.drain(..) {
                Z3_dec_ref(self.ctx, a);
            }
            self.bv.clear();
            self.bo.clear();
            self.guard.clear();
            let lg = cs("QF_BV");
            let sym = Z3_mk_string_symbol(self.ctx, lg.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = cs("timeout");
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
    }
    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        self.refs.push(a);
        a
    }
    fn num(&mut self, w: u16, k: u128) -> P {
        unsafe {
            let s = cs(&k.to_string());
            let a = Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w as c_uint));
            self.keep(a)
        }
    }
    fn grow(&mut self) {
        let n = ar().n.len();
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bo.resize(n, std::ptr::null_mut());
        }
    }
    fn tbool(&mut self, e: Ex) -> P {
        if !self.bo[e as usize].is_null() {
            return self.bo[e as usize];
        }
        let n = *nd(e);
        debug_assert!(n.w == 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And => {
                    let v = [self.tbool(n.a), self.tbool(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let a = self.tbool(n.a);
                    if as_const(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.tbool(n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.tbool(n.a), self.tbool(n.b), self.tbool(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq => {
                    let (x, y) = (self.tbv(n.a), self.tbv(n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult => {
                    let (x, y) = (self.tbv(n.a), self.tbv(n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.tbv(n.a), self.tbv(n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                _ => {
                    let x = self.tbv(e);
                    let o = self.num(1, 1);
                    Z3_mk_eq(c, x, o)
                }
            }
        };
        let r = self.keep(r);
        self.bo[e as usize] = r;
        r
    }
    fn tbv(&mut self, e: Ex) -> P {
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let n = *nd(e);
        let c = self.ctx;
        let via_bool = n.w == 1 && matches!(n.op, Op::And | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Slt);
        let r = unsafe {
            if via_bool {
                let b = self.tbool(e);
                let (o, z) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, b, o, z)
            } else {
                match n.op {
                    Op::Const => self.num(n.w, n.k),
                    Op::Var => {
                        let s = cs(&format!("v{}_{}", n.k, n.w));
                        Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w as c_uint))
                    }
                    Op::Extract => {
                        let a = self.tbv(n.a);
                        Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                    }
                    Op::Ite => {
                        let x = self.tbool(n.a);
                        let (y, z) = (self.tbv(n.b), self.tbv(n.c));
                        Z3_mk_ite(c, x, y, z)
                    }
                    op => {
                        let (x, y) = (self.tbv(n.a), self.tbv(n.b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        let r = self.keep(r);
        self.bv[e as usize] = r;
        r
    }
    fn guard(&mut self, e: Ex) -> P {
        if let Some(g) = self.guard.get(&e) {
            return *g;
        }
        let b = self.tbool(e);
        unsafe {
            let s = cs(&format!("g{}", e));
            let g = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), Z3_mk_bool_sort(self.ctx));
            let g = self.keep(g);
            let imp = Z3_mk_implies(self.ctx, g, b);
            Z3_solver_assert(self.ctx, self.s, imp);
            self.guard.insert(e, g);
            g
        }
    }

    /// Constraints connected to `roots` through shared variables.
    pub fn slice(pc: &[Ex], roots: &[Ex]) -> Vec<Ex> {
        let mut vs: std::collections::HashSet<u32, Fx> = Default::default();
        for &r in roots {
            vs.extend(vars(r).iter().copied());
        }
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = vars(p);
                if pv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vs.extend(pv.iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        pc.iter().zip(used).filter(|(_, u)| *u).map(|(p, _)| *p).collect()
    }

    /// Is pc ∧ cond satisfiable?  `base` is a model of pc (used to complete the
    /// part of the model outside the slice).
    pub fn check(&mut self, pc: &[Ex], cond: Ex, base: &Model) -> Res {
        match as_const(cond) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(Rc::new(Model { v: base.v.clone() })),
            None => {}
        }
        let mut q = Self::slice(pc, &[cond]);
        q.push(cond);
        q.sort_unstable();
        q.dedup();
        let merge = |m: &Model, q: &[Ex]| -> Rc<Model> {
            let mut v = base.v.clone();
            for &c in q {
                for &x in vars(c).iter() {
                    let x = x as usize;
                    if v.len() <= x {
                        v.resize(x + 1, 0)
                    }
                    v[x] = m.get(x);
                }
            }
            Rc::new(Model { v })
        };
        if let Some(r) = self.cache.get(&q) {
            self.cache_hits += 1;
            return match r {
                Res::Sat(m) => Res::Sat(merge(m, &q)),
                x => x.clone(),
            };
        }
        for m in self.pool.iter() {
            new_epoch();
            if q.iter().all(|&c| eval_e(c, m) == 1) {
                self.cache_hits += 1;
                return Res::Sat(merge(m, &q));
            }
        }
        let r = self.raw(&q);
        if let Res::Sat(m) = &r {
            self.pool.push_front(m.clone());
            if self.pool.len() > 24 {
                self.pool.pop_back();
            }
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(q.clone(), r.clone());
        match r {
            Res::Sat(m) => Res::Sat(merge(&m, &q)),
            x => x,
        }
    }

    fn raw(&mut self, q: &[Ex]) -> Res {
        self.grow();
        if self.guard.len() > self.guard_max || self.refs.len() > 3_000_000 {
            self.fresh();
            self.grow();
        }
        let t = Instant::now();
        let gs: Vec<P> = q.iter().map(|&c| self.guard(c)).collect();
        self.queries += 1;
        let mut r = unsafe { Z3_solver_check_assumptions(self.ctx, self.s, gs.len() as c_uint, gs.as_ptr()) };
        if r == 0 {
            // retry in a fresh solver
            self.fresh();
            self.grow();
            let gs: Vec<P> = q.iter().map(|&c| self.guard(c)).collect();
            r = unsafe { Z3_solver_check_assumptions(self.ctx, self.s, gs.len() as c_uint, gs.as_ptr()) };
        }
        let out = match r {
            1 => {
                self.sat += 1;
                unsafe {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut v: Vec<u128> = vec![];
                    let mut seen: std::collections::HashSet<u32> = Default::default();
                    for &c in q {
                        for &x in vars(c).iter() {
                            if !seen.insert(x) {
                                continue;
                            }
                            let w = ar().var_w[x as usize];
                            let a = self.tbv(var(x, w));
                            let mut o: P = std::ptr::null_mut();
                            let ok = Z3_model_eval(self.ctx, m, a, 1, &mut o);
                            assert!(ok != 0, "model eval failed");
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap().to_string();
                            let k: u128 = s.parse().expect("numeral");
                            let xi = x as usize;
                            if v.len() <= xi {
                                v.resize(xi + 1, 0)
                            }
                            v[xi] = k;
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    let m = Model { v };
                    // every model is checked against the engine's own semantics
                    new_epoch();
                    for &c in q {
                        assert!(eval_e(c, &m) == 1, "solver model does not satisfy constraint {}", show(c, 6));
                    }
                    Res::Sat(Rc::new(m))
                }
            }
            -1 => {
                self.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        };
        if unsafe { Z3_get_error_code(self.ctx) } != 0 {
            panic!("z3 error code");
        }
        let d = t.elapsed().as_secs_f64();
        self.solver_s += d;
        if d > self.slowest_s {
            self.slowest_s = d;
        }
        if d > 0.2 {
            if let Ok(dir) = std::env::var("SYMEX_SLOW") {
                let _ = std::fs::write(format!("{}/s{}_{}_{:.1}.smt2", dir, std::process::id(), self.queries, d), smt2(q));
            }
        }
        self.dump_query(q, r);
        out
    }

    /// Write the query as SMT-LIB2 for cross-checking by another solver.
    fn dump_query(&mut self, q: &[Ex], r: c_int) {
        if let Some((d, n, max)) = &mut self.dump {
            let slot = self.queries;
            // keep a spread: powers-of-two spaced plus the first few
            let take = *n < *max && (slot <= 4 || slot % (1 + slot.next_power_of_two() / 16) == 0);
            if take {
                *n += 1;
                let f = format!("{}/q{}_{}_{}.smt2", d, std::process::id(), slot, if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" });
                let _ = std::fs::write(f, smt2(q));
            }
        }
    }
}

pub fn smt2(q: &[Ex]) -> String {
    let mut o = String::from("(set-logic QF_BV)\n");
    let mut vs: Vec<u32> = vec![];
    for &c in q {
        vs.extend(vars(c).iter())
    }
    vs.sort_unstable();
    vs.dedup();
    for v in vs {
        o += &format!("(declare-const v{} (_ BitVec {}))\n", v, ar().var_w[v as usize]);
    }
    let mut done: std::collections::HashSet<Ex> = Default::default();
    fn go(e: Ex, o: &mut String, done: &mut std::collections::HashSet<Ex>) {
        if !done.insert(e) {
            return;
        }
        let n = *nd(e);
        match n.op {
            Op::Const | Op::Var => return,
            Op::Extract => go(n.a, o, done),
            Op::Ite => {
                go(n.a, o, done);
                go(n.b, o, done);
                go(n.c, o, done);
            }
            _ => {
                go(n.a, o, done);
                go(n.b, o, done);
            }
        }
        let r = |x: Ex| -> String {
            let m = nd(x);
            match m.op {
                Op::Const => format!("(_ bv{} {})", m.k, m.w),
                Op::Var => format!("v{}", m.k),
                _ => format!("e{}", x),
            }
        };
        let b = |s: String| format!("(ite {} #b1 #b0)", s);
        let t = match n.op {
            Op::Extract => format!("((_ extract {} {}) {})", n.k + n.w as u128 - 1, n.k, r(n.a)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
            Op::Eq => b(format!("(= {} {})", r(n.a), r(n.b))),
            Op::Ult => b(format!("(bvult {} {})", r(n.a), r(n.b))),
            Op::Slt => b(format!("(bvslt {} {})", r(n.a), r(n.b))),
            op => {
                let s = match op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::URem => "bvurem",
                    Op::SDiv => "bvsdiv",
                    Op::SRem => "bvsrem",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    Op::AShr => "bvashr",
                    _ => "concat",
                };
                format!("({} {} {})", s, r(n.a), r(n.b))
            }
        };
        *o += &format!("(define-fun e{} () (_ BitVec {}) {})\n", e, n.w, t);
    }
    for &c in q {
        go(c, &mut o, &mut done);
        let m = nd(c);
        let s = match m.op {
            Op::Const => format!("(_ bv{} 1)", m.k),
            Op::Var => format!("v{}", m.k),
            _ => format!("e{}", c),
        };
        o += &format!("(assert (= {} #b1))\n", s);
    }
    o += "(check-sat)\n";
    o
}
