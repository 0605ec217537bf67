//! Path-forking symbolic execution of the parsed module.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u128),
    E(Ex),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<Ex>>,
    pub writable: bool,
    pub heap: bool,
}
impl Obj {
    fn new(n: usize, heap: bool) -> Obj {
        Obj { data: vec![0; n], sym: None, writable: true, heap }
    }
}

#[derive(Clone)]
pub struct Mem {
    base: Rc<Vec<Option<Rc<Obj>>>>,
    over: BTreeMap<u32, Rc<Obj>>,
    dy: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pub allocated: u64,
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    regs: Vec<V>,
    block: u32,
    ip: u32,
    allocas: Vec<u32>,
    ret: u32,
    dbg: u32,
    resume: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Input {
    pub name: String,
    pub bits: u16,
    pub e: Ex,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    top: Frame,
    mem: Mem,
    pc: Vec<Ex>,
    known: Rc<FxMap<Ex, u128>>,
    /// variables the path condition fixes to one value
    fixed: Rc<FxMap<u32, u128>>,
    model: Rc<Model>,
    inputs: Rc<Vec<Input>>,
    nvar: u32,
    obs: Rc<Vec<(String, V)>>,
    checks: u32,
    steps: u64,
    forks: u32,
    lastloc: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub name: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u16, u128)>,
}

pub struct Config {
    pub params: Vec<u64>,
    pub max_alloc: u64,
    /// Only panics, bad memory, allocations, recursion and endless runs count:
    /// a path ends where the harness would see a wrong result.
    pub quiet: bool,
    pub max_depth: usize,
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_seconds: f64,
    pub solver_ms: u32,
    pub max_viol: usize,
    pub samples: usize,
    pub seed: u64,
    pub max_enum: usize,
    pub fork_shifts: bool,
    pub stop: Option<(std::path::PathBuf, f64)>,
    /// widest value to merge at the end of a pure region (0: never)
    pub merge: u16,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(String, u16, u128)>,
    pub obs: Vec<(String, u128)>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub paths_done: u64,
    pub paths_assume: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_by: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
    pub exhausted: bool,
    pub viol: Vec<Violation>,
    pub viol_total: u64,
    pub samples: Vec<Sample>,
    pub max_inputs_bits: u64,
    pub max_pc: usize,
}

enum End {
    Done,
    Assume,
    Viol(String, String),
    Inconc(String),
    Killed,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stub {
    None,
    Panic,
    Format,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Strlen,
    RandomKeys,
    Ret0,
    Intrinsic,
    OomAbort,
    VsInt,
    VsBytes,
    VsAssume,
    VsCheck,
    VsReach,
    VsObserve,
    VsParam,
    VsAllocated,
    VsConcrete,
    VsFail,
    VsChoose,
    HashZero,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    stubs: Vec<Stub>,
    pub sv: Solver,
    pub cfg: Config,
    pub st: Stats,
    work: Vec<State>,
    joins: HashMap<(u32, u32), Option<u32>>,
    merging: bool,
    pub covered: Vec<bool>,
    pub called: BTreeSet<u32>,
    base: Rc<Vec<Option<Rc<Obj>>>>,
    nsyms: u32,
    viol_keys: HashMap<String, u32>,
    stop_seen: Instant,
    stop_now: bool,
    rng: u64,
    seen_samples: u64,
}

fn stub_of(n: &str) -> Stub {
    if n.starts_with("llvm.") {
        return Stub::Intrinsic;
    }
    match n {
        "malloc" => return Stub::Malloc,
        "calloc" => return Stub::Calloc,
        "realloc" => return Stub::Realloc,
        "free" => return Stub::Free,
        "posix_memalign" => return Stub::Memalign,
        "memcmp" => return Stub::Memcmp,
        "bcmp" => return Stub::Bcmp,
        "strlen" => return Stub::Strlen,
        "__cxa_thread_atexit_impl" => return Stub::Ret0,
        "vs_int" => return Stub::VsInt,
        "vs_bytes" => return Stub::VsBytes,
        "vs_assume" => return Stub::VsAssume,
        "vs_check" => return Stub::VsCheck,
        "vs_reach" => return Stub::VsReach,
        "vs_observe" => return Stub::VsObserve,
        "vs_param" => return Stub::VsParam,
        "vs_allocated" => return Stub::VsAllocated,
        "vs_concrete" => return Stub::VsConcrete,
        "vs_fail" => return Stub::VsFail,
        "vs_choose" => return Stub::VsChoose,
        "abort" | "llvm.trap" => return Stub::Panic,
        _ => {}
    }
    if n.contains("4core9panicking") {
        return Stub::Panic;
    }
    if n.contains("5alloc5alloc18handle_alloc_error") {
        return Stub::OomAbort;
    }
    if n.contains("5alloc3fmt6format12format_inner") {
        return Stub::Format;
    }
    if n.contains("19hashmap_random_keys") {
        return Stub::RandomKeys;
    }
    if n.contains("11BuildHasher8hash_one") || n.contains("9hashbrown3map9make_hash") {
        return Stub::HashZero;
    }
    Stub::None
}

type R<X> = Result<X, End>;

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Config) -> Exec<'m> {
        let nsyms = m.syms.len() as u32;
        let mut base: Vec<Option<Rc<Obj>>> = vec![None; nsyms as usize];
        for g in &m.globals {
            let mut o = Obj::new(g.ty.size() as usize, false);
            if let Some(k) = &g.init {
                init(&mut o.data, 0, &g.ty, k);
            }
            o.writable = !g.constant;
            base[g.sym as usize] = Some(Rc::new(o));
        }
        let ms = cfg.solver_ms;
        let seed = cfg.seed;
        let ndbg = m.dbg.keys().max().copied().unwrap_or(0) as usize + 1;
        Exec {
            m,
            stubs: m.syms.iter().map(|s| stub_of(s)).collect(),
            sv: Solver::new(ms),
            cfg,
            st: Stats::default(),
            work: vec![],
            covered: vec![false; ndbg],
            called: Default::default(),
            base: Rc::new(base),
            nsyms,
            viol_keys: Default::default(),
            joins: Default::default(),
            merging: false,
            stop_seen: Instant::now(),
            stop_now: false,
            rng: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1,
            seen_samples: 0,
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn run(&mut self, entry: u32) {
        let f = self.m.funcs[entry as usize].as_ref().expect("entry has no body");
        let top = Frame { func: entry, regs: vec![V::C(0); f.nregs as usize], block: 0, ip: 0, allocas: vec![], ret: u32::MAX, dbg: 0, resume: None };
        self.called.insert(entry);
        let s = State {
            frames: vec![],
            top,
            mem: Mem { base: self.base.clone(), over: Default::default(), dy: vec![], free: vec![], allocated: 0 },
            pc: vec![],
            known: Default::default(),
            fixed: Default::default(),
            model: Rc::new(Model { v: vec![] }),
            inputs: Default::default(),
            nvar: 0,
            obs: Default::default(),
            checks: 0,
            steps: 0,
            forks: 0,
            lastloc: 0,
        };
        self.work.push(s);
        let t0 = Instant::now();
        self.st.exhausted = true;
        let verbose = std::env::var("SYMEX_V").is_ok();
        let mut last = Instant::now();
        while let Some(mut s) = self.work.pop() {
            if t0.elapsed().as_secs_f64() > self.cfg.max_seconds || self.st.paths >= self.cfg.max_paths {
                self.st.exhausted = false;
                self.st.inconclusive.push(format!("budget reached with {} states pending", self.work.len() + 1));
                break;
            }
            if self.stopping() {
                self.st.exhausted = false;
                break;
            }
            if self.st.viol.len() >= self.cfg.max_viol {
                self.st.exhausted = false;
                break;
            }
            if verbose && last.elapsed().as_secs() >= 2 {
                last = Instant::now();
                eprintln!(
                    "[{:.0}s] paths {} pending {} queries {} hits {} solver {:.1}s nodes {} steps {} pc {} at {}",
                    t0.elapsed().as_secs_f64(),
                    self.st.paths,
                    self.work.len(),
                    self.sv.queries,
                    self.sv.cache_hits,
                    self.sv.solver_s,
                    ar().n.len(),
                    self.st.steps,
                    s.pc.len(),
                    self.stack(&s).first().cloned().unwrap_or_default()
                );
            }
            let before = s.steps;
            let deadline = t0 + std::time::Duration::from_secs_f64(self.cfg.max_seconds);
            let end = self.path(&mut s, deadline);
            self.st.steps += s.steps - before;
            self.st.max_pc = self.st.max_pc.max(s.pc.len());
            self.finish(&s, end);
        }
    }

    fn finish(&mut self, s: &State, end: End) {
        match end {
            End::Killed => {}
            End::Done => {
                self.st.paths += 1;
                self.st.paths_done += 1;
                let bits: u64 = s.inputs.iter().map(|i| i.bits as u64).sum();
                self.st.max_inputs_bits = self.st.max_inputs_bits.max(bits);
                self.sample(s);
            }
            End::Assume => {
                self.st.paths_assume += 1;
            }
            End::Viol(k, n) => {
                self.st.paths += 1;
                let m = s.model.clone();
                self.violation(s, &k, &n, &m);
            }
            End::Inconc(w) => {
                self.st.paths += 1;
                let w = format!("{} @ {}", w, self.stack(s).join(" < "));
                if self.st.inconclusive.len() < 20 && !self.st.inconclusive.contains(&w) {
                    if std::env::var("SYMEX_V").is_ok() {
                        eprintln!("INCONCLUSIVE {}", w);
                    }
                    self.st.inconclusive.push(w);
                }
            }
        }
    }

    fn inputs_under(&self, s: &State, m: &Model) -> Vec<(String, u16, u128)> {
        new_epoch();
        s.inputs.iter().map(|i| (i.name.clone(), i.bits, eval_e(i.e, m))).collect()
    }
    fn sample(&mut self, s: &State) {
        // reservoir sampling over completed paths
        self.seen_samples += 1;
        let k = self.cfg.samples;
        if k == 0 {
            return;
        }
        let slot = if self.st.samples.len() < k {
            self.st.samples.push(Sample { inputs: vec![], obs: vec![] });
            self.st.samples.len() - 1
        } else {
            let r = (self.rand() % self.seen_samples) as usize;
            if r >= k {
                return;
            }
            r
        };
        let inputs = self.inputs_under(s, &s.model);
        new_epoch();
        let obs = s
            .obs
            .iter()
            .map(|(n, v)| {
                (
                    n.clone(),
                    match v {
                        V::C(k) => *k,
                        V::E(e) => eval_e(*e, &s.model),
                        _ => 0,
                    },
                )
            })
            .collect();
        self.st.samples[slot] = Sample { inputs, obs };
    }

    fn loc_chain(&self, dbg: u32, out: &mut Vec<String>) {
        let mut d = dbg;
        let mut n = 0;
        while d != 0 && n < 40 {
            n += 1;
            let (line, mut sc, inl) = match self.m.dbg.get(&d) {
                Some(x) if x.kind == 1 => (x.line, x.scope, x.inlined),
                _ => return,
            };
            while let Some(x) = self.m.dbg.get(&sc) {
                if x.kind == 2 {
                    let file = self.m.dbg.get(&x.file).map(|f| f.name.clone()).unwrap_or_default();
                    out.push(format!("{}:{} {}", file, line, x.name));
                    break;
                }
                sc = x.scope;
            }
            d = inl;
        }
    }
    fn stack(&self, s: &State) -> Vec<String> {
        let mut out = vec![];
        self.loc_chain(s.lastloc, &mut out);
        for f in s.frames.iter().rev().take(30) {
            if f.dbg == 0 {
                out.push(self.m.syms[f.func as usize].chars().take(100).collect());
            } else {
                self.loc_chain(f.dbg, &mut out);
            }
        }
        out.truncate(40);
        out
    }
    /// Whether some job found a violation and the time left after that is over.
    fn stopping(&mut self) -> bool {
        let Some((file, secs)) = &self.cfg.stop else { return false };
        if self.stop_seen.elapsed().as_secs() < 1 {
            return self.stop_now;
        }
        self.stop_seen = Instant::now();
        if let Ok(t) = std::fs::metadata(file).and_then(|m| m.modified()) {
            self.stop_now = t.elapsed().map_or(false, |d| d.as_secs_f64() > *secs);
        }
        self.stop_now
    }

    fn violation(&mut self, s: &State, kind: &str, name: &str, m: &Model) {
        self.st.viol_total += 1;
        if let Some((file, _)) = &self.cfg.stop {
            if self.st.viol_total == 1 && !file.exists() {
                let _ = std::fs::write(file, b"");
            }
        }
        let stack = self.stack(s);
        let loc = stack.iter().find(|l| l.contains("/repo/")).cloned().unwrap_or_else(|| stack.first().cloned().unwrap_or_default());
        let key = format!("{}|{}|{}", kind, name, if kind == "check" { String::new() } else { loc });
        let c = self.viol_keys.entry(key).or_insert(0);
        *c += 1;
        if *c > 1 {
            return;
        }
        let inputs = self.inputs_under(s, m);
        self.st.viol.push(Violation { kind: kind.into(), name: name.into(), stack, inputs });
    }

    // ------------------------------------------------------------ path loop

    fn path(&mut self, s: &mut State, deadline: Instant) -> End {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 && Instant::now() > deadline {
                return End::Inconc("time budget reached inside a path".into());
            }
            if tick & 0xffff == 0 && self.stopping() {
                self.st.exhausted = false;
                return End::Killed;
            }
            match self.step(s) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    fn kon(&self, ty: &Ty, k: &Kon) -> V {
        match (ty, k) {
            (Ty::Vec(n, t), Kon::Zero) | (Ty::Vec(n, t), Kon::Undef) => V::A(Rc::new(vec![self.kon(t, k); *n as usize])),
            (Ty::Arr(n, t), Kon::Zero) | (Ty::Arr(n, t), Kon::Undef) => V::A(Rc::new(vec![self.kon(t, k); *n as usize])),
            (Ty::Struct(v, _), Kon::Zero) | (Ty::Struct(v, _), Kon::Undef) => V::A(Rc::new(v.iter().map(|t| self.kon(t, k)).collect())),
            (Ty::Vec(_, t), Kon::Agg(v)) | (Ty::Arr(_, t), Kon::Agg(v)) => V::A(Rc::new(v.iter().map(|x| self.kon(t, x)).collect())),
            (Ty::Struct(ts, _), Kon::Agg(v)) => V::A(Rc::new(v.iter().zip(ts).map(|(x, t)| self.kon(t, x)).collect())),
            (Ty::Arr(_, _), Kon::Bytes(b)) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            (_, Kon::I(k)) => V::C(*k),
            _ => V::C(0),
        }
    }
    #[inline(always)]
    fn get(&self, s: &State, ty: &Ty, o: &Opn) -> V {
        match o {
            Opn::Reg(r) => {
                let v = &s.top.regs[*r as usize];
                if let V::E(e) = v {
                    if !s.known.is_empty() {
                        if let Some(k) = s.known.get(e) {
                            return V::C(*k);
                        }
                    }
                }
                v.clone()
            }
            Opn::K(Kon::I(k)) => V::C(*k),
            Opn::K(k) => self.kon(ty, k),
        }
    }
    fn ex(&self, v: &V, w: u16) -> Ex {
        match v {
            V::C(k) => cst(w, *k),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(e: Ex) -> V {
        match as_const(e) {
            Some(k) => V::C(k),
            None => V::E(e),
        }
    }

    fn add_pc(&mut self, s: &mut State, c: Ex) {
        if as_const(c).is_some() {
            return;
        }
        // split conjunctions
        let n = *nd(c);
        if n.op == Op::And {
            self.add_pc(s, n.a);
            self.add_pc(s, n.b);
            return;
        }
        if s.pc.contains(&c) {
            return;
        }
        s.pc.push(c);
        let k = Rc::make_mut(&mut s.known);
        k.insert(c, 1);
        let nc = not(c);
        k.insert(nc, 0);
        if n.op == Op::Eq {
            if let Some(v) = as_const(n.b) {
                k.insert(n.a, v);
            }
        }
        self.fix(s, c);
    }
    /// Note variables fixed by the (new) constraint `c`.
    fn fix(&mut self, s: &mut State, c: Ex) {
        let n = *nd(c);
        let (e, v) = match n.op {
            Op::Var => (c, 1),
            Op::Xor if as_const(n.b) == Some(1) => (n.a, 0),
            Op::Eq => match as_const(n.b) {
                Some(v) => (n.a, v),
                None => return,
            },
            _ => return,
        };
        if nd(e).op == Op::Var {
            Rc::make_mut(&mut s.fixed).insert(nd(e).k as u32, v);
        }
    }
    fn settle(&self, s: &State, v: &V) -> V {
        match v {
            V::E(e) => {
                if let Some(k) = s.known.get(e) {
                    return V::C(*k);
                }
                if vars(*e).iter().any(|x| s.fixed.contains_key(x)) {
                    let f = s.fixed.clone();
                    let mut memo = Default::default();
                    return Self::val(subst(*e, &|x| f.get(&x).copied(), &mut memo));
                }
                v.clone()
            }
            V::A(x) => V::A(Rc::new(x.iter().map(|y| self.settle(s, y)).collect())),
            _ => v.clone(),
        }
    }

    /// Decide a boolean: returns Some(b) if forced, None if both feasible;
    /// `other` receives the model for the side not taken by the current model.
    fn decide(&mut self, s: &State, c: Ex) -> R<(bool, Option<Rc<Model>>)> {
        if let Some(k) = as_const(c) {
            return Ok((k == 1, None));
        }
        if let Some(k) = s.known.get(&c) {
            return Ok((*k == 1, None));
        }
        let cur = eval(c, &s.model) == 1;
        let q = if cur { not(c) } else { c };
        match self.sv.check(&s.pc, q, &s.model) {
            Res::Unsat => Ok((cur, None)),
            Res::Sat(m) => Ok((cur, Some(m))),
            Res::Unknown => Err(End::Inconc("solver gave up on a branch".into())),
        }
    }

    /// Fork on a boolean.  Current state continues on the returned side; the
    /// other side is queued, to re-execute the same instruction.
    fn branch(&mut self, s: &mut State, c: Ex) -> R<bool> {
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        let orig = c;
        let c = self.simp(s, c);
        if let Some(k) = as_const(c) {
            return Ok(k == 1);
        }
        let (b, other) = self.decide(s, c)?;
        if let Some(m) = other {
            self.st.forks += 1;
            let mut o = s.clone();
            o.model = m;
            o.forks += 1;
            s.forks += 1;
            let nc = not(c);
            self.add_pc(&mut o, if b { nc } else { c });
            Rc::make_mut(&mut o.known).insert(orig, !b as u128);
            self.work.push(o);
            self.add_pc(s, if b { c } else { nc });
        } else {
            Rc::make_mut(&mut s.known).insert(c, b as u128);
        }
        Rc::make_mut(&mut s.known).insert(orig, b as u128);
        Ok(b)
    }
    /// Simplify under the facts of the path condition.
    fn simp(&self, s: &State, c: Ex) -> Ex {
        if s.known.is_empty() {
            return c;
        }
        let k = &s.known;
        let fx = &s.fixed;
        let mut memo = Default::default();
        simp_known(
            c,
            &|e| {
                if let Some(v) = k.get(&e) {
                    return Some(*v);
                }
                let n = nd(e);
                if n.op == Op::Var {
                    return fx.get(&(n.k as u32)).copied();
                }
                None
            },
            &mut memo,
        )
    }

    /// Make an expression concrete by forking over all its feasible values.
    fn concretize(&mut self, s: &mut State, v: &V, w: u16, what: &str) -> R<u128> {
        match self.concretize_upto(s, v, w, what, self.cfg.max_enum)? {
            Some(k) => Ok(k),
            None => Err(End::Inconc(format!("too many values for {}: {}", what, show(self.ex(v, w), 4)))),
        }
    }
    /// None when there are more than `limit` values.
    fn concretize_upto(&mut self, s: &mut State, v: &V, w: u16, what: &str, limit: usize) -> R<Option<u128>> {
        let e = match v {
            V::C(k) => return Ok(Some(*k)),
            V::E(e) => *e,
            _ => panic!(),
        };
        if let Some(k) = s.known.get(&e) {
            return Ok(Some(*k));
        }
        let e0 = e;
        let e = self.simp(s, e);
        if let Some(k) = as_const(e) {
            return Ok(Some(k));
        }
        let first = eval(e, &s.model);
        let mut vals: Vec<(u128, Rc<Model>)> = vec![(first, s.model.clone())];
        let mut ne = not(eq(e, cst(w, first)));
        loop {
            match self.sv.check(&s.pc, ne, &s.model) {
                Res::Unsat => break,
                Res::Unknown => return Err(End::Inconc(format!("solver gave up concretizing {}", what))),
                Res::Sat(m) => {
                    let k = eval(e, &m);
                    vals.push((k, m));
                    ne = and(ne, not(eq(e, cst(w, k))));
                    if vals.len() > limit {
                        return Ok(None);
                    }
                }
            }
        }
        for (k, m) in vals[1..].iter() {
            self.st.forks += 1;
            let mut o = s.clone();
            o.model = m.clone();
            o.forks += 1;
            let c = eq(e, cst(w, *k));
            self.add_pc(&mut o, c);
            Rc::make_mut(&mut o.known).insert(e, *k);
            Rc::make_mut(&mut o.known).insert(e0, *k);
            self.work.push(o);
        }
        if vals.len() > 1 {
            let c = eq(e, cst(w, first));
            self.add_pc(s, c);
            s.forks += 1;
        }
        Rc::make_mut(&mut s.known).insert(e, first);
        Rc::make_mut(&mut s.known).insert(e0, first);
        Ok(Some(first))
    }

    // -------------------------------------------------------------- memory

    fn obj_id(&self, addr: u64) -> Option<u32> {
        let k = addr >> SYM_SHIFT;
        if k < 16 {
            None
        } else {
            Some((k - 16) as u32)
        }
    }
    fn obj<'a>(&self, s: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        if id < self.nsyms {
            s.mem.over.get(&id).or(s.mem.base[id as usize].as_ref())
        } else {
            s.mem.dy.get((id - self.nsyms) as usize).and_then(|x| x.as_ref())
        }
    }
    fn obj_mut<'a>(&self, s: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id < self.nsyms {
            if !s.mem.over.contains_key(&id) {
                let o = s.mem.base[id as usize].clone()?;
                s.mem.over.insert(id, o);
            }
            s.mem.over.get_mut(&id).map(Rc::make_mut)
        } else {
            s.mem.dy.get_mut((id - self.nsyms) as usize).and_then(|x| x.as_mut()).map(Rc::make_mut)
        }
    }
    fn alloc(&mut self, s: &mut State, n: u64, heap: bool) -> u64 {
        let o = Rc::new(Obj::new(n as usize, heap));
        let d = if let Some(d) = s.mem.free.pop() {
            s.mem.dy[d as usize] = Some(o);
            d
        } else {
            s.mem.dy.push(Some(o));
            s.mem.dy.len() as u32 - 1
        };
        ((d + self.nsyms) as u64 + 16) << SYM_SHIFT
    }
    fn release(&mut self, s: &mut State, addr: u64) -> R<()> {
        let id = self.obj_id(addr).ok_or_else(|| End::Inconc("free of a wild pointer".into()))?;
        if id < self.nsyms || addr & 0xffff_ffff != 0 {
            return Err(End::Inconc("free of a non-heap pointer".into()));
        }
        let d = id - self.nsyms;
        match s.mem.dy.get_mut(d as usize) {
            Some(x @ Some(_)) => *x = None,
            _ => return Err(End::Inconc("double free".into())),
        }
        s.mem.free.push(d);
        Ok(())
    }
    fn locate(&self, s: &State, addr: u64, n: u64, what: &str) -> R<(u32, usize)> {
        let off = (addr & 0xffff_ffff) as usize;
        match self.obj_id(addr).and_then(|id| self.obj(s, id).map(|o| (id, o.data.len()))) {
            Some((id, len)) if off + n as usize <= len => Ok((id, off)),
            Some((_, len)) => Err(End::Inconc(format!("{} of {} bytes at offset {} outside an object of {}", what, n, off, len))),
            None => Err(End::Inconc(format!("{} through a wild pointer {:#x}", what, addr))),
        }
    }
    fn byte(o: &Obj, i: usize) -> Ex {
        match &o.sym {
            Some(v) if v[i] != 0 => v[i],
            _ => cst(8, o.data[i] as u128),
        }
    }
    fn read_at(&self, o: &Obj, off: usize, n: usize) -> V {
        if n > 16 {
            panic!("wide read");
        }
        if o.sym.as_ref().map(|v| v[off..off + n].iter().any(|x| *x != 0)).unwrap_or(false) {
            let mut e = Self::byte(o, off);
            for i in 1..n {
                e = concat(Self::byte(o, off + i), e);
            }
            Self::val(e)
        } else {
            let mut k = 0u128;
            for i in (0..n).rev() {
                k = (k << 8) | o.data[off + i] as u128;
            }
            V::C(k)
        }
    }
    fn write_at(o: &mut Obj, off: usize, n: usize, v: &V) {
        match v {
            V::C(k) => {
                let mut k = *k;
                for i in 0..n {
                    o.data[off + i] = k as u8;
                    k >>= 8;
                }
                if let Some(sy) = &mut o.sym {
                    for x in &mut sy[off..off + n] {
                        *x = 0
                    }
                }
            }
            V::E(e) => {
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                let e = resize(*e, n as u16 * 8);
                for i in 0..n {
                    let b = extract(e, i as u16 * 8, 8);
                    match as_const(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            sy[off + i] = 0
                        }
                        None => sy[off + i] = b,
                    }
                }
            }
            V::A(_) => panic!("write agg"),
        }
    }

    /// All (guard, address) alternatives of a symbolic pointer inside one object
    /// as (object, base offset, stride, count, index expression), or a list.
    fn sym_addr_range(&mut self, s: &mut State, e: Ex, n: u64, what: &str) -> R<Option<(u32, Vec<usize>)>> {
        let cur = eval(e, &s.model) as u64;
        let (id, _) = self.locate(s, cur, n, what)?;
        let len = self.obj(s, id).unwrap().data.len() as u64;
        let base = ((id as u64) + 16) << SYM_SHIFT;
        if len < n {
            return Err(End::Inconc("object too small".into()));
        }
        let last = base + len - n;
        let inb = and(ule(cst(64, base as u128), e), ule(e, cst(64, last as u128)));
        let (b, other) = self.decide(s, inb)?;
        if other.is_some() || !b {
            return Ok(None);
        }
        // stride from known-zero low bits
        let mut tz = 0u16;
        while tz < 6 && as_const(extract(e, tz, 1)) == Some(0) {
            tz += 1
        }
        let stride = 1u64 << tz;
        let lo = (nd(e).lo as u64).max(base);
        let hi = (nd(e).hi as u64).min(last);
        let lo = lo.next_multiple_of(stride);
        let mut v = vec![];
        let mut a = lo;
        while a <= hi {
            v.push((a - base) as usize);
            a += stride;
        }
        if v.len() > 8192 {
            return Err(End::Inconc(format!("symbolic {} over {} offsets", what, v.len())));
        }
        Ok(Some((id, v)))
    }

    /// If the address `e` is one of several constants chosen by nested
    /// conditions (a search that computes instead of branching), a condition
    /// to split on.
    fn split_on(&self, e: Ex) -> Option<Ex> {
        fn go(e: Ex, cond: &mut Option<Ex>, n: &mut u32) -> bool {
            let x = *nd(e);
            match x.op {
                Op::Const => true,
                Op::Ite => {
                    *n += 1;
                    if *n > 16 {
                        return false;
                    }
                    if cond.is_none() {
                        *cond = Some(x.a);
                    }
                    go(x.b, cond, n) && go(x.c, cond, n)
                }
                Op::Add | Op::Sub | Op::Concat | Op::Shl | Op::Mul => go(x.a, cond, n) && go(x.b, cond, n),
                Op::Extract => go(x.a, cond, n),
                _ => false,
            }
        }
        let (mut c, mut n) = (None, 0);
        if go(e, &mut c, &mut n) && (n > 1 || nd(e).op != Op::Ite) {
            c
        } else {
            None
        }
    }

    fn load_scalar(&mut self, s: &mut State, p: &V, bits: u16) -> R<V> {
        let n = (bits as u64).div_ceil(8);
        let v = match p {
            V::C(a) => {
                let (id, off) = self.locate(s, *a as u64, n, "read")?;
                let o = self.obj(s, id).unwrap();
                self.read_at(o, off, n as usize)
            }
            V::E(e) => {
                let e = *e;
                if let Some(c) = self.split_on(e) {
                    self.branch(s, c)?;
                    let e = self.simp(s, e);
                    return self.load_scalar(s, &Self::val(e), bits);
                }
                // pointer chosen between alternatives
                if nd(e).op == Op::Ite {
                    let nn = *nd(e);
                    let (b, other) = self.decide(s, nn.a)?;
                    if other.is_none() {
                        let t = Self::val(if b { nn.b } else { nn.c });
                        return self.load_scalar(s, &t, bits);
                    }
                    if let (Some(x), Some(y)) = (as_const(nn.b), as_const(nn.c)) {
                        let lx = self.load_scalar(s, &V::C(x), bits)?;
                        let ly = self.load_scalar(s, &V::C(y), bits)?;
                        let r = ite(nn.a, self.ex(&lx, bits), self.ex(&ly, bits));
                        return Ok(Self::val(r));
                    }
                }
                match self.sym_addr_range(s, e, n, "read")? {
                    Some((id, offs)) => {
                        let o = self.obj(s, id).unwrap().clone();
                        let base = (((id as u64) + 16) << SYM_SHIFT) as u128;
                        let items: Vec<(u128, Ex)> = offs
                            .iter()
                            .map(|&x| {
                                let v = self.read_at(&o, x, n as usize);
                                (base + x as u128, self.ex(&v, n as u16 * 8))
                            })
                            .collect();
                        let r = mux(e, &items);
                        Self::val(r)
                    }
                    None => {
                        let a = self.concretize(s, p, 64, "a read address")?;
                        return self.load_scalar(s, &V::C(a), bits);
                    }
                }
            }
            _ => panic!(),
        };
        if bits as u64 != n * 8 {
            return Ok(match v {
                V::C(k) => V::C(k & mask(bits)),
                V::E(e) => Self::val(extract(e, 0, bits)),
                v => v,
            });
        }
        Ok(v)
    }
    fn store_scalar(&mut self, s: &mut State, p: &V, bits: u16, v: &V) -> R<()> {
        let n = (bits as u64).div_ceil(8);
        match p {
            V::C(a) => {
                let (id, off) = self.locate(s, *a as u64, n, "write")?;
                let o = self.obj_mut(s, id).unwrap();
                if !o.writable {
                    return Err(End::Inconc("write to constant".into()));
                }
                Self::write_at(o, off, n as usize, v);
                Ok(())
            }
            V::E(e) => {
                let e = *e;
                if let Some(c) = self.split_on(e) {
                    self.branch(s, c)?;
                    let e = self.simp(s, e);
                    return self.store_scalar(s, &Self::val(e), bits, v);
                }
                match self.sym_addr_range(s, e, n, "write")? {
                    Some((id, offs)) if offs.len() <= 64 => {
                        let base = (((id as u64) + 16) << SYM_SHIFT) as u128;
                        let ve = zext(self.ex(v, bits), n as u16 * 8);
                        let old = self.obj(s, id).unwrap().clone();
                        let mut new: BTreeMap<usize, Ex> = Default::default();
                        for &x in &offs {
                            let g = eq(e, cst(64, base + x as u128));
                            for i in 0..n as usize {
                                let b = extract(ve, i as u16 * 8, 8);
                                let cur = *new.entry(x + i).or_insert_with(|| Self::byte(&old, x + i));
                                new.insert(x + i, ite(g, b, cur));
                            }
                        }
                        let o = self.obj_mut(s, id).unwrap();
                        for (x, b) in new {
                            Self::write_at(o, x, 1, &Self::val(b));
                        }
                        Ok(())
                    }
                    _ => {
                        let a = self.concretize(s, p, 64, "a write address")?;
                        self.store_scalar(s, &V::C(a), bits, v)
                    }
                }
            }
            _ => panic!(),
        }
    }
    fn padd(&self, p: &V, k: u64) -> V {
        match p {
            V::C(a) => V::C((*a as u64).wrapping_add(k) as u128),
            V::E(e) => Self::val(bin(Op::Add, *e, cst(64, k as u128))),
            _ => panic!(),
        }
    }
    fn load(&mut self, s: &mut State, ty: &Ty, p: &V) -> R<V> {
        match ty {
            t if t.is_scalar() => self.load_scalar(s, p, t.bits()),
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 {
                    // packed bits
                    let tot = *n as u16 * b;
                    let v = self.load_scalar(s, p, tot)?;
                    let e = self.ex(&v, tot);
                    return Ok(V::A(Rc::new((0..*n as u16).map(|i| Self::val(extract(e, i * b, b))).collect())));
                }
                let mut o = vec![];
                for i in 0..*n as u64 {
                    let q = self.padd(p, i * (b as u64 / 8));
                    o.push(self.load_scalar(s, &q, b)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            Ty::Arr(n, t) => {
                let mut o = vec![];
                for i in 0..*n {
                    let q = self.padd(p, i * t.size());
                    o.push(self.load(s, t, &q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            Ty::Struct(v, _) => {
                let mut o = vec![];
                for (i, t) in v.iter().enumerate() {
                    let q = self.padd(p, ty.field_off(i));
                    o.push(self.load(s, t, &q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            t => panic!("load {:?}", t),
        }
    }
    fn store(&mut self, s: &mut State, ty: &Ty, p: &V, v: &V) -> R<()> {
        match (ty, v) {
            (t, _) if t.is_scalar() => self.store_scalar(s, p, t.bits(), v),
            (Ty::Vec(n, t), V::A(vs)) => {
                let b = t.bits();
                if b % 8 != 0 {
                    let mut e = self.ex(&vs[0], b);
                    for x in &vs[1..] {
                        e = concat(self.ex(x, b), e);
                    }
                    return self.store_scalar(s, p, *n as u16 * b, &Self::val(e));
                }
                for (i, x) in vs.iter().enumerate() {
                    let q = self.padd(p, i as u64 * (b as u64 / 8));
                    self.store_scalar(s, &q, b, x)?;
                }
                Ok(())
            }
            (Ty::Arr(_, t), V::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let q = self.padd(p, i as u64 * t.size());
                    self.store(s, t, &q, x)?;
                }
                Ok(())
            }
            (Ty::Struct(ts, _), V::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let q = self.padd(p, ty.field_off(i));
                    self.store(s, &ts[i], &q, x)?;
                }
                Ok(())
            }
            (t, v) => panic!("store {:?} {:?}", t, v),
        }
    }
    fn memcpy(&mut self, s: &mut State, d: &V, sr: &V, n: &V) -> R<()> {
        let n = self.concretize(s, n, 64, "a copy length")? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(s, d, 64, "a copy destination")? as u64;
        let sr = match sr {
            V::C(k) => *k as u64,
            V::E(e) => {
                // small symbolic-source copies become loads (no fork)
                if n <= 64 {
                    let _ = e;
                    let mut bytes = vec![];
                    for i in 0..n {
                        let q = self.padd(sr, i);
                        bytes.push(self.load_scalar(s, &q, 8)?);
                    }
                    for (i, b) in bytes.iter().enumerate() {
                        self.store_scalar(s, &V::C((d + i as u64) as u128), 8, b)?;
                    }
                    return Ok(());
                }
                self.concretize(s, sr, 64, "a copy source")? as u64
            }
            _ => panic!(),
        };
        let (sid, so) = self.locate(s, sr, n, "copy from")?;
        let (did, dof) = self.locate(s, d, n, "copy to")?;
        let n = n as usize;
        let src = self.obj(s, sid).unwrap().clone();
        let o = self.obj_mut(s, did).unwrap();
        if !o.writable {
            return Err(End::Inconc("copy to constant".into()));
        }
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match &src.sym {
            Some(v) => {
                let sl = &v[so..so + n];
                if o.sym.is_some() || sl.iter().any(|x| *x != 0) {
                    let len = o.data.len();
                    let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                    sy[dof..dof + n].copy_from_slice(sl);
                }
            }
            None => {
                if let Some(sy) = &mut o.sym {
                    for x in &mut sy[dof..dof + n] {
                        *x = 0
                    }
                }
            }
        }
        Ok(())
    }

    /// Allocation request.  A size that can exceed the limit is reported.
    fn do_alloc(&mut self, s: &mut State, size: &V) -> R<u64> {
        let lim = self.cfg.max_alloc;
        let n = match size {
            V::C(k) => *k as u64,
            V::E(e) => {
                let e = *e;
                let big = ult(cst(64, lim as u128), e);
                let (b, other) = self.decide(s, big)?;
                if b {
                    return Err(End::Viol("huge_alloc".into(), format!("allocation request larger than {} bytes", lim)));
                }
                if let Some(m) = other {
                    // report, then continue with the small side
                    self.st.checks += 1;
                    self.violation(&s.clone(), "huge_alloc", &format!("allocation request larger than {} bytes", lim), &m);
                    let c = not(big);
                    self.add_pc(s, c);
                }
                // over-approximate by the maximal feasible size
                let (mut lo, mut hi) = (eval(e, &s.model) as u64, (nd(e).hi as u64).min(lim));
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let c = ult(cst(64, mid as u128), e);
                    match self.sv.check(&s.pc, c, &s.model) {
                        Res::Sat(m) => lo = (eval(e, &m) as u64).max(mid + 1),
                        Res::Unsat => hi = mid,
                        Res::Unknown => return Err(End::Inconc("allocation size".into())),
                    }
                }
                hi
            }
            _ => panic!(),
        };
        if n > lim {
            return Err(End::Viol("huge_alloc".into(), format!("allocation request larger than {} bytes", lim)));
        }
        s.mem.allocated += n;
        Ok(self.alloc(s, n, true))
    }

    fn cstr(&mut self, s: &mut State, p: &V, n: &V) -> R<String> {
        let p = self.concretize(s, p, 64, "name")? as u64;
        let n = self.concretize(s, n, 64, "name length")? as u64;
        if n == 0 {
            return Ok(String::new());
        }
        let (id, off) = self.locate(s, p, n, "name")?;
        let o = self.obj(s, id).unwrap();
        Ok(String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned())
    }

    // ----------------------------------------------------------- stepping

    fn goto(&mut self, s: &mut State, b: u32) -> R<()> {
        let m: &'m Module = self.m;
        let f = m.funcs[s.top.func as usize].as_ref().unwrap();
        let from = s.top.block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                vals.push((p.dst, self.get(s, &p.ty, o)));
            }
            for (d, v) in vals {
                s.top.regs[d as usize] = v;
            }
        }
        s.top.block = b;
        s.top.ip = 0;
        Ok(())
    }

    /// The block at which everything that leaves block `b` meets again, if what
    /// lies between is small, loops nowhere and only computes (or panics).
    fn join(&mut self, func: u32, b: u32) -> Option<u32> {
        if let Some(j) = self.joins.get(&(func, b)) {
            return *j;
        }
        let m: &'m Module = self.m;
        let f = m.funcs[func as usize].as_ref().unwrap();
        let succ = |x: u32| -> Vec<u32> {
            match f.blocks[x as usize].code.last().map(|i| &i.i) {
                Some(I::Br(a)) => vec![*a],
                Some(I::CondBr(_, a, b)) => vec![*a, *b],
                Some(I::Switch(_, _, d, cs)) => {
                    let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
                    v.push(*d);
                    v.sort();
                    v.dedup();
                    v
                }
                _ => vec![],
            }
        };
        let dead = |x: u32| matches!(f.blocks[x as usize].code.last().map(|i| &i.i), Some(I::Unreachable));
        let pure = |x: u32| {
            let k = &f.blocks[x as usize].code;
            k.len() <= 24
                && k.iter().all(|i| {
                    matches!(
                        i.i,
                        I::Bin(..) | I::Icmp(..) | I::Cast(..) | I::Load(..) | I::Gep(..) | I::Select(..) | I::ExtractValue(..) | I::InsertValue(..) | I::Freeze(..) | I::Nop | I::Br(_) | I::CondBr(..) | I::Switch(..)
                    )
                })
        };
        // blocks in order of distance
        let mut order = vec![];
        let mut queue = std::collections::VecDeque::from(succ(b));
        while let Some(x) = queue.pop_front() {
            if order.contains(&x) || x == b || order.len() > 24 {
                continue;
            }
            order.push(x);
            if pure(x) {
                queue.extend(succ(x));
            }
        }
        // does every way from x end in j (or in a panic)?
        fn ends(x: u32, j: u32, b: u32, on: &mut Vec<u32>, seen: &mut Vec<u32>, succ: &dyn Fn(u32) -> Vec<u32>, dead: &dyn Fn(u32) -> bool, pure: &dyn Fn(u32) -> bool) -> bool {
            if x == j || seen.contains(&x) {
                return true;
            }
            if x == b || on.contains(&x) {
                return false;
            }
            if dead(x) {
                return true;
            }
            if !pure(x) || on.len() > 12 {
                return false;
            }
            on.push(x);
            let r = succ(x).into_iter().all(|y| ends(y, j, b, on, seen, succ, dead, pure));
            on.pop();
            seen.push(x);
            r
        }
        let mut best: Option<(usize, u32)> = None;
        for &j in &order {
            if dead(j) {
                continue;
            }
            let mut seen = vec![];
            if succ(b).into_iter().all(|y| ends(y, j, b, &mut vec![], &mut seen, &succ, &dead, &pure)) && best.map_or(true, |x| seen.len() < x.0) {
                best = Some((seen.len(), j));
            }
        }
        let r = best.map(|x| x.1);
        self.joins.insert((func, b), r);
        r
    }

    /// At a branch on something symbolic: if what it chooses between is a pure
    /// region, run every way through it and go on behind it as one state, with
    /// the values that differ chosen by the conditions of the ways.
    fn merge(&mut self, s: &mut State) -> R<bool> {
        if self.cfg.merge == 0 || self.merging {
            return Ok(false);
        }
        let Some(j) = self.join(s.top.func, s.top.block) else { return Ok(false) };
        let (mark, mut arrived) = (self.work.len(), vec![]);
        let paths = self.st.paths;
        let mut todo = vec![s.clone()];
        self.merging = true;
        while let Some(mut t) = todo.pop() {
            loop {
                // (a switch queues its other ways at their targets)
                if t.top.block == j && t.top.ip == 0 {
                    arrived.push(t);
                    break;
                }
                let r = self.step(&mut t);
                todo.extend(self.work.drain(mark..));
                if let Err(e) = r {
                    self.finish(&t, e);
                    break;
                }
            }
        }
        self.merging = false;
        if arrived.is_empty() {
            return Err(End::Killed);
        }
        if arrived.len() == 1 {
            *s = arrived.pop().unwrap();
            return Ok(true);
        }
        let m: &'m Module = self.m;
        let f = m.funcs[s.top.func as usize].as_ref().unwrap();
        let phis = &f.blocks[j as usize].phis;
        let lost = self.st.paths != paths;
        let fits = arrived.len() <= 8
            && phis.iter().all(|p| {
                let same = arrived.iter().all(|t| t.top.regs[p.dst as usize] == arrived[0].top.regs[p.dst as usize]);
                same || (matches!(&*p.ty, Ty::Int(w) if *w as u16 <= self.cfg.merge))
            });
        if !fits {
            *s = arrived.pop().unwrap();
            self.work.extend(arrived);
            return Ok(true);
        }
        let base = s.pc.len();
        let guards: Vec<Ex> = arrived.iter().map(|t| t.pc[base..].iter().fold(tru(), |a, c| and(a, *c))).collect();
        let mut vals = vec![];
        for p in phis {
            let mut v = arrived[0].top.regs[p.dst as usize].clone();
            for (t, g) in arrived.iter().zip(&guards).skip(1) {
                let w = t.top.regs[p.dst as usize].clone();
                if w != v {
                    v = self.sel(&p.ty, &Self::val(*g), &w, &v);
                }
            }
            vals.push((p.dst, v));
        }
        if lost {
            // some way ended in a violation: only the others go on
            let any = guards.iter().fold(fls(), |a, g| or(a, *g));
            s.model = arrived[0].model.clone();
            self.add_pc(s, any);
        }
        s.steps = arrived.iter().map(|t| t.steps).max().unwrap();
        s.lastloc = arrived[0].lastloc;
        s.top.regs = arrived[0].top.regs.clone();
        for (d, v) in vals {
            s.top.regs[d as usize] = v;
        }
        s.top.block = j;
        s.top.ip = 0;
        self.st.merges += 1;
        Ok(true)
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let m: &'m Module = self.m;
        let f = m.funcs[s.top.func as usize].as_ref().unwrap();
        let inst = &f.blocks[s.top.block as usize].code[s.top.ip as usize];
        s.steps += 1;
        if s.steps > self.cfg.max_steps {
            return Err(End::Viol("nontermination".into(), format!("more than {} instructions on one path", self.cfg.max_steps)));
        }
        if inst.dbg != 0 {
            s.lastloc = inst.dbg;
            self.covered[inst.dbg as usize] = true;
        }
        let dst = inst.dst;
        let res: V = match &inst.i {
            I::Bin(op, ty, a, b) => {
                let x = self.get(s, ty, a);
                let mut y = self.get(s, ty, b);
                if let (BinOp::Shl | BinOp::LShr | BinOp::AShr, V::E(e), Ty::Int(w)) = (op, &y, &**ty) {
                    // one path per shift amount: keeps data expressions aligned
                    let _ = e;
                    if self.cfg.fork_shifts {
                        if let Some(k) = self.concretize_upto(s, &y, *w as u16, "shift amount", 70)? {
                            y = V::C(k);
                        }
                    }
                }
                self.map2(ty, &x, &y, &mut |w, p, q| binop(*op, w, p, q))
            }
            I::Icmp(p, ty, a, b) => {
                let (x, y) = (self.get(s, ty, a), self.get(s, ty, b));
                self.map2(ty, &x, &y, &mut |w, a, b| icmp(*p, w, a, b))
            }
            I::Cast(k, t, a, to) => {
                let x = self.get(s, t, a);
                self.cast(*k, t, &x, to)
            }
            I::Load(t, p) => {
                let p = self.get(s, &Ty::Ptr, p);
                self.load(s, t, &p)?
            }
            I::Store(t, v, p) => {
                let v = self.get(s, t, v);
                let p = self.get(s, &Ty::Ptr, p);
                self.store(s, t, &p, &v)?;
                V::C(0)
            }
            I::Gep(b, off, dy) => {
                let b = self.get(s, &Ty::Ptr, b);
                let mut r = self.padd(&b, *off);
                for (sz, o, w) in dy {
                    let i = self.get(s, &Ty::Int(*w), o);
                    r = match (&r, &i) {
                        (V::C(a), V::C(k)) => V::C((*a as u64).wrapping_add((sx(*k, *w) as i64 as u64).wrapping_mul(*sz)) as u128),
                        _ => {
                            let e = sext(self.ex(&i, *w), 64);
                            let e = bin(Op::Mul, e, cst(64, *sz as u128));
                            Self::val(bin(Op::Add, self.ex(&r, 64), e))
                        }
                    };
                }
                r
            }
            I::Alloca(n, _) => {
                let a = self.alloc(s, *n, false);
                s.top.allocas.push((a >> SYM_SHIFT) as u32);
                V::C(a as u128)
            }
            I::Select(t, c, a, b, vec) => {
                if *vec {
                    let n = match &**t {
                        Ty::Vec(n, _) => *n,
                        _ => panic!(),
                    };
                    let cv = self.get(s, &Ty::Vec(n, Rc::new(Ty::Int(1))), c);
                    let (x, y) = (self.get(s, t, a), self.get(s, t, b));
                    let et = match &**t {
                        Ty::Vec(_, e) => e.clone(),
                        _ => panic!(),
                    };
                    match (cv, x, y) {
                        (V::A(c), V::A(x), V::A(y)) => V::A(Rc::new((0..n as usize).map(|i| self.sel(&et, &c[i], &x[i], &y[i])).collect())),
                        _ => panic!(),
                    }
                } else {
                    let c = self.get(s, &Ty::Int(1), c);
                    match c {
                        V::C(k) => self.get(s, t, if k & 1 == 1 { a } else { b }),
                        _ => {
                            let (x, y) = (self.get(s, t, a), self.get(s, t, b));
                            self.sel(t, &c, &x, &y)
                        }
                    }
                }
            }
            I::Freeze(t, a) => self.get(s, t, a),
            I::ExtractValue(a, ix, t) => {
                let mut v = self.get(s, t, a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    }
                }
                v
            }
            I::InsertValue(t, a, t2, b, ix) => {
                let v = self.get(s, t, a);
                let e = self.get(s, t2, b);
                fn ins(v: &V, ix: &[u32], e: V) -> V {
                    if ix.is_empty() {
                        return e;
                    }
                    match v {
                        V::A(x) => {
                            let mut y = (**x).clone();
                            y[ix[0] as usize] = ins(&x[ix[0] as usize], &ix[1..], e);
                            V::A(Rc::new(y))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                ins(&v, ix, e)
            }
            I::ExtractElem(t, a, k) => {
                let v = self.get(s, t, a);
                let k = self.get(s, &Ty::Int(64), k);
                let k = self.concretize(s, &k, 64, "lane")? as usize;
                match v {
                    V::A(x) => x[k].clone(),
                    _ => panic!(),
                }
            }
            I::InsertElem(t, a, e, k) => {
                let v = self.get(s, t, a);
                let et = match &**t {
                    Ty::Vec(_, e) => e.clone(),
                    _ => panic!(),
                };
                let e = self.get(s, &et, e);
                let k = self.get(s, &Ty::Int(64), k);
                let k = self.concretize(s, &k, 64, "lane")? as usize;
                match v {
                    V::A(x) => {
                        let mut y = (*x).clone();
                        y[k] = e;
                        V::A(Rc::new(y))
                    }
                    _ => panic!(),
                }
            }
            I::Shuffle(t, a, b, ix) => {
                let (x, y) = (self.get(s, t, a), self.get(s, t, b));
                match (x, y) {
                    (V::A(x), V::A(y)) => V::A(Rc::new(
                        ix.iter()
                            .map(|&i| {
                                let i = i as usize;
                                if i < x.len() {
                                    x[i].clone()
                                } else {
                                    y[i - x.len()].clone()
                                }
                            })
                            .collect(),
                    )),
                    _ => panic!(),
                }
            }
            I::AtomicRmw(op, t, p, v) => {
                let p = self.get(s, &Ty::Ptr, p);
                let v = self.get(s, t, v);
                let old = self.load(s, t, &p)?;
                let w = t.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => binop(BinOp::Add, w, &old, &v),
                    "sub" => binop(BinOp::Sub, w, &old, &v),
                    "and" => binop(BinOp::And, w, &old, &v),
                    "or" => binop(BinOp::Or, w, &old, &v),
                    "xor" => binop(BinOp::Xor, w, &old, &v),
                    o => return Err(End::Inconc(format!("atomicrmw {}", o))),
                };
                self.store(s, t, &p, &new)?;
                old
            }
            I::CmpXchg(t, p, c, n) => {
                let p = self.get(s, &Ty::Ptr, p);
                let c = self.get(s, t, c);
                let n = self.get(s, t, n);
                let old = self.load(s, t, &p)?;
                let w = t.bits();
                let e = icmp(Pred::Eq, w, &old, &c);
                let new = self.sel(t, &e, &n, &old);
                self.store(s, t, &p, &new)?;
                V::A(Rc::new(vec![old, e]))
            }
            I::Nop => V::C(0),
            I::Br(b) => return self.goto(s, *b),
            I::CondBr(c, a, b) => {
                let c = self.get(s, &Ty::Int(1), c);
                let t = match c {
                    V::C(k) => k & 1 == 1,
                    V::E(_) if self.merge(s)? => return Ok(()),
                    V::E(e) => self.branch(s, e)?,
                    _ => panic!(),
                };
                return self.goto(s, if t { *a } else { *b });
            }
            I::Switch(w, v, d, cs) => {
                let v = self.get(s, &Ty::Int(*w), v);
                let k = match v {
                    V::C(k) => Some(k),
                    V::E(_) if self.merge(s)? => return Ok(()),
                    V::E(e) => {
                        // group cases by target
                        let mut groups: Vec<(u32, Ex)> = vec![];
                        let mut none = tru();
                        for (k, l) in cs {
                            let c = eq(e, cst(*w, *k));
                            if as_const(c) == Some(0) {
                                continue;
                            }
                            none = and(none, not(c));
                            match groups.iter_mut().find(|g| g.0 == *l) {
                                Some(g) => g.1 = or(g.1, c),
                                None => groups.push((*l, c)),
                            }
                        }
                        match groups.iter_mut().find(|g| g.0 == *d) {
                            Some(g) => g.1 = or(g.1, none),
                            None => groups.push((*d, none)),
                        }
                        // which one does the current model take?
                        let kc = eval(e, &s.model);
                        let tgt = cs.iter().find(|c| c.0 == kc).map(|c| c.1).unwrap_or(*d);
                        let mut taken = None;
                        for (l, g) in groups {
                            if l == tgt {
                                taken = Some(g);
                                continue;
                            }
                            if as_const(g) == Some(0) {
                                continue;
                            }
                            if let Some(0) = s.known.get(&g) {
                                continue;
                            }
                            match self.sv.check(&s.pc, g, &s.model) {
                                Res::Unsat => {}
                                Res::Unknown => return Err(End::Inconc("solver gave up on a switch".into())),
                                Res::Sat(m) => {
                                    self.st.forks += 1;
                                    let mut o = s.clone();
                                    o.model = m;
                                    o.forks += 1;
                                    self.add_pc(&mut o, g);
                                    self.goto(&mut o, l)?;
                                    self.work.push(o);
                                }
                            }
                        }
                        let g = taken.unwrap();
                        self.add_pc(s, g);
                        return self.goto(s, tgt);
                    }
                    _ => panic!(),
                };
                let k = k.unwrap();
                let l = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                return self.goto(s, l);
            }
            I::Ret(v) => {
                let v = match v {
                    Some((t, o)) => self.get(s, t, o),
                    None => V::C(0),
                };
                return self.do_ret(s, v);
            }
            I::Unreachable => return Err(End::Viol("unreachable".into(), "an unreachable instruction was reached".into())),
            I::Unsupported(t) => return Err(End::Inconc(format!("unsupported: {}", t))),
            I::Call { callee, args, ret, normal } => {
                let sym = match callee {
                    Callee::Sym(k) => *k,
                    Callee::Ind(o) => {
                        let p = self.get(s, &Ty::Ptr, o);
                        let a = self.concretize(s, &p, 64, "a call target")? as u64;
                        match self.obj_id(a) {
                            Some(id) if id < self.nsyms && a & 0xffff_ffff == 0 => id,
                            _ => return Err(End::Inconc(format!("call through wild pointer {:#x}", a))),
                        }
                    }
                };
                let st = self.stubs[sym as usize];
                if st != Stub::None {
                    let av: Vec<V> = args.iter().map(|(t, o)| self.get(s, t, o)).collect();
                    let v = self.stub(s, st, sym, &av, args, ret)?;
                    if dst != u32::MAX {
                        s.top.regs[dst as usize] = v;
                    }
                    if let Some(n) = normal {
                        return self.goto(s, *n);
                    }
                    s.top.ip += 1;
                    return Ok(());
                }
                let g = match m.funcs.get(sym as usize).and_then(|f| f.as_ref()) {
                    Some(g) => g,
                    None => return Err(End::Inconc(format!("call to external {}", m.syms[sym as usize]))),
                };
                if s.frames.len() >= self.cfg.max_depth {
                    return Err(End::Viol("deep_recursion".into(), format!("call depth exceeds {}", self.cfg.max_depth)));
                }
                self.called.insert(sym);
                let mut regs = vec![V::C(0); g.nregs as usize];
                for (i, (t, o)) in args.iter().enumerate() {
                    if i < g.params.len() {
                        regs[g.params[i] as usize] = self.get(s, t, o);
                    }
                }
                s.top.ret = dst;
                s.top.dbg = inst.dbg;
                s.top.resume = *normal;
                s.top.ip += 1;
                let fr = Frame { func: sym, regs, block: 0, ip: 0, allocas: vec![], ret: u32::MAX, dbg: 0, resume: None };
                let old = std::mem::replace(&mut s.top, fr);
                s.frames.push(Rc::new(old));
                return Ok(());
            }
        };
        if dst != u32::MAX {
            let res = if s.fixed.is_empty() {
                res
            } else {
                match &res {
                    V::C(_) => res,
                    _ => self.settle(s, &res),
                }
            };
            s.top.regs[dst as usize] = res;
        }
        s.top.ip += 1;
        Ok(())
    }

    fn do_ret(&mut self, s: &mut State, v: V) -> R<()> {
        for a in std::mem::take(&mut s.top.allocas) {
            let d = a - 16 - self.nsyms;
            s.mem.dy[d as usize] = None;
            s.mem.free.push(d);
        }
        match s.frames.pop() {
            None => Err(End::Done),
            Some(f) => {
                s.top = match Rc::try_unwrap(f) {
                    Ok(f) => f,
                    Err(f) => (*f).clone(),
                };
                let r = s.top.ret;
                if r != u32::MAX {
                    s.top.regs[r as usize] = v;
                }
                if let Some(b) = s.top.resume.take() {
                    return self.goto(s, b);
                }
                Ok(())
            }
        }
    }

    fn sel(&self, t: &Ty, c: &V, a: &V, b: &V) -> V {
        match c {
            V::C(k) => {
                if k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::E(e) => match (a, b) {
                (V::A(x), V::A(y)) => V::A(Rc::new(
                    x.iter()
                        .zip(y.iter())
                        .enumerate()
                        .map(|(i, (p, q))| {
                            let et = match t {
                                Ty::Vec(_, e) | Ty::Arr(_, e) => e.clone(),
                                Ty::Struct(v, _) => v[i].clone(),
                                _ => panic!(),
                            };
                            self.sel(&et, c, p, q)
                        })
                        .collect(),
                )),
                _ => {
                    let w = t.bits();
                    Self::val(ite(*e, self.ex(a, w), self.ex(b, w)))
                }
            },
            _ => panic!(),
        }
    }
    fn map2(&self, ty: &Ty, x: &V, y: &V, f: &mut dyn FnMut(u16, &V, &V) -> V) -> V {
        match (ty, x, y) {
            (Ty::Vec(_, t), V::A(a), V::A(b)) => V::A(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| f(t.bits(), p, q)).collect())),
            _ => f(ty.bits(), x, y),
        }
    }
    fn cast(&self, k: Cast, t: &Ty, x: &V, to: &Ty) -> V {
        match (t, to, k) {
            (Ty::Vec(_, a), Ty::Vec(_, b), Cast::Trunc | Cast::ZExt | Cast::SExt) => match x {
                V::A(v) => V::A(Rc::new(v.iter().map(|e| self.cast(k, a, e, b)).collect())),
                _ => panic!(),
            },
            (_, _, Cast::Bit) => {
                if t.is_scalar() && to.is_scalar() {
                    return x.clone();
                }
                // via one wide integer
                let (w, e) = match (t, x) {
                    (Ty::Vec(n, et), V::A(v)) => {
                        let b = et.bits();
                        let mut e = self.ex(&v[0], b);
                        for y in &v[1..] {
                            e = concat(self.ex(y, b), e);
                        }
                        (b * *n as u16, e)
                    }
                    (t, x) => (t.bits(), self.ex(x, t.bits())),
                };
                let _ = w;
                match to {
                    Ty::Vec(n, et) => {
                        let b = et.bits();
                        V::A(Rc::new((0..*n as u16).map(|i| Self::val(extract(e, i * b, b))).collect()))
                    }
                    _ => Self::val(e),
                }
            }
            _ => {
                let (fw, tw) = (t.bits(), to.bits());
                match x {
                    V::C(v) => V::C(match k {
                        Cast::Trunc | Cast::ZExt => *v & mask(tw),
                        _ => sx(*v, fw) as u128 & mask(tw),
                    }),
                    V::E(e) => Self::val(match k {
                        Cast::Trunc => extract(*e, 0, tw),
                        Cast::ZExt => zext(*e, tw),
                        _ => sext(*e, tw),
                    }),
                    _ => panic!(),
                }
            }
        }
    }

    // --------------------------------------------------------------- stubs

    fn stub(&mut self, s: &mut State, st: Stub, sym: u32, a: &[V], args: &[(T, Opn)], ret: &T) -> R<V> {
        let name = &self.m.syms[sym as usize];
        let st = if st == Stub::VsCheck && self.cfg.quiet { Stub::VsAssume } else { st };
        match st {
            Stub::Panic => {
                let short: String = name.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect();
                let msg = self.panic_message(s, a);
                Err(End::Viol("panic".into(), if msg.is_empty() { short } else { msg }))
            }
            Stub::OomAbort => Err(End::Viol("panic".into(), "handle_alloc_error".into())),
            Stub::Format => {
                // String { cap: 0, ptr: dangling, len: 0 }
                let p = a[0].clone();
                self.store_scalar(s, &p, 64, &V::C(0))?;
                let q = self.padd(&p, 8);
                self.store_scalar(s, &q, 64, &V::C(1))?;
                let q = self.padd(&p, 16);
                self.store_scalar(s, &q, 64, &V::C(0))?;
                Ok(V::C(0))
            }
            Stub::HashZero => Ok(V::C(0)),
            Stub::RandomKeys => Ok(V::A(Rc::new(vec![V::C(0), V::C(0)]))),
            Stub::Ret0 => Ok(V::C(0)),
            Stub::Malloc => {
                let p = self.do_alloc(s, &a[0])?;
                Ok(V::C(p as u128))
            }
            Stub::Calloc => {
                let n = binop(BinOp::Mul, 64, &a[0], &a[1]);
                let p = self.do_alloc(s, &n)?;
                Ok(V::C(p as u128))
            }
            Stub::Memalign => {
                let p = self.do_alloc(s, &a[2])?;
                self.store_scalar(s, &a[0], 64, &V::C(p as u128))?;
                Ok(V::C(0))
            }
            Stub::Realloc => {
                let old = self.concretize(s, &a[0], 64, "realloc pointer")? as u64;
                let p = self.do_alloc(s, &a[1])?;
                if old != 0 {
                    let id = self.obj_id(old).unwrap();
                    let ol = self.obj(s, id).map(|o| o.data.len()).unwrap_or(0);
                    let nid = self.obj_id(p).unwrap();
                    let nl = self.obj(s, nid).unwrap().data.len();
                    let n = ol.min(nl);
                    self.memcpy(s, &V::C(p as u128), &V::C(old as u128), &V::C(n as u128))?;
                    self.release(s, old)?;
                }
                Ok(V::C(p as u128))
            }
            Stub::Free => {
                let old = self.concretize(s, &a[0], 64, "free pointer")? as u64;
                if old != 0 {
                    self.release(s, old)?;
                }
                Ok(V::C(0))
            }
            Stub::Memcmp | Stub::Bcmp => {
                let n = self.concretize(s, &a[2], 64, "a compare length")? as u64;
                if st == Stub::Bcmp {
                    let mut r = tru();
                    for i in 0..n {
                        let (p, q) = (self.padd(&a[0], i), self.padd(&a[1], i));
                        let (x, y) = (self.load_scalar(s, &p, 8)?, self.load_scalar(s, &q, 8)?);
                        r = and(r, eq(self.ex(&x, 8), self.ex(&y, 8)));
                        if as_const(r) == Some(0) {
                            break;
                        }
                    }
                    Ok(Self::val(ite(r, cst(32, 0), cst(32, 1))))
                } else {
                    let mut prs = vec![];
                    for i in 0..n {
                        let (p, q) = (self.padd(&a[0], i), self.padd(&a[1], i));
                        let (x, y) = (self.load_scalar(s, &p, 8)?, self.load_scalar(s, &q, 8)?);
                        prs.push((self.ex(&x, 8), self.ex(&y, 8)));
                    }
                    let mut r = cst(32, 0);
                    for (x, y) in prs.into_iter().rev() {
                        r = ite(eq(x, y), r, ite(ult(x, y), cst(32, !0), cst(32, 1)));
                    }
                    Ok(Self::val(r))
                }
            }
            Stub::Strlen => {
                let p = self.concretize(s, &a[0], 64, "strlen")?;
                let mut n = 0u64;
                loop {
                    let v = self.load_scalar(s, &V::C(p + n as u128), 8)?;
                    match v {
                        V::C(0) => return Ok(V::C(n as u128)),
                        V::C(_) => n += 1,
                        _ => return Err(End::Inconc("strlen of symbolic data".into())),
                    }
                }
            }
            Stub::VsInt => {
                let nm = self.cstr(s, &a[0], &a[1])?;
                let w = self.concretize(s, &a[2], 32, "width")? as u16;
                let e = var(s.nvar, w);
                s.nvar += 1;
                Rc::make_mut(&mut s.inputs).push(Input { name: nm, bits: w, e });
                Ok(V::E(zext(e, 64)))
            }
            Stub::VsChoose => {
                let nm = self.cstr(s, &a[0], &a[1])?;
                let n = self.concretize(s, &a[2], 64, "number of choices")?;
                if n == 0 {
                    return Err(End::Assume);
                }
                let bits = (128 - (n - 1).leading_zeros()).max(1) as u16;
                // a nondeterministic choice: one state per value
                let f = self.m.funcs[s.top.func as usize].as_ref().unwrap();
                let call = &f.blocks[s.top.block as usize].code[s.top.ip as usize];
                let (dst, normal) = match &call.i {
                    I::Call { normal, .. } => (call.dst, *normal),
                    _ => unreachable!(),
                };
                for k in (1..n).rev() {
                    self.st.forks += 1;
                    let mut o = s.clone();
                    o.forks += 1;
                    Rc::make_mut(&mut o.inputs).push(Input { name: nm.clone(), bits, e: cst(bits, k) });
                    if dst != u32::MAX {
                        o.top.regs[dst as usize] = V::C(k);
                    }
                    match normal {
                        Some(b) => self.goto(&mut o, b)?,
                        None => o.top.ip += 1,
                    }
                    self.work.push(o);
                }
                Rc::make_mut(&mut s.inputs).push(Input { name: nm, bits, e: cst(bits, 0) });
                Ok(V::C(0))
            }
            Stub::VsBytes => {
                let nm = self.cstr(s, &a[0], &a[1])?;
                let p = self.concretize(s, &a[2], 64, "buffer")?;
                let n = self.concretize(s, &a[3], 64, "buffer length")? as u64;
                for i in 0..n {
                    let e = var(s.nvar, 8);
                    s.nvar += 1;
                    Rc::make_mut(&mut s.inputs).push(Input { name: format!("{}[{}]", nm, i), bits: 8, e });
                    self.store_scalar(s, &V::C(p + i as u128), 8, &V::E(e))?;
                }
                Ok(V::C(0))
            }
            Stub::VsFail if self.cfg.quiet => Err(End::Assume),
            Stub::VsAssume => match &a[0] {
                V::C(k) => {
                    if k & 1 == 1 {
                        Ok(V::C(0))
                    } else {
                        Err(End::Assume)
                    }
                }
                V::E(e) => {
                    let e = extract(*e, 0, 1);
                    let (b, other) = self.decide(s, e)?;
                    if b {
                        self.add_pc(s, e);
                        Ok(V::C(0))
                    } else {
                        match other {
                            Some(m) => {
                                s.model = m;
                                self.add_pc(s, e);
                                Ok(V::C(0))
                            }
                            None => Err(End::Assume),
                        }
                    }
                }
                _ => panic!(),
            },
            Stub::VsCheck => {
                let nm = self.cstr(s, &a[1], &a[2])?;
                self.st.checks += 1;
                *self.st.checks_by.entry(nm.clone()).or_insert(0) += 1;
                match &a[0] {
                    V::C(k) => {
                        if k & 1 == 1 {
                            Ok(V::C(0))
                        } else {
                            Err(End::Viol("check".into(), nm))
                        }
                    }
                    V::E(e) => {
                        let e = extract(*e, 0, 1);
                        let e = self.simp(s, e);
                        let (b, other) = self.decide(s, e)?;
                        match (b, other) {
                            (true, None) => Ok(V::C(0)),
                            (true, Some(m)) => {
                                self.violation(&s.clone(), "check", &nm, &m);
                                self.add_pc(s, e);
                                Ok(V::C(0))
                            }
                            (false, _) => Err(End::Viol("check".into(), nm)),
                        }
                    }
                    _ => panic!(),
                }
            }
            Stub::VsFail => {
                let nm = self.cstr(s, &a[0], &a[1])?;
                self.st.checks += 1;
                *self.st.checks_by.entry(nm.clone()).or_insert(0) += 1;
                Err(End::Viol("check".into(), nm))
            }
            Stub::VsReach => {
                let nm = self.cstr(s, &a[0], &a[1])?;
                *self.st.reach.entry(nm).or_insert(0) += 1;
                Ok(V::C(0))
            }
            Stub::VsObserve => {
                let nm = self.cstr(s, &a[0], &a[1])?;
                Rc::make_mut(&mut s.obs).push((nm, a[2].clone()));
                Ok(V::C(0))
            }
            Stub::VsAllocated => Ok(V::C(s.mem.allocated as u128)),
            Stub::VsParam => {
                let k = self.concretize(s, &a[0], 64, "param")? as usize;
                match self.cfg.params.get(k) {
                    Some(v) => Ok(V::C(*v as u128)),
                    None => Err(End::Inconc(format!("missing parameter {}", k))),
                }
            }
            Stub::VsConcrete => {
                let k = self.concretize(s, &a[0], 64, "a harness value")?;
                Ok(V::C(k))
            }
            Stub::Intrinsic => self.intrinsic(s, name, a, args, ret),
            Stub::None => unreachable!(),
        }
    }

    fn panic_message(&mut self, s: &mut State, a: &[V]) -> String {
        // best effort: a &str passed as (ptr, len)
        if a.len() >= 2 {
            if let (V::C(p), V::C(n)) = (&a[0], &a[1]) {
                if *n > 0 && *n < 400 {
                    if let Ok((id, off)) = self.locate(s, *p as u64, *n as u64, "msg") {
                        let o = self.obj(s, id).unwrap();
                        let b = &o.data[off..off + *n as usize];
                        if b.iter().all(|c| (32..127).contains(c)) {
                            return String::from_utf8_lossy(b).into_owned();
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn intrinsic(&mut self, s: &mut State, name: &str, a: &[V], args: &[(T, Opn)], ret: &T) -> R<V> {
        let n = &name[5..];
        let base = |p: &str| n == p || n.starts_with(&format!("{}.", p));
        if base("lifetime.start")
            || base("lifetime.end")
            || base("experimental.noalias.scope.decl")
            || base("assume")
            || base("donothing")
            || base("dbg")
            || base("prefetch")
            || n.starts_with("x86.sse2.pause")
        {
            return Ok(V::C(0));
        }
        if base("memcpy") || base("memmove") {
            self.memcpy(s, &a[0], &a[1], &a[2])?;
            return Ok(V::C(0));
        }
        if base("memset") {
            let len = self.concretize(s, &a[2], 64, "memset length")? as u64;
            if len == 0 {
                return Ok(V::C(0));
            }
            let p = self.concretize(s, &a[0], 64, "memset pointer")? as u64;
            let (id, off) = self.locate(s, p, len, "memset")?;
            let v = a[1].clone();
            let o = self.obj_mut(s, id).unwrap();
            match v {
                V::C(k) => {
                    for x in &mut o.data[off..off + len as usize] {
                        *x = k as u8
                    }
                    if let Some(sy) = &mut o.sym {
                        for x in &mut sy[off..off + len as usize] {
                            *x = 0
                        }
                    }
                }
                v => {
                    for i in 0..len as usize {
                        Self::write_at(o, off + i, 1, &v)
                    }
                }
            }
            return Ok(V::C(0));
        }
        if base("threadlocal.address") || base("expect") || base("ssa.copy") || base("launder.invariant.group") {
            return Ok(a[0].clone());
        }
        if base("is.constant") {
            return Ok(V::C(0));
        }
        if base("trap") {
            return Err(End::Viol("panic".into(), "llvm.trap".into()));
        }
        // scalar / vector arithmetic
        let t0 = args[0].0.clone();
        if let Some(rest) = n.strip_prefix("vector.reduce.") {
            let op = rest.split('.').next().unwrap();
            if let (Ty::Vec(_, et), V::A(v)) = (&*t0, &a[0]) {
                let w = et.bits();
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = match op {
                        "or" => binop(BinOp::Or, w, &r, x),
                        "and" => binop(BinOp::And, w, &r, x),
                        "xor" => binop(BinOp::Xor, w, &r, x),
                        "add" => binop(BinOp::Add, w, &r, x),
                        "umax" => arith("umax", w, w, &[r.clone(), x.clone()]).unwrap(),
                        "umin" => arith("umin", w, w, &[r.clone(), x.clone()]).unwrap(),
                        _ => return Err(End::Inconc(name.into())),
                    };
                }
                return Ok(r);
            }
        }
        let op = n.rsplit_once(".v").filter(|(_, r)| r.starts_with(|c: char| c.is_ascii_digit())).map(|(l, _)| l).unwrap_or(n);
        let op = match op.rfind(".i") {
            Some(p) if op[p + 2..].chars().all(|c| c.is_ascii_digit() || c == '.' || c == 'i') => &op[..op.find(".i").map(|q| q.min(p)).unwrap_or(p)],
            _ => op,
        };
        let r = if let (Ty::Vec(k, et), V::A(_)) = (&*t0, &a[0]) {
            let rw = match &**ret {
                Ty::Vec(_, e) => e.bits(),
                t => t.bits(),
            };
            let mut out = vec![];
            let mut ok = true;
            for i in 0..*k as usize {
                let lane: Vec<V> = a
                    .iter()
                    .map(|x| match x {
                        V::A(v) => v[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                match arith(op, et.bits(), rw, &lane) {
                    Some(v) => out.push(v),
                    None => ok = false,
                }
            }
            if ok {
                Some(V::A(Rc::new(out)))
            } else {
                None
            }
        } else if t0.is_scalar() {
            let rw = if ret.is_scalar() { ret.bits() } else { 0 };
            arith(op, t0.bits(), rw, a)
        } else {
            None
        };
        r.ok_or_else(|| End::Inconc(format!("intrinsic {} ({})", name, op)))
    }

    /// Names of source functions (from debug info) executed, under a path prefix.
    pub fn covered_functions(&self, prefix: &str) -> BTreeMap<String, BTreeSet<u32>> {
        let mut out: BTreeMap<String, BTreeSet<u32>> = Default::default();
        for (id, c) in self.covered.iter().enumerate() {
            if !*c {
                continue;
            }
            let mut d = id as u32;
            let mut guard = 0;
            while d != 0 && guard < 60 {
                guard += 1;
                let (line, mut sc, inl) = match self.m.dbg.get(&d) {
                    Some(x) if x.kind == 1 => (x.line, x.scope, x.inlined),
                    _ => break,
                };
                while let Some(x) = self.m.dbg.get(&sc) {
                    if x.kind == 2 {
                        if let Some(f) = self.m.dbg.get(&x.file) {
                            if f.name.contains(prefix) {
                                let p = f.name.find(prefix).unwrap();
                                out.entry(format!("{}::{}", &f.name[p + prefix.len()..], x.name)).or_default().insert(line);
                            }
                        }
                        break;
                    }
                    sc = x.scope;
                }
                d = inl;
            }
        }
        out
    }
}

fn mux(e: Ex, items: &[(u128, Ex)]) -> Ex {
    // items sorted by key; any key not listed is infeasible
    if items.len() == 1 {
        return items[0].1;
    }
    if items.iter().all(|x| x.1 == items[0].1) {
        return items[0].1;
    }
    // split on the highest differing bit
    let (lo, hi) = (items[0].0, items[items.len() - 1].0);
    let bit = 127 - (lo ^ hi).leading_zeros();
    let mid = items.partition_point(|x| (x.0 >> bit) & 1 == 0);
    let (a, b) = (mux(e, &items[..mid]), mux(e, &items[mid..]));
    ite(extract(e, bit as u16, 1), b, a)
}

fn init(d: &mut [u8], off: usize, ty: &Ty, k: &Kon) {
    match (ty, k) {
        (_, Kon::Zero) | (_, Kon::Undef) => {}
        (Ty::Arr(..), Kon::Bytes(b)) => d[off..off + b.len()].copy_from_slice(b),
        (Ty::Arr(_, t), Kon::Agg(v)) => {
            for (i, x) in v.iter().enumerate() {
                init(d, off + i * t.size() as usize, t, x)
            }
        }
        (Ty::Vec(_, t), Kon::Agg(v)) => {
            for (i, x) in v.iter().enumerate() {
                init(d, off + i * t.size() as usize, t, x)
            }
        }
        (Ty::Struct(ts, _), Kon::Agg(v)) => {
            for (i, x) in v.iter().enumerate() {
                init(d, off + ty.field_off(i) as usize, &ts[i], x)
            }
        }
        (t, Kon::I(k)) => {
            for i in 0..t.size() as usize {
                d[off + i] = (k >> (8 * i)) as u8
            }
        }
        (t, k) => panic!("init {:?} {:?}", t, k),
    }
}

pub fn binop(op: BinOp, w: u16, a: &V, b: &V) -> V {
    let o = match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    };
    match (a, b) {
        (V::C(x), V::C(y)) => V::C(cbin(o, w, *x, *y)),
        _ => {
            let g = |v: &V| match v {
                V::C(k) => cst(w, *k),
                V::E(e) => *e,
                _ => panic!(),
            };
            Exec::val(bin(o, g(a), g(b)))
        }
    }
}
pub fn icmp(p: Pred, w: u16, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        let (sx_, sy) = (sx(*x, w), sx(*y, w));
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Sgt => sx_ > sy,
            Pred::Sge => sx_ >= sy,
            Pred::Slt => sx_ < sy,
            Pred::Sle => sx_ <= sy,
        };
        return V::C(r as u128);
    }
    let g = |v: &V| match v {
        V::C(k) => cst(w, *k),
        V::E(e) => *e,
        _ => panic!(),
    };
    let (x, y) = (g(a), g(b));
    Exec::val(match p {
        Pred::Eq => eq(x, y),
        Pred::Ne => not(eq(x, y)),
        Pred::Ugt => ult(y, x),
        Pred::Uge => ule(y, x),
        Pred::Ult => ult(x, y),
        Pred::Ule => ule(x, y),
        Pred::Sgt => slt(y, x),
        Pred::Sge => sle(y, x),
        Pred::Slt => slt(x, y),
        Pred::Sle => sle(x, y),
    })
}

/// Intrinsic arithmetic on scalars.
pub fn arith(op: &str, w: u16, rw: u16, a: &[V]) -> Option<V> {
    let g = |v: &V| match v {
        V::C(k) => cst(w, *k),
        V::E(e) => *e,
        _ => panic!(),
    };
    let x = g(&a[0]);
    let two = |i: usize| g(&a[i]);
    let m = mask(w);
    let v = |e: Ex| Some(Exec::val(e));
    match op {
        "umin" => v(ite(ult(two(1), x), two(1), x)),
        "umax" => v(ite(ult(x, two(1)), two(1), x)),
        "smin" => v(ite(slt(two(1), x), two(1), x)),
        "smax" => v(ite(slt(x, two(1)), two(1), x)),
        "usub.sat" => {
            let y = two(1);
            v(ite(ult(x, y), cst(w, 0), bin(Op::Sub, x, y)))
        }
        "uadd.sat" => {
            let y = two(1);
            let r = bin(Op::Add, x, y);
            v(ite(ult(r, x), cst(w, m), r))
        }
        "uadd.with.overflow" => {
            let y = two(1);
            let r = bin(Op::Add, x, y);
            Some(V::A(Rc::new(vec![Exec::val(r), Exec::val(ult(r, x))])))
        }
        "usub.with.overflow" => {
            let y = two(1);
            let r = bin(Op::Sub, x, y);
            Some(V::A(Rc::new(vec![Exec::val(r), Exec::val(ult(x, y))])))
        }
        "umul.with.overflow" => {
            let y = two(1);
            if w > 64 {
                return None;
            }
            // overflow by the double-width product
            let p = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w));
            let r = bin(Op::Mul, x, y);
            let o = not(eq(extract(p, w, w), cst(w, 0)));
            Some(V::A(Rc::new(vec![Exec::val(r), Exec::val(o)])))
        }
        "sadd.with.overflow" | "ssub.with.overflow" => {
            let y = two(1);
            let add = op.starts_with("sadd");
            let r = bin(if add { Op::Add } else { Op::Sub }, x, y);
            let (a2, b2) = (sext(x, w + 1), sext(y, w + 1));
            let r2 = bin(if add { Op::Add } else { Op::Sub }, a2, b2);
            let o = not(eq(sext(r, w + 1), r2));
            Some(V::A(Rc::new(vec![Exec::val(r), Exec::val(o)])))
        }
        "smul.with.overflow" => {
            if w > 64 {
                return None;
            }
            let y = two(1);
            let r = bin(Op::Mul, x, y);
            let p = bin(Op::Mul, sext(x, 2 * w), sext(y, 2 * w));
            let o = not(eq(sext(r, 2 * w), p));
            Some(V::A(Rc::new(vec![Exec::val(r), Exec::val(o)])))
        }
        "fshl" | "fshr" => {
            // concat(a, b) shifted by c mod w
            let y = two(1);
            if 2 * w > 128 {
                return None;
            }
            let c = g(&a[2]);
            let c = bin(Op::URem, c, cst(w, w as u128));
            let cc = concat(x, y);
            let c2 = zext(c, 2 * w);
            if op == "fshl" {
                let t = bin(Op::Shl, cc, c2);
                v(extract(t, w, w))
            } else {
                let t = bin(Op::LShr, cc, c2);
                v(extract(t, 0, w))
            }
        }
        "ctpop" => {
            let mut r = cst(w, 0);
            for i in 0..w {
                let b = extract(x, i, 1);
                r = bin(Op::Add, r, if w == 1 { b } else { zext(b, w) });
            }
            v(r)
        }
        "ctlz" => {
            let mut r = cst(w, w as u128);
            for i in 0..w {
                r = ite(extract(x, i, 1), cst(w, (w - 1 - i) as u128), r);
            }
            v(r)
        }
        "cttz" => {
            let mut r = cst(w, w as u128);
            for i in (0..w).rev() {
                r = ite(extract(x, i, 1), cst(w, i as u128), r);
            }
            v(r)
        }
        "bswap" => {
            let mut r = extract(x, 0, 8);
            for i in 1..w / 8 {
                r = concat(r, extract(x, i * 8, 8));
            }
            v(r)
        }
        "bitreverse" => {
            let mut r = extract(x, 0, 1);
            for i in 1..w {
                r = concat(r, extract(x, i, 1));
            }
            v(r)
        }
        "abs" => v(ite(slt(x, cst(w, 0)), bin(Op::Sub, cst(w, 0), x), x)),
        "ucmp" => {
            let y = two(1);
            v(ite(ult(x, y), cst(rw, !0), ite(ult(y, x), cst(rw, 1), cst(rw, 0))))
        }
        "scmp" => {
            let y = two(1);
            v(ite(slt(x, y), cst(rw, !0), ite(slt(y, x), cst(rw, 1), cst(rw, 0))))
        }
        _ => None,
    }
}
