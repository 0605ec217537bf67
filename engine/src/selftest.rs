//! Random cross-check of the simplifying constructors against plain
//! evaluation, and of the solver encoding against the same evaluation.
use crate::expr::*;
use crate::solver::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

pub fn run(seed: u64) {
    let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let mut sv = Solver::new(20000);
    let mut n = 0u64;
    for round in 0..4000 {
        // pool of (expr, value under each of 4 models)
        let models: Vec<Model> = (0..4)
            .map(|i| Model { v: (0..6).map(|_| if i == 0 { 0 } else if i == 1 { !0u128 } else { ((r.next() as u128) << 64) | r.next() as u128 }).collect() })
            .collect();
        let ws = [8u16, 8, 16, 32, 64, 1];
        let mut pool: Vec<(Ex, Vec<u128>)> = (0..6u32).map(|i| (var(i, ws[i as usize]), models.iter().map(|m| m.v[i as usize] & mask(ws[i as usize])).collect())).collect();
        for _ in 0..40 {
            let k = r.below(16);
            let (a, va) = pool[r.below(pool.len() as u64) as usize].clone();
            let w = width(a);
            let same: Vec<(Ex, Vec<u128>)> = pool.iter().filter(|p| width(p.0) == w).cloned().collect();
            let (mut b, mut vb) = same[r.below(same.len() as u64) as usize].clone();
            if r.below(2) == 0 {
                let c = match r.below(4) {
                    0 => r.below(70) as u128,
                    1 => mask(w).wrapping_sub(r.below(3) as u128),
                    2 => 1u128 << r.below(w as u64),
                    _ => r.next() as u128 | (r.next() as u128) << 64,
                } & mask(w);
                b = cst(w, c);
                vb = vec![c; 4];
            }
            let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Slt];
            let (e, v): (Ex, Vec<u128>) = match k {
                0..=9 => {
                    let op = ops[r.below(ops.len() as u64) as usize];
                    let (x, y, vx, vy) = if r.below(6) == 0 { (b, a, &vb, &va) } else { (a, b, &va, &vb) };
                    (bin(op, x, y), (0..4).map(|i| cbin(op, w, vx[i], vy[i])).collect())
                }
                10 => {
                    if w < 2 {
                        continue;
                    }
                    let lo = r.below(w as u64) as u16;
                    let n = 1 + r.below((w - lo) as u64) as u16;
                    (extract(a, lo, n), va.iter().map(|x| (x >> lo) & mask(n)).collect())
                }
                11 => {
                    let (c, vc) = pool[r.below(pool.len() as u64) as usize].clone();
                    let wc = width(c);
                    if w + wc > 128 {
                        continue;
                    }
                    (concat(a, c), (0..4).map(|i| (va[i] << wc) | vc[i]).collect())
                }
                12 => {
                    let nw = (w + 1 + r.below(40) as u16).min(128);
                    (zext(a, nw), va.clone())
                }
                13 => {
                    let nw = (w + 1 + r.below(40) as u16).min(128);
                    (sext(a, nw), va.iter().map(|x| sx(*x, w) as u128 & mask(nw)).collect())
                }
                14 => {
                    let bs: Vec<(Ex, Vec<u128>)> = pool.iter().filter(|p| width(p.0) == 1).cloned().collect();
                    let (c, vc) = bs[r.below(bs.len() as u64) as usize].clone();
                    (ite(c, a, b), (0..4).map(|i| if vc[i] == 1 { va[i] } else { vb[i] }).collect())
                }
                _ => {
                    // intrinsics
                    use crate::exec::{arith, V};
                    let ops = ["umin", "umax", "smin", "smax", "usub.sat", "uadd.sat", "ctpop", "ctlz", "cttz", "fshl", "fshr", "abs"];
                    let op = ops[r.below(ops.len() as u64) as usize];
                    if w > 64 || w == 1 {
                        continue;
                    }
                    let sh = r.below(w as u64 * 2) as u128 & mask(w);
                    let m = mask(w);
                    let out = arith(op, w, w, &[V::E(a), V::E(b), V::C(sh)]).unwrap();
                    let e = match out {
                        V::E(e) => e,
                        V::C(k) => cst(w, k),
                        _ => continue,
                    };
                    let v = (0..4)
                        .map(|i| {
                            let (x, y) = (va[i], vb[i]);
                            let s = (sh % w as u128) as u32;
                            (match op {
                                "umin" => x.min(y),
                                "umax" => x.max(y),
                                "smin" => {
                                    if sx(x, w) < sx(y, w) {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                "smax" => {
                                    if sx(x, w) > sx(y, w) {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                "usub.sat" => x.saturating_sub(y),
                                "uadd.sat" => (x + y).min(m),
                                "ctpop" => x.count_ones() as u128,
                                "ctlz" => (x.leading_zeros() - (128 - w as u32)) as u128,
                                "cttz" => {
                                    if x == 0 {
                                        w as u128
                                    } else {
                                        x.trailing_zeros() as u128
                                    }
                                }
                                "fshl" => {
                                    if s == 0 {
                                        x
                                    } else {
                                        (x << s) | (y >> (w as u32 - s))
                                    }
                                }
                                "fshr" => {
                                    if s == 0 {
                                        y
                                    } else {
                                        (x << (w as u32 - s)) | (y >> s)
                                    }
                                }
                                _ => sx(x, w).unsigned_abs(),
                            }) & m
                        })
                        .collect();
                    (e, v)
                }
            };
            for (i, m) in models.iter().enumerate() {
                let got = eval(e, m);
                assert!(got == v[i], "seed {} round {}: {} evaluates to {} expected {}", seed, round, show(e, 6), got, v[i]);
                let nn = nd(e);
                assert!(nn.lo <= got && got <= nn.hi, "range of {}", show(e, 5));
            }
            n += 1;
            pool.push((e, v));
        }
        if round % 40 == 0 {
            // the solver must agree that each value is the only one under the model
            let (e, v) = pool[pool.len() - 1].clone();
            if nd(e).op != Op::Const && models.len() > 2 {
                let mut q = vec![];
                for i in 0..6u32 {
                    q.push(eq(var(i, ws[i as usize]), cst(ws[i as usize], models[2].v[i as usize])));
                }
                let c = not(eq(e, cst(width(e), v[2])));
                match sv.check(&q, c, &models[3]) {
                    Res::Unsat => {}
                    Res::Unknown => {}
                    Res::Sat(_) => panic!("solver disagrees on {}", show(e, 6)),
                }
                match sv.check(&q, not(c), &models[3]) {
                    Res::Sat(_) => {}
                    Res::Unknown => {}
                    Res::Unsat => panic!("solver disagrees (unsat) on {}", show(e, 6)),
                }
            }
        }
    }
    println!("selftest ok: {} expressions, {} solver queries", n, sv.queries);
}
