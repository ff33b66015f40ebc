//! Random expressions: the simplified form against the direct value, and the solver's
//! answers against evaluation.  Run by hand: `irsym --selftest SEED --rounds N`.

use crate::expr::*;
use crate::ir::{BinOp, FBinOp};
use crate::z3::{Answer, Z3};
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn to(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
}

/// number of assignments evaluated side by side
const M: usize = 24;
type Vals = [u128; M];
#[derive(Clone)]
struct T { e: E, w: u32, v: Vals, f: bool }

const BIN: [BinOp; 13] = [BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::UDiv, BinOp::SDiv, BinOp::URem, BinOp::SRem, BinOp::And, BinOp::Or, BinOp::Xor, BinOp::Shl, BinOp::LShr, BinOp::AShr];

fn map1(a: &Vals, f: impl Fn(u128) -> u128) -> Vals { let mut o = [0; M]; for i in 0..M { o[i] = f(a[i]); } o }
fn map2(a: &Vals, b: &Vals, f: impl Fn(u128, u128) -> u128) -> Vals { let mut o = [0; M]; for i in 0..M { o[i] = f(a[i], b[i]); } o }
fn d(x: u128) -> f64 { f64::from_bits(x as u64) }
fn same(t: &T, x: u128, y: u128) -> bool { if t.f { d(x) == d(y) || (d(x).is_nan() && d(y).is_nan()) } else { x == y } }

pub fn run(seed: u64, rounds: u64, query: bool) {
    let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let (mut terms, mut sat, mut unsat, mut unknown) = (0u64, 0u64, 0u64, 0u64);
    for round in 0..rounds {
        let mut p = Pool::new();
        let mut models: Vec<HashMap<u32, u128>> = vec![HashMap::new(); M];
        let mut ts: Vec<T> = vec![];
        // variables
        for i in 0..4 + r.to(3) {
            let name = format!("x{}", i);
            match r.to(5) {
                0 => {
                    let mut dom = [0u64; 4];
                    match r.to(3) {
                        0 => for j in 0..4 { dom[j] = u64::MAX; },
                        1 => { let lo = r.to(200); for x in lo..lo + 1 + r.to(40) { dom[x as usize / 64] |= 1 << (x % 64); } }
                        _ => for _ in 0..1 + r.to(9) { let x = r.to(256); dom[x as usize / 64] |= 1 << (x % 64); },
                    }
                    let vals: Vec<u128> = (0..256u128).filter(|x| dom[*x as usize / 64] >> (x % 64) & 1 == 1).collect();
                    let (id, e) = p.var_byte(dom, &name);
                    let mut v = [0; M];
                    for j in 0..M { v[j] = vals[r.to(vals.len() as u64) as usize]; models[j].insert(id, v[j]); }
                    ts.push(T { e, w: 8, v, f: false });
                }
                k @ 1..=3 => {
                    let w = if k == 3 { 64 } else { [16, 32, 64][r.to(3) as usize] };
                    let span = [3, 20, 1 << 10, 1 << 14][r.to(4) as usize];
                    let lo = r.to(2 * span as u64) as i128 - span;
                    let hi = lo + r.to(span as u64) as i128;
                    let (id, e) = p.var_range(w, lo, hi, &name);
                    let mut v = [0; M];
                    for j in 0..M { v[j] = (lo + r.to((hi - lo + 1) as u64) as i128) as u128 & mask(w); models[j].insert(id, v[j]); }
                    if k == 3 {
                        let s = r.to(8) as u8;
                        let g = p.grid(e, s, lo.abs().max(hi.abs()) as u64);
                        let gv = map1(&v, |x| (sx(x, 64) as f64 / (1u64 << s) as f64).to_bits() as u128);
                        ts.push(T { e: g, w: 64, v: gv, f: true });
                    } else { ts.push(T { e, w, v, f: false }); }
                }
                _ => {
                    let w = [1, 8, 32, 64][r.to(4) as usize];
                    let (id, e) = p.var(w, &name);
                    let mut v = [0; M];
                    for j in 0..M { v[j] = match r.to(4) { 0 => r.to(4) as u128, 1 => mask(w) - r.to(2) as u128, _ => r.next() as u128 } & mask(w); models[j].insert(id, v[j]); }
                    ts.push(T { e, w, v, f: false });
                }
            }
        }
        // constants
        for _ in 0..3 {
            let w = [1, 8, 16, 32, 64][r.to(5) as usize];
            let k = match r.to(4) { 0 => 0, 1 => r.to(5) as u128, 2 => mask(w), _ => r.next() as u128 } & mask(w);
            ts.push(T { e: p.k(k, w), w, v: [k; M], f: false });
            let x = (r.to(64) as f64 - 32.0) / [1.0, 2.0, 8.0][r.to(3) as usize];
            let b = x.to_bits() as u128;
            ts.push(T { e: p.k(b, 64), w: 64, v: [b; M], f: true });
        }
        for _ in 0..40 {
            let a = ts[r.to(ts.len() as u64) as usize].clone();
            let like = |r: &mut Rng, w: u32, f: bool| { let c: Vec<&T> = ts.iter().filter(|t| t.w == w && t.f == f).collect(); if c.is_empty() { None } else { Some((*c[r.to(c.len() as u64) as usize]).clone()) } };
            let b = match like(&mut r, a.w, a.f) { Some(b) => b, None => continue };
            let w = a.w;
            let t = if a.f {
                match r.to(9) {
                    0 => T { e: p.fbin(FBinOp::Add, a.e, b.e), w, v: map2(&a.v, &b.v, |x, y| fold_fbin(FBinOp::Add, x as u64, y as u64) as u128), f: true },
                    1 => T { e: p.fbin(FBinOp::Sub, a.e, b.e), w, v: map2(&a.v, &b.v, |x, y| fold_fbin(FBinOp::Sub, x as u64, y as u64) as u128), f: true },
                    2 => T { e: p.fbin(FBinOp::Mul, a.e, b.e), w, v: map2(&a.v, &b.v, |x, y| fold_fbin(FBinOp::Mul, x as u64, y as u64) as u128), f: true },
                    3 => { let c = [0.5, 2.0, -1.0, 4.0][r.to(4) as usize]; let k = p.k(f64::to_bits(c) as u128, 64); T { e: p.fbin(FBinOp::Div, a.e, k), w, v: map1(&a.v, |x| (d(x) / c).to_bits() as u128), f: true } }
                    4 => if r.to(2) == 0 { T { e: p.fneg(a.e), w, v: map1(&a.v, |x| (-d(x)).to_bits() as u128), f: true } } else { T { e: p.fabs(a.e), w, v: map1(&a.v, |x| d(x).abs().to_bits() as u128), f: true } },
                    5 => match r.to(3) {
                        0 => T { e: p.feq(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (d(x) == d(y)) as u128), f: false },
                        1 => T { e: p.flt(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (d(x) < d(y)) as u128), f: false },
                        _ => T { e: p.fle(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (d(x) <= d(y)) as u128), f: false },
                    },
                    6 => { let m = r.to(5) as u8; T { e: p.frnd(m, a.e), w, v: map1(&a.v, |x| fold_rnd(m, x as u64) as u128), f: true } }
                    7 => T { e: p.ftosi(a.e), w: 64, v: map1(&a.v, |x| d(x) as i64 as u64 as u128), f: false },
                    _ => match like(&mut r, 1, false) { Some(c) => { let mut v = [0; M]; for i in 0..M { v[i] = if c.v[i] == 1 { a.v[i] } else { b.v[i] }; } T { e: p.ite(c.e, a.e, b.e), w, v, f: true } } None => continue },
                }
            } else {
                match r.to(12) {
                    0..=3 => {
                        let op = BIN[r.to(13) as usize];
                        let (y, yv) = match op {
                            BinOp::Shl | BinOp::LShr | BinOp::AShr => { let k = r.to(w as u64) as u128; (p.k(k, w), [k; M]) }
                            BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem => { if w == 1 { continue; } let k = (1 + r.to(mask(w - 1).min(1 << 12) as u64)) as u128; (p.k(k, w), [k; M]) }
                            _ => (b.e, b.v),
                        };
                        T { e: p.bin(op, a.e, y), w, v: map2(&a.v, &yv, |x, y| fold_bin(op, x, y, w)), f: false }
                    }
                    4 => T { e: p.eq(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (x == y) as u128), f: false },
                    5 => match r.to(4) {
                        0 => T { e: p.ult(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (x < y) as u128), f: false },
                        1 => T { e: p.ule(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (x <= y) as u128), f: false },
                        2 => T { e: p.slt(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (sx(x, w) < sx(y, w)) as u128), f: false },
                        _ => T { e: p.sle(a.e, b.e), w: 1, v: map2(&a.v, &b.v, |x, y| (sx(x, w) <= sx(y, w)) as u128), f: false },
                    },
                    6 => match like(&mut r, 1, false) { Some(c) => { let mut v = [0; M]; for i in 0..M { v[i] = if c.v[i] == 1 { a.v[i] } else { b.v[i] }; } T { e: p.ite(c.e, a.e, b.e), w, v, f: false } } None => continue },
                    7 => { let n = [8, 16, 32, 64, 128][r.to(5) as usize]; if n <= w { continue; } if r.to(2) == 0 { T { e: p.zext(a.e, n), w: n, v: a.v, f: false } } else { T { e: p.sext(a.e, n), w: n, v: map1(&a.v, |x| sx(x, w) as u128 & mask(n)), f: false } } }
                    8 => { let n = [1, 8, 16, 32][r.to(4) as usize]; if n >= w { continue; } let lo = r.to((w - n + 1) as u64) as u32; T { e: p.extract(a.e, lo, n), w: n, v: map1(&a.v, |x| x >> lo & mask(n)), f: false } }
                    9 => { if w > 64 { continue; } T { e: p.concat(a.e, b.e), w: 2 * w, v: map2(&a.v, &b.v, |x, y| x << w | y), f: false } }
                    10 => { if w != 64 { continue; } if r.to(2) == 0 { T { e: p.sitof(a.e), w: 64, v: map1(&a.v, |x| ((x as u64 as i64) as f64).to_bits() as u128), f: true } } else { T { e: p.uitof(a.e), w: 64, v: map1(&a.v, |x| ((x as u64) as f64).to_bits() as u128), f: true } } }
                    _ => { if w != 1 { continue; } T { e: p.not(a.e), w: 1, v: map1(&a.v, |x| 1 - x), f: false } }
                }
            };
            assert!(p.w(t.e) == t.w, "width");
            for j in 0..M {
                let mut memo = HashMap::new();
                let got = p.eval(t.e, &models[j], &mut memo);
                if !same(&t, got, t.v[j]) {
                    println!("round {}: value {:x} instead of {:x} of {:?} made from {:?} and {:?}", round, got, t.v[j], p.n(t.e), p.n(a.e), p.n(b.e));
                    std::process::exit(1);
                }
                // the interval kept with every term
                let i = &p.info[t.e as usize];
                if !t.f && (t.v[j] < i.lo || t.v[j] > i.hi || sx(t.v[j], t.w) < i.slo || sx(t.v[j], t.w) > i.shi) {
                    println!("round {}: {:x} outside the interval of {:?}", round, t.v[j], p.n(t.e));
                    std::process::exit(1);
                }
            }
            terms += 1;
            if !ts.iter().any(|x| x.e == t.e) { ts.push(t); }
        }
        if !query { continue; }
        let mut z = Z3::new(300, 1);
        z.cross_every = 1;
        let conds: Vec<T> = ts.iter().filter(|t| t.w == 1 && p.konst(t.e).is_none()).cloned().collect();
        if conds.is_empty() { continue; }
        for _ in 0..4 {
            let n = 1 + r.to(3);
            let mut cs = vec![];
            let mut held = [true; M];
            for _ in 0..n {
                let c = &conds[r.to(conds.len() as u64) as usize];
                let neg = r.to(2) == 1;
                cs.push(if neg { p.not(c.e) } else { c.e });
                for j in 0..M { held[j] &= (c.v[j] == 1) != neg; }
            }
            cs.sort();
            cs.dedup();
            match z.check(&p, &cs) {
                Answer::Sat(m) => {
                    sat += 1;
                    // variables outside the condition keep their first value
                    let mut full = models[0].clone();
                    for (k, v) in m { full.insert(k, v); }
                    for &c in &cs {
                        let mut memo = HashMap::new();
                        if p.eval(c, &full, &mut memo) != 1 { println!("round {}: model does not satisfy {:?}", round, p.n(c)); std::process::exit(1); }
                    }
                    for v in 0..p.vars.len() { for c in p.vars[v].cons.clone() { let mut memo = HashMap::new(); if p.eval(c, &full, &mut memo) != 1 { println!("round {}: model outside range of variable {}", round, v); std::process::exit(1); } } }
                }
                Answer::Unsat => {
                    unsat += 1;
                    if let Some(j) = (0..M).find(|&j| held[j]) { println!("round {}: unsatisfiable, but assignment {} satisfies it", round, j); std::process::exit(1); }
                }
                Answer::Unknown(w) => { if w.contains("disagree") { println!("round {}: {}", round, w); std::process::exit(1); } unknown += 1; }
            }
            // tables of conditions over one byte
            for &c in &cs {
                if let Some(v) = p.single_byte(c) {
                    let t = p.truth(c, v);
                    match z.check_table(&p, c, v, t) { Answer::Unsat => {} Answer::Sat(_) => { println!("round {}: table differs", round); std::process::exit(1); } _ => unknown += 1 }
                }
            }
        }
    }
    println!("selftest: {} rounds, {} terms agree in {} assignments each, {} satisfiable and {} unsatisfiable queries agree, {} undecided", rounds, terms, M, sat, unsat, unknown);
}
