//! Hash-consed expression DAG over bit vectors and IEEE doubles.
//!
//! Doubles are 64 bit patterns.  A `Grid` node stands for the double k / 2^scale
//! whose numerator is a bounded bit vector, so that exact arithmetic on such
//! values stays integer arithmetic (the sign of zero is not tracked for them).

use crate::ir::{BinOp, FBinOp};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    K(u128),
    Var(u32),
    Bin(BinOp, E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u32),
    Concat(E, E),
    FBin(FBinOp, E, E),
    FEq(E, E),
    FLt(E, E),
    FLe(E, E),
    FNan(E),
    FSqrt(E),
    FRnd(u8, E),
    SiToF(E),
    UiToF(E),
    FToSi(E),
    FToUi(E),
    Grid(E, u8),
    /// the 32 bit float nearest to a double
    F32(E),
}

pub const RND_FLOOR: u8 = 0;
pub const RND_CEIL: u8 = 1;
pub const RND_TRUNC: u8 = 2;
pub const RND_AWAY: u8 = 3;
pub const RND_EVEN: u8 = 4;
/// to the nearest 32 bit float
pub const RND_F32: u8 = 5;

#[derive(Clone)]
pub struct Info {
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub slo: i128,
    pub shi: i128,
    pub supp: Rc<[u32]>,
    /// for Grid: bound on |k|
    pub mag: u64,
    /// known not to be NaN or infinite
    pub finite: bool,
    pub size: u32,
}

pub struct VarInfo {
    pub w: u32,
    pub node: E,
    pub init: u128,
    /// constraints that hold for the variable on every path
    pub cons: Vec<E>,
    /// domain of an 8 bit variable
    pub dom: Option<[u64; 4]>,
    pub name: String,
}

pub struct Pool {
    pub nodes: Vec<N>,
    pub info: Vec<Info>,
    map: HashMap<(N, u32), E>,
    pub vars: Vec<VarInfo>,
    tt: HashMap<E, [u64; 4]>,
    empty: Rc<[u32]>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => if b == 0 { m } else { a / b },
        BinOp::URem => if b == 0 { a } else { a % b },
        BinOp::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        BinOp::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => if b >= w as u128 { if sx(a, w) < 0 { m } else { 0 } } else { (sx(a, w) >> b) as u128 },
    }) & m
}

pub fn fold_fbin(op: FBinOp, a: u64, b: u64) -> u64 {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    (match op { FBinOp::Add => x + y, FBinOp::Sub => x - y, FBinOp::Mul => x * y, FBinOp::Div => x / y, FBinOp::Rem => x % y }).to_bits()
}

pub fn fold_rnd(m: u8, a: u64) -> u64 {
    let x = f64::from_bits(a);
    (match m { RND_FLOOR => x.floor(), RND_CEIL => x.ceil(), RND_TRUNC => x.trunc(), RND_AWAY => x.round(), RND_F32 => x as f32 as f64, _ => x.round_ties_even() }).to_bits()
}

/// write a finite double as m / 2^s with 0 <= s <= 52, if it can be
pub fn dyadic(bits: u64) -> Option<(i64, u8)> {
    let x = f64::from_bits(bits);
    if !x.is_finite() { return None; }
    if x == 0.0 { return Some((0, 0)); }
    let mut s = 0u8;
    let mut y = x;
    while y.fract() != 0.0 {
        if s >= 52 { return None; }
        y *= 2.0;
        s += 1;
    }
    if y.abs() >= 9007199254740992.0 { return None; }
    Some((y as i64, s))
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { nodes: vec![], info: vec![], map: HashMap::new(), vars: vec![], tt: HashMap::new(), empty: Rc::from(vec![]) };
        // id 0 is reserved so that 0 can mean "no expression" in memory overlays
        p.nodes.push(N::K(0));
        let e = p.empty.clone();
        p.info.push(Info { w: 1, lo: 0, hi: 0, slo: 0, shi: 0, supp: e, mag: 0, finite: false, size: 1 });
        p
    }

    pub fn w(&self, e: E) -> u32 { self.info[e as usize].w }
    pub fn n(&self, e: E) -> N { self.nodes[e as usize] }
    pub fn konst(&self, e: E) -> Option<u128> { if let N::K(v) = self.nodes[e as usize] { Some(v) } else { None } }

    fn merge_supp(&self, kids: &[E]) -> Rc<[u32]> {
        let mut best: Option<&Rc<[u32]>> = None;
        for &k in kids {
            let s = &self.info[k as usize].supp;
            if best.map_or(true, |b| s.len() > b.len()) { best = Some(s); }
        }
        let b = match best { Some(b) => b, None => return self.empty.clone() };
        let mut all_in = true;
        for &k in kids {
            let s = &self.info[k as usize].supp;
            if Rc::ptr_eq(s, b) { continue; }
            if !s.iter().all(|v| b.binary_search(v).is_ok()) { all_in = false; break; }
        }
        if all_in { return b.clone(); }
        let mut v: Vec<u32> = vec![];
        for &k in kids { v.extend_from_slice(&self.info[k as usize].supp); }
        v.sort();
        v.dedup();
        Rc::from(v)
    }

    fn kids(n: &N) -> Vec<E> {
        match *n {
            N::K(_) | N::Var(_) => vec![],
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::Concat(a, b)
            | N::FBin(_, a, b) | N::FEq(a, b) | N::FLt(a, b) | N::FLe(a, b) => vec![a, b],
            N::Ite(a, b, c) => vec![a, b, c],
            N::ZExt(a) | N::SExt(a) | N::Extract(a, _) | N::FNan(a) | N::FSqrt(a) | N::FRnd(_, a) | N::SiToF(a) | N::UiToF(a) | N::FToSi(a) | N::FToUi(a) | N::Grid(a, _) | N::F32(a) => vec![a],
        }
    }

    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(&e) = self.map.get(&(n, w)) { return e; }
        let kids = Pool::kids(&n);
        let supp = if let N::Var(v) = n { Rc::from(vec![v]) } else { self.merge_supp(&kids) };
        let m = mask(w);
        let (mut lo, mut hi) = (0u128, m);
        let full_s = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        let (mut slo, mut shi) = full_s;
        let mut finite = false;
        let inf = |e: E| &self.info[e as usize];
        let mut signed_known = false;
        match n {
            N::K(v) => {
                lo = v; hi = v; slo = sx(v, w); shi = slo;
                signed_known = true;
                if w == 64 { finite = f64::from_bits(v as u64).is_finite(); }
            }
            N::Bin(op, a, b) => {
                let (x, y) = (inf(a), inf(b));
                match op {
                    BinOp::Add => {
                        if w < 128 && x.hi + y.hi <= m { lo = x.lo + y.lo; hi = x.hi + y.hi; }
                        if w <= 64 { let (l, h) = (x.slo + y.slo, x.shi + y.shi); if l >= full_s.0 && h <= full_s.1 { slo = l; shi = h; signed_known = true; } }
                    }
                    BinOp::Sub => {
                        if x.lo >= y.hi { lo = x.lo - y.hi; hi = x.hi - y.lo; }
                        if w <= 64 { let (l, h) = (x.slo - y.shi, x.shi - y.slo); if l >= full_s.0 && h <= full_s.1 { slo = l; shi = h; signed_known = true; } }
                    }
                    BinOp::Mul => {
                        if w <= 64 {
                            if let Some(h) = x.hi.checked_mul(y.hi) { if h <= m { lo = x.lo * y.lo; hi = h; } }
                            let c = [x.slo * y.slo, x.slo * y.shi, x.shi * y.slo, x.shi * y.shi];
                            let (l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                            if l >= full_s.0 && h <= full_s.1 { slo = l; shi = h; signed_known = true; }
                        }
                    }
                    BinOp::UDiv => { if y.lo > 0 { lo = x.lo / y.hi; hi = x.hi / y.lo; } }
                    BinOp::URem => { if y.lo > 0 { hi = x.hi.min(y.hi - 1); if x.hi < y.lo { lo = x.lo; } } }
                    BinOp::And => { hi = x.hi.min(y.hi); }
                    BinOp::Or => { lo = x.lo.max(y.lo); let t = x.hi | y.hi; hi = if t == 0 { 0 } else { mask(128 - t.leading_zeros()) }; }
                    BinOp::Xor => { let t = x.hi | y.hi; hi = if t == 0 { 0 } else { mask(128 - t.leading_zeros()) }; }
                    BinOp::Shl => { if let N::K(s) = self.nodes[b as usize] { if s < w as u128 && w <= 64 {
                        if (x.hi << s) <= m { lo = x.lo << s; hi = x.hi << s; }
                        let (l, h) = (x.slo << s, x.shi << s);
                        if l >= full_s.0 && h <= full_s.1 { slo = l; shi = h; signed_known = true; }
                    } } }
                    BinOp::LShr => { if let N::K(s) = self.nodes[b as usize] { if s < w as u128 { lo = x.lo >> s; hi = x.hi >> s; } } else { hi = x.hi; } }
                    BinOp::AShr => { if let N::K(s) = self.nodes[b as usize] { if s < w as u128 { slo = x.slo >> s; shi = x.shi >> s; signed_known = true; } } }
                    BinOp::SDiv => { if y.slo > 0 && w <= 64 { let l = x.slo.min(0); let h = x.shi.max(0); slo = l / y.slo; shi = h / y.slo; signed_known = true; } }
                    BinOp::SRem => { if y.slo > 0 && w <= 64 { slo = if x.slo < 0 { (-(y.shi - 1)).max(x.slo) } else { 0 }; shi = if x.shi > 0 { (y.shi - 1).min(x.shi) } else { 0 }; signed_known = true; } }
                }
                // sign bit cleared or flipped on a finite double
                if w == 64 {
                    let fx = x.finite;
                    match op {
                        BinOp::Xor | BinOp::And => if let N::K(k) = self.nodes[b as usize] { if (op == BinOp::Xor && k == 1 << 63) || (op == BinOp::And && k == (1 << 63) - 1) { finite = fx; } },
                        _ => {}
                    }
                }
            }
            N::Ite(_, a, b) => {
                let (x, y) = (inf(a), inf(b));
                lo = x.lo.min(y.lo); hi = x.hi.max(y.hi);
                slo = x.slo.min(y.slo); shi = x.shi.max(y.shi);
                signed_known = true;
                finite = x.finite && y.finite;
            }
            N::ZExt(a) => { lo = inf(a).lo; hi = inf(a).hi; slo = lo as i128; shi = hi as i128; signed_known = true; }
            N::SExt(a) => { let x = inf(a); slo = x.slo; shi = x.shi; signed_known = true; if slo >= 0 { lo = x.lo; hi = x.hi; } }
            N::Extract(a, 0) => { let x = inf(a); if x.hi <= m { lo = x.lo; hi = x.hi; } if x.slo >= full_s.0 && x.shi <= full_s.1 { slo = x.slo; shi = x.shi; signed_known = true; } }
            N::Extract(a, l) => { let x = inf(a); if (x.hi >> l) <= m { lo = x.lo >> l; hi = x.hi >> l; } }
            N::Concat(a, b) => { let wl = inf(b).w; let x = inf(a); let y = inf(b); if w < 128 { lo = (x.lo << wl) + y.lo; hi = (x.hi << wl) + y.hi; } }
            N::SiToF(_) | N::UiToF(_) | N::Grid(..) => finite = true,
            N::FRnd(m, a) => finite = m != RND_F32 && inf(a).finite,
            _ => {}
        }
        // reconcile signed and unsigned views
        if w <= 64 {
            if !signed_known || slo == full_s.0 {
                if hi <= full_s.1 as u128 { slo = slo.max(lo as i128); shi = shi.min(hi as i128); }
                else if lo > full_s.1 as u128 { slo = sx(lo, w); shi = sx(hi, w); }
            } else if slo >= 0 {
                lo = lo.max(slo as u128); hi = hi.min(shi as u128);
            } else if shi < 0 {
                lo = lo.max(slo as u128 & m); hi = hi.min(shi as u128 & m);
            }
        }
        let mut size = 1u32;
        for k in &kids { size = size.saturating_add(self.info[*k as usize].size); }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(Info { w, lo, hi, slo, shi, supp, mag: 0, finite, size });
        self.map.insert((n, w), e);
        e
    }

    pub fn k(&mut self, v: u128, w: u32) -> E { self.mk(N::K(v & mask(w)), w) }
    pub fn tru(&mut self) -> E { self.k(1, 1) }
    pub fn fls(&mut self) -> E { self.k(0, 1) }

    pub fn var(&mut self, w: u32, name: &str) -> (u32, E) {
        let id = self.vars.len() as u32;
        let node = self.nodes.len() as E;
        self.vars.push(VarInfo { w, node, init: 0, cons: vec![], dom: None, name: name.to_string() });
        let e = self.mk(N::Var(id), w);
        (id, e)
    }

    /// variable with a signed range, in a bit vector of width w
    pub fn var_range(&mut self, w: u32, lo: i128, hi: i128, name: &str) -> (u32, E) {
        let (id, e) = self.var(w, name);
        {
            let i = &mut self.info[e as usize];
            i.slo = lo;
            i.shi = hi;
            if lo >= 0 { i.lo = lo as u128; i.hi = hi as u128; }
        }
        let a = self.k(lo as u128, w);
        let b = self.k(hi as u128, w);
        // raw nodes: the folding constructors would use the declared range
        let c1 = self.mk(N::Sle(a, e), 1);
        let c2 = self.mk(N::Sle(e, b), 1);
        let full_lo = sx(1u128 << (w - 1), w);
        if lo != full_lo { self.vars[id as usize].cons.push(c1); }
        if hi != (1i128 << (w - 1)) - 1 { self.vars[id as usize].cons.push(c2); }
        let init = if lo <= 0 && hi >= 0 { 0 } else { lo };
        self.vars[id as usize].init = init as u128 & mask(w);
        (id, e)
    }

    /// byte variable restricted to a set
    pub fn var_byte(&mut self, dom: [u64; 4], name: &str) -> (u32, E) {
        let (id, e) = self.var(8, name);
        let inset = |v: usize| dom[v / 64] >> (v % 64) & 1 == 1;
        let vals: Vec<usize> = (0..256).filter(|&v| inset(v)).collect();
        assert!(!vals.is_empty(), "empty byte domain");
        {
            let i = &mut self.info[e as usize];
            i.lo = vals[0] as u128;
            i.hi = *vals.last().unwrap() as u128;
            if i.hi <= 127 { i.slo = i.lo as i128; i.shi = i.hi as i128; }
        }
        if vals.len() < 256 {
            let mut ranges: Vec<(usize, usize)> = vec![];
            for &v in &vals {
                match ranges.last_mut() { Some(r) if r.1 + 1 == v => r.1 = v, _ => ranges.push((v, v)) }
            }
            let mut disj: Option<E> = None;
            for (a, b) in ranges {
                let ka = self.k(a as u128, 8);
                let kb = self.k(b as u128, 8);
                let c = if a == b { self.mk(N::Eq(ka, e), 1) } else {
                    let c1 = self.mk(N::Ule(ka, e), 1);
                    let c2 = self.mk(N::Ule(e, kb), 1);
                    self.mk(N::Bin(BinOp::And, c1, c2), 1)
                };
                disj = Some(match disj { None => c, Some(d) => self.mk(N::Bin(BinOp::Or, d, c), 1) });
            }
            self.vars[id as usize].cons.push(disj.unwrap());
        }
        self.vars[id as usize].dom = Some(dom);
        self.vars[id as usize].init = vals[0] as u128;
        (id, e)
    }

    pub fn var_f64(&mut self, name: &str) -> (u32, E) {
        let (id, e) = self.var(64, name);
        // finite: exponent bits not all ones
        let ex = self.mk(N::Extract(e, 52), 11);
        let k = self.k(0x7ff, 11);
        let c = self.mk(N::Ult(ex, k), 1);
        self.vars[id as usize].cons.push(c);
        self.info[e as usize].finite = true;
        (id, e)
    }

    pub fn not(&mut self, a: E) -> E {
        let o = self.tru();
        self.bin(BinOp::Xor, a, o)
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(BinOp::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(BinOp::Or, a, b) }

    pub fn bin(&mut self, op: BinOp, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.k(fold_bin(op, x, y, w), w); }
        let comm = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
        if comm {
            // constant on the right, otherwise smaller id first
            if self.konst(a).is_some() || (self.konst(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let m = mask(w);
        if let Some(y) = self.konst(b) {
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if y == 0 => return a,
                BinOp::Mul if y == 1 => return a,
                BinOp::Mul | BinOp::And if y == 0 => return b,
                BinOp::And if y == m => return a,
                BinOp::Or if y == m => return b,
                BinOp::UDiv | BinOp::SDiv if y == 1 => return a,
                BinOp::URem if y == 1 => return self.k(0, w),
                BinOp::Shl | BinOp::LShr if y >= w as u128 => return self.k(0, w),
                _ => {}
            }
            let n = self.n(a);
            match (op, n) {
                (BinOp::Add, N::Bin(BinOp::Add, p, q)) => if let Some(z) = self.konst(q) { let k = self.k(y.wrapping_add(z), w); return self.bin(BinOp::Add, p, k); },
                (BinOp::Sub, _) => { let k = self.k(y.wrapping_neg(), w); return self.bin(BinOp::Add, a, k); }
                (BinOp::Xor, N::Bin(BinOp::Xor, p, q)) => if let Some(z) = self.konst(q) { let k = self.k(y ^ z, w); return self.bin(BinOp::Xor, p, k); },
                (BinOp::And, N::Bin(BinOp::And, p, q)) => if let Some(z) = self.konst(q) { let k = self.k(y & z, w); return self.bin(BinOp::And, p, k); },
                (BinOp::Mul, N::Bin(BinOp::Mul, p, q)) => if let Some(z) = self.konst(q) { let k = self.k(y.wrapping_mul(z), w); return self.bin(BinOp::Mul, p, k); },
                (BinOp::Xor, N::Ult(p, q)) if w == 1 && y == 1 => return self.ule(q, p),
                (BinOp::Xor, N::Ule(p, q)) if w == 1 && y == 1 => return self.ult(q, p),
                (BinOp::Xor, N::Slt(p, q)) if w == 1 && y == 1 => return self.sle(q, p),
                (BinOp::Xor, N::Sle(p, q)) if w == 1 && y == 1 => return self.slt(q, p),
                _ => {}
            }
            // masking with 2^n - 1
            if op == BinOp::And && (y + 1).is_power_of_two() && w < 128 {
                if self.info[a as usize].hi <= y { return a; }
                let nb = (y + 1).trailing_zeros();
                let x = self.extract(a, 0, nb);
                return self.zext(x, w);
            }
            if op == BinOp::LShr && y > 0 {
                let x = self.extract(a, y as u32, w - y as u32);
                return self.zext(x, w);
            }
            if op == BinOp::Mul && y.is_power_of_two() {
                let s = self.k(y.trailing_zeros() as u128, w);
                return self.bin(BinOp::Shl, a, s);
            }
            if op == BinOp::UDiv && y.is_power_of_two() {
                let s = self.k(y.trailing_zeros() as u128, w);
                return self.bin(BinOp::LShr, a, s);
            }
            if op == BinOp::URem {
                if y.is_power_of_two() { let k = self.k(y - 1, w); return self.bin(BinOp::And, a, k); }
                if self.info[a as usize].hi < y { return a; }
            }
            if op == BinOp::SRem && w <= 64 && self.info[a as usize].slo >= 0 && sx(y, w) > 0 { return self.bin(BinOp::URem, a, b); }
            if op == BinOp::SDiv && w <= 64 && self.info[a as usize].slo >= 0 && sx(y, w) > 0 { return self.bin(BinOp::UDiv, a, b); }
            // shl of a zero extended narrow value that is later or-ed: keep as is
            if op == BinOp::Or {
                // disjoint bits: (x << n) | const handled by the solver
            }
        }
        if a == b {
            match op {
                BinOp::Sub | BinOp::Xor => return self.k(0, w),
                BinOp::And | BinOp::Or => return a,
                _ => {}
            }
        }
        if op == BinOp::Or && w > 1 {
            // zext(lo) | (zext(hi) << n)  ->  concat
            for (p, q) in [(a, b), (b, a)] {
                if let N::Bin(BinOp::Shl, h, s) = self.n(p) {
                    if let Some(s) = self.konst(s) {
                        if self.info[q as usize].hi < (1u128 << s) && self.info[h as usize].hi <= mask(w - s as u32) {
                            let lo = self.extract(q, 0, s as u32);
                            let hi = self.extract(h, 0, w - s as u32);
                            return self.concat(hi, lo);
                        }
                    }
                }
            }
        }
        if op == BinOp::Sub {
            // (x + k) - x
            if let N::Bin(BinOp::Add, p, q) = self.n(a) { if p == b { return q; } if q == b { return p; } }
        }
        if op == BinOp::Add {
            if let N::Bin(BinOp::Sub, p, q) = self.n(a) { if q == b { return p; } }
            if let N::Bin(BinOp::Sub, p, q) = self.n(b) { if q == a { return p; } }
        }
        if w == 1 {
            // x & !x, x | !x
            let na = self.n(a);
            let nb = self.n(b);
            let neg = |n: N, y: E| if let N::Bin(BinOp::Xor, p, q) = n { p == y && self.konst(q) == Some(1) } else { false };
            if neg(na, b) || neg(nb, a) {
                match op { BinOp::And => return self.fls(), BinOp::Or | BinOp::Xor => return self.tru(), _ => {} }
            }
        }
        let r = self.mk(N::Bin(op, a, b), w);
        self.collapse(r)
    }

    /// replace a node whose interval is a single value
    fn collapse(&mut self, r: E) -> E {
        let i = &self.info[r as usize];
        if i.lo == i.hi { let (v, w) = (i.lo, i.w); return self.k(v, w); }
        r
    }

    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b { return self.tru(); }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.k((x == y) as u128, 1); }
        if self.konst(a).is_some() || (self.konst(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        let (x, y) = (&self.info[a as usize], &self.info[b as usize]);
        if x.hi < y.lo || y.hi < x.lo || x.shi < y.slo || y.shi < x.slo { return self.fls(); }
        let w = x.w;
        if let Some(kv) = self.konst(b) {
            match self.n(a) {
                N::ZExt(p) => { let pw = self.w(p); if kv > mask(pw) { return self.fls(); } let k = self.k(kv, pw); return self.eq(p, k); }
                N::SExt(p) => { let pw = self.w(p); if sx(kv & mask(pw), pw) as u128 & mask(w) != kv { return self.fls(); } let k = self.k(kv, pw); return self.eq(p, k); }
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kl = self.k(kv, lw);
                    let kh = self.k(kv >> lw, hw);
                    let c1 = self.eq(h, kh);
                    let c2 = self.eq(l, kl);
                    return self.and(c1, c2);
                }
                N::Bin(BinOp::Add, p, q) => if let Some(z) = self.konst(q) { let k = self.k(kv.wrapping_sub(z), w); return self.eq(p, k); },
                N::Bin(BinOp::Xor, p, q) => if let Some(z) = self.konst(q) { let k = self.k(kv ^ z, w); return self.eq(p, k); },
                N::Ite(c, p, q) => {
                    // branch values that are constants decide the comparison
                    let (kp, kq) = (self.konst(p), self.konst(q));
                    if kp.is_some() || kq.is_some() {
                        let ep = self.eq(p, b);
                        let eq = self.eq(q, b);
                        return self.ite(c, ep, eq);
                    }
                }
                _ => {}
            }
            if w == 1 { return if kv == 1 { a } else { self.not(a) }; }
        } else {
            if let Some((p, q, _)) = self.common_add(a, b, false) { return self.eq(p, q); }
            match (self.n(a), self.n(b)) {
                (N::ZExt(p), N::ZExt(q)) if self.w(p) == self.w(q) => return self.eq(p, q),
                (N::SExt(p), N::SExt(q)) if self.w(p) == self.w(q) => return self.eq(p, q),
                (N::Concat(h1, l1), N::Concat(h2, l2)) if self.w(l1) == self.w(l2) => { let c1 = self.eq(h1, h2); let c2 = self.eq(l1, l2); return self.and(c1, c2); }
                _ => {}
            }
        }
        self.mk(N::Eq(a, b), 1)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.k((x < y) as u128, 1); }
        let (x, y) = (&self.info[a as usize], &self.info[b as usize]);
        if x.hi < y.lo { return self.tru(); }
        if x.lo >= y.hi { return self.fls(); }
        if let (N::ZExt(p), Some(kv)) = (self.n(a), self.konst(b)) { let pw = self.w(p); if kv <= mask(pw) { let k = self.k(kv, pw); return self.ult(p, k); } }
        if let (Some(kv), N::ZExt(p)) = (self.konst(a), self.n(b)) { let pw = self.w(p); if kv <= mask(pw) { let k = self.k(kv, pw); return self.ult(k, p); } }
        if let (N::ZExt(p), N::ZExt(q)) = (self.n(a), self.n(b)) { if self.w(p) == self.w(q) { return self.ult(p, q); } }
        if self.konst(b) == Some(1) { let z = self.k(0, self.w(a)); return self.eq(a, z); }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.k((x <= y) as u128, 1); }
        let (x, y) = (&self.info[a as usize], &self.info[b as usize]);
        if x.hi <= y.lo { return self.tru(); }
        if x.lo > y.hi { return self.fls(); }
        if let (N::ZExt(p), Some(kv)) = (self.n(a), self.konst(b)) { let pw = self.w(p); if kv <= mask(pw) { let k = self.k(kv, pw); return self.ule(p, k); } }
        if let (Some(kv), N::ZExt(p)) = (self.konst(a), self.n(b)) { let pw = self.w(p); if kv <= mask(pw) { let k = self.k(kv, pw); return self.ule(k, p); } }
        if let (N::ZExt(p), N::ZExt(q)) = (self.n(a), self.n(b)) { if self.w(p) == self.w(q) { return self.ule(p, q); } }
        self.mk(N::Ule(a, b), 1)
    }
    /// summands of a sum, with their signs
    fn leaves(&self, e: E, neg: bool, out: &mut Vec<(E, bool)>) -> bool {
        match self.n(e) {
            N::Bin(BinOp::Add, p, q) => self.leaves(p, neg, out) && self.leaves(q, neg, out),
            N::Bin(BinOp::Sub, p, q) => self.leaves(p, neg, out) && self.leaves(q, !neg, out),
            _ => { if self.konst(e) != Some(0) { out.push((e, neg)); } out.len() <= 8 }
        }
    }
    fn sum(&mut self, v: &[(E, bool)], w: u32) -> E {
        let mut r = self.k(0, w);
        for &(e, neg) in v { if !neg { r = self.bin(BinOp::Add, r, e); } }
        for &(e, neg) in v { if neg { r = self.bin(BinOp::Sub, r, e); } }
        r
    }
    /// a = p + x, b = q + x with as much as possible in x
    fn common_add(&mut self, a: E, b: E, exact: bool) -> Option<(E, E, E)> {
        let w = self.w(a);
        let is_sum = |n: N| matches!(n, N::Bin(BinOp::Add, ..) | N::Bin(BinOp::Sub, ..));
        if w < 16 || w > 64 || (!is_sum(self.n(a)) && !is_sum(self.n(b))) { return None; }
        let (mut va, mut vb) = (vec![], vec![]);
        if !self.leaves(a, false, &mut va) || !self.leaves(b, false, &mut vb) { return None; }
        let mut x = vec![];
        let mut i = 0;
        while i < va.len() {
            if let Some(j) = vb.iter().position(|l| *l == va[i]) { x.push(va.remove(i)); vb.remove(j); } else { i += 1; }
        }
        if x.is_empty() { return None; }
        if exact {
            // none of the sums can overflow
            let (min, max) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            let range = |v: &[(E, bool)]| {
                let (mut l, mut h) = (0i128, 0i128);
                for &(e, neg) in v {
                    let i = &self.info[e as usize];
                    let (lo, hi) = (i.slo as i128, i.shi as i128);
                    if neg { l -= hi; h -= lo; } else { l += lo; h += hi; }
                }
                (l, h)
            };
            let (pl, ph) = range(&va);
            let (ql, qh) = range(&vb);
            let (xl, xh) = range(&x);
            for (l, h) in [(pl, ph), (ql, qh), (pl + xl, ph + xh), (ql + xl, qh + xh)] { if l < min || h > max { return None; } }
        }
        let p = self.sum(&va, w);
        let q = self.sum(&vb, w);
        let x = self.sum(&x, w);
        Some((p, q, x))
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        if let Some((p, q, _)) = self.common_add(a, b, true) { return self.slt(p, q); }
        let (x, y) = (&self.info[a as usize], &self.info[b as usize]);
        if x.shi < y.slo { return self.tru(); }
        if x.slo >= y.shi { return self.fls(); }
        if x.slo >= 0 && y.slo >= 0 { return self.ult(a, b); }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        if let Some((p, q, _)) = self.common_add(a, b, true) { return self.sle(p, q); }
        let (x, y) = (&self.info[a as usize], &self.info[b as usize]);
        if x.shi <= y.slo { return self.tru(); }
        if x.slo > y.shi { return self.fls(); }
        if x.slo >= 0 && y.slo >= 0 { return self.ule(a, b); }
        self.mk(N::Sle(a, b), 1)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.konst(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        // a constant beside a grid value is a grid value too, unless it is the negative zero
        if (matches!(self.n(a), N::Grid(..)) || matches!(self.n(b), N::Grid(..))) && self.konst(a) != Some(1 << 63) && self.konst(b) != Some(1 << 63) {
            if let Some((x, y, s, ma, mb)) = self.align2(a, b) {
                let k = self.ite(c, x, y);
                return self.grid(k, s, ma.max(mb));
            }
        }
        if let Some((p, q, x)) = self.common_add(a, b, false) {
            let i = self.ite(c, p, q);
            return self.bin(BinOp::Add, i, x);
        }
        self.mk(N::Ite(c, a, b), w)
    }

    pub fn shl_k(&mut self, a: E, n: u32) -> E { let w = self.w(a); let k = self.k(n as u128, w); self.bin(BinOp::Shl, a, k) }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.konst(a) { return self.k(k, w); }
        if let N::ZExt(p) = self.n(a) { return self.zext(p, w); }
        self.mk(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.konst(a) { return self.k(sx(k, aw) as u128, w); }
        if let N::ZExt(_) = self.n(a) { return self.zext(a, w); }
        if let N::SExt(p) = self.n(a) { return self.sext(p, w); }
        if aw <= 64 && self.info[a as usize].slo >= 0 { return self.zext(a, w); }
        self.mk(N::SExt(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(k) = self.konst(a) { return self.k(k >> lo, w); }
        match self.n(a) {
            N::Extract(p, l2) => return self.extract(p, l2 + lo, w),
            N::ZExt(p) => {
                let pw = self.w(p);
                if lo >= pw { return self.k(0, w); }
                if lo + w <= pw { return self.extract(p, lo, w); }
                let x = self.extract(p, lo, pw - lo);
                return self.zext(x, w);
            }
            N::SExt(p) => {
                let pw = self.w(p);
                if lo + w <= pw { return self.extract(p, lo, w); }
                if lo == 0 { return self.sext(p, w); }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw { return self.extract(l, lo, w); }
                if lo >= lw { return self.extract(h, lo - lw, w); }
                let x = self.extract(l, lo, lw - lo);
                let y = self.extract(h, 0, w - (lw - lo));
                return self.concat(y, x);
            }
            N::Bin(op, p, q) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                return self.bin(op, x, y);
            }
            N::Bin(op, p, q) if lo == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let x = self.extract(p, 0, w);
                let y = self.extract(q, 0, w);
                return self.bin(op, x, y);
            }
            N::Ite(c, p, q) if self.konst(p).is_some() || self.konst(q).is_some() => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                return self.ite(c, x, y);
            }
            N::Bin(BinOp::Shl, p, s) => {
                if let Some(s) = self.konst(s) {
                    let s = s as u32;
                    if lo >= s { 
                        // bits lo-s .. of p, width w, within p's width
                        return self.extract(p, lo - s, w);
                    }
                    if lo + w <= s { return self.k(0, w); }
                }
            }
            _ => {}
        }
        let r = self.mk(N::Extract(a, lo), w);
        self.collapse(r)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        if let (Some(x), Some(y)) = (self.konst(h), self.konst(l)) { return self.k(x << self.w(l) | y, w); }
        if self.konst(h) == Some(0) { return self.zext(l, w); }
        match (self.n(h), self.n(l)) {
            (N::Extract(p, lo1), N::Extract(q, lo2)) if p == q && lo1 == lo2 + self.w(l) => return self.extract(p, lo2, w),
            // concat(extract(p, lo1), concat(extract(p, lo2), rest))
            _ => {}
        }
        if let N::Extract(p, lo1) = self.n(h) {
            if p == l && lo1 == self.w(l) { return self.extract(p, 0, w); }
            let _ = lo1;
        }
        // re-associate to the left so adjacent extracts meet
        if let N::Concat(h2, l2) = self.n(l) {
            let x = self.concat(h, h2);
            if !matches!(self.n(x), N::Concat(a, b) if a == h && b == h2) { return self.concat(x, l2); }
        }
        if let N::Concat(h2, l2) = self.n(h) {
            let x = self.concat(l2, l);
            if !matches!(self.n(x), N::Concat(a, b) if a == l2 && b == l) { return self.concat(h2, x); }
        }
        self.mk(N::Concat(h, l), w)
    }

    // ---- doubles ----

    pub fn grid(&mut self, k: E, scale: u8, mag: u64) -> E {
        if let Some(v) = self.konst(k) {
            let x = (sx(v, 64) as f64) / (1u64 << scale) as f64;
            return self.k(x.to_bits() as u128, 64);
        }
        let i = &self.info[k as usize];
        let m2 = i.slo.unsigned_abs().max(i.shi.unsigned_abs()).min(u64::MAX as u128) as u64;
        let mag = mag.min(m2);
        let e = self.mk(N::Grid(k, scale), 64);
        let old = self.info[e as usize].mag;
        if old == 0 || mag < old { self.info[e as usize].mag = mag; }
        e
    }

    /// view as k / 2^s
    pub fn as_grid(&mut self, e: E) -> Option<(E, u8, u64)> {
        match self.n(e) {
            N::Grid(k, s) => Some((k, s, self.info[e as usize].mag)),
            N::K(v) => { let (m, s) = dyadic(v as u64)?; let k = self.k(m as i128 as u128, 64); Some((k, s, m.unsigned_abs())) }
            _ => None,
        }
    }

    fn align2(&mut self, a: E, b: E) -> Option<(E, E, u8, u64, u64)> {
        if self.konst(a).is_some() && self.konst(b).is_some() { return None; }
        let (k1, s1, m1) = self.as_grid(a)?;
        let (k2, s2, m2) = self.as_grid(b)?;
        let s = s1.max(s2);
        let m1 = (m1 as u128) << (s - s1);
        let m2 = (m2 as u128) << (s - s2);
        if m1 > 1 << 53 || m2 > 1 << 53 { return None; }
        let x = self.shl_k(k1, (s - s1) as u32);
        let y = self.shl_k(k2, (s - s2) as u32);
        Some((x, y, s, m1 as u64, m2 as u64))
    }

    pub fn fbin(&mut self, op: FBinOp, mut a: E, mut b: E) -> E {
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.k(fold_fbin(op, x as u64, y as u64) as u128, 64); }
        match op {
            FBinOp::Add | FBinOp::Sub => {
                if let Some((x, y, s, m1, m2)) = self.align2(a, b) {
                    if m1 as u128 + m2 as u128 <= 1 << 53 {
                        let k = self.bin(if op == FBinOp::Add { BinOp::Add } else { BinOp::Sub }, x, y);
                        return self.grid(k, s, m1 + m2);
                    }
                }
            }
            FBinOp::Mul => {
                if let (Some((k1, s1, m1)), Some((k2, s2, m2))) = (self.as_grid(a), self.as_grid(b)) {
                    let m = m1 as u128 * m2 as u128;
                    if m <= 1 << 53 && s1 as u32 + s2 as u32 <= 52 {
                        let k = if k1 == k2 || self.konst(k1).is_some() || self.konst(k2).is_some() { self.bin(BinOp::Mul, k1, k2) } else {
                            let w = (130 - m.leading_zeros()).min(64);
                            let x = self.extract(k1, 0, w);
                            let y = self.extract(k2, 0, w);
                            let z = self.bin(BinOp::Mul, x, y);
                            self.sext(z, 64)
                        };
                        return self.grid(k, s1 + s2, m as u64);
                    }
                }
            }
            FBinOp::Div => {
                // division by a power of two
                if let (N::Grid(..), Some(y)) = (self.n(a), self.konst(b)) {
                    let y = f64::from_bits(y as u64);
                    let r = 1.0 / y;
                    if y != 0.0 && r.is_finite() && y.to_bits() & ((1 << 52) - 1) == 0 {
                        let k = self.k(r.to_bits() as u128, 64);
                        return self.fbin(FBinOp::Mul, a, k);
                    }
                }
            }
            FBinOp::Rem => {
                if let Some((x, y, s, m1, m2)) = self.align2(a, b) {
                    if self.konst(y).map_or(false, |k| k != 0) {
                        let k = self.small_rem(x, y).unwrap_or_else(|| self.bin(BinOp::SRem, x, y));
                        return self.grid(k, s, m1.min(m2));
                    }
                }
            }
        }
        if let Some(y) = self.konst(b) {
            let y = f64::from_bits(y as u64);
            match op {
                // x + -0.0, x - 0.0, x * 1.0, x / 1.0 are exact identities on finite values
                FBinOp::Sub if y == 0.0 && y.is_sign_positive() && self.info[a as usize].finite => return a,
                FBinOp::Mul | FBinOp::Div if y == 1.0 && self.info[a as usize].finite => return a,
                _ => {}
            }
        }
        if matches!(op, FBinOp::Add | FBinOp::Mul) && a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(N::FBin(op, a, b), 64)
    }

    /// remainder by a constant where the quotient has few values: subtractions only
    fn small_rem(&mut self, x: E, y: E) -> Option<E> {
        let w = self.w(x);
        if w > 64 { return None; }
        let d = sx(self.konst(y)?, w).checked_abs()?;
        let (lo, hi) = (self.info[x as usize].slo / d, self.info[x as usize].shi / d);
        if lo < -4 || hi > 4 { return None; }
        let mut r = x;
        for q in (1..=hi).chain((lo..=-1).rev()) {
            let k = self.k((q * d) as u128 & mask(w), w);
            let c = if q > 0 { self.sle(k, x) } else { self.sle(x, k) };
            let v = self.bin(BinOp::Sub, x, k);
            r = self.ite(c, v, r);
        }
        Some(r)
    }

    pub fn fneg(&mut self, a: E) -> E {
        if let N::Grid(k, s) = self.n(a) {
            let m = self.info[a as usize].mag;
            let z = self.k(0, 64);
            let n = self.bin(BinOp::Sub, z, k);
            return self.grid(n, s, m);
        }
        let k = self.k(1 << 63, 64);
        self.bin(BinOp::Xor, a, k)
    }
    pub fn fabs(&mut self, a: E) -> E {
        if let N::Grid(k, s) = self.n(a) {
            let m = self.info[a as usize].mag;
            let z = self.k(0, 64);
            let n = self.bin(BinOp::Sub, z, k);
            let c = self.slt(k, z);
            let r = self.ite(c, n, k);
            return self.grid(r, s, m);
        }
        let k = self.k((1 << 63) - 1, 64);
        self.bin(BinOp::And, a, k)
    }

    fn grid_vs_const(&mut self, a: E, b: E) -> Option<(E, f64)> {
        if let (N::Grid(k, s), Some(y)) = (self.n(a), self.konst(b)) {
            let y = f64::from_bits(y as u64);
            if y.is_nan() { return None; }
            return Some((k, y * (1u64 << s) as f64));
        }
        None
    }

    pub fn feq(&mut self, mut a: E, mut b: E) -> E {
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.k((f64::from_bits(x as u64) == f64::from_bits(y as u64)) as u128, 1); }
        if a == b && self.info[a as usize].finite { return self.tru(); }
        if self.konst(a).is_some() || (self.konst(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        if let Some((x, y, ..)) = self.align2(a, b) { return self.eq(x, y); }
        if let Some((k, y)) = self.grid_vs_const(a, b) {
            if y.fract() != 0.0 || y.abs() > 9e18 { return self.fls(); }
            let c = self.k(y as i64 as i128 as u128, 64);
            return self.eq(k, c);
        }
        self.mk(N::FEq(a, b), 1)
    }
    pub fn flt(&mut self, a: E, b: E) -> E { self.fcmp(a, b, true) }
    pub fn fle(&mut self, a: E, b: E) -> E { self.fcmp(a, b, false) }
    fn fcmp(&mut self, a: E, b: E, strict: bool) -> E {
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
            return self.k((if strict { x < y } else { x <= y }) as u128, 1);
        }
        if a == b && self.info[a as usize].finite { return self.k(!strict as u128, 1); }
        if let Some((x, y, ..)) = self.align2(a, b) { return if strict { self.slt(x, y) } else { self.sle(x, y) }; }
        if let Some((k, y)) = self.grid_vs_const(a, b) {
            if y > 9e18 { return self.tru(); }
            if y < -9e18 { return self.fls(); }
            // k < y  <=>  k < ceil(y);  k <= y  <=>  k <= floor(y)
            let c = self.k((if strict { y.ceil() } else { y.floor() }) as i64 as i128 as u128, 64);
            return if strict { self.slt(k, c) } else { self.sle(k, c) };
        }
        if let Some((k, y)) = self.grid_vs_const(b, a) {
            if y > 9e18 { return self.fls(); }
            if y < -9e18 { return self.tru(); }
            let c = self.k((if strict { y.floor() } else { y.ceil() }) as i64 as i128 as u128, 64);
            return if strict { self.slt(c, k) } else { self.sle(c, k) };
        }
        self.mk(if strict { N::FLt(a, b) } else { N::FLe(a, b) }, 1)
    }
    pub fn fnan(&mut self, a: E) -> E {
        if let Some(x) = self.konst(a) { return self.k(f64::from_bits(x as u64).is_nan() as u128, 1); }
        if self.info[a as usize].finite { return self.fls(); }
        self.mk(N::FNan(a), 1)
    }
    pub fn fsqrt(&mut self, a: E) -> E {
        if let Some(x) = self.konst(a) { return self.k(f64::from_bits(x as u64).sqrt().to_bits() as u128, 64); }
        // square root of an exact square
        if let N::Grid(k, s) = self.n(a) {
            let m = match self.n(k) { N::SExt(m) => m, _ => k };
            if let N::Bin(BinOp::Mul, x, y) = self.n(m) {
                if x == y && s % 2 == 0 {
                    let x = self.sext(x, 64);
                    let g = self.grid(x, s / 2, 1 << 32);
                    return self.fabs(g);
                }
            }
        }
        self.mk(N::FSqrt(a), 64)
    }
    pub fn frnd(&mut self, m: u8, a: E) -> E {
        if let Some(x) = self.konst(a) { return self.k(fold_rnd(m, x as u64) as u128, 64); }
        if m == RND_F32 {
            match self.n(a) { N::Grid(..) if self.info[a as usize].mag <= 1 << 24 => return a, N::FRnd(RND_F32, _) => return a, _ => return self.mk(N::FRnd(m, a), 64) }
        }
        if let N::Grid(k, s) = self.n(a) {
            if s == 0 { return a; }
            let mag = self.info[a as usize].mag;
            let one = 1u128 << s;
            let z = self.k(0, 64);
            let sh = self.k(s as u128, 64);
            let q = match m {
                RND_FLOOR => self.bin(BinOp::AShr, k, sh),
                RND_CEIL => { let c = self.k(one - 1, 64); let t = self.bin(BinOp::Add, k, c); self.bin(BinOp::AShr, t, sh) }
                RND_TRUNC => {
                    let neg = self.slt(k, z);
                    let c = self.k(one - 1, 64);
                    let t = self.bin(BinOp::Add, k, c);
                    let t = self.ite(neg, t, k);
                    self.bin(BinOp::AShr, t, sh)
                }
                RND_AWAY => {
                    let neg = self.slt(k, z);
                    let c1 = self.k(one / 2, 64);
                    let c2 = self.k(one / 2 - 1, 64);
                    let t1 = self.bin(BinOp::Add, k, c1);
                    let t2 = self.bin(BinOp::Add, k, c2);
                    let t = self.ite(neg, t2, t1);
                    self.bin(BinOp::AShr, t, sh)
                }
                _ => return self.mk(N::FRnd(m, a), 64),
            };
            return self.grid(q, 0, (mag >> s) + 1);
        }
        self.mk(N::FRnd(m, a), 64)
    }
    /// to 32 bit float
    pub fn ftrunc(&mut self, a: E) -> E {
        if let Some(x) = self.konst(a) { return self.k((f64::from_bits(x as u64) as f32).to_bits() as u128, 32); }
        self.mk(N::F32(a), 32)
    }
    /// a 32 bit float as a double
    pub fn fext(&mut self, a: E) -> Option<E> {
        match self.n(a) {
            N::K(x) => Some(self.k((f32::from_bits(x as u32) as f64).to_bits() as u128, 64)),
            N::F32(x) => Some(self.frnd(RND_F32, x)),
            N::Ite(c, x, y) => { let x = self.fext(x)?; let y = self.fext(y)?; Some(self.ite(c, x, y)) }
            _ => None,
        }
    }
    pub fn sitof(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.konst(a) { return self.k((sx(x, w) as f64).to_bits() as u128, 64); }
        let i = &self.info[a as usize];
        let m = i.slo.unsigned_abs().max(i.shi.unsigned_abs());
        if w <= 64 && m <= 1 << 53 { let k = self.sext(a, 64); return self.grid(k, 0, m as u64); }
        let x = if w < 64 { self.sext(a, 64) } else { a };
        self.mk(N::SiToF(x), 64)
    }
    pub fn uitof(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.konst(a) { return self.k((x as f64).to_bits() as u128, 64); }
        let m = self.info[a as usize].hi;
        if w <= 64 && m <= 1 << 53 { let k = self.zext(a, 64); return self.grid(k, 0, m as u64); }
        let x = if w < 64 { self.zext(a, 64) } else { a };
        self.mk(N::UiToF(x), 64)
    }
    /// saturating conversion to a signed 64 bit integer, NaN to zero
    pub fn ftosi(&mut self, a: E) -> E {
        if let Some(x) = self.konst(a) { return self.k(f64::from_bits(x as u64) as i64 as i128 as u128, 64); }
        if let N::Grid(..) = self.n(a) {
            let t = self.frnd(RND_TRUNC, a);
            return match self.n(t) { N::Grid(k, _) => k, N::K(_) => self.ftosi(t), _ => unreachable!() };
        }
        self.mk(N::FToSi(a), 64)
    }
    pub fn ftoui(&mut self, a: E) -> E {
        if let Some(x) = self.konst(a) { return self.k(f64::from_bits(x as u64) as u64 as u128, 64); }
        if let N::Grid(..) = self.n(a) {
            let t = self.ftosi(a);
            let z = self.k(0, 64);
            let c = self.slt(t, z);
            return self.ite(c, z, t);
        }
        self.mk(N::FToUi(a), 64)
    }

    // ---- evaluation ----

    pub fn eval(&self, e: E, model: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>) -> u128 {
        if let N::K(v) = self.nodes[e as usize] { return v; }
        if let N::Var(v) = self.nodes[e as usize] { return *model.get(&v).unwrap_or(&self.vars[v as usize].init); }
        if let Some(&v) = memo.get(&e) { return v; }
        let w = self.w(e);
        let m = mask(w);
        macro_rules! ev { ($x:expr) => { self.eval($x, model, memo) } }
        macro_rules! fv { ($x:expr) => { f64::from_bits(self.eval($x, model, memo) as u64) } }
        let r = match self.nodes[e as usize] {
            N::K(_) | N::Var(_) => unreachable!(),
            N::Bin(op, a, b) => { let x = ev!(a); let y = ev!(b); fold_bin(op, x, y, w) }
            N::Eq(a, b) => (ev!(a) == ev!(b)) as u128,
            N::Ult(a, b) => (ev!(a) < ev!(b)) as u128,
            N::Ule(a, b) => (ev!(a) <= ev!(b)) as u128,
            N::Slt(a, b) => { let k = self.w(a); (sx(ev!(a), k) < sx(ev!(b), k)) as u128 }
            N::Sle(a, b) => { let k = self.w(a); (sx(ev!(a), k) <= sx(ev!(b), k)) as u128 }
            N::Ite(c, a, b) => if ev!(c) == 1 { ev!(a) } else { ev!(b) },
            N::ZExt(a) => ev!(a),
            N::SExt(a) => { let k = self.w(a); sx(ev!(a), k) as u128 & m }
            N::Extract(a, lo) => (ev!(a) >> lo) & m,
            N::Concat(h, l) => { let lw = self.w(l); ev!(h) << lw | ev!(l) }
            N::FBin(op, a, b) => { let x = ev!(a); let y = ev!(b); fold_fbin(op, x as u64, y as u64) as u128 }
            N::FEq(a, b) => (fv!(a) == fv!(b)) as u128,
            N::FLt(a, b) => (fv!(a) < fv!(b)) as u128,
            N::FLe(a, b) => (fv!(a) <= fv!(b)) as u128,
            N::FNan(a) => fv!(a).is_nan() as u128,
            N::FSqrt(a) => fv!(a).sqrt().to_bits() as u128,
            N::FRnd(k, a) => fold_rnd(k, ev!(a) as u64) as u128,
            N::F32(a) => (fv!(a) as f32).to_bits() as u128,
            N::SiToF(a) => ((ev!(a) as u64 as i64) as f64).to_bits() as u128,
            N::UiToF(a) => ((ev!(a) as u64) as f64).to_bits() as u128,
            N::FToSi(a) => (fv!(a) as i64) as u64 as u128,
            N::FToUi(a) => (fv!(a) as u64) as u128,
            N::Grid(k, s) => { let x = ev!(k) as u64 as i64; (x as f64 / (1u64 << s) as f64).to_bits() as u128 }
        };
        memo.insert(e, r);
        r
    }

    /// the byte variable an expression depends on, if it depends on exactly one
    pub fn single_byte(&self, e: E) -> Option<u32> {
        let s = &self.info[e as usize].supp;
        if s.len() == 1 && self.vars[s[0] as usize].w == 8 { Some(s[0]) } else { None }
    }

    /// truth table of a boolean expression over its single byte variable
    pub fn truth(&mut self, e: E, v: u32) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) { return *t; }
        let mut t = [0u64; 4];
        let mut model = HashMap::new();
        for x in 0..256usize {
            model.insert(v, x as u128);
            let mut memo = HashMap::new();
            if self.eval(e, &model, &mut memo) == 1 { t[x / 64] |= 1 << (x % 64); }
        }
        self.tt.insert(e, t);
        t
    }
}
