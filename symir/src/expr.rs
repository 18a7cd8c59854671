//! Hash-consed bit-vector / float expressions with a simplifier and an exact evaluator.
use crate::ir::{mask, sext, Ex};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, T> = HashMap<K, T, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt,
    Concat, Extract, ZExt, SExt, Ite,
    /// float (bits) with value n * 2^-frac, n a signed 32-bit expression, zero is +0
    FFix,
    /// the same, zero is -0
    FFixN,
    FAdd, FSub, FMul, FDiv, FSqrt,
    FLt, FLe, FEq,
    FToU32,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub val: u64,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
}

pub struct Arena {
    pub n: Vec<Node>,
    cons: FxMap<Node, Ex>,
    pub sup: Vec<u32>,
    /// structural hash: the same in every worker, so canonical operand order is too
    h: Vec<u64>,
    pub sets: Vec<Rc<[u16]>>,
    set_ids: HashMap<Rc<[u16]>, u32>,
    unions: FxMap<(u32, u32), u32>,
    stamp: Vec<u32>,
    memo: Vec<u64>,
    epoch: u32,
    pub vars: Vec<Var>,
    var_ids: HashMap<(u16, u32, u64, u64), u32>,
    truth: FxMap<Ex, [u64; 4]>,
    rng: FxMap<Ex, (i64, i64)>,
    lins: FxMap<Ex, Rc<Lin>>,
    canons: FxMap<Ex, Ex>,
}

/// A 32-bit sum: constant and coefficients (as integers; equal to the expression modulo 2^32).
pub type Lin = (i64, Vec<(Ex, i64)>);

fn f(x: u64) -> f32 { f32::from_bits(x as u32) }
fn fb(x: f32) -> u64 { x.to_bits() as u64 }

impl Arena {
    pub fn new() -> Self {
        let e: Rc<[u16]> = Rc::from(vec![]);
        let mut set_ids = HashMap::new();
        set_ids.insert(e.clone(), 0);
        let mut a = Arena { n: vec![], cons: Default::default(), sup: vec![], h: vec![], sets: vec![e], set_ids, unions: Default::default(), stamp: vec![], memo: vec![], epoch: 0, vars: vec![], var_ids: HashMap::new(), truth: Default::default(), rng: Default::default(), lins: Default::default(), canons: Default::default() };
        a.k(1, 0); // expression 0 is never stored in memory: it marks a concrete byte
        a
    }
    fn set(&mut self, v: Vec<u16>) -> u32 {
        let r: Rc<[u16]> = v.into();
        if let Some(x) = self.set_ids.get(&r) { return *x; }
        let k = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.set_ids.insert(r, k);
        k
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(x) = self.unions.get(&key) { return *x; }
        let mut v: Vec<u16> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).copied().collect();
        v.sort();
        v.dedup();
        let r = self.set(v);
        self.unions.insert(key, r);
        r
    }
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(x) = self.cons.get(&n) { return *x; }
        let k = self.n.len() as Ex;
        let s = match n.op {
            O::Const => 0,
            O::Var => { let i = n.val as u16; self.set(vec![i]) }
            _ => {
                let mut s = self.sup[n.a as usize];
                if !matches!(n.op, O::Extract | O::ZExt | O::SExt | O::FFix | O::FFixN | O::FSqrt | O::FToU32) { s = self.union(s, self.sup[n.b as usize]); }
                if n.op == O::Ite { s = self.union(s, self.sup[n.c as usize]); }
                s
            }
        };
        let mut h = Fx(n.op as u64 + 1);
        h.write_u64(n.w as u64);
        match n.op {
            O::Const => h.write_u64(n.val),
            O::Var => { h.write_u64(n.val); let v = &self.vars[n.a as usize]; h.write_u64(v.lo); h.write_u64(v.hi); }
            O::Extract => { h.write_u64(self.h[n.a as usize]); h.write_u64(n.b as u64); h.write_u64(n.c as u64); }
            O::FFix | O::FFixN => { h.write_u64(self.h[n.a as usize]); h.write_u64(n.b as u64); }
            O::ZExt | O::SExt | O::FSqrt | O::FToU32 => h.write_u64(self.h[n.a as usize]),
            O::Ite => for x in [n.a, n.b, n.c] { h.write_u64(self.h[x as usize]) },
            _ => for x in [n.a, n.b] { h.write_u64(self.h[x as usize]) },
        }
        let h = h.finish();
        self.h.push(h ^ (h >> 29));
        self.n.push(n);
        self.sup.push(s);
        self.stamp.push(0);
        self.memo.push(0);
        self.cons.insert(n, k);
        k
    }
    fn nd(&mut self, op: O, w: u32, a: Ex, b: Ex, c: Ex, val: u64) -> Ex {
        self.mk(Node { op, w: w as u8, a, b, c, val })
    }
    #[inline] pub fn w(&self, e: Ex) -> u32 { self.n[e as usize].w as u32 }
    #[inline] pub fn cv(&self, e: Ex) -> Option<u64> { let n = &self.n[e as usize]; if n.op == O::Const { Some(n.val) } else { None } }
    #[inline] pub fn op(&self, e: Ex) -> O { self.n[e as usize].op }
    pub fn support(&self, e: Ex) -> Rc<[u16]> { self.sets[self.sup[e as usize] as usize].clone() }
    pub fn support_id(&self, e: Ex) -> u32 { self.sup[e as usize] }

    pub fn k(&mut self, w: u32, v: u64) -> Ex { let v = mask(v, w); self.nd(O::Const, w, 0, 0, 0, v) }
    /// The idx-th input of a path; variables of equal index, width and range are shared between paths.
    pub fn var(&mut self, idx: u16, w: u32, lo: u64, hi: u64) -> Ex {
        let key = (idx, w, lo, hi);
        let id = if let Some(x) = self.var_ids.get(&key) { *x } else {
            let id = self.vars.len() as u32;
            self.vars.push(Var { w, lo, hi });
            self.var_ids.insert(key, id);
            id
        };
        // val = path index (the model is indexed by it), a = variable id
        self.nd(O::Var, w, id, 0, 0, idx as u64)
    }

    // ---- bit-vector constructors
    pub fn not(&mut self, a: Ex) -> Ex { let w = self.w(a); let m = self.k(w, !0); self.xor(a, m) }
    pub fn neg(&mut self, a: Ex) -> Ex { let w = self.w(a); let z = self.k(w, 0); self.sub(z, a) }
    pub fn add(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.k(w, x.wrapping_add(y)); }
            if y == 0 { return a; }
            let n = self.n[a as usize];
            if n.op == O::Add { if let Some(z) = self.cv(n.b) { let c = self.k(w, y.wrapping_add(z)); return self.add(n.a, c); } }
            if n.op == O::Ite && self.ite_consts(a) { return self.map_ite(a, &mut |s, x| { let y2 = s.k(w, y); s.add(x, y2) }); }
        } else {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.op == O::Add { if self.cv(na.b).is_some() { let t = self.add(na.a, b); return self.add(t, na.b); } }
            if nb.op == O::Add { if self.cv(nb.b).is_some() { let t = self.add(a, nb.a); return self.add(t, nb.b); } }
            if nb.op == O::Sub && nb.b == a { return nb.a; }
            if na.op == O::Sub && na.b == b { return na.a; }
            if self.h[a as usize] > self.h[b as usize] { std::mem::swap(&mut a, &mut b); }
        }
        self.nd(O::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        if a == b { return self.k(w, 0); }
        if let Some(y) = self.cv(b) { let c = self.k(w, y.wrapping_neg()); return self.add(a, c); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if nb.op == O::Add { if let Some(z) = self.cv(nb.b) { let t = self.sub(a, nb.a); let c = self.k(w, z.wrapping_neg()); return self.add(t, c); } }
        if na.op == O::Add {
            if self.cv(na.b).is_some() { let t = self.sub(na.a, b); return self.add(t, na.b); }
            if na.a == b { return na.b; }
            if na.b == b { return na.a; }
        }
        if nb.op == O::Add { if nb.a == a { return self.neg(nb.b); } if nb.b == a { return self.neg(nb.a); } }
        if nb.op == O::Sub && nb.a == a { return nb.b; }
        if na.op == O::Sub && na.a == b { return self.neg(na.b); }
        if let Some(0) = self.cv(a) { if nb.op == O::Sub { return self.sub(nb.b, nb.a); } }
        self.nd(O::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if w == 1 { return self.and(a, b); }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.k(w, x.wrapping_mul(y)); }
            if y == 0 { return b; }
            if y == 1 { return a; }
            let n = self.n[a as usize];
            if n.op == O::Mul { if let Some(z) = self.cv(n.b) { let c = self.k(w, y.wrapping_mul(z)); return self.mul(n.a, c); } }
            if n.op == O::Add { if let Some(z) = self.cv(n.b) { let c = self.k(w, y.wrapping_mul(z)); let t = self.mul(n.a, b); return self.add(t, c); } }
            if n.op == O::Ite && self.ite_consts(a) { return self.map_ite(a, &mut |s, x| { let y2 = s.k(w, y); s.mul(x, y2) }); }
        } else if self.h[a as usize] > self.h[b as usize] { std::mem::swap(&mut a, &mut b); }
        self.nd(O::Mul, w, a, b, 0, 0)
    }
    pub fn div(&mut self, op: O, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let r = arith(op, w, x, y); return self.k(w, r); }
        if let Some(y) = self.cv(b) {
            if y == 1 { return if op == O::UDiv || op == O::SDiv { a } else { self.k(w, 0) }; }
            if y.is_power_of_two() && op == O::UDiv { let s = self.k(w, y.trailing_zeros() as u64); return self.lshr(a, s); }
            if y.is_power_of_two() && op == O::URem { let s = self.k(w, y - 1); return self.and(a, s); }
        }
        self.nd(op, w, a, b, 0, 0)
    }
    pub fn and(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return a; }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.k(w, x & y); }
            if y == 0 { return b; }
            if y == mask(!0, w) { return a; }
            let n = self.n[a as usize];
            match n.op {
                O::ZExt => {
                    let iw = self.w(n.a);
                    if y & mask(!0, iw) == mask(!0, iw) { return a; }
                    let m = self.k(iw, y);
                    let t = self.and(n.a, m);
                    return self.zext(t, w);
                }
                O::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let ml = self.k(lw, y);
                    let mh = self.k(hw, y >> lw);
                    let l = self.and(n.b, ml);
                    let h = self.and(n.a, mh);
                    return self.concat(h, l);
                }
                O::And => if let Some(z) = self.cv(n.b) { let m = self.k(w, y & z); return self.and(n.a, m); }
                O::Ite if self.ite_consts(a) => return self.map_ite(a, &mut |s, x| { let y2 = s.k(w, y); s.and(x, y2) }),
                _ => {}
            }
            // low mask -> zext(extract)
            if (y + 1).is_power_of_two() && y != 0 {
                let bits = (y + 1).trailing_zeros();
                let t = self.extract(a, bits - 1, 0);
                return self.zext(t, w);
            }
            // single high bit / contiguous mask
            let tz = y.trailing_zeros();
            if tz > 0 && ((y >> tz) + 1).is_power_of_two() {
                let bits = ((y >> tz) + 1).trailing_zeros();
                let t = self.extract(a, tz + bits - 1, tz);
                let z = self.k(tz, 0);
                let t = self.concat(t, z);
                return self.zext(t, w);
            }
        } else {
            if w == 1 {
                if self.is_not(a, b) { return self.k(1, 0); }
            }
            if self.h[a as usize] > self.h[b as usize] { std::mem::swap(&mut a, &mut b); }
            // a & (a & x)
            let nb = self.n[b as usize];
            if nb.op == O::And && (nb.a == a || nb.b == a) { return b; }
            let na = self.n[a as usize];
            if na.op == O::And && (na.a == b || na.b == b) { return a; }
            if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.and(na.a, nb.a); return self.zext(t, w); }
        }
        self.nd(O::And, w, a, b, 0, 0)
    }
    fn is_not(&self, a: Ex, b: Ex) -> bool {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        (na.op == O::Xor && na.a == b && self.cv(na.b) == Some(1)) || (nb.op == O::Xor && nb.a == a && self.cv(nb.b) == Some(1))
    }
    pub fn or(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return a; }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.k(w, x | y); }
            if y == 0 { return a; }
            if y == mask(!0, w) { return b; }
            let n = self.n[a as usize];
            if n.op == O::Concat || n.op == O::ZExt { if let Some(r) = self.or_pieces(a, b) { return r; } }
            if n.op == O::Ite && self.ite_consts(a) { return self.map_ite(a, &mut |s, x| { let y2 = s.k(w, y); s.or(x, y2) }); }
        } else {
            if w == 1 && self.is_not(a, b) { return self.k(1, 1); }
            if let Some(r) = self.or_pieces(a, b) { return r; }
            if self.h[a as usize] > self.h[b as usize] { std::mem::swap(&mut a, &mut b); }
        }
        self.nd(O::Or, w, a, b, 0, 0)
    }
    /// or of two values whose known-zero parts let them be spliced together
    fn or_pieces(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        if w == 1 { return None; }
        let pa = self.pieces(a);
        let pb = self.pieces(b);
        if pa.len() < 2 && pb.len() < 2 { return None; }
        // cut points
        let mut cuts: Vec<u32> = vec![0];
        for ps in [&pa, &pb] { let mut o = 0; for (_, pw) in ps.iter() { o += pw; cuts.push(o); } }
        cuts.sort();
        cuts.dedup();
        let mut parts = vec![];
        for i in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[i], cuts[i + 1] - 1);
            let x = self.piece_at(&pa, lo, hi);
            let y = self.piece_at(&pb, lo, hi);
            let p = if self.cv(x) == Some(0) { y } else if self.cv(y) == Some(0) { x }
                else if let (Some(u), Some(v)) = (self.cv(x), self.cv(y)) { self.k(hi - lo + 1, u | v) } else if x == y { x } else { return None };
            parts.push(p);
        }
        let mut r = parts[0];
        for p in &parts[1..] { r = self.concat(*p, r); }
        Some(r)
    }
    /// low-to-high list of (expr, width)
    fn pieces(&mut self, e: Ex) -> Vec<(Ex, u32)> {
        let n = self.n[e as usize];
        match n.op {
            O::Concat => { let mut v = self.pieces(n.b); v.extend(self.pieces(n.a)); v }
            O::ZExt => { let iw = self.w(n.a); let mut v = self.pieces(n.a); let z = self.k(n.w as u32 - iw, 0); v.push((z, n.w as u32 - iw)); v }
            _ => vec![(e, n.w as u32)],
        }
    }
    fn piece_at(&mut self, ps: &[(Ex, u32)], lo: u32, hi: u32) -> Ex {
        let mut o = 0;
        for (e, w) in ps {
            if lo >= o && hi < o + w { return self.extract(*e, hi - o, lo - o); }
            o += w;
        }
        unreachable!()
    }
    pub fn xor(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if a == b { return self.k(w, 0); }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.k(w, x ^ y); }
            if y == 0 { return a; }
            let n = self.n[a as usize];
            if n.op == O::Xor { if let Some(z) = self.cv(n.b) { let c = self.k(w, y ^ z); return self.xor(n.a, c); } }
            if n.op == O::Ite && self.ite_consts(a) { return self.map_ite(a, &mut |s, x| { let y2 = s.k(w, y); s.xor(x, y2) }); }
        } else if self.h[a as usize] > self.h[b as usize] { std::mem::swap(&mut a, &mut b); }
        self.nd(O::Xor, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 { return a; }
            if s >= w as u64 { return self.k(w, 0); }
            if let Some(x) = self.cv(a) { return self.k(w, x << s); }
            let t = self.extract(a, w - 1 - s as u32, 0);
            let z = self.k(s as u32, 0);
            return self.concat(t, z);
        }
        self.nd(O::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 { return a; }
            if s >= w as u64 { return self.k(w, 0); }
            if let Some(x) = self.cv(a) { return self.k(w, x >> s); }
            let t = self.extract(a, w - 1, s as u32);
            return self.zext(t, w);
        }
        self.nd(O::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 { return a; }
            let s = s.min(w as u64 - 1) as u32;
            if let Some(x) = self.cv(a) { return self.k(w, (sext(x, w) >> s) as u64); }
            let t = self.extract(a, w - 1, s);
            return self.sext(t, w);
        }
        self.nd(O::AShr, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (wh, wl) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.k(wh + wl, (x << wl) | y); }
        if self.cv(h) == Some(0) { return self.zext(l, wh + wl); }
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == O::Extract && nl.op == O::Extract && nh.a == nl.a && nh.b == nl.c_hi() + 1 {
            return self.extract(nh.a, nh.c, nl.b);
        }
        // right-nested: (x ++ y) ++ z  ->  x ++ (y ++ z), merging adjacent extracts
        if nl.op == O::Concat {
            let m = self.n[nl.a as usize];
            if nh.op == O::Extract && m.op == O::Extract && nh.a == m.a && nh.b == m.c_hi() + 1 {
                let t = self.extract(nh.a, nh.c, m.b);
                return self.concat(t, nl.b);
            }
            if let (Some(x), Some(y)) = (self.cv(h), self.cv(nl.a)) { let t = self.k(wh + self.w(nl.a), (x << self.w(nl.a)) | y); return self.concat(t, nl.b); }
        }
        if nh.op == O::Concat { let t = self.concat(nh.b, l); return self.concat(nh.a, t); }
        if nh.op == O::ZExt && wh + wl <= 64 { let t = self.concat(nh.a, l); return self.zext(t, wh + wl); }
        self.nd(O::Concat, wh + wl, h, l, 0, 0)
    }
    /// bits hi..=lo (stored as b = lo, c = hi)
    pub fn extract(&mut self, a: Ex, hi: u32, lo: u32) -> Ex {
        let w = self.w(a);
        if lo == 0 && hi == w - 1 { return a; }
        let rw = hi - lo + 1;
        if let Some(x) = self.cv(a) { return self.k(rw, x >> lo); }
        let n = self.n[a as usize];
        match n.op {
            O::Extract => return self.extract(n.a, n.b + hi, n.b + lo),
            O::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, hi - wl, lo - wl); }
                if hi < wl { return self.extract(n.b, hi, lo); }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            O::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.k(rw, 0); }
                if hi < iw { return self.extract(n.a, hi, lo); }
                let t = self.extract(n.a, iw - 1, lo);
                return self.zext(t, rw);
            }
            O::SExt => {
                let iw = self.w(n.a);
                if hi < iw { return self.extract(n.a, hi, lo); }
                if lo < iw { let t = self.extract(n.a, iw - 1, lo); return self.sext(t, rw); }
                let t = self.extract(n.a, iw - 1, iw - 1);
                return self.sext(t, rw);
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return match n.op { O::And => self.and(x, y), O::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return match n.op { O::Add => self.add(x, y), O::Sub => self.sub(x, y), _ => self.mul(x, y) };
            }
            O::Ite => {
                if self.ite_consts(a) || self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.nd(O::Extract, rw, a, lo, hi, 0)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.cv(a) { return self.k(w, x); }
        let n = self.n[a as usize];
        if n.op == O::ZExt { return self.zext(n.a, w); }
        if n.op == O::Ite && self.ite_consts(a) { return self.map_ite(a, &mut |s, x| s.zext(x, w)); }
        self.nd(O::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.cv(a) { return self.k(w, sext(x, aw) as u64); }
        let n = self.n[a as usize];
        if n.op == O::SExt { return self.sext(n.a, w); }
        if n.op == O::ZExt { return self.zext(n.a, w); }
        if n.op == O::Ite && self.ite_consts(a) { return self.map_ite(a, &mut |s, x| s.sext(x, w)); }
        self.nd(O::SExt, w, a, 0, 0, 0)
    }
    /// an ite tree with constant leaves (bounded size)
    fn ite_consts(&self, e: Ex) -> bool {
        fn go(s: &Arena, e: Ex, budget: &mut i32) -> bool {
            *budget -= 1;
            if *budget < 0 { return false; }
            let n = &s.n[e as usize];
            match n.op { O::Const => true, O::Ite => go(s, n.c, budget) && go(s, n.b, budget), _ => false }
        }
        let mut b = 600;
        go(self, e, &mut b)
    }
    fn map_ite(&mut self, e: Ex, g: &mut dyn FnMut(&mut Arena, Ex) -> Ex) -> Ex {
        let n = self.n[e as usize];
        if n.op != O::Ite { return g(self, e); }
        let x = self.map_ite(n.b, g);
        let y = self.map_ite(n.c, g);
        self.ite(n.a, x, y)
    }
    pub fn ite(&mut self, c: Ex, t: Ex, e: Ex) -> Ex {
        if let Some(x) = self.cv(c) { return if x != 0 { t } else { e }; }
        if t == e { return t; }
        let w = self.w(t);
        let nc = self.n[c as usize];
        if nc.op == O::Xor && self.cv(nc.b) == Some(1) { return self.ite(nc.a, e, t); }
        if w == 1 {
            match (self.cv(t), self.cv(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, e),
                (Some(0), _) => { let n = self.not(c); return self.and(n, e); }
                (_, Some(0)) => return self.and(c, t),
                (_, Some(1)) => { let n = self.not(c); return self.or(n, t); }
                _ => {}
            }
        }
        let ne = self.n[e as usize];
        if ne.op == O::Ite && ne.b == t { let c2 = self.or(c, ne.a); return self.ite(c2, t, ne.c); }
        if ne.op == O::Ite && ne.a == c { return self.ite(c, t, ne.c); }
        let nt = self.n[t as usize];
        if nt.op == O::Ite && nt.a == c { return self.ite(c, nt.b, e); }
        // floats with the same scale
        if (nt.op == O::FFix || nt.op == O::FFixN) && nt.op == ne.op && nt.b == ne.b {
            let n = self.ite(c, nt.a, ne.a);
            return self.ffix_raw(nt.op, n, nt.b as i32);
        }
        self.nd(O::Ite, w, c, t, e, 0)
    }
    pub fn eq(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        if a == b { return self.k(1, 1); }
        let w = self.w(a);
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) { return self.k(1, (x == y) as u64); }
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            let n = self.n[a as usize];
            match n.op {
                O::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(!0, iw) { return self.k(1, 0); }
                    let c = self.k(iw, y);
                    return self.eq(n.a, c);
                }
                O::SExt => {
                    let iw = self.w(n.a);
                    if mask(sext(y, iw) as u64, w) != y { return self.k(1, 0); }
                    let c = self.k(iw, y);
                    return self.eq(n.a, c);
                }
                O::Concat => {
                    let wl = self.w(n.b);
                    let (wh, ) = (self.w(n.a),);
                    let cl = self.k(wl, y);
                    let ch = self.k(wh, y >> wl);
                    let l = self.eq(n.b, cl);
                    let h = self.eq(n.a, ch);
                    return self.and(h, l);
                }
                O::Add => if let Some(z) = self.cv(n.b) { let c = self.k(w, y.wrapping_sub(z)); return self.eq(n.a, c); }
                O::Xor => if let Some(z) = self.cv(n.b) { let c = self.k(w, y ^ z); return self.eq(n.a, c); }
                O::Sub if y == 0 => return self.eq(n.a, n.b),
                O::Mul => if let Some(c) = self.cv(n.b) {
                    if self.mul_exact(a) {
                        let (c, y) = (sext(c, w), sext(y, w));
                        if c != 0 {
                            if y % c != 0 { return self.k(1, 0); }
                            let k = self.k(w, (y / c) as u64);
                            return self.eq(n.a, k);
                        }
                    }
                }
                O::Ite => {
                    let (kb, kc) = (self.cv(n.b), self.cv(n.c));
                    if kb.is_some() || kc.is_some() {
                        let x = self.eq(n.b, b);
                        let z = self.eq(n.c, b);
                        return self.ite(n.a, x, z);
                    }
                }
                O::Var => { let v = &self.vars[n.a as usize]; if y < v.lo || y > v.hi { return self.k(1, 0); } }
                _ => {}
            }
        } else {
            if w == 1 { let x = self.xor(a, b); return self.not(x); }
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
            if na.op == O::SExt && nb.op == O::SExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
            if na.op == O::Concat && nb.op == O::Concat && self.w(na.a) == self.w(nb.a) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if na.op == O::Add && nb.op == O::Add && na.b == nb.b { return self.eq(na.a, nb.a); }
            if na.op == O::Mul && nb.op == O::Mul && na.b == nb.b && self.cv(na.b).map_or(false, |c| c != 0) && self.mul_exact(a) && self.mul_exact(b) { return self.eq(na.a, nb.a); }
            if na.op == O::Add && na.a == b && self.cv(na.b).is_some() { return self.k(1, 0); }
            if nb.op == O::Add && nb.a == a && self.cv(nb.b).is_some() { return self.k(1, 0); }
            if na.op == O::Add && nb.op == O::Add { if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(nb.b)) { let c = self.k(w, x.wrapping_sub(y)); let t = self.add(na.a, c); return self.eq(t, nb.a); } }
            if self.h[a as usize] > self.h[b as usize] { std::mem::swap(&mut a, &mut b); }
        }
        self.nd(O::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b { return self.k(1, 0); }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.k(1, (x < y) as u64); }
        if cb == Some(0) || ca == Some(mask(!0, w)) { return self.k(1, 0); }
        if cb == Some(1) { let z = self.k(w, 0); return self.eq(a, z); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if let Some(y) = cb {
            if na.op == O::ZExt { let iw = self.w(na.a); if y > mask(!0, iw) { return self.k(1, 1); } let c = self.k(iw, y); return self.ult(na.a, c); }
            if na.op == O::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) { let x = self.ult(na.b, b); let z = self.ult(na.c, b); return self.ite(na.a, x, z); }
            if na.op == O::Concat {
                // x ++ l < y where y's low part is zero: compare the high part
                let wl = self.w(na.b);
                if y & mask(!0, wl) == 0 { let hw = self.w(na.a); let c = self.k(hw, y >> wl); return self.ult(na.a, c); }
            }
            if na.op == O::Var { let v = &self.vars[na.a as usize]; if v.hi < y { return self.k(1, 1); } if v.lo >= y { return self.k(1, 0); } }
        }
        if let Some(x) = ca {
            if nb.op == O::ZExt { let iw = self.w(nb.a); if x >= mask(!0, iw) { return self.k(1, 0); } let c = self.k(iw, x); return self.ult(c, nb.a); }
            if nb.op == O::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) { let p = self.ult(a, nb.b); let z = self.ult(a, nb.c); return self.ite(nb.a, p, z); }
            if nb.op == O::Var { let v = &self.vars[nb.a as usize]; if v.lo > x { return self.k(1, 1); } if v.hi <= x { return self.k(1, 0); } }
        }
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) { return self.ult(na.a, nb.a); }
        self.nd(O::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b { return self.k(1, 0); }
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.k(1, (sext(x, w) < sext(y, w)) as u64); }
        if w == 1 { let nb = self.not(b); return self.and(a, nb); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let nonneg = |n: &Node, c: Option<u64>| match c { Some(x) => sext(x, w) >= 0, None => n.op == O::ZExt };
        if nonneg(&na, ca) && nonneg(&nb, cb) { return self.ult(a, b); }
        if let Some(y) = cb {
            if sext(y, w) < 0 && na.op == O::ZExt { return self.k(1, 0); }
            if na.op == O::SExt {
                let iw = self.w(na.a);
                let y2 = sext(y, w);
                if y2 == sext(y, iw) { let c = self.k(iw, y); return self.slt(na.a, c); }
            }
            if y == 0 && matches!(na.op, O::And | O::Or | O::Xor) {
                // the sign of a bitwise combination
                let p = self.slt(na.a, b);
                let q = self.slt(na.b, b);
                return match na.op { O::And => self.and(p, q), O::Or => self.or(p, q), _ => self.xor(p, q) };
            }
            if y == 0 && matches!(na.op, O::Concat | O::Extract | O::Xor) {
                return self.extract(a, w - 1, w - 1);
            }
            if na.op == O::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) { let x = self.slt(na.b, b); let z = self.slt(na.c, b); return self.ite(na.a, x, z); }
        }
        if w >= 32 && ca.is_none() && cb.is_none() {
            // neither side wraps: the sign of the simplified difference may be the same everywhere
            let (ra, rb) = (self.srange(a), self.srange(b));
            let lim = 1i64 << 29;
            if ra.0 > -lim && ra.1 < lim && rb.0 > -lim && rb.1 < lim {
                let d = self.sub(a, b);
                let r = self.srange(d);
                if r.1 < 0 { return self.k(1, 1); }
                if r.0 >= 0 { return self.k(1, 0); }
            }
        }
        if let Some(x) = ca {
            if sext(x, w) == -1 && matches!(nb.op, O::And | O::Or | O::Xor) { let z = self.k(w, 0); let t = self.slt(b, z); return self.not(t); }
            if sext(x, w) < 0 && nb.op == O::ZExt { return self.k(1, 1); }
            if nb.op == O::SExt {
                let iw = self.w(nb.a);
                if sext(x, w) == sext(x, iw) { let c = self.k(iw, x); return self.slt(c, nb.a); }
            }
            if nb.op == O::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) { let p = self.slt(a, nb.b); let z = self.slt(a, nb.c); return self.ite(nb.a, p, z); }
        }
        // linear comparisons: decide by ranges, move constants
        let (ra, rb) = (self.srange(a), self.srange(b));
        if ra.1 < rb.0 { return self.k(1, 1); }
        if ra.0 >= rb.1 { return self.k(1, 0); }
        if w == 32 || w == 64 {
            let lim = if w == 32 { 1i64 << 28 } else { 1i64 << 50 };
            let ok = |r: (i64, i64)| r.0 > -lim && r.1 < lim;
            // x + c < y + d  ->  x + (c - d) < y   (no overflow possible)
            if na.op == O::Add && ok(ra) && ok(rb) {
                if let Some(c) = self.cv(na.b) {
                    if self.add_exact(a) {
                        let rx = self.srange(na.a);
                        if ok(rx) {
                            if let Some(y) = cb { let k = self.k(w, (sext(y, w) - sext(c, w)) as u64); return self.slt(na.a, k); }
                            if nb.op == O::Add && self.add_exact(b) {
                                if let Some(dd) = self.cv(nb.b) {
                                    let df = sext(dd, w) - sext(c, w);
                                    let ry = self.srange(nb.a);
                                    if ok(ry) {
                                        let k = self.k(w, df as u64);
                                        let rhs = self.add(nb.a, k);
                                        return self.slt(na.a, rhs);
                                    }
                                }
                            }
                            if nb.op != O::Add {
                                let k = self.k(w, (-sext(c, w)) as u64);
                                let rhs = self.add(b, k);
                                return self.nd(O::Slt, 1, na.a, rhs, 0, 0);
                            }
                        }
                    }
                }
            }
            if ca.is_some() && nb.op == O::Add && self.add_exact(b) && ok(ra) && ok(rb) {
                if let Some(c) = self.cv(nb.b) { let rx = self.srange(nb.a); if ok(rx) { let k = self.k(w, (sext(ca.unwrap(), w) - sext(c, w)) as u64); return self.slt(k, nb.a); } }
            }
            // c*x < d
            if na.op == O::Mul && ok(ra) { if let (Some(c), Some(y)) = (self.cv(na.b), cb) {
                let (c, y) = (sext(c, w), sext(y, w));
                if c > 0 && self.mul_exact(a) { let q = y.div_euclid(c) + (y.rem_euclid(c) != 0) as i64; let k = self.k(w, q as u64); return self.slt(na.a, k); }
            } }
            if nb.op == O::Mul && ok(rb) { if let (Some(c), Some(x)) = (self.cv(nb.b), ca) {
                let (c, x) = (sext(c, w), sext(x, w));
                if c > 0 && self.mul_exact(b) { let q = x.div_euclid(c); let k = self.k(w, q as u64); return self.slt(k, nb.a); }
            } }
        }
        self.nd(O::Slt, 1, a, b, 0, 0)
    }
    fn add_exact(&mut self, e: Ex) -> bool {
        let n = self.n[e as usize];
        let (x, y) = (self.srange(n.a), self.srange(n.b));
        let (lo, hi) = (x.0 as i128 + y.0 as i128, x.1 as i128 + y.1 as i128);
        let m = 1i128 << (n.w as u32 - 1);
        lo >= -m && hi < m
    }
    fn mul_exact(&mut self, e: Ex) -> bool {
        let n = self.n[e as usize];
        let (x, y) = (self.srange(n.a), self.srange(n.b));
        let m = 1i128 << (n.w as u32 - 1);
        [x.0, x.1].iter().all(|p| [y.0, y.1].iter().all(|q| { let r = *p as i128 * *q as i128; r >= -m && r < m }))
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex { let t = self.ult(b, a); self.not(t) }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex { let t = self.slt(b, a); self.not(t) }

    /// Sound signed range of the value.
    pub fn srange(&mut self, e: Ex) -> (i64, i64) {
        let n = self.n[e as usize];
        let w = n.w as u32;
        if n.op == O::Const { let v = sext(n.val, w); return (v, v); }
        if let Some(r) = self.rng.get(&e) { return *r; }
        let m = if w >= 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 };
        let full = (-m - 1, m);
        let fit = |lo: i128, hi: i128| if lo >= full.0 as i128 && hi <= full.1 as i128 { (lo as i64, hi as i64) } else { full };
        let r = match n.op {
            O::Var => { let v = &self.vars[n.a as usize]; if v.hi <= m as u64 { (v.lo as i64, v.hi as i64) } else { full } }
            O::ZExt => { let u = self.urange(n.a); fit(u.0 as i128, u.1 as i128) }
            O::SExt => self.srange(n.a),
            O::Add => { let (x, y) = (self.srange(n.a), self.srange(n.b)); fit(x.0 as i128 + y.0 as i128, x.1 as i128 + y.1 as i128) }
            O::Sub => { let (x, y) = (self.srange(n.a), self.srange(n.b)); fit(x.0 as i128 - y.1 as i128, x.1 as i128 - y.0 as i128) }
            O::Mul => {
                let (x, y) = (self.srange(n.a), self.srange(n.b));
                let p = [x.0 as i128 * y.0 as i128, x.0 as i128 * y.1 as i128, x.1 as i128 * y.0 as i128, x.1 as i128 * y.1 as i128];
                let lo = *p.iter().min().unwrap();
                let lo = if n.a == n.b { lo.max(0) } else { lo };
                fit(lo, *p.iter().max().unwrap())
            }
            O::AShr => if let Some(s) = self.cv(n.b) { let x = self.srange(n.a); (x.0 >> s, x.1 >> s) } else { full },
            O::Ite => { let (x, y) = (self.srange(n.b), self.srange(n.c)); (x.0.min(y.0), x.1.max(y.1)) }
            O::Concat | O::And | O::URem | O::LShr | O::Extract => { let u = self.urange(e); if u.1 <= m as u64 { (u.0 as i64, u.1 as i64) } else { full } }
            _ => full,
        };
        self.rng.insert(e, r);
        r
    }
    pub fn urange(&mut self, e: Ex) -> (u64, u64) {
        let n = self.n[e as usize];
        let w = n.w as u32;
        let full = (0, mask(!0, w));
        match n.op {
            O::Const => (n.val, n.val),
            O::Var => { let v = &self.vars[n.a as usize]; (v.lo, v.hi) }
            O::ZExt => self.urange(n.a),
            O::And => { let (x, y) = (self.urange(n.a).1, self.urange(n.b).1); (0, x.min(y)) }
            O::Add => { let (x, y) = (self.urange(n.a), self.urange(n.b)); match x.1.checked_add(y.1) { Some(h) if h <= full.1 => (x.0 + y.0, h), _ => full } }
            O::Mul => { let (x, y) = (self.urange(n.a), self.urange(n.b)); match x.1.checked_mul(y.1) { Some(h) if h <= full.1 => (x.0 * y.0, h), _ => full } }
            O::Ite => { let (x, y) = (self.urange(n.b), self.urange(n.c)); (x.0.min(y.0), x.1.max(y.1)) }
            O::Concat => { let (x, y) = (self.urange(n.a), self.urange(n.b)); let s = self.w(n.b); ((x.0 << s) + y.0, (x.1 << s) + y.1) }
            O::URem => { let y = self.urange(n.b).1; (0, y.saturating_sub(1).min(full.1)) }
            _ => full,
        }
    }

    // ---- floats (32-bit bit patterns)
    fn ffix_raw(&mut self, op: O, n: Ex, frac: i32) -> Ex {
        if let Some(v) = self.cv(n) {
            let x = sext(v, 32);
            let r = (x as f64) * 2f64.powi(-frac);
            let mut r = r as f32;
            if x == 0 { r = if op == O::FFixN { -0.0 } else { 0.0 }; }
            return self.k(32, fb(r));
        }
        self.nd(op, 32, n, frac as u32, 0, 0)
    }
    /// n * 2^-frac; None when the range of n is not exactly representable.
    pub fn lin(&mut self, e: Ex) -> Rc<Lin> {
        if let Some(r) = self.lins.get(&e) { return r.clone(); }
        let n = self.n[e as usize];
        let small = |l: &Lin| l.0.abs() < 1 << 40 && l.1.iter().all(|t| t.1.abs() < 1 << 31);
        let mut r: Option<Lin> = None;
        if n.w == 32 {
            match n.op {
                O::Const => r = Some((sext(n.val, 32), vec![])),
                O::Add | O::Sub => {
                    let (x, y) = (self.lin(n.a), self.lin(n.b));
                    let sg = if n.op == O::Add { 1 } else { -1 };
                    let mut t = x.1.clone();
                    for (a, c) in &y.1 { match t.iter_mut().find(|u| u.0 == *a) { Some(u) => u.1 += sg * c, None => t.push((*a, sg * c)) } }
                    t.retain(|u| u.1 != 0);
                    r = Some((x.0 + sg * y.0, t));
                }
                O::Mul => {
                    let k = match (self.cv(n.a), self.cv(n.b)) { (Some(c), _) => Some((c, n.b)), (_, Some(c)) => Some((c, n.a)), _ => None };
                    if let Some((c, o)) = k {
                        let c = sext(c, 32);
                        let x = self.lin(o);
                        if c != 0 && c.abs() < 1 << 20 && x.0.abs() < 1 << 30 { r = Some((x.0 * c, x.1.iter().map(|t| (t.0, t.1.saturating_mul(c))).collect())); }
                    }
                }
                _ => {}
            }
        }
        let r = Rc::new(match r { Some(l) if small(&l) => l, _ => (0, vec![(e, 1)]) });
        self.lins.insert(e, r.clone());
        r
    }
    pub fn unlin(&mut self, l: &Lin) -> Ex {
        let mut t = l.1.clone();
        t.sort_by_key(|x| self.h[x.0 as usize]);
        let mut acc: Option<Ex> = None;
        // positive terms first, so that no negation is needed
        t.sort_by_key(|x| x.1 < 0);
        for (a, c) in &t {
            let k = self.k(32, c.unsigned_abs());
            let m = if c.abs() == 1 { *a } else { self.mul(*a, k) };
            acc = Some(match acc { None => if *c > 0 { m } else { let z = self.k(32, 0); self.sub(z, m) }, Some(x) => if *c > 0 { self.add(x, m) } else { self.sub(x, m) } });
        }
        let k = self.k(32, l.0 as u64);
        match acc { None => k, Some(x) => self.add(x, k) }
    }
    /// The same sum in a form that depends only on its terms.
    pub fn canon(&mut self, e: Ex) -> Ex {
        if self.n[e as usize].op == O::Const || self.w(e) != 32 { return e; }
        if let Some(r) = self.canons.get(&e) { return *r; }
        let l = self.lin(e);
        let r = if l.1.len() == 1 && l.1[0] == (e, 1) { e } else { self.unlin(&l) };
        // keep the form whose range is known better
        let (x, y) = (self.srange(e), self.srange(r));
        let r = if y.0 >= x.0 && y.1 <= x.1 { r } else { e };
        self.canons.insert(e, r);
        self.canons.insert(r, r);
        r
    }
    /// x - y as g * sum + k with a primitive sum whose first coefficient is positive: (sum, g (may be negative), k);
    /// None when the difference could wrap.
    pub fn lin_diff(&mut self, x: Ex, y: Ex) -> Option<(Option<Ex>, i64, i64)> {
        for e in [x, y] { let r = self.srange(e); if r.0 < -(1 << 30) || r.1 > 1 << 30 { return None; } }
        let (a, b) = (self.lin(x), self.lin(y));
        let mut t = a.1.clone();
        for (e, c) in &b.1 { match t.iter_mut().find(|u| u.0 == *e) { Some(u) => u.1 -= c, None => t.push((*e, -c)) } }
        t.retain(|u| u.1 != 0);
        let k = a.0 - b.0;
        if t.is_empty() { return Some((None, 0, k)); }
        t.sort_by_key(|u| self.h[u.0 as usize]);
        fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }
        let mut g = 0;
        for u in &t { g = gcd(g, u.1.abs()); }
        if t[0].1 < 0 { g = -g; }
        let (mut lo, mut hi) = (0i128, 0i128);
        for u in &mut t {
            u.1 /= g;
            let r = self.srange(u.0);
            let (p, q) = (r.0 as i128 * u.1 as i128, r.1 as i128 * u.1 as i128);
            lo += p.min(q);
            hi += p.max(q);
        }
        // neither the sum nor the scaled difference may leave 32 bits
        let gg = g.unsigned_abs() as i128;
        let m = lo.abs().max(hi.abs()) * gg + k.unsigned_abs() as i128;
        if m >= 1 << 31 { return None; }
        let s = self.unlin(&(0, t));
        let r = self.srange(s);
        if r.0 < lo as i64 || r.1 > hi as i64 { return None; }
        Some((Some(s), g, k))
    }
    pub fn ffix(&mut self, n: Ex, frac: i32, negzero: bool) -> Option<Ex> {
        let n = self.canon(n);
        let r = self.srange(n);
        if r.0 < -(1 << 24) || r.1 > (1 << 24) || !(-60..=60).contains(&frac) { return None; }
        Some(self.ffix_raw(if negzero { O::FFixN } else { O::FFix }, n, frac))
    }
    /// View as (numerator expr of 32 bits, frac, zero may be negative).
    pub fn as_fix(&mut self, e: Ex) -> Option<(Ex, i32, bool)> {
        let n = self.n[e as usize];
        match n.op {
            O::FFix => Some((n.a, n.b as i32, false)),
            O::FFixN => Some((n.a, n.b as i32, true)),
            O::Const => {
                let x = f(n.val) as f64;
                if x == 0.0 { let z = self.k(32, 0); return Some((z, 0, n.val != 0)); }
                if !x.is_finite() || x.abs() > 16777216.0 { return None; }
                for fr in 0..=24 {
                    let y = x * (1u64 << fr) as f64;
                    if y.abs() > 16777216.0 { return None; }
                    if y == y.trunc() { let k = self.k(32, y as i64 as u64); return Some((k, fr, false)); }
                }
                None
            }
            O::Ite => {
                let a = self.as_fix(n.b)?;
                let b = self.as_fix(n.c)?;
                if a.2 != b.2 {
                    // the zero signs differ: fine when the one with -0 cannot be zero
                    return None;
                }
                let (x, y, fr) = self.align_fix(a, b)?;
                let t = self.ite(n.a, x, y);
                Some((t, fr, a.2))
            }
            _ => None,
        }
    }
    /// Bring two fixed-point values to one scale.
    pub fn align_fix(&mut self, a: (Ex, i32, bool), b: (Ex, i32, bool)) -> Option<(Ex, Ex, i32)> {
        let fr = a.1.max(b.1);
        let up = |s: &mut Arena, x: Ex, k: i32| -> Option<Ex> {
            if k == 0 { return Some(x); }
            if k > 28 { return if s.cv(x) == Some(0) { Some(x) } else { None }; }
            let r = s.srange(x);
            let lim = 1i64 << 30;
            if (r.0 << k) < -lim || (r.1 << k) > lim { return None; }
            let m = s.k(32, 1u64 << k);
            Some(s.mul(x, m))
        };
        let x = up(self, a.0, fr - a.1)?;
        let y = up(self, b.0, fr - b.1)?;
        Some((x, y, fr))
    }
    pub fn fgen(&mut self, op: O, a: Ex, b: Ex) -> Ex {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (f(x), f(y));
            return match op {
                O::FAdd => self.k(32, fb(x + y)), O::FSub => self.k(32, fb(x - y)), O::FMul => self.k(32, fb(x * y)), O::FDiv => self.k(32, fb(x / y)),
                O::FLt => self.k(1, (x < y) as u64), O::FLe => self.k(1, (x <= y) as u64), O::FEq => self.k(1, (x == y) as u64),
                _ => unreachable!(),
            };
        }
        let w = if matches!(op, O::FLt | O::FLe | O::FEq) { 1 } else { 32 };
        self.nd(op, w, a, b, 0, 0)
    }
    pub fn fun1(&mut self, op: O, a: Ex) -> Ex {
        if let Some(x) = self.cv(a) {
            return match op { O::FSqrt => self.k(32, fb(f(x).sqrt())), O::FToU32 => self.k(32, f(x) as u32 as u64), _ => unreachable!() };
        }
        self.nd(op, 32, a, 0, 0, 0)
    }

    // ---- evaluation
    pub fn eval(&mut self, e: Ex, model: &[u64]) -> u64 {
        self.epoch += 1;
        self.ev(e, model)
    }
    pub fn eval_begin(&mut self) { self.epoch += 1; }
    pub fn ev(&mut self, e: Ex, m: &[u64]) -> u64 {
        let n = self.n[e as usize];
        match n.op {
            O::Const => return n.val,
            O::Var => return m.get(n.val as usize).copied().unwrap_or(0),
            _ => {}
        }
        if self.stamp[e as usize] == self.epoch { return self.memo[e as usize]; }
        let w = n.w as u32;
        let r = match n.op {
            O::Ite => if self.ev(n.a, m) != 0 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            O::Extract => mask(self.ev(n.a, m) >> n.b, w),
            O::ZExt => self.ev(n.a, m),
            O::SExt => { let iw = self.w(n.a); mask(sext(self.ev(n.a, m), iw) as u64, w) }
            O::Concat => { let wl = self.w(n.b); (self.ev(n.a, m) << wl) | self.ev(n.b, m) }
            O::Eq => (self.ev(n.a, m) == self.ev(n.b, m)) as u64,
            O::Ult => (self.ev(n.a, m) < self.ev(n.b, m)) as u64,
            O::Slt => { let iw = self.w(n.a); (sext(self.ev(n.a, m), iw) < sext(self.ev(n.b, m), iw)) as u64 }
            O::FFix | O::FFixN => {
                let x = sext(self.ev(n.a, m), 32);
                if x == 0 { if n.op == O::FFixN { 0x8000_0000 } else { 0 } } else { fb(((x as f64) * 2f64.powi(-(n.b as i32))) as f32) }
            }
            O::FAdd => fb(f(self.ev(n.a, m)) + f(self.ev(n.b, m))),
            O::FSub => fb(f(self.ev(n.a, m)) - f(self.ev(n.b, m))),
            O::FMul => fb(f(self.ev(n.a, m)) * f(self.ev(n.b, m))),
            O::FDiv => fb(f(self.ev(n.a, m)) / f(self.ev(n.b, m))),
            O::FSqrt => fb(f(self.ev(n.a, m)).sqrt()),
            O::FToU32 => f(self.ev(n.a, m)) as u32 as u64,
            O::FLt => (f(self.ev(n.a, m)) < f(self.ev(n.b, m))) as u64,
            O::FLe => (f(self.ev(n.a, m)) <= f(self.ev(n.b, m))) as u64,
            O::FEq => (f(self.ev(n.a, m)) == f(self.ev(n.b, m))) as u64,
            op => { let x = self.ev(n.a, m); let y = self.ev(n.b, m); arith(op, w, x, y) }
        };
        self.stamp[e as usize] = self.epoch;
        self.memo[e as usize] = r;
        r
    }
    /// Truth table over the values of the only variable (path index v, at most 8 bits).
    pub fn truth(&mut self, e: Ex, v: u16, w: u32) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) { return *t; }
        let mut m = vec![0u64; v as usize + 1];
        let mut t = [0u64; 4];
        for x in 0..(1u64 << w) {
            m[v as usize] = x;
            if self.eval(e, &m) != 0 { t[(x >> 6) as usize] |= 1 << (x & 63); }
        }
        self.truth.insert(e, t);
        t
    }
    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = &self.n[e as usize];
        if depth == 0 { return "..".into(); }
        match n.op {
            O::Const => format!("{:#x}", n.val),
            O::Var => format!("v{}", n.val),
            O::Extract => format!("{}[{}:{}]", self.show(n.a, depth - 1), n.c, n.b),
            O::ZExt | O::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            O::FFix | O::FFixN => format!("fix({}, {})", self.show(n.a, depth - 1), n.b as i32),
            O::FSqrt | O::FToU32 => format!("{:?}({})", n.op, self.show(n.a, depth - 1)),
            O::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

impl Node {
    fn c_hi(&self) -> u32 { self.c }
}

pub fn arith(op: O, w: u32, x: u64, y: u64) -> u64 {
    let r = match op {
        O::Add => x.wrapping_add(y),
        O::Sub => x.wrapping_sub(y),
        O::Mul => x.wrapping_mul(y),
        O::UDiv => if y == 0 { !0 } else { x / y },
        O::URem => if y == 0 { x } else { x % y },
        O::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { !0 } } else { a.wrapping_div(b) as u64 } }
        O::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u64 } }
        O::And => x & y,
        O::Or => x | y,
        O::Xor => x ^ y,
        O::Shl => if y >= w as u64 { 0 } else { x << y },
        O::LShr => if y >= w as u64 { 0 } else { x >> y },
        O::AShr => (sext(x, w) >> y.min(w as u64 - 1).min(63)) as u64,
        _ => panic!("arith {:?}", op),
    };
    mask(r, w)
}
