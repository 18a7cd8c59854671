//! Instruction interpretation, calls, intrinsics and the harness interface.
use crate::exec::*;
use crate::ir::*;
use std::sync::atomic::Ordering;

type R<T> = Result<T, End>;

const FRAMES_MAX: usize = 20000;

#[inline]
fn opv(m: &Module, regs: &[V], o: Op) -> V {
    match o { Op::R(r) => regs[r as usize].clone(), Op::C(c) => V::I(c), Op::K(k) => m.consts[k as usize].clone() }
}
#[inline]
fn opi(regs: &[V], o: Op) -> Option<u64> {
    match o { Op::R(r) => if let V::I(x) = &regs[r as usize] { Some(*x) } else { None }, Op::C(c) => Some(c), Op::K(_) => None }
}

impl<'m> Exec<'m> {
    /// Run a state until its path ends; forks go to the work list.
    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.run_frame(st) {
                Ok(true) => return End::Ok,
                Ok(false) => {}
                Err(e) => return e,
            }
        }
    }
    pub fn location(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| { let n = &self.m.funcs[f.f as usize].name; format!("{}:{}:{}", n, f.block, f.ip) }).collect::<Vec<_>>().join(" < ")
    }
    /// Executes instructions of the top frame until it calls, returns or ends. Ok(true): entry function returned.
    fn run_frame(&mut self, st: &mut State) -> R<bool> {
        let m = self.m;
        let mut fr = *st.frames.last().unwrap();
        let fun = &m.funcs[fr.f as usize];
        let base = fr.base as usize;
        let mut block: &[I] = &fun.blocks[fr.block as usize];
        let mut count = 0u64;
        macro_rules! regs { () => { st.regs[base..] } }
        macro_rules! set { ($d:expr, $v:expr) => { { let v = $v; st.regs[base + $d as usize] = v; } } }
        macro_rules! get { ($o:expr) => { opv(m, &regs!(), $o) } }
        macro_rules! sync { () => { { let f = st.frames.last_mut().unwrap(); f.block = fr.block; f.ip = fr.ip; } } }
        macro_rules! jump { ($t:expr) => { {
            let t: &Target = $t;
            match t.moves.len() {
                0 => {}
                1 => { let (d, o) = t.moves[0]; let v = get!(o); set!(d, v); }
                _ => {
                    let vs: Vec<V> = t.moves.iter().map(|(_, o)| get!(*o)).collect();
                    for ((d, _), v) in t.moves.iter().zip(vs) { set!(*d, v); }
                }
            }
            fr.block = t.block;
            fr.ip = 0;
            block = &fun.blocks[fr.block as usize];
            if count >= 65536 {
                sync!();
                st.ninsn += count;
                self.c.insns += count;
                count = 0;
                if st.ninsn > self.max_insn { return Err(End::Limit(format!("instruction limit in {}", self.location(st)))); }
                if self.stop.load(Ordering::Relaxed) || std::time::Instant::now() > self.deadline { return Err(End::Timeout); }
            }
            continue;
        } } }
        loop {
            count += 1;
            let ins = &block[fr.ip as usize];
            match ins {
                I::Bin { op, w, lanes, d, a, b } => {
                    if *lanes == 0 {
                        if let (Some(x), Some(y)) = (opi(&regs!(), *a), opi(&regs!(), *b)) {
                            if *w <= 64 { set!(*d, V::I(cbin(*op, *w, x, y))); fr.ip += 1; continue; }
                        }
                        let (x, y) = (get!(*a), get!(*b));
                        sync!();
                        let r = self.bin(st, *op, *w, &x, &y)?;
                        set!(*d, r);
                    } else {
                        let (V::A(x), V::A(y)) = (get!(*a), get!(*b)) else { return Err(End::Unsupported("vector operand".into())) };
                        sync!();
                        let mut v = vec![];
                        for k in 0..*lanes as usize { v.push(self.bin(st, *op, *w, &x[k], &y[k])?); }
                        set!(*d, V::A(v.into()));
                    }
                }
                I::ICmp { p, w, lanes, d, a, b } => {
                    if *lanes == 0 {
                        if let (Some(x), Some(y)) = (opi(&regs!(), *a), opi(&regs!(), *b)) {
                            if *w <= 64 { set!(*d, V::I(ccmp(*p, *w, x, y) as u64)); fr.ip += 1; continue; }
                        }
                        let (x, y) = (get!(*a), get!(*b));
                        sync!();
                        let r = self.icmp(st, *p, *w, &x, &y)?;
                        set!(*d, r);
                    } else {
                        let (V::A(x), V::A(y)) = (get!(*a), get!(*b)) else { return Err(End::Unsupported("vector operand".into())) };
                        sync!();
                        let mut v = vec![];
                        for k in 0..*lanes as usize { v.push(self.icmp(st, *p, *w, &x[k], &y[k])?); }
                        set!(*d, V::A(v.into()));
                    }
                }
                I::Load { d, ty, p } => {
                    let r = match get!(*p) {
                        V::I(a) => self.load(st, a, ty).map_err(|e| { sync!(); match e { End::Unsupported(x) => End::Unsupported(format!("{} in {}", x, self.location(st))), e => e } })?,
                        V::E(e) => { sync!(); self.load_sym(st, e, ty)? }
                        _ => return Err(End::Unsupported("vector address".into())),
                    };
                    set!(*d, r);
                }
                I::Store { ty, v, p } => {
                    let v = get!(*v);
                    match get!(*p) {
                        V::I(a) => {
                            if let V::I(x) = v {
                                if ty.bits() != 0 && ty.bits() <= 64 { st.mem.write(a, x, ty.size() as usize).map_err(|f| { sync!(); End::Unsupported(format!("store to {:#x} in {}", f.0, self.location(st))) })?; fr.ip += 1; continue; }
                            }
                            sync!();
                            self.store(st, a, ty, &v)?
                        }
                        e => { sync!(); let a = self.conc_v(st, &e, "store address")?; self.store(st, a, ty, &v)? }
                    }
                }
                I::Gep { d, base: b, off, idx } => {
                    let mut acc = opi(&regs!(), *b).map(|x| x.wrapping_add(*off as u64));
                    if acc.is_some() {
                        for (o, sc, w) in idx.iter() {
                            match opi(&regs!(), *o) { Some(k) => acc = acc.map(|x| x.wrapping_add((sext(k, *w) as u64).wrapping_mul(*sc as u64))), None => { acc = None; break } }
                        }
                    }
                    if let Some(x) = acc { set!(*d, V::I(x)); fr.ip += 1; continue; }
                    let bv = get!(*b);
                    let mut e = self.ex(&bv, 64);
                    let k = self.ar.k(64, *off as u64);
                    e = self.ar.add(e, k);
                    for (o, sc, w) in idx.iter() {
                        let v = get!(*o);
                        let i = self.ex(&v, *w);
                        let i = self.ar.sext(i, 64);
                        let s = self.ar.k(64, *sc as u64);
                        let t = self.ar.mul(i, s);
                        e = self.ar.add(e, t);
                    }
                    let r = self.val(e);
                    set!(*d, r);
                }
                I::Cast { op, from, to, lanes, d, a } => {
                    let v = get!(*a);
                    sync!();
                    let r = if *lanes == 0 { self.cast(st, *op, *from, *to, &v)? } else {
                        let V::A(x) = v else { return Err(End::Unsupported("vector cast".into())) };
                        let mut r = vec![];
                        for e in x.iter() { r.push(self.cast(st, *op, *from, *to, e)?); }
                        V::A(r.into())
                    };
                    set!(*d, r);
                }
                I::Br(t) => jump!(t),
                I::CondBr { c, t, f } => {
                    let b = match get!(*c) { V::I(x) => x & 1 != 0, V::E(e) => { sync!(); self.branch(st, e)? } _ => return Err(End::Unsupported("branch".into())) };
                    if b { jump!(t) } else { jump!(f) }
                }
                I::Switch { c, w, cases, targets } => {
                    let k = match get!(*c) {
                        V::I(x) => cases.iter().find(|(v, _)| *v == x).map_or(0, |(_, k)| *k),
                        V::E(e) => {
                            sync!();
                            let mut r = 0;
                            for t in 1..targets.len() as u32 {
                                let mut cond = self.ar.k(1, 0);
                                for (v, k) in cases.iter() { if *k == t { let kv = self.ar.k(*w, *v); let q = self.ar.eq(e, kv); cond = self.ar.or(cond, q); } }
                                if self.branch(st, cond)? { r = t; break; }
                            }
                            r
                        }
                        _ => return Err(End::Unsupported("switch".into())),
                    };
                    jump!(&targets[k as usize])
                }
                I::Select { d, c, a, b, ty, lanes } => {
                    let cv = get!(*c);
                    let r = match cv {
                        V::I(x) => if x & 1 != 0 { get!(*a) } else { get!(*b) },
                        V::E(e) => {
                            sync!();
                            let (x, y) = (get!(*a), get!(*b));
                            if st.hash_mode & 2 != 0 && wide_int(ty) && match (&x, &y) { (V::I(p), V::I(q)) => p != q, (V::E(p), V::E(q)) => p != q, (V::A(_), _) | (_, V::A(_)) => false, _ => true } {
                                // a choice between two indices or pointers: one path each
                                if self.branch(st, e)? { x } else { y }
                            } else { self.ite_v(st, e, &x, &y, ty)? }
                        }
                        V::A(cs) => {
                            sync!();
                            let (V::A(x), V::A(y)) = (get!(*a), get!(*b)) else { return Err(End::Unsupported("vector select".into())) };
                            let mut v = vec![];
                            for k in 0..*lanes as usize {
                                v.push(match &cs[k] { V::I(q) => if q & 1 != 0 { x[k].clone() } else { y[k].clone() }, V::E(e) => { let t = ty.elem(k as u64).clone(); self.ite_v(st, *e, &x[k], &y[k], &t)? } _ => return Err(End::Unsupported("vector select".into())) });
                            }
                            V::A(v.into())
                        }
                    };
                    set!(*d, r);
                }
                I::Move { d, a } => { let v = get!(*a); set!(*d, v); }
                I::Extract { d, a, path } => {
                    let mut v = get!(*a);
                    for k in path.iter() { v = match v { V::A(x) => x[*k as usize].clone(), _ => return Err(End::Unsupported("extractvalue".into())) }; }
                    set!(*d, v);
                }
                I::Insert { d, a, v, path } => {
                    fn ins(a: &V, path: &[u32], v: V) -> V {
                        match path.split_first() {
                            None => v,
                            Some((k, rest)) => { let V::A(x) = a else { panic!("insertvalue") }; let mut n: Vec<V> = x.to_vec(); n[*k as usize] = ins(&x[*k as usize], rest, v); V::A(n.into()) }
                        }
                    }
                    let av = get!(*a);
                    let vv = get!(*v);
                    set!(*d, ins(&av, path, vv));
                }
                I::ExtractElt { d, a, i } => {
                    let V::A(x) = get!(*a) else { return Err(End::Unsupported("extractelement".into())) };
                    let iv = get!(*i);
                    sync!();
                    let k = self.conc_v(st, &iv, "lane")?;
                    set!(*d, x[k as usize].clone());
                }
                I::InsertElt { d, a, v, i } => {
                    let V::A(x) = get!(*a) else { return Err(End::Unsupported("insertelement".into())) };
                    let iv = get!(*i);
                    sync!();
                    let k = self.conc_v(st, &iv, "lane")?;
                    let mut n: Vec<V> = x.to_vec();
                    n[k as usize] = get!(*v);
                    set!(*d, V::A(n.into()));
                }
                I::Shuffle { d, a, b, mask } => {
                    let (V::A(x), V::A(y)) = (get!(*a), get!(*b)) else { return Err(End::Unsupported("shufflevector".into())) };
                    let n = x.len();
                    let r: Vec<V> = mask.iter().map(|k| if *k < 0 { V::I(0) } else if (*k as usize) < n { x[*k as usize].clone() } else { y[*k as usize - n].clone() }).collect();
                    set!(*d, V::A(r.into()));
                }
                I::BitVec { d, a, from, to } => {
                    let v = get!(*a);
                    sync!();
                    let r = self.bitvec(st, &v, from, to)?;
                    set!(*d, r);
                }
                I::FBin { op, dbl, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    sync!();
                    let r = if *dbl {
                        let (p, q) = (f64::from_bits(self.conc_v(st, &x, "f64")?), f64::from_bits(self.conc_v(st, &y, "f64")?));
                        V::I(match op { FOp::Add => p + q, FOp::Sub => p - q, FOp::Mul => p * q, FOp::Div => p / q, FOp::Rem => p % q }.to_bits())
                    } else { self.fbin(st, *op, &x, &y)? };
                    set!(*d, r);
                }
                I::FNeg { dbl, d, a } => {
                    let x = get!(*a);
                    sync!();
                    let r = if *dbl { V::I(self.conc_v(st, &x, "f64")? ^ (1 << 63)) } else { self.fneg(&x) };
                    set!(*d, r);
                }
                I::FCmp { p, dbl, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    sync!();
                    let r = if *dbl { V::I(fcmp_c(*p, f64::from_bits(self.conc_v(st, &x, "f64")?), f64::from_bits(self.conc_v(st, &y, "f64")?))) } else { self.fcmp(st, *p, &x, &y)? };
                    set!(*d, r);
                }
                I::Alloca { d, size, n, align: al } => {
                    let nv = get!(*n);
                    sync!();
                    let k = self.conc_v(st, &nv, "alloca")?;
                    let a = align(st.sp, (*al).max(8));
                    st.sp = a + size * k + 8;
                    if st.sp >= crate::mem::STACK_END { return Err(End::Limit("stack".into())); }
                    set!(*d, V::I(a));
                }
                I::Rmw { d, op, w, p, v } => {
                    let (pv, vv) = (get!(*p), get!(*v));
                    sync!();
                    let a = self.conc_v(st, &pv, "atomic")?;
                    let ty = Ty::Int(*w);
                    let old = self.load(st, a, &ty)?;
                    let new = match op.as_str() {
                        "xchg" => vv, "add" => self.bin(st, BinOp::Add, *w, &old, &vv)?, "sub" => self.bin(st, BinOp::Sub, *w, &old, &vv)?,
                        "and" => self.bin(st, BinOp::And, *w, &old, &vv)?, "or" => self.bin(st, BinOp::Or, *w, &old, &vv)?, "xor" => self.bin(st, BinOp::Xor, *w, &old, &vv)?,
                        o => return Err(End::Unsupported(format!("atomicrmw {}", o))),
                    };
                    self.store(st, a, &ty, &new)?;
                    set!(*d, old);
                }
                I::CmpXchg { d, w, p, c, n, .. } => {
                    let (pv, cv, nv) = (get!(*p), get!(*c), get!(*n));
                    sync!();
                    let a = self.conc_v(st, &pv, "atomic")?;
                    let ty = Ty::Int(*w);
                    let old = self.load(st, a, &ty)?;
                    let q = match self.icmp(st, Pred::Eq, *w, &old, &cv)? { V::I(x) => x != 0, V::E(e) => self.branch(st, e)?, _ => false };
                    if q { self.store(st, a, &ty, &nv)?; }
                    set!(*d, V::A(vec![old, V::I(q as u64)].into()));
                }
                I::Ret(v) => {
                    let rv = v.map(|o| get!(o));
                    st.ninsn += count;
                    self.c.insns += count;
                    st.sp = fr.sp;
                    st.regs.truncate(base);
                    st.frames.pop();
                    if st.frames.is_empty() { return Ok(true); }
                    self.finish_call(st, rv);
                    return Ok(false);
                }
                I::Unreachable => { sync!(); return Err(End::Unsupported(format!("reached `unreachable` in {}", self.location(st)))); }
                I::Unsupported(s) => { sync!(); return Err(End::Unsupported(format!("{} in {}", s, self.location(st)))); }
                I::Nop => {}
                I::Call { d, callee, args, rty, next } => {
                    sync!();
                    let mut callee = *callee;
                    if let Callee::Ind(o) = callee {
                        let v = get!(o);
                        let a = self.conc_v(st, &v, "function pointer")?;
                        callee = if a >= EXT_BASE && a < EXT_BASE + 16 * m.externs.len() as u64 { Callee::Ext(((a - EXT_BASE) / 16) as u32) }
                            else if a >= FN_BASE && a < FN_BASE + 16 * m.funcs.len() as u64 { Callee::Fn(((a - FN_BASE) / 16) as u32) }
                            else { return Err(End::Unsupported(format!("call of {:#x} in {}", a, self.location(st)))) };
                    }
                    match callee {
                        Callee::Ind(_) => unreachable!(),
                        Callee::Ext(k) => {
                            let vs: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                            let r = self.external(st, k, &vs, rty)?;
                            if let (Some(d), Some(r)) = (d, r) { set!(*d, r); }
                            if let Some(t) = next { jump!(t) }
                        }
                        Callee::Fn(mut k) => {
                            let mut vs: Vec<V> = args.iter().map(|o| get!(*o)).collect();
                            let mut skip = false;
                            match m.funcs[k as usize].kind {
                                FnKind::Normal => {}
                                FnKind::Panic => { let s = self.panic_text(st, k, &vs); return Err(End::Panic(s)); }
                                FnKind::PanicAlloc => return Err(End::Panic(format!("allocation failure: {}", m.funcs[k as usize].name))),
                                FnKind::SipWrite => skip = st.hash_mode & 1 != 0,
                                FnKind::F32Display => {
                                    let a = self.conc_v(st, &vs[0], "display")?;
                                    if let V::E(e) = self.load(st, a, &Ty::F32)? {
                                        match self.fmt_placeholder(st, &vs, e)? {
                                            Some((f, nv)) => { k = f; vs = nv; }
                                            None => { let x = self.concretise(st, e)?; st.mem.write(a, x, 4)?; }
                                        }
                                    }
                                }
                            }
                            if !skip {
                                st.ninsn += count;
                                self.c.insns += count;
                                if st.frames.len() > FRAMES_MAX { return Err(End::Limit("recursion depth".into())); }
                                if st.ninsn > self.max_insn { return Err(End::Limit(format!("instruction limit in {}", self.location(st)))); }
                                self.seen_fn[k as usize] = true;
                                let g = &m.funcs[k as usize];
                                let nb = st.regs.len();
                                st.regs.extend(vs);
                                st.regs.resize(nb + (g.nregs.max(g.nargs)) as usize, V::I(0));
                                st.frames.push(Frame { f: k, block: 0, ip: 0, base: nb as u32, sp: st.sp });
                                return Ok(false);
                            }
                            if let Some(t) = next { jump!(t) }
                        }
                    }
                }
            }
            fr.ip += 1;
        }
    }
    /// The callee returned: set the result and go on after the call.
    fn finish_call(&mut self, st: &mut State, rv: Option<V>) {
        let m = self.m;
        let fr = *st.frames.last().unwrap();
        let fun = &m.funcs[fr.f as usize];
        let base = fr.base as usize;
        let I::Call { d, next, .. } = &fun.blocks[fr.block as usize][fr.ip as usize] else { panic!("return to a non-call") };
        if let (Some(d), Some(v)) = (d, rv) { st.regs[base + *d as usize] = v; }
        match next {
            None => st.frames.last_mut().unwrap().ip += 1,
            Some(t) => {
                let vs: Vec<V> = t.moves.iter().map(|(_, o)| opv(m, &st.regs[base..], *o)).collect();
                for ((d, _), v) in t.moves.iter().zip(vs) { st.regs[base + *d as usize] = v; }
                let f = st.frames.last_mut().unwrap();
                f.block = t.block;
                f.ip = 0;
            }
        }
    }
    fn panic_text(&mut self, st: &State, k: u32, vs: &[V]) -> String {
        let name = &self.m.funcs[k as usize].name;
        let mut s = String::new();
        // core::panicking::panic(msg, len, loc)
        if let (Some(V::I(p)), Some(V::I(n))) = (vs.first(), vs.get(1)) {
            if *n < 400 && *p >= GLOBAL_BASE && *p < crate::mem::HEAP_BASE { if let Some(b) = st.mem.bytes(*p, *n) { if b.iter().all(|c| (32..127).contains(c)) { s = String::from_utf8_lossy(&b).into_owned(); } } }
        }
        let mut loc = String::new();
        if let Some(V::I(l)) = vs.last() {
            let rd = |a: u64, n: usize| st.mem.read(a, n).ok().flatten();
            if let (Some(p), Some(n), Some(line)) = (rd(*l, 8), rd(*l + 8, 8), rd(*l + 16, 4)) {
                if n < 300 { if let Some(b) = st.mem.bytes(p, n) { loc = format!("{}:{}", String::from_utf8_lossy(&b).trim_end_matches('\0'), line); } }
            }
        }
        format!("panic {} {} at {}", short(name), s, loc)
    }
    fn cast(&mut self, st: &mut State, op: CastOp, from: u32, to: u32, v: &V) -> R<V> {
        if from > 64 || to > 64 {
            let signed = op == CastOp::SExt;
            match v {
                V::A(p) if to <= 64 => { // trunc of i128
                    let l = p[0].clone();
                    return self.cast(st, CastOp::Trunc, 64, to, &l);
                }
                V::A(_) => return Ok(v.clone()),
                _ => {
                    let x = self.conc_v(st, v, "i128")?;
                    let lo = if signed { sext(x, from) as u64 } else { x };
                    return Ok(V::A(vec![V::I(lo), V::I(if signed && (lo as i64) < 0 { !0 } else { 0 })].into()));
                }
            }
        }
        match op {
            CastOp::Trunc => Ok(match v { V::I(x) => V::I(mask(*x, to)), V::E(e) => { if from == to { v.clone() } else { let t = self.ar.extract(*e, to - 1, 0); self.val(t) } } _ => return Err(End::Unsupported("cast".into())) }),
            CastOp::ZExt => Ok(match v { V::I(x) => V::I(*x), V::E(e) => { let t = self.ar.zext(*e, to); self.val(t) } _ => return Err(End::Unsupported("cast".into())) }),
            CastOp::SExt => Ok(match v { V::I(x) => V::I(mask(sext(*x, from) as u64, to)), V::E(e) => { let t = self.ar.sext(*e, to); self.val(t) } _ => return Err(End::Unsupported("cast".into())) }),
            CastOp::Bit => Ok(v.clone()),
            CastOp::UIToFP | CastOp::SIToFP => {
                if let V::E(e) = v {
                    if to == 32 {
                        let r = if op == CastOp::SIToFP { self.ar.srange(*e) } else { let u = self.ar.urange(*e); if u.1 > 1 << 40 { (0, i64::MAX) } else { (u.0 as i64, u.1 as i64) } };
                        if r.0 >= -(1 << 24) && r.1 <= 1 << 24 {
                            let n = if from < 32 { if op == CastOp::SIToFP { self.ar.sext(*e, 32) } else { self.ar.zext(*e, 32) } } else { self.ar.extract(*e, 31, 0) };
                            if let Some(r) = self.ar.ffix(n, 0, false) { return Ok(self.val(r)); }
                        }
                    }
                }
                if std::env::var_os("SYMIR_DBG").is_some() { if let V::E(e) = v { let r = self.ar.srange(*e); eprintln!("int to float {} {:?}", self.ar.show(*e, 6), r); } }
                let x = self.conc_v(st, v, "int to float")?;
                let s = sext(x, from);
                Ok(V::I(match (op, to) {
                    (CastOp::UIToFP, 32) => (x as f32).to_bits() as u64, (CastOp::UIToFP, _) => (x as f64).to_bits(),
                    (_, 32) => (s as f32).to_bits() as u64, _ => (s as f64).to_bits(),
                }))
            }
            CastOp::FPToUI | CastOp::FPToSI => {
                let x = self.conc_v(st, v, "float to int")?;
                let f = if from == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                Ok(V::I(mask(if op == CastOp::FPToUI { f as u64 } else { f as i64 as u64 }, to)))
            }
            CastOp::FPExt => { let x = self.conc_v(st, v, "f32 to f64")?; Ok(V::I((f32::from_bits(x as u32) as f64).to_bits())) }
            CastOp::FPTrunc => { let x = self.conc_v(st, v, "f64 to f32")?; Ok(V::I((f64::from_bits(x) as f32).to_bits() as u64)) }
        }
    }
    fn bitvec(&mut self, st: &mut State, v: &V, from: &Ty, to: &Ty) -> R<V> {
        // flatten to pieces of the source element width, low first
        let (fe, fn_) = match from { Ty::Vec(n, e) => (e.bits(), *n as usize), t => (t.bits(), 1) };
        let (te, tn) = match to { Ty::Vec(n, e) => (e.bits(), *n as usize), t => (t.bits(), 1) };
        let mut parts: Vec<(V, u32)> = vec![];
        match v {
            V::A(x) => { let w = if x.len() == fn_ { fe } else { 64 }; for e in x.iter() { parts.push((e.clone(), w)); } }
            x => parts.push((x.clone(), fe)),
        }
        let total: u32 = parts.iter().map(|p| p.1).sum();
        let mut out = vec![];
        let get = |s: &mut Self, lo: u32, w: u32| -> V {
            let mut acc: Option<Ex> = None;
            let mut cacc = 0u64;
            let mut allc = true;
            let mut o = 0;
            let mut done = 0;
            for (p, pw) in &parts {
                let (a, b) = (lo.max(o), (lo + w).min(o + pw));
                if a < b {
                    match p { V::I(x) => { cacc |= mask(*x >> (a - o), b - a) << done; } _ => allc = false }
                    done += b - a;
                }
                o += pw;
            }
            if allc { return V::I(cacc); }
            o = 0;
            for (p, pw) in &parts {
                let (a, b) = (lo.max(o), (lo + w).min(o + pw));
                if a < b {
                    let e = s.ex(p, *pw);
                    let e = s.ar.extract(e, b - 1 - o, a - o);
                    acc = Some(match acc { None => e, Some(l) => s.ar.concat(e, l) });
                }
                o += pw;
            }
            let e = acc.unwrap();
            s.val(e)
        };
        let _ = st;
        if te > 64 {
            let mut lo = 0;
            while lo < total { out.push(get(self, lo, 64.min(total - lo))); lo += 64; }
            return Ok(V::A(out.into()));
        }
        for k in 0..tn as u32 { out.push(get(self, k * te, te)); }
        if matches!(to, Ty::Vec(..)) { Ok(V::A(out.into())) } else { Ok(out.pop().unwrap()) }
    }
    /// A symbolic float is printed as a placeholder naming its expression.
    fn fmt_placeholder(&mut self, st: &mut State, vs: &[V], e: Ex) -> R<Option<(u32, Vec<V>)>> {
        let f = self.conc_v(st, &vs[1], "formatter")?;
        // core::fmt::Formatter: find the (data, vtable) pair and the options
        let rd = |a: u64, n: usize| st.mem.read(a, n).ok().flatten();
        let (Some(w0), Some(w1), Some(opt)) = (rd(f, 8), rd(f + 8, 8), rd(f + 16, 8)) else { return Ok(None) };
        if std::env::var("SYMIR_FMT").is_ok() { eprintln!("formatter {:x} {:x} {:x}", w0, w1, opt); }
        // options: flags (fill ' ' = 0x20, alignment unknown), width 0, precision 0
        if opt & 0xffff_ffff_0000_0000 != 0 || (opt as u32) & !0xE000_0000 != 0x20 { return Ok(None); }
        let Some(wf) = rd(w1 + 24, 8) else { return Ok(None) };
        if wf < FN_BASE || wf >= EXT_BASE { return Ok(None); }
        let a = st.mem.alloc(16, 8, false);
        st.mem.write_bytes(a, format!("~{:08x}", e).as_bytes())?;
        Ok(Some((((wf - FN_BASE) / 16) as u32, vec![V::I(w0), V::I(a), V::I(9)])))
    }

    fn external(&mut self, st: &mut State, k: u32, a: &[V], rty: &Ty) -> R<Option<V>> {
        let (x, w) = self.ext[k as usize];
        macro_rules! c { ($i:expr) => { self.conc_v(st, &a[$i], "argument of an external function")? } }
        let ok = |v: u64| Ok(Some(V::I(v)));
        // element-wise vector intrinsics
        if let Ty::Vec(n, e) = rty {
            if !matches!(x, X::Unknown) {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let args: Vec<V> = a.iter().map(|v| match v { V::A(p) => p[i].clone(), v => v.clone() }).collect();
                    let r = self.external(st, k, &args, e)?;
                    out.push(r.unwrap_or(V::I(0)));
                }
                return Ok(Some(V::A(out.into())));
            }
        }
        match x {
            X::Nop => Ok(None),
            X::Zero => ok(0),
            X::Malloc => { let n = c!(0); ok(st.mem.alloc(n, 16, false)) }
            X::Calloc => { let n = c!(0) * c!(1); ok(st.mem.alloc(n, 16, true)) }
            X::Free => { let p = c!(0); if p != 0 { st.mem.dealloc(p); } Ok(None) }
            X::Realloc => {
                let (p, n) = (c!(0), c!(1));
                let q = st.mem.alloc(n, 16, false);
                if q != 0 && p != 0 { let o = st.mem.size_of(p); st.mem.copy(q, p, o.min(n))?; st.mem.dealloc(p); }
                ok(q)
            }
            X::PosixMemalign => { let (p, al, n) = (c!(0), c!(1), c!(2)); let q = st.mem.alloc(n, al, false); st.mem.write(p, q, 8)?; ok(0) }
            X::Memcpy | X::Memmove => { let (d, s, n) = (c!(0), c!(1), c!(2)); st.mem.copy(d, s, n)?; ok(d) }
            X::Memset => {
                let (d, n) = (c!(0), c!(2));
                match &a[1] {
                    V::I(b) => st.mem.write_bytes(d, &vec![*b as u8; n as usize])?,
                    V::E(e) => { let b = if self.ar.w(*e) > 8 { self.ar.extract(*e, 7, 0) } else { *e }; for i in 0..n { st.mem.write_sym(d + i, b, 0)?; } }
                    _ => {}
                }
                ok(d)
            }
            X::Memcmp | X::Bcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let mut sym = false;
                for i in 0..n {
                    let (u, v) = (st.mem.byte(p + i)?, st.mem.byte(q + i)?);
                    if u.1 != 0 || v.1 != 0 { sym = true; continue; }
                    if u.0 != v.0 {
                        if !sym || x == X::Bcmp { return ok(mask(u.0 as i64 as u64, 32).wrapping_sub(v.0 as u64) & 0xffff_ffff); }
                        break;
                    }
                }
                if !sym { return ok(0); }
                let mut r = self.ar.k(32, 0);
                for i in (0..n).rev() {
                    let (u, v) = (st.mem.byte(p + i)?, st.mem.byte(q + i)?);
                    let ue = if u.1 != 0 { u.1 } else { self.ar.k(8, u.0 as u64) };
                    let ve = if v.1 != 0 { v.1 } else { self.ar.k(8, v.0 as u64) };
                    let eq = self.ar.eq(ue, ve);
                    if x == X::Bcmp {
                        let one = self.ar.k(32, 1);
                        r = self.ar.ite(eq, r, one);
                    } else {
                        let lt = self.ar.ult(ue, ve);
                        let (m1, p1) = (self.ar.k(32, !0), self.ar.k(32, 1));
                        let d = self.ar.ite(lt, m1, p1);
                        r = self.ar.ite(eq, r, d);
                    }
                }
                Ok(Some(self.val(r)))
            }
            X::Strlen => { let p = c!(0); let mut n = 0; while st.mem.byte(p + n)? != (0, 0) { n += 1; } ok(n) }
            X::Write => { let n = c!(2); if self.logs { eprint!("[write] {}", { let (u, v) = (c!(1), n); st.mem.bytes_lossy(u, v) }); } ok(n) }
            X::Getrandom => { let (p, n) = (c!(0), c!(1)); for i in 0..n { st.nrand = st.nrand.wrapping_mul(73).wrapping_add(41); let b = st.nrand; st.mem.write(p + i, b as u64, 1)?; } ok(n) }
            X::Syscall => ok(0),
            X::Errno => ok(GLOBAL_BASE - 64),
            X::TlsAddr => Ok(Some(a[0].clone())),
            X::Abort | X::Trap => Err(End::Panic(format!("abort in {}", self.location(st)))),
            X::IsConstant => ok(0),
            X::Expect => Ok(Some(a[0].clone())),
            X::UaddO | X::UsubO | X::UmulO | X::SaddO | X::SsubO | X::SmulO => self.overflow_op(st, x, w, &a[0], &a[1]).map(Some),
            X::Umax | X::Umin | X::Smax | X::Smin => {
                let p = match x { X::Umax => Pred::Ugt, X::Umin => Pred::Ult, X::Smax => Pred::Sgt, _ => Pred::Slt };
                match self.icmp(st, p, w, &a[0], &a[1])? {
                    V::I(1) => Ok(Some(a[0].clone())), V::I(_) => Ok(Some(a[1].clone())),
                    V::E(c) => { let (u, v) = (self.ex(&a[0], w), self.ex(&a[1], w)); let r = self.ar.ite(c, u, v); Ok(Some(self.val(r))) }
                    _ => unreachable!(),
                }
            }
            X::UsubSat | X::UaddSat => {
                let (u, v) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let r = if x == X::UsubSat { let c = self.ar.ult(u, v); let z = self.ar.k(w, 0); let d = self.ar.sub(u, v); self.ar.ite(c, z, d) } else { let s = self.ar.add(u, v); let c = self.ar.ult(s, u); let m = self.ar.k(w, !0); self.ar.ite(c, m, s) };
                Ok(Some(self.val(r)))
            }
            X::SaddSat | X::SsubSat => {
                let (u, v) = (sext(c!(0), w) as i128, sext(c!(1), w) as i128);
                let r = if x == X::SaddSat { u + v } else { u - v };
                let m = 1i128 << (w - 1);
                ok(mask(r.clamp(-m, m - 1) as i64 as u64, w))
            }
            X::Ucmp | X::Scmp => {
                // result is i8; operand width is the last suffix
                let (u, v) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let lt = if x == X::Ucmp { self.ar.ult(u, v) } else { self.ar.slt(u, v) };
                let eq = self.ar.eq(u, v);
                let rw = rty.bits();
                let (m1, z, p1) = (self.ar.k(rw, !0), self.ar.k(rw, 0), self.ar.k(rw, 1));
                let t = self.ar.ite(eq, z, p1);
                let r = self.ar.ite(lt, m1, t);
                Ok(Some(self.val(r)))
            }
            X::Abs => {
                let u = self.ex(&a[0], w);
                let z = self.ar.k(w, 0);
                let c = self.ar.slt(u, z);
                let n = self.ar.neg(u);
                let r = self.ar.ite(c, n, u);
                Ok(Some(self.val(r)))
            }
            X::Bswap => {
                let u = self.ex(&a[0], w);
                let mut r = self.ar.extract(u, 7, 0);
                for i in 1..w / 8 { let b = self.ar.extract(u, 8 * i + 7, 8 * i); r = self.ar.concat(r, b); }
                Ok(Some(self.val(r)))
            }
            X::Bitreverse => { let u = c!(0); ok(u.reverse_bits() >> (64 - w)) }
            X::Ctlz => { let u = c!(0); ok(if u == 0 { w as u64 } else { (u.leading_zeros() - (64 - w)) as u64 }) }
            X::Cttz => { let u = c!(0); ok(if u == 0 { w as u64 } else { u.trailing_zeros() as u64 }) }
            X::Ctpop => { let u = c!(0); ok(u.count_ones() as u64) }
            X::Fshl | X::Fshr => {
                let s = c!(2) % w as u64;
                let s = if x == X::Fshl { s } else { (w as u64 - s) % w as u64 };
                let (u, v) = (self.ex(&a[0], w), self.ex(&a[1], w));
                if s == 0 { return Ok(Some(if x == X::Fshl { a[0].clone() } else { a[1].clone() })); }
                let h = self.ar.extract(u, w - 1 - s as u32, 0);
                let l = self.ar.extract(v, w - 1, w - s as u32);
                let r = self.ar.concat(h, l);
                Ok(Some(self.val(r)))
            }
            X::FMax | X::FMin => { if *rty == Ty::F64 { return Err(End::Unsupported("f64 max".into())); } self.fminmax(st, x == X::FMax, &a[0], &a[1]).map(Some) }
            X::Sqrt => { if *rty == Ty::F64 { let v = f64::from_bits(c!(0)); return ok(v.sqrt().to_bits()); }
                let r = self.fsqrt(&a[0]);
                // routing: distances that are not along an axis are taken value by value
                if st.hash_mode & 2 != 0 { if let V::E(e) = r { if self.ar.n[e as usize].op == crate::expr::O::FSqrt {
                    for i in self.ar.support(e).to_vec() { let v = st.vars[i as usize]; self.conc_v(st, &V::E(v), "square root")?; }
                    let x = self.concretise(st, e)?;
                    return Ok(Some(V::I(x)));
                } } }
                Ok(Some(r))
            }
            X::FAbs => {
                if *rty == Ty::F64 { let v = c!(0); return ok(v & !(1 << 63)); }
                match &a[0] {
                    V::I(v) => ok(v & 0x7fff_ffff),
                    V::E(e) => {
                        if let Some((n, fr, _)) = self.ar.as_fix(*e) { if let Some(r) = self.fabs_fix(n, fr) { return Ok(Some(self.val(r))); } }
                        let k = self.ar.k(32, 0x7fff_ffff);
                        let r = self.ar.and(*e, k);
                        Ok(Some(self.val(r)))
                    }
                    _ => Err(End::Unsupported("fabs".into())),
                }
            }
            X::Floor | X::Ceil | X::Trunc | X::Round => {
                let v = c!(0);
                if *rty == Ty::F64 { let f = f64::from_bits(v); ok(match x { X::Floor => f.floor(), X::Ceil => f.ceil(), X::Trunc => f.trunc(), _ => f.round() }.to_bits()) }
                else { let f = f32::from_bits(v as u32); ok(match x { X::Floor => f.floor(), X::Ceil => f.ceil(), X::Trunc => f.trunc(), _ => f.round() }.to_bits() as u64) }
            }
            X::Copysign => { let (u, v) = (c!(0), c!(1)); let s = if *rty == Ty::F64 { 1u64 << 63 } else { 1 << 31 }; ok((u & !s) | (v & s)) }
            X::FptouiSat | X::FptosiSat => {
                let name = &self.m.externs[k as usize];
                if let V::E(e) = &a[0] {
                    if let (Some((n, fr, _)), X::FptouiSat, 32) = (self.ar.as_fix(*e), x, rty.bits()) {
                        if (0..31).contains(&fr) {
                            let s = self.ar.k(32, fr as u64);
                            let sh = self.ar.ashr(n, s);
                            let z = self.ar.k(32, 0);
                            let c = self.ar.slt(n, z);
                            let r = self.ar.ite(c, z, sh);
                            return Ok(Some(self.val(r)));
                        }
                    }
                }
                let v = c!(0);
                let f = if name.ends_with("f64") { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                let b = rty.bits();
                let r = if x == X::FptouiSat { (f as u128).min(mask(!0, b) as u128) as u64 } else { let m = 1i128 << (b - 1); mask((f as i128).clamp(-m, m - 1) as i64 as u64, b) };
                ok(r)
            }
            // ---- harness interface
            X::SymNative => ok(0),
            X::SymInt => {
                let (lo, hi) = (sext(c!(0), 32), sext(c!(1), 32));
                if lo > hi { return Err(End::Assume); }
                let e = self.sym_range(st, lo, hi);
                st.inputs.push(e);
                Ok(Some(self.val(e)))
            }
            X::SymByte => { let (lo, hi) = (c!(0), c!(1)); let e = self.new_var(st, 8, lo, hi); st.inputs.push(e); Ok(Some(self.val(e))) }
            X::SymSet => {
                let (p, n) = (c!(0), c!(1));
                let b = st.mem.bytes(p, n).ok_or(End::Unsupported("sym_set".into()))?;
                let (lo, hi) = (*b.iter().min().unwrap() as u64, *b.iter().max().unwrap() as u64);
                let e = self.new_var(st, 8, lo, hi);
                st.inputs.push(e);
                let mut cnd = self.ar.k(1, 0);
                for x in &b { let k = self.ar.k(8, *x as u64); let q = self.ar.eq(e, k); cnd = self.ar.or(cnd, q); }
                *st.model.last_mut().unwrap() = b[0] as u64;
                if self.ar.cv(cnd).is_none() { self.constrain(st, cnd, true, false); }
                Ok(Some(self.val(e)))
            }
            X::SymBool => { let e = self.new_var(st, 8, 0, 1); st.inputs.push(e); let b = self.ar.extract(e, 0, 0); Ok(Some(self.val(b))) }
            X::SymF32 => {
                let (lo, hi, fr) = (sext(c!(0), 32), sext(c!(1), 32), sext(c!(2), 32) as i32);
                let n = self.sym_range(st, lo, hi);
                let e = self.ar.ffix(n, fr, false).ok_or(End::Unsupported("sym_f32 range".into()))?;
                st.inputs.push(e);
                Ok(Some(self.val(e)))
            }
            X::SymChoose => {
                let n = c!(0);
                if n <= 1 { let z = self.ar.k(32, 0); st.inputs.push(z); return ok(0); }
                let e = match st.pending { Some(e) => e, None => { let e = self.sym_range(st, 0, n as i64 - 1); st.pending = Some(e); e } };
                let v = self.concretise(st, e)?;
                st.pending = None;
                st.inputs.push(e);
                ok(v)
            }
            X::SymAssume => {
                match &a[0] { V::I(x) => if x & 1 == 0 { return Err(End::Assume) }, V::E(e) => self.assume(st, *e)?, _ => {} }
                Ok(None)
            }
            X::SymAssert => {
                self.c.assertions += 1;
                match &a[0] {
                    V::I(x) => if x & 1 == 0 { let s = { let (u, v) = (c!(1), c!(2)); st.mem.bytes_lossy(u, v) }; return Err(End::Violation(s)); },
                    V::E(e) => {
                        self.c.assertions_symbolic += 1;
                        if !self.branch_assert(st, *e)? { let s = { let (u, v) = (c!(1), c!(2)); st.mem.bytes_lossy(u, v) }; return Err(End::Violation(s)); }
                    }
                    _ => {}
                }
                Ok(None)
            }
            X::SymReach => { let s = { let (u, v) = (c!(0), c!(1)); st.mem.bytes_lossy(u, v) }; self.reach.insert(s); Ok(None) }
            X::SymFloatRef => {
                let e = c!(0) as Ex;
                if e as usize >= self.ar.n.len() || self.ar.w(e) != 32 { return Err(End::Unsupported("sym_float_ref".into())); }
                Ok(Some(self.val(e)))
            }
            X::SymConcI32 | X::SymConcF32 => { let v = match &a[0] { V::I(x) => *x, V::E(e) => self.concretise(st, *e)?, _ => 0 }; ok(v) }
            X::SymNote => { st.notes.push(a[0].clone()); Ok(None) }
            X::SymHashMode => { st.hash_mode = c!(0); Ok(None) }
            X::SymLog => { if self.logs { eprintln!("[log] {}", { let (u, v) = (c!(0), c!(1)); st.mem.bytes_lossy(u, v) }); } Ok(None) }
            X::SymArgs => {
                // std keeps the process arguments in two statics that the loader's start-up code fills
                for (name, v) in [("args4unix3imp4ARGC", c!(0)), ("args4unix3imp4ARGV", c!(1))] {
                    let Some(g) = self.m.globals.iter().find(|g| g.0.contains(name)).map(|g| g.1.addr) else { return Err(End::Unsupported(format!("no static {}", name))) };
                    st.mem.write(g, v, 8).map_err(|_| End::Unsupported("arguments".into()))?;
                }
                Ok(None)
            }
            X::Unknown => Err(End::Unsupported(format!("external function {} called from {}", self.m.externs[k as usize], self.location(st)))),
        }
    }
    /// An assertion: false is explored as a fork of its own (and reported there as a violation).
    fn branch_assert(&mut self, st: &mut State, e: Ex) -> R<bool> {
        self.z3.stats.assertion_queries += 1;
        self.branch(st, e)
    }
    fn sym_range(&mut self, st: &mut State, lo: i64, hi: i64) -> Ex {
        let n = (hi - lo) as u64;
        let v = if n < 256 { let v = self.new_var(st, 8, 0, n); self.ar.zext(v, 32) } else { self.new_var(st, 32, 0, n) };
        let k = self.ar.k(32, lo as u64);
        self.ar.add(v, k)
    }
    fn overflow_op(&mut self, st: &mut State, x: X, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(p), V::I(q)) = (a, b) {
            let m = 1i128 << (w - 1);
            let (up, uq) = (*p as u128, *q as u128);
            let (sp, sq) = (sext(*p, w) as i128, sext(*q, w) as i128);
            let (r, o) = match x {
                X::UaddO => ((up + uq) as u64, up + uq > mask(!0, w) as u128),
                X::UsubO => (p.wrapping_sub(*q), p < q),
                X::UmulO => ((up * uq) as u64, up * uq > mask(!0, w) as u128),
                X::SaddO => ((sp + sq) as u64, sp + sq < -m || sp + sq >= m),
                X::SsubO => ((sp - sq) as u64, sp - sq < -m || sp - sq >= m),
                _ => ((sp * sq) as u64, sp * sq < -m || sp * sq >= m),
            };
            return Ok(V::A(vec![V::I(mask(r, w)), V::I(o as u64)].into()));
        }
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let (r, o) = match x {
            X::UaddO => { let s = self.ar.add(p, q); (s, self.ar.ult(s, p)) }
            X::UsubO => (self.ar.sub(p, q), self.ar.ult(p, q)),
            X::SaddO | X::SsubO => {
                let add = x == X::SaddO;
                let s = if add { self.ar.add(p, q) } else { self.ar.sub(p, q) };
                let (rp, rq) = (self.ar.srange(p), self.ar.srange(q));
                let (lo, hi) = if add { (rp.0 as i128 + rq.0 as i128, rp.1 as i128 + rq.1 as i128) } else { (rp.0 as i128 - rq.1 as i128, rp.1 as i128 - rq.0 as i128) };
                let m = 1i128 << (w - 1);
                if lo >= -m && hi < m { (s, self.ar.k(1, 0)) } else {
                    let z = self.ar.k(w, 0);
                    let (np, nq, ns) = (self.ar.slt(p, z), self.ar.slt(q, z), self.ar.slt(s, z));
                    let same = if add { let t = self.ar.xor(np, nq); self.ar.not(t) } else { self.ar.xor(np, nq) };
                    let diff = self.ar.xor(np, ns);
                    (s, self.ar.and(same, diff))
                }
            }
            X::UmulO => {
                let (up, uq) = (self.ar.urange(p), self.ar.urange(q));
                if (up.1 as u128) * (uq.1 as u128) <= mask(!0, w) as u128 { (self.ar.mul(p, q), self.ar.k(1, 0)) } else if w <= 32 {
                    let (wp, wq) = (self.ar.zext(p, 64), self.ar.zext(q, 64));
                    let pr = self.ar.mul(wp, wq);
                    let m = self.ar.k(64, mask(!0, w));
                    (self.ar.mul(p, q), self.ar.ult(m, pr))
                } else {
                    let (u, v) = (self.concretise(st, p)?, self.concretise(st, q)?);
                    return self.overflow_op(st, x, w, &V::I(u), &V::I(v));
                }
            }
            _ => {
                let (rp, rq) = (self.ar.srange(p), self.ar.srange(q));
                let c = [rp.0 as i128 * rq.0 as i128, rp.0 as i128 * rq.1 as i128, rp.1 as i128 * rq.0 as i128, rp.1 as i128 * rq.1 as i128];
                let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                let m = 1i128 << (w - 1);
                if lo >= -m && hi < m { (self.ar.mul(p, q), self.ar.k(1, 0)) } else if w <= 32 {
                    let (wp, wq) = (self.ar.sext(p, 64), self.ar.sext(q, 64));
                    let pr = self.ar.mul(wp, wq);
                    let (kl, kh) = (self.ar.k(64, (-m as i64) as u64), self.ar.k(64, (m - 1) as i64 as u64));
                    let (ol, oh) = (self.ar.slt(pr, kl), self.ar.slt(kh, pr));
                    (self.ar.mul(p, q), self.ar.or(ol, oh))
                } else {
                    let (u, v) = (self.concretise(st, p)?, self.concretise(st, q)?);
                    return self.overflow_op(st, x, w, &V::I(u), &V::I(v));
                }
            }
        };
        Ok(V::A(vec![self.val(r), self.val(o)].into()))
    }
}

pub fn short(n: &str) -> String {
    // the readable identifiers of a mangled name
    let b = n.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if k > 0 && i + k <= b.len() { out.push(n[i..i + k].to_string()); i += k; continue; }
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}


fn wide_int(t: &crate::ir::Ty) -> bool {
    match t { crate::ir::Ty::Int(w) => *w >= 16, crate::ir::Ty::Ptr => true, _ => false }
}
