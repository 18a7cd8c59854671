//! Symbolic executor over the parsed LLVM IR.
use crate::expr::{Arena, FxMap, O};
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum X {
    Malloc, Calloc, Realloc, PosixMemalign, Free, Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen, Write, Getrandom, Syscall, Errno,
    Zero, Abort, Nop, Abs, Bitreverse, Bswap, Ctlz, Ctpop, Cttz, FptouiSat, FptosiSat, Fshl, Fshr, IsConstant, TlsAddr, FMax, FMin, FAbs, Sqrt, Copysign, Floor, Ceil, Trunc, Round,
    UaddSat, UsubSat, SaddSat, SsubSat, Ucmp, Scmp, Umax, Umin, Smax, Smin, UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Expect, Trap,
    SymInt, SymByte, SymSet, SymF32, SymChoose, SymBool, SymAssume, SymAssert, SymReach, SymNative, SymFloatRef, SymConcI32, SymConcF32, SymNote, SymHashMode, SymLog, SymArgs,
    Unknown,
}

pub fn ext_kind(n: &str) -> X {
    use X::*;
    match n {
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "posix_memalign" => PosixMemalign, "free" => Free,
        "memcmp" => Memcmp, "bcmp" => Bcmp, "strlen" => Strlen, "write" => Write, "getrandom" => Getrandom, "syscall" => Syscall, "__errno_location" => Errno,
        "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "close" | "sigaltstack" | "munmap" | "mprotect" => Zero,
        "abort" => Abort,
        "sym_int" => SymInt, "sym_byte" => SymByte, "sym_set" => SymSet, "sym_f32" => SymF32, "sym_choose" => SymChoose, "sym_bool" => SymBool,
        "sym_assume" => SymAssume, "sym_assert" => SymAssert, "sym_reach" => SymReach, "sym_native" => SymNative, "sym_float_ref" => SymFloatRef,
        "sym_conc_i32" => SymConcI32, "sym_conc_f32" => SymConcF32, "sym_note" => SymNote, "sym_hash_mode" => SymHashMode, "sym_log" => SymLog, "sym_args" => SymArgs,
        "memcpy" => Memcpy, "memmove" => Memmove, "memset" => Memset,
        _ => {
            let Some(r) = n.strip_prefix("llvm.") else { return Unknown };
            for (p, k) in [
                ("memcpy.", Memcpy), ("memmove.", Memmove), ("memset.", Memset), ("lifetime.", Nop), ("assume", Nop), ("experimental.noalias", Nop), ("x86.sse2.pause", Nop),
                ("umul.with", UmulO), ("uadd.with", UaddO), ("usub.with", UsubO), ("smul.with", SmulO), ("sadd.with", SaddO), ("ssub.with", SsubO),
                ("fshl.", Fshl), ("fshr.", Fshr), ("umax.", Umax), ("umin.", Umin), ("smax.", Smax), ("smin.", Smin), ("usub.sat", UsubSat), ("uadd.sat", UaddSat), ("sadd.sat", SaddSat), ("ssub.sat", SsubSat),
                ("bitreverse.", Bitreverse), ("bswap.", Bswap), ("is.constant", IsConstant), ("ctlz.", Ctlz), ("cttz.", Cttz), ("ctpop.", Ctpop), ("ucmp.", Ucmp), ("scmp.", Scmp), ("abs.", Abs), ("fabs.", FAbs),
                ("trap", Trap), ("ubsantrap", Trap), ("fptoui.sat", FptouiSat), ("fptosi.sat", FptosiSat), ("maximumnum", FMax), ("maxnum", FMax), ("minimumnum", FMin), ("minnum", FMin), ("sqrt.", Sqrt), ("copysign.", Copysign),
                ("floor.", Floor), ("ceil.", Ceil), ("trunc.", Trunc), ("round.", Round), ("threadlocal.address", TlsAddr), ("expect.", Expect), ("invariant.", Nop), ("sideeffect", Nop), ("dbg.", Nop), ("prefetch", Nop),
            ] { if r.starts_with(p) { return k; } }
            Unknown
        }
    }
}

/// Trailing integer width in an intrinsic's name (".i64" -> 64).
fn suffix_w(n: &str) -> u32 {
    let l = n.rsplit('.').next().unwrap_or("");
    l.strip_prefix('i').and_then(|x| x.parse().ok()).unwrap_or(64)
}

#[derive(Clone, Copy)]
pub struct Frame {
    pub f: u32,
    pub block: u32,
    pub ip: u32,
    pub base: u32,
    pub sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<V>,
    pub mem: Mem,
    pub sp: u64,
    pub pc: Vec<Ex>,
    known: FxMap<Ex, bool>,
    /// interval of an expression that the decisions so far leave
    bnd: FxMap<Ex, (i64, i64)>,
    /// value (when determined), size of the path condition and place when it was asked for
    implied: FxMap<Ex, (Option<u64>, usize, (u32, u32, u32))>,
    /// place of the last decision: an instruction executed again after a fork must see what it saw before
    last_dec: (u32, u32, u32),
    conc: FxMap<Ex, u64>,
    dom: Vec<Option<[u64; 4]>>,
    ent: Vec<bool>,
    pub vars: Vec<Ex>,
    pub model: Vec<u64>,
    pub inputs: Vec<Ex>,
    pub pending: Option<Ex>,
    pub dec: Vec<u64>,
    prefix: Rc<Vec<u64>>,
    /// the model that came with the prefix
    hint: Rc<Vec<u64>>,
    ppos: usize,
    pub ninsn: u64,
    pub notes: Vec<V>,
    pub hash_mode: u64,
    pub unknown: bool,
    pub model_ok: bool,
    pub nrand: u8,
}

#[derive(Clone, Debug)]
pub enum End {
    Ok,
    Assume,
    Violation(String),
    Panic(String),
    Limit(String),
    Unsupported(String),
    Timeout,
    /// replay of a donated prefix went out of step (engine error)
    Desync,
}

/// Work shared between the workers.
pub struct Pool {
    /// prefixes (with a model of the path condition they lead to), idle workers, done
    pub queue: std::sync::Mutex<(Vec<(Vec<u64>, Vec<u64>)>, usize, bool)>,
    pub cv: std::sync::Condvar,
    pub idle: std::sync::atomic::AtomicUsize,
}

pub struct PathReport {
    pub end: End,
    pub inputs: Vec<u64>,
    pub notes: Vec<u64>,
    pub ninsn: u64,
}

type R<T> = Result<T, End>;

impl From<Fault> for End {
    fn from(f: Fault) -> End { End::Unsupported(format!("memory access outside every region at {:#x}", f.0)) }
}

#[derive(Default, Clone)]
pub struct Counters {
    pub paths_ok: u64,
    pub paths_assume: u64,
    pub paths_limit: u64,
    pub insns: u64,
    pub forks: u64,
    pub branches: u64,
    pub assertions: u64,
    pub assertions_symbolic: u64,
    pub unknown: u64,
    pub fd_verdicts: u64,
    pub fd_confirmed: u64,
    pub concretised: u64,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ext: Vec<(X, u32)>,
    pub ar: Arena,
    pub z3: Z3,
    pub work: VecDeque<State>,
    pub c: Counters,
    pub seen_fn: Vec<bool>,
    pub reach: BTreeSet<String>,
    pub logs: bool,
    pub deadline: Instant,
    pub max_insn: u64,
    pub stop: Arc<std::sync::atomic::AtomicBool>,
    pub pool: Arc<Pool>,
    pub conc_sites: BTreeMap<String, u64>,
    fd_done: FxMap<(Ex, [u64; 4]), ()>,
    /// report slow queries (debugging)
    trace: bool,
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, timeout_ms: u32, deadline: Instant, max_insn: u64, stop: Arc<std::sync::atomic::AtomicBool>, pool: Arc<Pool>) -> Self {
        let ext = m.externs.iter().map(|n| (ext_kind(n), suffix_w(n))).collect();
        Exec { m, ext, ar: Arena::new(), z3: { let mut z = Z3::new(timeout_ms, stop.clone()); z.deadline = Some(deadline); z }, work: VecDeque::new(), c: Default::default(), seen_fn: vec![false; m.funcs.len()], reach: Default::default(), logs: false, deadline, max_insn, stop, pool, conc_sites: Default::default(), fd_done: Default::default(), trace: std::env::var_os("SYMIR_SLOW").is_some() }
    }
    pub fn start(&self, f: u32, mem: &Mem, (prefix, hint): (Vec<u64>, Vec<u64>)) -> State {
        let fun = &self.m.funcs[f as usize];
        State {
            frames: vec![Frame { f, block: 0, ip: 0, base: 0, sp: STACK_BASE + 64 }],
            regs: vec![V::I(0); fun.nregs as usize],
            mem: mem.clone(), sp: STACK_BASE + 64, pc: vec![], known: Default::default(), bnd: Default::default(), implied: Default::default(), last_dec: (0, 0, 0), conc: Default::default(), dom: vec![], ent: vec![], vars: vec![], model: vec![], inputs: vec![], pending: None,
            dec: vec![], prefix: Rc::new(prefix), hint: Rc::new(hint), ppos: 0, ninsn: 0, notes: vec![], hash_mode: 0, unknown: false, model_ok: true, nrand: 7,
        }
    }

    // ---------------------------------------------------------------- solver interface
    pub fn slice(&self, st: &State, c: Ex) -> Vec<Ex> {
        let sid = self.ar.support_id(c);
        let vars: Vec<u16> = self.ar.sets[sid as usize].to_vec();
        if vars.is_empty() { return vec![]; }
        let mut out = vec![];
        let mut left: Vec<(Ex, u32)> = st.pc.iter().map(|e| (*e, self.ar.support_id(*e) as u32)).collect();
        let mut inn = vec![false; self.ar.vars.len()];
        for v in &vars { inn[*v as usize] = true; }
        loop {
            let mut again = false;
            left.retain(|(e, sid)| {
                let s = &self.ar.sets[*sid as usize];
                if s.iter().any(|x| inn[*x as usize]) {
                    out.push(*e);
                    for x in s.iter() { if !inn[*x as usize] { inn[*x as usize] = true; again = true; } }
                    false
                } else { !s.is_empty() }
            });
            if !again { break; }
        }
        out
    }
    pub fn solve(&mut self, st: &State, c: Ex) -> Res {
        let mut q = self.slice(st, c);
        q.push(c);
        if self.trace {
            let t = std::time::Instant::now();
            let r = self.z3.check(&mut self.ar, &q);
            let d = t.elapsed().as_secs_f64();
            if d > std::env::var("SYMIR_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0.3) {
                let fs: Vec<String> = st.frames.iter().rev().take(5).map(|f| { let n = crate::run::short(&self.m.funcs[f.f as usize].name); format!("{}#{}", n, f.block) }).collect();
                eprintln!("{:.1}s query in {}\n    {}", d, fs.join(" < "), self.ar.show(c, 9));
            }
            return r;
        }
        self.z3.check(&mut self.ar, &q)
    }
    /// The value of an integer expression when the path condition leaves only one.
    pub fn implied(&mut self, st: &mut State, e: Ex) -> Option<u64> {
        if let Some(v) = self.ar.cv(e) { return Some(v); }
        let fr = st.frames.last().unwrap();
        let loc = (fr.f, fr.block, fr.ip);
        if let Some(r) = st.implied.get(&e) { if r.0.is_some() || r.1 == st.pc.len() || (r.2 == loc && st.last_dec == loc) { return r.0; } }
        let at = st.pc.len();
        let sup = self.ar.support(e);
        if sup.iter().any(|v| !st.ent[*v as usize] && st.dom[*v as usize].map_or(true, |d| d.iter().map(|x| x.count_ones()).sum::<u32>() > 1)) && sup.len() == 1 {
            st.implied.insert(e, (None, at, loc));
            return None;
        }
        if st.ppos < st.prefix.len() {
            let d = st.prefix[st.ppos];
            st.ppos += 1;
            st.dec.push(d);
            let r = if d & 32 != 0 { Some(d >> 8) } else { None };
            st.implied.insert(e, (r, at, loc));
            return r;
        }
        if !st.model_ok { self.refresh_model(st); }
        let v = self.ar.eval(e, &st.model);
        let w = self.ar.w(e);
        let k = self.ar.k(w, v);
        let c = self.ar.eq(e, k);
        let r = match self.ar.cv(c) {
            Some(x) => if x != 0 { Some(v) } else { None },
            None => { let n = self.ar.not(c); match self.solve(st, n) { Res::Unsat => Some(v), _ => None } }
        };
        st.implied.insert(e, (r, at, loc));
        st.dec.push(match r { Some(v) => 16 | 32 | v << 8, None => 16 });
        r
    }
    /// A fixed-point value whose numerator the path condition determines becomes a constant.
    pub fn settle(&mut self, st: &mut State, v: &V) -> V {
        if let V::E(x) = v {
            if let Some((n, fr, z)) = self.ar.as_fix(*x) {
                if let Some(c) = self.implied(st, n) {
                    let i = crate::ir::sext(c, 32);
                    if i != 0 || !z { return V::I(((i as f64 * 2f64.powi(-fr)) as f32).to_bits() as u64); }
                    return V::I(0x8000_0000);
                }
            }
        }
        v.clone()
    }
    /// A model of the whole path condition (after a prefix was replayed).
    pub fn refresh_model(&mut self, st: &mut State) {
        let q = st.pc.clone();
        if q.is_empty() { st.model_ok = true; return; }
        if st.hint.len() >= st.model.len() && q.iter().all(|e| self.ar.eval(*e, &st.model) != 0) { st.model_ok = true; return; }
        match self.z3.check(&mut self.ar, &q) {
            Res::Sat(m) => { for (i, v) in m { st.model[i as usize] = v; } st.model_ok = true; }
            Res::Unsat => { st.model_ok = true; st.unknown = true; }
            Res::Unknown => { st.model_ok = true; st.unknown = true; self.c.unknown += 1; }
        }
    }
    pub fn constrain(&mut self, st: &mut State, c: Ex, b: bool, forced: bool) {
        st.known.insert(c, b);
        let n = self.ar.n[c as usize];
        if n.w == 1 && !forced {
            // a true conjunction / false disjunction splits
            if (n.op == O::And && b) || (n.op == O::Or && !b) {
                for x in [n.a, n.b] {
                    let nx = self.ar.n[x as usize];
                    if nx.op == O::Xor && self.ar.cv(nx.b) == Some(1) { self.constrain(st, nx.a, !b, false); } else { self.constrain(st, x, b, false); }
                }
                return;
            }
        }
        if forced { return; }
        if let Some((s, lo, hi)) = self.bound_of(c) {
            let r = self.ar.srange(s);
            let t = st.bnd.entry(s).or_insert(r);
            match n.op {
                O::Eq => if b { *t = (lo, hi); },
                _ => if b { t.1 = t.1.min(hi); } else { t.0 = t.0.max(hi + 1); },
            }
        }
        let e = if b { c } else { self.ar.not(c) };
        if self.ar.cv(e).is_some() { return; }
        let s = self.ar.support(e);
        if s.len() == 1 {
            let v = s[0] as usize;
            if let Some(d) = st.dom[v] {
                let w = self.width_of(st, v);
                let t = self.ar.truth(e, v as u16, w);
                st.dom[v] = Some([d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]]);
            }
        } else {
            for v in s.iter() { st.ent[*v as usize] = true; }
        }
        st.pc.push(e);
    }
    /// s and the interval in which the comparison of s with a constant is true (its lower end counts for equality only)
    fn bound_of(&mut self, c: Ex) -> Option<(Ex, i64, i64)> {
        let n = self.ar.n[c as usize];
        if n.w != 1 || !matches!(n.op, O::Slt | O::Eq) || self.ar.w(n.a) != 32 { return None; }
        let k = crate::ir::sext(self.ar.cv(n.b)?, 32);
        Some(if n.op == O::Eq { (n.a, k, k) } else { (n.a, i64::MIN, k - 1) })
    }
    /// The truth of a condition when earlier decisions on its parts settle it.
    fn quick(&mut self, st: &State, c: Ex, depth: u32) -> Option<bool> {
        if let Some(v) = self.ar.cv(c) { return Some(v != 0); }
        if let Some(b) = st.known.get(&c) { return Some(*b); }
        if let Some((s, lo, hi)) = self.bound_of(c) {
            let r = match st.bnd.get(&s) { Some(r) => *r, None => self.ar.srange(s) };
            if lo == hi {
                if hi < r.0 || hi > r.1 { return Some(false); }
                if r.0 == r.1 { return Some(true); }
            } else {
                if r.1 <= hi { return Some(true); }
                if r.0 > hi { return Some(false); }
            }
            return None;
        }
        if depth == 0 { return None; }
        let n = self.ar.n[c as usize];
        if n.w != 1 { return None; }
        match n.op {
            O::And | O::Or => {
                let stop = n.op == O::Or;
                let x = self.quick(st, n.a, depth - 1);
                if x == Some(stop) { return x; }
                let y = self.quick(st, n.b, depth - 1);
                if y == Some(stop) { return y; }
                if x.is_some() && y.is_some() { Some(!stop) } else { None }
            }
            O::Xor => { let x = self.quick(st, n.a, depth - 1)?; let y = self.quick(st, n.b, depth - 1)?; Some(x != y) }
            _ => None,
        }
    }
    pub fn width_of(&self, st: &State, v: usize) -> u32 { self.ar.w(st_var(st, v)) }

    /// Decide a condition; when both outcomes are possible the other one is put on the work list
    /// (as a copy of the state that will execute the current instruction again).
    pub fn branch(&mut self, st: &mut State, c: Ex) -> R<bool> { self.branch_ex(st, c, true) }
    pub fn branch_ex(&mut self, st: &mut State, c: Ex, fork: bool) -> R<bool> {
        if let Some(v) = self.ar.cv(c) { return Ok(v != 0); }
        let n = self.ar.n[c as usize];
        if n.op == O::Xor && self.ar.cv(n.b) == Some(1) {
            if !fork { // assume(!x): prefer x = false
                return Ok(!self.decide(st, n.a, false, false)?);
            }
            return Ok(!self.branch_ex(st, n.a, true)?);
        }
        self.decide(st, c, fork, true)
    }
    pub fn decide(&mut self, st: &mut State, c: Ex, fork: bool, prefer: bool) -> R<bool> {
        if let Some(b) = self.quick(st, c, 8) { return Ok(b); }
        if let Some(v) = self.settled(st, c) { return Ok(v != 0); }
        let fr = st.frames.last().unwrap();
        st.last_dec = (fr.f, fr.block, fr.ip);
        self.c.branches += 1;
        if self.c.branches & 15 == 0 && std::time::Instant::now() > self.deadline { return Err(End::Timeout); }
        if st.ppos < st.prefix.len() {
            let d = st.prefix[st.ppos];
            st.ppos += 1;
            if d & 24 != 0 { return Err(End::Desync); }
            st.dec.push(d);
            let b = d & 1 != 0;
            let forced = d & 2 != 0;
            self.constrain(st, c, b, forced);
            st.model_ok = false;
            return Ok(b);
        }
        if !st.model_ok { self.refresh_model(st); }
        // (feasible-true, feasible-false)
        let sup = self.ar.support(c);
        let mut need = true;
        let (mut ft, mut ff) = (true, true);
        if sup.len() == 1 {
            let v = sup[0] as usize;
            if let Some(d) = st.dom[v] {
                let w = self.width_of(st, v);
                let t = self.ar.truth(c, v as u16, w);
                ft = (0..4).any(|i| d[i] & t[i] != 0);
                ff = (0..4).any(|i| d[i] & !t[i] != 0);
                if !ft || !ff || !st.ent[v] {
                    need = false;
                    self.c.fd_verdicts += 1;
                    if !ft || !ff {
                        // z3 confirms each distinct "impossible" verdict of the finite-domain table
                        let key = (c, d);
                        if self.fd_done.insert(key, ()).is_none() {
                            let e = if ft { self.ar.not(c) } else { c };
                            let mut q = self.slice(st, c);
                            if !st.ent[v] {
                                q.push(e);
                                self.c.fd_confirmed += 1;
                                if let Res::Sat(_) = self.z3.check(&mut self.ar, &q) { return Err(End::Unsupported("finite-domain table and z3 disagree".into())); }
                            }
                        }
                    } else {
                        // both sides possible: the model takes one, the other gets a value from the table
                        let mv = self.ar.eval(c, &st.model) != 0;
                        let other = (0..256u64).find(|x| { let i = (*x >> 6) as usize; let bit = 1u64 << (x & 63); d[i] & bit != 0 && ((t[i] & bit != 0) != mv) }).unwrap();
                        return self.fork_to(st, c, mv, fork, prefer, Some(vec![(v as u16, other)]));
                    }
                }
            }
        }
        if need {
            let mv = self.ar.eval(c, &st.model) != 0;
            let e = if mv { self.ar.not(c) } else { c };
            if (mv && !ff) || (!mv && !ft) {
                // table says impossible
            } else {
                match self.solve(st, e) {
                    Res::Sat(m) => return self.fork_to(st, c, mv, fork, prefer, Some(m)),
                    Res::Unsat => {}
                    Res::Unknown => { self.c.unknown += 1; return self.fork_to(st, c, mv, fork, prefer, None); }
                }
            }
            st.dec.push(2 | mv as u64);
            self.constrain(st, c, mv, true);
            return Ok(mv);
        }
        st.dec.push(2 | ft as u64);
        self.constrain(st, c, ft, true);
        Ok(ft)
    }
    /// Give the oldest states to idle workers, keeping `keep` of them.
    pub fn donate(&mut self, keep: usize) {
        let mut q = self.pool.queue.lock().unwrap();
        while q.0.len() < q.1 && self.work.len() > keep { let s = self.work.pop_front().unwrap(); q.0.push((s.dec, if s.unknown { vec![] } else { s.model })); }
        self.pool.cv.notify_all();
    }
    /// Both outcomes possible: the current model satisfies `mv`; `m` gives the values that change for the other.
    pub fn fork_to(&mut self, st: &mut State, c: Ex, mv: bool, fork: bool, prefer: bool, m: Option<Vec<(u16, u64)>>) -> R<bool> {
        if !fork {
            if mv != prefer {
                match m { Some(m) => for (i, v) in m { st.model[i as usize] = v; }, None => st.unknown = true }
            }
            st.dec.push(prefer as u64);
            self.constrain(st, c, prefer, false);
            return Ok(prefer);
        }
        self.c.forks += 1;
        let mut o = st.clone();
        o.dec.push(!mv as u64);
        match m { Some(m) => for (i, v) in m { o.model[i as usize] = v; }, None => o.unknown = true }
        self.constrain(&mut o, c, !mv, false);
        self.work.push_back(o);
        if self.pool.idle.load(std::sync::atomic::Ordering::Relaxed) > 0 { self.donate(0); }
        st.dec.push(mv as u64);
        self.constrain(st, c, mv, false);
        Ok(mv)
    }
    /// The value of an expression all of whose variables have been given values on this path.
    pub fn settled(&mut self, st: &State, e: Ex) -> Option<u64> {
        if st.conc.is_empty() { return None; }
        let sup = self.ar.support(e);
        if sup.len() > 24 { return None; }
        let mut vals = [(0usize, 0u64); 24];
        for (k, i) in sup.iter().enumerate() { vals[k] = (*i as usize, *st.conc.get(&st.vars[*i as usize])?); }
        let mut m = st.model.clone();
        for (i, v) in &vals[..sup.len()] { m[*i] = *v; }
        Some(self.ar.eval(e, &m))
    }
    /// A concrete value of an expression; other values are explored as forks.
    pub fn concretise(&mut self, st: &mut State, e: Ex) -> R<u64> {
        if let Some(v) = self.ar.cv(e) { return Ok(v); }
        if let Some(v) = st.conc.get(&e) { return Ok(*v); }
        if let Some(v) = self.settled(st, e) { return Ok(v); }
        let mut wrong = 0;
        loop {
            let given = st.ppos < st.prefix.len();
            let v = if given {
                let d = st.prefix[st.ppos];
                if d & 8 == 0 { return Err(End::Desync); }
                let v = st.prefix[st.ppos + 1];
                st.ppos += 2;
                v
            } else {
                if !st.model_ok { self.refresh_model(st); }
                self.ar.eval(e, &st.model)
            };
            st.dec.push(8);
            st.dec.push(v);
            self.c.concretised += 1;
            let w = self.ar.w(e);
            let k = self.ar.k(w, v);
            let q = self.ar.eq(e, k);
            if self.branch(st, q)? {
                st.conc.insert(e, v);
                return Ok(v);
            }
            if !given {
                // the model does not satisfy the path condition: z3 gave none (time limit)
                wrong += 1;
                if wrong > 2 { return Err(if std::time::Instant::now() > self.deadline { End::Timeout } else { End::Limit("no model of the path condition".into()) }); }
                st.model_ok = false;
            }
        }
    }
    pub fn conc_v(&mut self, st: &mut State, v: &V, why: &str) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::E(e) => {
                if self.ar.cv(*e).is_none() && !st.conc.contains_key(e) {
                    let f = st.frames.last().unwrap().f;
                    let key = format!("{} in {}", why, self.m.funcs[f as usize].name);
                    *self.conc_sites.entry(key).or_insert(0) += 1;
                }
                self.concretise(st, *e)
            }
            V::A(_) => Err(End::Unsupported("scalar expected".into())),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: Ex) -> R<()> {
        if self.branch_ex(st, c, false)? { Ok(()) } else { Err(End::Assume) }
    }
    pub fn new_var(&mut self, st: &mut State, w: u32, lo: u64, hi: u64) -> Ex {
        let idx = st.model.len();
        let v = match st.hint.get(idx) { Some(v) if st.ppos < st.prefix.len() && *v >= lo && *v <= hi => *v, _ => lo };
        st.model.push(v);
        st.ent.push(false);
        st.dom.push(if w <= 8 {
            let mut d = [0u64; 4];
            for x in lo..=hi { d[(x >> 6) as usize] |= 1 << (x & 63); }
            Some(d)
        } else { None });
        let e = self.ar.var(idx as u16, w, lo, hi);
        st.vars.push(e);
        e
    }

    // ---------------------------------------------------------------- values
    pub fn ex(&mut self, v: &V, w: u32) -> Ex {
        match v { V::I(x) => self.ar.k(w, *x), V::E(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }
    pub fn val(&self, e: Ex) -> V { match self.ar.cv(e) { Some(x) => V::I(x), None => V::E(e) } }

    pub fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match v {
            V::I(x) => { st.mem.write(a, *x, (ty.size() as usize).min(8))?; if let Ty::Arr(..) | Ty::Struct(..) = ty { return Err(End::Unsupported("scalar stored as aggregate".into())); } }
            V::E(e) => {
                let n = ty.size() as u32;
                let mut e = *e;
                if self.ar.w(e) < 8 * n { e = self.ar.zext(e, 8 * n); }
                for i in 0..n {
                    let b = self.ar.extract(e, 8 * i + 7, 8 * i);
                    match self.ar.cv(b) { Some(x) => st.mem.write(a + i as u64, x, 1)?, None => st.mem.write_sym(a + i as u64, b, e)? }
                }
            }
            V::A(vs) => {
                if let Ty::Int(_) = ty {
                    for k in 0..2 { self.store(st, a + 8 * k as u64, &Ty::Int(64), &vs[k])?; }
                    return Ok(());
                }
                if let Ty::Vec(n, t) = ty { if let Ty::Int(1) = **t {
                    let mut r = 0u64;
                    for (k, x) in vs.iter().enumerate() { r |= self.conc_v(st, x, "mask")? << k; }
                    st.mem.write(a, r, ((n + 7) / 8) as usize)?;
                    return Ok(());
                } }
                for (k, x) in vs.iter().enumerate() { let o = ty.offset(k as u64); self.store(st, a + o, ty.elem(k as u64), x)?; }
            }
        }
        Ok(())
    }
    pub fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(b) if *b > 64 => Ok(V::A(vec![self.load(st, a, &Ty::Int(64))?, self.load(st, a + 8, &Ty::Int(64))?].into())),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.size() as usize;
                let bits = ty.bits();
                match st.mem.read(a, n)? {
                    Some(x) => Ok(V::I(mask(x, bits))),
                    None => {
                        let mut bs = Vec::with_capacity(n);
                        for i in 0..n { let (c, s) = st.mem.byte(a + i as u64)?; bs.push(if s == 0 { self.ar.k(8, c as u64) } else { s }); }
                        let mut parts = vec![];
                        let mut i = 0;
                        while i < n {
                            let wd = st.mem.word(a + i as u64);
                            let mut k = 1;
                            let mut p = bs[i];
                            if wd != 0 {
                                let l = (self.ar.w(wd) / 8) as usize;
                                if l > 1 && i + l <= n && (0..l).all(|j| self.ar.extract(wd, 8 * j as u32 + 7, 8 * j as u32) == bs[i + j]) { k = l; p = wd; }
                            }
                            parts.push(p);
                            i += k;
                        }
                        let mut acc: Option<Ex> = None;
                        for b in parts.into_iter().rev() { acc = Some(match acc { None => b, Some(h) => self.ar.concat(h, b) }); }
                        let mut e = acc.unwrap();
                        if self.ar.w(e) > bits { e = self.ar.extract(e, bits - 1, 0); }
                        Ok(self.val(e))
                    }
                }
            }
            Ty::Arr(n, _) | Ty::Vec(n, _) => {
                let mut v = vec![];
                for k in 0..*n { v.push(self.load(st, a + ty.offset(k), ty.elem(k))?); }
                Ok(V::A(v.into()))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for k in 0..fs.len() as u64 { v.push(self.load(st, a + ty.offset(k), ty.elem(k))?); }
                Ok(V::A(v.into()))
            }
            t => Err(End::Unsupported(format!("load {:?}", t))),
        }
    }
    /// Load through a symbolic address: an if-then-else over the possible addresses when they are few.
    pub fn load_sym(&mut self, st: &mut State, p: Ex, ty: &Ty) -> R<V> {
        let sup = self.ar.support(p);
        if st.hash_mode & 2 == 0 && sup.len() == 1 && matches!(ty, Ty::Int(_) | Ty::F32) && ty.bits() <= 64 {
            let v = sup[0] as usize;
            if let Some(d) = st.dom[v] {
                let mut groups: Vec<(V, Vec<u64>)> = vec![];
                let mut model = vec![0u64; v + 1];
                let mut ok = true;
                for x in 0..256u64 {
                    if d[(x >> 6) as usize] & (1 << (x & 63)) == 0 { continue; }
                    model[v] = x;
                    let a = self.ar.eval(p, &model);
                    let val = match self.load(st, a, ty) { Ok(v) => v, Err(_) => { ok = false; break } };
                    let key = |v: &V| match v { V::I(x) => (0, *x), V::E(e) => (1, *e as u64), _ => (2, 0) };
                    if let Some(g) = groups.iter_mut().find(|g| key(&g.0) == key(&val)) { g.1.push(x); } else { groups.push((val, vec![x])); }
                    if groups.len() > 40 { ok = false; break; }
                }
                if ok && !groups.is_empty() {
                    groups.sort_by_key(|g| g.1.len());
                    let (last, rest) = groups.split_last().unwrap();
                    let w = ty.bits();
                    let mut r = self.ex(&last.0, w);
                    let var = st_var(st, v);
                    let vw = self.ar.w(var);
                    for (val, xs) in rest.iter().rev() {
                        let mut c = self.ar.k(1, 0);
                        for x in xs { let k = self.ar.k(vw, *x); let q = self.ar.eq(var, k); c = self.ar.or(c, q); }
                        let t = self.ex(val, w);
                        r = self.ar.ite(c, t, r);
                    }
                    return Ok(self.val(r));
                }
            }
        }
        let a = self.conc_v(st, &V::E(p), "load address")?;
        self.load(st, a, ty)
    }

    pub fn bin(&mut self, st: &mut State, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if w > 64 {
            let x = self.u128_of(st, a)?;
            let y = self.u128_of(st, b)?;
            let r = match op {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => x.checked_shl(y as u32).unwrap_or(0), BinOp::LShr => x.checked_shr(y as u32).unwrap_or(0), BinOp::AShr => ((x as i128) >> (y as u32).min(127)) as u128,
                BinOp::UDiv => x.checked_div(y).unwrap_or(0), BinOp::URem => x.checked_rem(y).unwrap_or(0),
                _ => return Err(End::Unsupported("i128 operation".into())),
            };
            return Ok(v128(r));
        }
        if let (V::I(x), V::I(y)) = (a, b) { return Ok(V::I(cbin(op, w, *x, *y))); }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match op {
            BinOp::Add => self.ar.add(x, y), BinOp::Sub => self.ar.sub(x, y), BinOp::Mul => self.ar.mul(x, y),
            BinOp::And => self.ar.and(x, y), BinOp::Or => self.ar.or(x, y), BinOp::Xor => self.ar.xor(x, y),
            BinOp::Shl => self.ar.shl(x, y), BinOp::LShr => self.ar.lshr(x, y), BinOp::AShr => self.ar.ashr(x, y),
            BinOp::UDiv => self.ar.div(O::UDiv, x, y), BinOp::SDiv => self.ar.div(O::SDiv, x, y), BinOp::URem => self.ar.div(O::URem, x, y), BinOp::SRem => self.ar.div(O::SRem, x, y),
        };
        Ok(self.val(r))
    }
    pub fn u128_of(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(x) => Ok(*x as u128),
            V::A(p) => { let l = self.conc_v(st, &p[0], "i128")?; let h = self.conc_v(st, &p[1], "i128")?; Ok(l as u128 | (h as u128) << 64) }
            V::E(_) => Ok(self.conc_v(st, v, "i128")? as u128),
        }
    }
    pub fn icmp(&mut self, st: &mut State, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        if w > 64 {
            let x = self.u128_of(st, a)?;
            let y = self.u128_of(st, b)?;
            let (sx, sy) = (x as i128, y as i128);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Ok(V::I(r as u64));
        }
        if let (V::I(x), V::I(y)) = (a, b) { return Ok(V::I(ccmp(p, w, *x, *y) as u64)); }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.icmp_e(p, x, y);
        Ok(self.val(r))
    }
    pub fn icmp_e(&mut self, p: Pred, x: Ex, y: Ex) -> Ex {
        match p {
            Pred::Eq => self.ar.eq(x, y), Pred::Ne => { let t = self.ar.eq(x, y); self.ar.not(t) }
            Pred::Ult => self.ar.ult(x, y), Pred::Ugt => self.ar.ult(y, x), Pred::Ule => self.ar.ule(x, y), Pred::Uge => self.ar.ule(y, x),
            Pred::Slt => self.ar.slt(x, y), Pred::Sgt => self.ar.slt(y, x), Pred::Sle => self.ar.sle(x, y), Pred::Sge => self.ar.sle(y, x),
        }
    }
    pub fn ite_v(&mut self, st: &mut State, c: Ex, a: &V, b: &V, ty: &Ty) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for k in 0..x.len() { let t = if let Ty::Int(_) = ty { Ty::Int(64) } else { ty.elem(k as u64).clone() }; r.push(self.ite_v(st, c, &x[k], &y[k], &t)?); }
                Ok(V::A(r.into()))
            }
            (V::I(x), V::I(y)) if x == y => Ok(V::I(*x)),
            _ => {
                if *ty == Ty::Ptr { return Ok(if self.branch(st, c)? { a.clone() } else { b.clone() }); }
                let w = ty.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                if *ty == Ty::F32 {
                    return match self.fite(c, x, y) { Some(e) => Ok(self.val(e)), None => Ok(if self.branch(st, c)? { a.clone() } else { b.clone() }) };
                }
                let r = self.ar.ite(c, x, y);
                Ok(self.val(r))
            }
        }
    }

    // ---------------------------------------------------------------- floats
    pub fn fite(&mut self, c: Ex, x: Ex, y: Ex) -> Option<Ex> {
        if x == y { return Some(x); }
        let (mut a, mut b) = (self.ar.as_fix(x)?, self.ar.as_fix(y)?);
        // the flag of a value that is never zero is free
        let (za, zb) = (self.may0(a.0), self.may0(b.0));
        if a.2 != b.2 { if !za { a.2 = b.2; } else if !zb { b.2 = a.2; } else { return None; } }
        let (p, q, fr) = self.ar.align_fix(a, b)?;
        let t = self.ar.ite(c, p, q);
        self.ar.ffix(t, fr, a.2)
    }
    pub fn may0(&mut self, n: Ex) -> bool { let r = self.ar.srange(n); r.0 <= 0 && r.1 >= 0 }
    pub fn is0(&mut self, n: Ex) -> Ex { let z = self.ar.k(32, 0); self.ar.eq(n, z) }
    pub fn fzero(&mut self, neg: bool) -> V { V::I(if neg { 0x8000_0000 } else { 0 }) }

    pub fn fbin(&mut self, st: &mut State, op: FOp, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
            let r = match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y };
            return Ok(V::I(r.to_bits() as u64));
        }
        if matches!(op, FOp::Mul | FOp::Div) {
            // products and quotients of values the path condition determines
            let (p, q) = (matches!(a, V::E(_)), matches!(b, V::E(_)));
            if (p && q) || (op == FOp::Div && q) {
                let same = matches!((a, b), (V::E(x), V::E(y)) if x == y);
                let a2 = self.settle(st, a);
                let b2 = if same { a2.clone() } else { self.settle(st, b) };
                let new = |x: &V, y: &V| matches!((x, y), (V::I(_), V::E(_)));
                if new(&a2, a) || new(&b2, b) { return self.fbin(st, op, &a2, &b2); }
            }
        }
        let x = self.ex(a, 32);
        let y = self.ex(b, 32);
        // huge constants absorb small fixed-point values
        if matches!(op, FOp::Add | FOp::Sub) {
            for (k, o, first) in [(x, y, true), (y, x, false)] {
                if let Some(c) = self.ar.cv(k) {
                    let f = f32::from_bits(c as u32);
                    if f.is_finite() && f.abs() >= 1e15 {
                        if self.ar.as_fix(o).is_some() { return Ok(V::I(if op == FOp::Sub && !first { (-f).to_bits() as u64 } else { c })); }
                    }
                }
            }
        }
        let (fa, fb) = (self.ar.as_fix(x), self.ar.as_fix(y));
        match op {
            FOp::Add | FOp::Sub => if let (Some(p), Some(q)) = (fa, fb) {
                let q = if op == FOp::Sub { (q.0, q.1, !q.2) } else { q };
                if let Some((n1, n2, fr)) = self.ar.align_fix(p, q) {
                    if p.2 && q.2 && self.may0(n1) && self.may0(n2) {
                        let z = self.is0(n1);
                        if self.branch(st, z)? {
                            // -0 + y
                            let n = if op == FOp::Sub { self.ar.neg(n2) } else { n2 };
                            if let Some(e) = self.ar.ffix(n, fr, true) { return Ok(self.val(e)); }
                        }
                    }
                    let n = if op == FOp::Add { self.ar.add(n1, n2) } else { self.ar.sub(n1, n2) };
                    if let Some(e) = self.ar.ffix(n, fr, false) { return Ok(self.val(e)); }
                }
            },
            FOp::Mul => if let (Some(p), Some(q)) = (fa, fb) {
                let (rp, rq) = (self.ar.srange(p.0), self.ar.srange(q.0));
                let m = (rp.0.abs().max(rp.1.abs()) as i128) * (rq.0.abs().max(rq.1.abs()) as i128);
                if m <= 1 << 24 {
                    let n = self.ar.mul(p.0, q.0);
                    let (zp, zq) = (self.may0(p.0), self.may0(q.0));
                    if x == y || (!zp && !zq) { if let Some(e) = self.ar.ffix(n, p.1 + q.1, false) { return Ok(self.val(e)); } }
                    // the sign of a zero product
                    let (sp, sq) = (self.sign(p), self.sign(q));
                    if let (Some(s), Some(t)) = (sp, sq) { if let Some(e) = self.ar.ffix(n, p.1 + q.1, s != t) { return Ok(self.val(e)); } }
                    // a factor that is never zero and of one sign: only the other one's zero matters
                    for (u, v) in [(p, q), (q, p)] {
                        let r = self.ar.srange(u.0);
                        if r.0 > 0 || r.1 < 0 { if let Some(e) = self.ar.ffix(n, p.1 + q.1, v.2 != (r.1 < 0)) { return Ok(self.val(e)); } }
                    }
                    for (u, v) in [(p, q), (q, p)] {
                        if self.may0(u.0) {
                            let z = self.is0(u.0);
                            if self.branch(st, z)? {
                                let neg = match self.sign(v) { Some(s) => s, None => {
                                    let z = self.is0(v.0);
                                    if self.branch(st, z)? { v.2 } else { let z = self.ar.k(32, 0); let c = self.ar.slt(v.0, z); self.branch(st, c)? }
                                } };
                                return Ok(self.fzero(u.2 != neg));
                            }
                        }
                    }
                    if let Some(e) = self.ar.ffix(n, p.1 + q.1, false) { return Ok(self.val(e)); }
                }
            },
            FOp::Div => if let Some(p) = fa {
                if let Some(c) = self.ar.cv(y) {
                    let f = f32::from_bits(c as u32);
                    if f.is_finite() && f != 0.0 && f.abs().log2().fract() == 0.0 {
                        let sh = f.abs().log2() as i32;
                        if sh.abs() <= 30 {
                            let (mut n, mut z) = (p.0, p.2);
                            if f < 0.0 { n = self.ar.neg(n); z = !z; }
                            if let Some(e) = self.ar.ffix(n, p.1 + sh, z) { return Ok(self.val(e)); }
                        }
                    }
                }
            },
            FOp::Rem => {
                let c = self.conc_v(st, a, "float remainder")?;
                let d = self.conc_v(st, b, "float remainder")?;
                return Ok(V::I((f32::from_bits(c as u32) % f32::from_bits(d as u32)).to_bits() as u64));
            }
        }
        let o = match op { FOp::Add => O::FAdd, FOp::Sub => O::FSub, FOp::Mul => O::FMul, _ => O::FDiv };
        let e = self.ar.fgen(o, x, y);
        Ok(self.val(e))
    }
    /// Sign bit of a fixed-point value when it is the same for all values (zero included).
    pub fn sign(&mut self, p: (Ex, i32, bool)) -> Option<bool> {
        let r = self.ar.srange(p.0);
        if r.0 > 0 { Some(false) } else if r.1 < 0 { Some(true) } else if r.0 == 0 && !p.2 { Some(false) } else if r.1 == 0 && p.2 { Some(true) } else { None }
    }
    pub fn fneg(&mut self, a: &V) -> V {
        match a {
            V::I(x) => V::I(x ^ 0x8000_0000),
            V::E(e) => {
                let n = self.ar.n[*e as usize];
                if n.op == O::FFix || n.op == O::FFixN {
                    let m = self.ar.neg(n.a);
                    if let Some(r) = self.ar.ffix(m, n.b as i32, n.op == O::FFix) { return self.val(r); }
                }
                if let Some((m, fr, z)) = self.ar.as_fix(*e) {
                    let m = self.ar.neg(m);
                    if let Some(r) = self.ar.ffix(m, fr, !z) { return self.val(r); }
                }
                let k = self.ar.k(32, 0x8000_0000);
                let r = self.ar.xor(*e, k);
                self.val(r)
            }
            _ => panic!(),
        }
    }
    /// bits: 1 eq, 2 lt, 4 gt, 8 unordered
    pub fn fcmp(&mut self, st: &mut State, p: u8, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            return Ok(V::I(fcmp_c(p, f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)));
        }
        let x = self.ex(a, 32);
        let y = self.ex(b, 32);
        let (fa, fb) = (self.ar.as_fix(x), self.ar.as_fix(y));
        if let (Some(u), Some(v)) = (fa, fb) {
            if let Some((n1, n2, _)) = self.ar.align_fix(u, v) { let r = self.cmp_ints(p, n1, n2); return Ok(self.val(r)); }
        }
        // fixed-point value against a constant that is none
        for (k, o, first) in [(x, fb, true), (y, fa, false)] {
            if let (Some(c), Some(fx)) = (self.ar.cv(k), o) {
                let f = f32::from_bits(c as u32);
                if f.is_nan() { return Ok(V::I((p & 8 != 0) as u64)); }
                let r = self.ar.srange(fx.0);
                let sc = 2f64.powi(-fx.1);
                let (lo, hi) = (r.0 as f64 * sc, r.1 as f64 * sc);
                let f = f as f64;
                if f > hi || f < lo { let (l, g) = if (f > hi) != first { (1, 0) } else { (0, 1) }; return Ok(V::I(((p & 2 != 0 && l == 1) || (p & 4 != 0 && g == 1)) as u64)); }
                // strictly between two representable neighbours: compare with floor
                if f.is_finite() {
                    let q = f / sc;
                    let fl = q.floor();
                    let k2 = self.ar.k(32, fl as i64 as u64);
                    if fl == q {
                        let r = if first { self.cmp_ints(p, k2, fx.0) } else { self.cmp_ints(p, fx.0, k2) };
                        return Ok(self.val(r));
                    }
                    let below = self.ar.sle(fx.0, k2); // value < f
                    let lt = if first { self.ar.not(below) } else { below };
                    let gt = self.ar.not(lt);
                    let f0 = self.ar.k(1, 0);
                    let u = if p & 2 != 0 { lt } else { f0 };
                    let v = if p & 4 != 0 { gt } else { f0 };
                    let r = self.ar.or(u, v);
                    return Ok(self.val(r));
                }
            }
        }
        if let Some(r) = self.mono_cmp(st, p, x, y)? { return Ok(self.val(r)); }
        if let Some(r) = self.sqrt_cmp(p, x, y) { return Ok(self.val(r)); }
        if let Some(r) = self.quot_cmp(st, p, x, y)? { return Ok(self.val(r)); }
        let z = self.fgen_cmp(p, x, y);
        Ok(self.val(z))
    }
    pub fn fgen_cmp(&mut self, p: u8, x: Ex, y: Ex) -> Ex {
        let ar = &mut self.ar;
        if p & 8 != 0 { let t = self.fgen_cmp(!p & 15, x, y); return self.ar.not(t); }
        match p {
            0 => ar.k(1, 0), 1 => ar.fgen(O::FEq, x, y), 2 => ar.fgen(O::FLt, x, y), 3 => ar.fgen(O::FLe, x, y), 4 => ar.fgen(O::FLt, y, x), 5 => ar.fgen(O::FLe, y, x),
            6 => { let u = ar.fgen(O::FLt, x, y); let v = ar.fgen(O::FLt, y, x); ar.or(u, v) }
            _ => { let u = ar.fgen(O::FEq, x, x); let v = ar.fgen(O::FEq, y, y); ar.and(u, v) }
        }
    }
    pub fn cmp_ints(&mut self, p: u8, x: Ex, y: Ex) -> Ex {
        if matches!(p & 7, 1..=6) {
            if let Some((s, g, k)) = self.ar.lin_diff(x, y) {
                let Some(s) = s else {
                    let b = match p & 7 { 1 => k == 0, 2 => k < 0, 3 => k <= 0, 4 => k > 0, 5 => k >= 0, _ => k != 0 };
                    return self.ar.k(1, b as u64);
                };
                // g s + k compared with 0
                let up_to = |ar: &mut Arena, m: i64| -> Ex { // s <= m
                    let r = ar.srange(s);
                    if m >= r.1 { return ar.k(1, 1); }
                    if m < r.0 { return ar.k(1, 0); }
                    let c = ar.k(32, (m + 1) as u64);
                    ar.slt(s, c)
                };
                let ar = &mut self.ar;
                // g s <= m
                let mut le = |ar: &mut Arena, m: i64| -> Ex {
                    if g > 0 { up_to(ar, m.div_euclid(g)) } else { // s >= ceil(m / g) = -floor(m / -g)
                        let t = up_to(ar, -m.div_euclid(-g) - 1);
                        ar.not(t)
                    }
                };
                return match p & 7 {
                    1 | 6 => {
                        let e = if k % g != 0 { ar.k(1, 0) } else {
                            let v = -k / g;
                            let r = ar.srange(s);
                            if v < r.0 || v > r.1 { ar.k(1, 0) } else { let c = ar.k(32, v as u64); ar.eq(s, c) }
                        };
                        if p & 7 == 1 { e } else { ar.not(e) }
                    }
                    2 => le(ar, -k - 1),
                    3 => le(ar, -k),
                    4 => { let t = le(ar, -k); ar.not(t) }
                    _ => { let t = le(ar, -k - 1); ar.not(t) }
                };
            }
        }
        match p & 7 {
            0 => self.ar.k(1, 0), 1 => self.ar.eq(x, y), 2 => self.ar.slt(x, y), 3 => self.ar.sle(x, y), 4 => self.ar.slt(y, x), 5 => self.ar.sle(y, x),
            6 => { let t = self.ar.eq(x, y); self.ar.not(t) }
            _ => self.ar.k(1, 1),
        }
    }
    /// numerator and denominator (fixed-point, scale shared) of a quotient node or a fixed-point value
    pub fn as_quot(&mut self, e: Ex) -> Option<(Ex, Ex, bool)> {
        let n = self.ar.n[e as usize];
        if n.op == O::FDiv {
            let a = self.ar.as_fix(n.a)?;
            let b = self.ar.as_fix(n.b)?;
            let (x, y, _) = self.ar.align_fix(a, b)?;
            return Some((x, y, true));
        }
        let a = self.ar.as_fix(e)?;
        if a.1 > 8 { return None; }
        let one = self.ar.k(32, 1u64 << a.1.max(0));
        if a.1 < 0 { return None; }
        Some((a.0, one, false))
    }
    /// n and f with value sqrt(n) * 2^-f
    fn as_sqrt(&mut self, e: Ex) -> Option<(Ex, i32)> {
        let n = self.ar.n[e as usize];
        if n.op != O::FSqrt { return None; }
        let (m, fr, _) = self.ar.as_fix(n.a)?;
        if fr % 2 != 0 { return None; }
        Some((m, fr / 2))
    }
    /// Comparison of correctly rounded square roots of integers below 2^22: sqrt(n) and an integer m < 2^11,
    /// or two such roots, differ by more than a rounding step when they differ.
    fn sqrt_cmp(&mut self, p: u8, x: Ex, y: Ex) -> Option<Ex> {
        let (sx, sy) = (self.as_sqrt(x), self.as_sqrt(y));
        if sx.is_none() && sy.is_none() { return None; }
        let fr = |s: &mut Self, e: Ex, q: &Option<(Ex, i32)>| -> Option<i32> { match q { Some(v) => Some(v.1), None => s.ar.as_fix(e).map(|v| v.1) } };
        let (fx, fy) = (fr(self, x, &sx)?, fr(self, y, &sy)?);
        let f = fx.max(fy);
        let mut side = |s: &mut Self, e: Ex, q: Option<(Ex, i32)>, own: i32| -> Option<Ex> {
            if f - own > 10 { return None; }
            let z = s.ar.k(32, 0);
            if let Some((n, _)) = q {
                let r = s.ar.srange(n);
                if r.0 < 0 || r.1 << (2 * (f - own)) >= 1 << 22 { return None; }
                let k = s.ar.k(32, 1 << (2 * (f - own)));
                return Some(s.ar.mul(n, k));
            }
            let m = s.ar.as_fix(e)?.0;
            let k = s.ar.k(32, 1 << (f - own));
            let r = s.ar.srange(m);
            if r.0 << (f - own) <= -2048 || r.1 << (f - own) >= 2048 { return None; }
            let m = s.ar.mul(m, k);
            let sq = s.ar.mul(m, m);
            if r.0 >= 0 { return Some(sq); }
            let neg = s.ar.slt(m, z);
            let minus = s.ar.k(32, -1i64 as u64);
            Some(s.ar.ite(neg, minus, sq))
        };
        let a = side(self, x, sx, fx)?;
        let b = side(self, y, sy, fy)?;
        if sx.is_none() && sy.is_none() { return None; }
        Some(self.cmp_ints(p, a, b))
    }
    /// Comparison of correctly rounded quotients of small integers by cross multiplication: for
    /// |numerators|, |denominators| < 2^11 two different quotients differ by more than a rounding step,
    /// so the rounded values compare as the exact ones do.
    pub fn quot_cmp(&mut self, st: &mut State, p: u8, x: Ex, y: Ex) -> R<Option<Ex>> {
        if let Some(r) = self.huge_cmp(p, x, y) { return Ok(Some(r)); }
        let (Some(a), Some(b)) = (self.as_quot(x), self.as_quot(y)) else { return Ok(None) };
        if !a.2 && !b.2 { return Ok(None); }
        if a.2 && b.2 {
            // one denominator, perhaps negated: quotients of integers below 2^21 compare as the numerators do
            let m = self.ar.neg(b.1);
            let n2 = if a.1 == b.1 { Some(b.0) } else if a.1 == m { Some(self.ar.neg(b.0)) } else { None };
            if let Some(n2) = n2 {
                let ok = [a.0, n2].iter().all(|e| { let r = self.ar.srange(*e); r.0 > -(1 << 21) && r.1 < 1 << 21 });
                if ok {
                    let z = self.ar.k(32, 0);
                    let c = self.ar.eq(a.1, z);
                    if self.branch(st, c)? { return Ok(None); }
                    let c = self.ar.slt(a.1, z);
                    let neg = self.branch(st, c)?;
                    return Ok(Some(if neg { self.cmp_ints(p, n2, a.0) } else { self.cmp_ints(p, a.0, n2) }));
                }
            }
        }
        // quotients against 0, 1 or -1: a quotient of integers below 2^21 that is not +-1 is further from it than a rounding step
        let mag = |s: &mut Self, e: Ex| { let r = s.ar.srange(e); (r.0 as i128).abs().max((r.1 as i128).abs()) };
        let unit = |s: &mut Self, q: &(Ex, Ex, bool)| !q.2 && match (s.ar.cv(q.0), s.ar.cv(q.1)) { (Some(n), Some(d)) => { let n = crate::ir::sext(n, 32); n == 0 || n.abs() as u64 == d } _ => false };
        let m: Vec<i128> = [a.0, a.1, b.0, b.1].iter().map(|e| mag(self, *e)).collect();
        let lim = 1i128 << 21;
        let near = (unit(self, &a) && m[2] < lim && m[3] < lim) || (unit(self, &b) && m[0] < lim && m[1] < lim);
        // two quotients x/y < u/v differ by at least 1/(y v), which exceeds a rounding step of x/y when x v < 2^22
        let (l, r) = (m[0] * m[3], m[2] * m[1]);
        if !(near || l.min(r) < 1 << 22) || l.max(r) >= 1 << 30 { return Ok(None); }
        let z = self.ar.k(32, 0);
        let mut neg = false;
        for q in [&a, &b] {
            let c = self.ar.eq(q.1, z);
            if self.branch(st, c)? { return Ok(None); } // division by zero: leave it to the float theory
            let c = self.ar.slt(q.1, z);
            if self.branch(st, c)? { neg = !neg; }
        }
        let l = self.ar.mul(a.0, b.1);
        let r = self.ar.mul(b.0, a.1);
        Ok(Some(if neg { self.cmp_ints(p, r, l) } else { self.cmp_ints(p, l, r) }))
    }
    /// A quotient with one symbolic operand against a constant: rounded division is monotone, so the values for which
    /// it is below, equal to or above the constant are intervals, found by bisection with the machine's own division.
    fn mono_cmp(&mut self, st: &mut State, p: u8, x: Ex, y: Ex) -> R<Option<Ex>> {
        let (q, k, p) = if self.ar.n[x as usize].op == O::FDiv { (x, y, p) } else { (y, x, p & 9 | (p & 2) << 1 | (p & 4) >> 1) };
        let n = self.ar.n[q as usize];
        let Some(k) = self.ar.cv(k) else { return Ok(None) };
        let k = f32::from_bits(k as u32);
        if n.op != O::FDiv || k.is_nan() { return Ok(None); }
        let (sym, con, num) = match (self.ar.cv(n.a), self.ar.cv(n.b)) { (None, Some(c)) => (n.a, c, true), (Some(c), None) => (n.b, c, false), _ => return Ok(None) };
        let c = f32::from_bits(con as u32);
        let Some((m, fr, _)) = self.ar.as_fix(sym) else { return Ok(None) };
        if !c.is_finite() || c == 0.0 { return Ok(None); }
        let (mut lo, mut hi) = self.ar.srange(m);
        if !num {
            // one sign of the denominator at a time
            if lo <= 0 && hi >= 0 {
                let z = self.is0(m);
                if self.branch(st, z)? { return Ok(None); }
                let zero = self.ar.k(32, 0);
                let t = self.cmp_ints(2, m, zero);
                if self.branch(st, t)? { hi = -1; } else { lo = 1; }
            }
        }
        let sc = 2f64.powi(-fr);
        let at = |v: i64| -> f32 { let s = (v as f64 * sc) as f32; if num { s / c } else { c / s } };
        // number of values from lo on for which f holds, f being true up to some value and false from there
        let first = |f: &dyn Fn(i64) -> bool| -> i64 { let (mut a, mut b) = (lo, hi + 1); while a < b { let m = a + (b - a) / 2; if f(m) { a = m + 1; } else { b = m; } } a };
        let up = if num { c > 0.0 } else { c < 0.0 };
        let (a, b) = if up { (first(&|v| at(v) < k), first(&|v| at(v) <= k)) } else { (first(&|v| at(v) > k), first(&|v| at(v) >= k)) };
        // [lo, a) before, [a, b) equal, [b, hi] after
        let (before, after) = if up { (p & 2, p & 4) } else { (p & 4, p & 2) };
        let (ka, kb) = (self.ar.k(32, a as u64), self.ar.k(32, b as u64));
        let lt_a = if a > hi { self.ar.k(1, 1) } else if a <= lo { self.ar.k(1, 0) } else { self.cmp_ints(2, m, ka) };
        let lt_b = if b > hi { self.ar.k(1, 1) } else if b <= lo { self.ar.k(1, 0) } else { self.cmp_ints(2, m, kb) };
        let (t, f) = (self.ar.k(1, 1), self.ar.k(1, 0));
        let pick = |x: u8| if x != 0 { t } else { f };
        let tail = self.ar.ite(lt_b, pick(p & 1), pick(after));
        Ok(Some(self.ar.ite(lt_a, pick(before), tail)))
    }
    /// Quotients of integers below 2^21 by the same constant c, 1 <= |c| <= f32::MAX (or its negative), compare as
    /// the integers do: they are at least 1/|c| apart, more than a rounding step (2^-149 among subnormals).
    /// Against 0 and (|c| >= 2^22) against 1 or beyond likewise.
    fn huge_cmp(&mut self, p: u8, x: Ex, y: Ex) -> Option<Ex> {
        let mut one = |s: &mut Self, e: Ex| -> Option<(Ex, i32, f32)> {
            let n = s.ar.n[e as usize];
            if n.op != O::FDiv { return None; }
            let c = f32::from_bits(s.ar.cv(n.b)? as u32);
            let (m, fr, _) = s.ar.as_fix(n.a)?;
            if !c.is_finite() || c.abs() < 4194304.0 || fr < 0 || fr > 8 { return None; }
            let m = if c < 0.0 { s.ar.neg(m) } else { m };
            let r = s.ar.srange(m);
            if r.0 <= -(1 << 21) || r.1 >= 1 << 21 { return None; }
            Some((m, fr, c.abs()))
        };
        let (a, b) = (one(self, x), one(self, y));
        match (a, b) {
            (Some(a), Some(b)) if a.2 == b.2 => {
                let (n, m, _) = self.ar.align_fix((a.0, a.1, false), (b.0, b.1, false))?;
                for e in [n, m] { let r = self.ar.srange(e); if r.0 <= -(1 << 21) || r.1 >= 1 << 21 { return None; } }
                Some(self.cmp_ints(p, n, m))
            }
            (Some(_), Some(_)) => None,
            _ => {
                let (q, o, first) = match (a, b) { (Some(q), None) => (q, y, true), (None, Some(q)) => (q, x, false), _ => return None };
                let c = f32::from_bits(self.ar.cv(o)? as u32);
                let z = self.ar.k(32, 0);
                let k = if c == 0.0 { z } else if c >= 1.0 { self.ar.k(32, 1 << 22) } else if c <= -1.0 { self.ar.k(32, -(1i64 << 22) as u64) } else { return None };
                Some(if first { self.cmp_ints(p, q.0, k) } else { self.cmp_ints(p, k, q.0) })
            }
        }
    }
    pub fn fminmax(&mut self, st: &mut State, max: bool, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (f, g) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
            let r = if f.is_nan() { *y } else if g.is_nan() { *x } else if f == g { if max == (x >> 31 == 0) { *x } else { *y } } else if (f > g) == max { *x } else { *y };
            return Ok(V::I(r));
        }
        for (k, o) in [(a, b), (b, a)] { if let V::I(c) = k { if f32::from_bits(*c as u32).is_nan() { return Ok(o.clone()); } } }
        let lt = match self.fcmp(st, 2, a, b)? { V::I(x) => self.ar.k(1, x), V::E(e) => e, _ => unreachable!() };
        let (x, y) = (self.ex(a, 32), self.ex(b, 32));
        let (t, e) = if max { (y, x) } else { (x, y) };
        if let (Some(fx), Some(fy)) = (self.ar.as_fix(x), self.ar.as_fix(y)) {
            if fx.2 == fy.2 || !(self.may0(fx.0) && self.may0(fy.0)) { if let Some(r) = self.fite(lt, t, e) { return Ok(self.val(r)); } }
        }
        // NaN cannot come from quotients with non-zero denominators; generic floats keep the theory's answer
        let r = if self.branch(st, lt)? { t } else { e };
        Ok(self.val(r))
    }
    pub fn fsqrt(&mut self, a: &V) -> V {
        match a {
            V::I(x) => V::I(f32::from_bits(*x as u32).sqrt().to_bits() as u64),
            V::E(e) => {
                let n = self.ar.n[*e as usize];
                if n.op == O::FFix && (n.b as i32) % 2 == 0 {
                    let m = self.ar.n[n.a as usize];
                    if m.op == O::Mul && m.a == m.b {
                        if let Some(r) = self.fabs_fix(m.a, n.b as i32 / 2) { return self.val(r); }
                    }
                }
                // 0 + x * x is x * x, and the root of a rounded square is exact
                let n = if n.op == O::FAdd && self.ar.cv(n.a) == Some(0) && self.ar.n[n.b as usize].op == O::FMul { self.ar.n[n.b as usize] }
                    else if n.op == O::FAdd && self.ar.cv(n.b) == Some(0) && self.ar.n[n.a as usize].op == O::FMul { self.ar.n[n.a as usize] } else { n };
                if n.op == O::FMul && n.a == n.b { if let Some((m, fr, _)) = self.ar.as_fix(n.a) { if let Some(r) = self.fabs_fix(m, fr) { return self.val(r); } } }
                let r = self.ar.fun1(O::FSqrt, *e);
                self.val(r)
            }
            _ => panic!(),
        }
    }
    pub fn fabs_fix(&mut self, m: Ex, fr: i32) -> Option<Ex> {
        let z = self.ar.k(32, 0);
        let c = self.ar.slt(m, z);
        let nm = self.ar.neg(m);
        let t = self.ar.ite(c, nm, m);
        self.ar.ffix(t, fr, false)
    }
}

pub fn st_var(st: &State, v: usize) -> Ex { st.vars_cache(v) }

impl State {
    pub fn vars_cache(&self, v: usize) -> Ex { self.vars[v] }
}

pub fn fcmp_c(p: u8, x: f64, y: f64) -> u64 {
    let k = if x.is_nan() || y.is_nan() { 8 } else if x == y { 1 } else if x < y { 2 } else { 4 };
    (p & k != 0) as u64
}
pub fn v128(x: u128) -> V { V::A(vec![V::I(x as u64), V::I((x >> 64) as u64)].into()) }

#[inline]
pub fn cbin(op: BinOp, w: u32, x: u64, y: u64) -> u64 {
    let r = match op {
        BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
        BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
        BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
        BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
        BinOp::AShr => (sext(x, w) >> y.min(63)) as u64,
        BinOp::UDiv => crate::expr::arith(O::UDiv, w, x, y), BinOp::SDiv => crate::expr::arith(O::SDiv, w, x, y),
        BinOp::URem => crate::expr::arith(O::URem, w, x, y), BinOp::SRem => crate::expr::arith(O::SRem, w, x, y),
    };
    mask(r, w)
}
#[inline]
pub fn ccmp(p: Pred, w: u32, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
        _ => { let (a, b) = (sext(x, w), sext(y, w)); match p { Pred::Sgt => a > b, Pred::Sge => a >= b, Pred::Slt => a < b, _ => a <= b } }
    }
}
