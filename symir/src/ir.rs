//! Reader for the textual LLVM IR written by rustc: whole-program module -> compact functions.
use std::collections::HashMap;
use std::sync::Arc;

pub type Ex = u32;

/// A run-time value: a concrete integer / pointer / float bit pattern (at most 64 bits), a symbolic
/// expression, or an aggregate (struct, array, vector; i128 is the pair [low, high]).
#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    E(Ex),
    A(Arc<[V]>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other(String),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other(_) => 0,
            Ty::Int(b) => match *b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t { ((n + 7) / 8).max(1) } else { n * t.size() }
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !packed { o = align(o, f.align()); }
                    o += f.size();
                }
                if !packed { o = align(o, self.align()); }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(fs, false) => fs.iter().map(|f| f.align()).max().unwrap_or(1),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => self.size().max(1),
        }
    }
    pub fn offset(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed { o = align(o, f.align()); }
                    if k as u64 == i { return o; }
                    o += f.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(fs, _) => &fs[i as usize],
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(fs, _) => fs.len() as u64,
            _ => 1,
        }
    }
    /// Width in bits of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A((0..*n).map(|_| t.zero()).collect()),
            Ty::Struct(fs, _) => V::A(fs.iter().map(|t| t.zero()).collect()),
            Ty::Int(b) if *b > 64 => V::A(vec![V::I(0), V::I(0)].into()),
            _ => V::I(0),
        }
    }
}

pub fn align(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, FPTrunc, FPExt, UIToFP, SIToFP, FPToUI, FPToSI, Bit }

#[derive(Debug)]
pub struct Target {
    pub block: u32,
    pub moves: Box<[(u32, Op)]>,
}

#[derive(Clone, Copy, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Op),
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, lanes: u32, d: u32, a: Op, b: Op },
    FBin { op: FOp, dbl: bool, d: u32, a: Op, b: Op },
    FNeg { dbl: bool, d: u32, a: Op },
    ICmp { p: Pred, w: u32, lanes: u32, d: u32, a: Op, b: Op },
    FCmp { p: u8, dbl: bool, d: u32, a: Op, b: Op },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { d: u32, base: Op, off: i64, idx: Box<[(Op, i64, u32)]> },
    Cast { op: CastOp, from: u32, to: u32, lanes: u32, d: u32, a: Op },
    /// bitcast between vectors and scalars
    BitVec { d: u32, a: Op, from: Ty, to: Ty },
    Select { d: u32, c: Op, a: Op, b: Op, ty: Ty, lanes: u32 },
    Call { d: Option<u32>, callee: Callee, args: Box<[Op]>, rty: Ty, next: Option<Target> },
    Extract { d: u32, a: Op, path: Box<[u32]> },
    Insert { d: u32, a: Op, v: Op, path: Box<[u32]> },
    ExtractElt { d: u32, a: Op, i: Op },
    InsertElt { d: u32, a: Op, v: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, mask: Box<[i32]> },
    Alloca { d: u32, size: u64, n: Op, align: u64 },
    Rmw { d: u32, op: String, w: u32, p: Op, v: Op },
    CmpXchg { d: u32, w: u32, p: Op, c: Op, n: Op, isptr: bool },
    Move { d: u32, a: Op },
    Nop,
    Br(Target),
    CondBr { c: Op, t: Target, f: Target },
    Switch { c: Op, w: u32, cases: Box<[(u64, u32)]>, targets: Box<[Target]> },
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nargs: u32,
    pub blocks: Vec<Vec<I>>,
    pub kind: FnKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FnKind { Normal, Panic, F32Display, SipWrite, PanicAlloc }

pub struct Global {
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fn_index: HashMap<String, u32>,
    pub externs: Vec<String>,
    pub consts: Vec<V>,
    pub globals: HashMap<String, Global>,
    /// (address, bytes) of initial memory
    pub image: Vec<(u64, Vec<u8>)>,
    pub globals_end: u64,
}

pub const GLOBAL_BASE: u64 = 0x1_0000;
pub const FN_BASE: u64 = 0x7000_0000;
pub const EXT_BASE: u64 = 0x7800_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
    consts: Vec<V>,
    lastname: String,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; }
    }
    fn wsall(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1; }
    }
    fn peek(&self) -> u8 {
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; }
        if self.i < self.s.len() { self.i += 1; }
    }
    fn ctx(&self) -> String {
        let a = self.s[..self.i].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
        let b = (self.i + 200).min(self.s.len());
        format!("{:?} @ {:?}", String::from_utf8_lossy(&self.s[a..self.i.min(a + 400)]), String::from_utf8_lossy(&self.s[self.i..b]))
    }
    fn fail(&self, m: &str) -> ! {
        panic!("IR reader: {} near {}", m, self.ctx())
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c { self.i += 1; true } else { false }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) { self.fail(&format!("expected {:?}", c as char)); }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let k = self.i;
        let w = self.word();
        let e = self.i;
        self.i = k;
        let _ = e;
        w
    }
    fn kw(&mut self, w: &str) -> bool {
        if self.peek_word() == w { self.word(); true } else { false }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.peek() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' { self.i += 1; }
                }
                0 => self.fail("unbalanced"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let st = self.i;
        if self.peek() == b'-' { self.i += 1; }
        while self.peek().is_ascii_digit() { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap_or_else(|_| self.fail("number"))
    }
    fn is_type_start(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            _ => {
                let w = self.peek_word();
                (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(w, "ptr" | "void" | "float" | "double" | "metadata" | "label" | "half" | "fp128" | "token" | "x86_fp80" | "bfloat")
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b'}') { return Ty::Struct(v, false); }
                loop {
                    v.push(self.ty());
                    if !self.eat(b',') { break; }
                }
                self.expect(b'}');
                Ty::Struct(v, false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let mut v = vec![];
                    if self.eat(b'}') { self.expect(b'>'); return Ty::Struct(v, true); }
                    loop {
                        v.push(self.ty());
                        if !self.eat(b',') { break; }
                    }
                    self.expect(b'}');
                    self.expect(b'>');
                    return Ty::Struct(v, true);
                }
                let n = self.num() as u64;
                if self.word() != "x" { self.fail("x"); }
                let t = self.ty();
                self.expect(b'>');
                Ty::Vec(n, Box::new(t))
            }
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                if self.word() != "x" { self.fail("x"); }
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.types.get(&n) { Some(t) => t.clone(), None => self.fail("named type") }
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.peek_word() == "addrspace" { self.word(); self.skip_paren(); }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    _ if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    "" => self.fail("type"),
                    _ => Ty::Other(w.to_string()),
                }
            }
        }
    }
    /// Skip attribute words up to a value or type start.
    fn skip_attrs(&mut self, until_type: bool) {
        loop {
            self.ws();
            let c = self.peek();
            if !(c.is_ascii_alphabetic() || c == b'_') {
                if c == b'"' && !until_type { // string attribute
                    self.i += 1;
                    while self.peek() != b'"' { self.i += 1; }
                    self.i += 1;
                    continue;
                }
                return;
            }
            if until_type && self.is_type_start() { return; }
            let w = self.peek_word();
            if !until_type
                && matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "c" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "splat" | "sub" | "add" | "trunc" | "zext" | "bitcast" | "xor" | "mul" | "asm" | "blockaddress" | "addrspacecast" | "dso_local_equivalent" | "no_cfi")
            {
                return;
            }
            self.word();
            if w == "align" || w == "cc" {
                self.ws();
                if self.peek().is_ascii_digit() { self.num(); continue; }
            }
            if self.peek() == b'(' { self.skip_paren(); }
        }
    }
    fn wrap(v: i128, b: u32) -> V {
        if b > 64 {
            let u = v as u128;
            V::A(vec![V::I(u as u64), V::I((u >> 64) as u64)].into())
        } else {
            V::I(mask(v as u64, b))
        }
    }
    fn scalar_u(v: &V) -> u64 {
        match v { V::I(x) => *x, _ => panic!("scalar constant expected") }
    }
    /// Constant of a type.
    fn cval(&mut self, ty: &Ty) -> V {
        self.ws();
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                match self.gaddr.get(&n) { Some(a) => V::I(*a), None => self.fail(&format!("unknown global {}", n)) }
            }
            b'-' | b'+' | b'0'..=b'9' => {
                match ty {
                    Ty::F32 | Ty::F64 => {
                        if matches!(c, b'-' | b'+') && self.s[self.i + 1].is_ascii_alphabetic() {
                            self.i += 1;
                            let w = self.word().to_string();
                            let mut payload = None;
                            if self.eat(b'(') {
                                let st = self.i + 2;
                                while self.peek() != b')' { self.i += 1; }
                                payload = Some(u64::from_str_radix(std::str::from_utf8(&self.s[st..self.i]).unwrap(), 16).unwrap());
                                self.i += 1;
                            }
                            let (exp, q, sh) = if *ty == Ty::F32 { (0x7f80_0000u64, 1u64 << 22, 31) } else { (0x7ff0_0000_0000_0000, 1 << 51, 63) };
                            let bits = match w.as_str() {
                                "inf" => exp, "qnan" => exp | q, "nan" => exp | payload.unwrap_or(q) | q, "snan" => exp | payload.unwrap_or(1),
                                _ => self.fail("float constant"),
                            };
                            return V::I(bits | ((c == b'-') as u64) << sh);
                        }
                        if self.s[self.i] == b'0' && self.s[self.i + 1] == b'x' {
                            self.i += 2;
                            let st = self.i;
                            while self.peek().is_ascii_hexdigit() { self.i += 1; }
                            let bits = u64::from_str_radix(std::str::from_utf8(&self.s[st..self.i]).unwrap(), 16).unwrap();
                            return V::I(if *ty == Ty::F32 { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits });
                        }
                        let st = self.i;
                        while matches!(self.peek(), b'-' | b'+' | b'.' | b'e' | b'0'..=b'9') { self.i += 1; }
                        let f: f64 = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap();
                        V::I(if *ty == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() })
                    }
                    Ty::Int(b) => { let n = self.num(); Self::wrap(n, *b) }
                    _ => self.fail("numeric constant of odd type"),
                }
            }
            b'{' | b'[' | b'<' => {
                self.i += 1;
                let packed = c == b'<' && self.eat(b'{');
                let mut v = vec![];
                let close = if c == b'{' || packed { b'}' } else if c == b'[' { b']' } else { b'>' };
                if !self.eat(close) {
                    loop {
                        let t = self.ty();
                        v.push(self.cval(&t));
                        if !self.eat(b',') { break; }
                    }
                    self.expect(close);
                }
                if packed { self.expect(b'>'); }
                V::A(v.into())
            }
            _ => {
                if c == b'c' && self.s[self.i + 1] == b'"' {
                    self.i += 2;
                    let mut v = vec![];
                    loop {
                        let c = self.peek();
                        if c == b'"' { self.i += 1; break; }
                        if c == b'\\' && self.s[self.i + 1] == b'\\' {
                            v.push(V::I(b'\\' as u64));
                            self.i += 2;
                        } else if c == b'\\' {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(V::I(u64::from_str_radix(h, 16).unwrap()));
                            self.i += 3;
                        } else {
                            v.push(V::I(c as u64));
                            self.i += 1;
                        }
                    }
                    return V::A(v.into());
                }
                let w = self.word();
                match w {
                    "true" => V::I(1),
                    "false" | "null" => V::I(0),
                    "undef" | "poison" | "zeroinitializer" | "none" => ty.zero(),
                    // hexadecimal float forms such as f0x7FC00000
                    _ if w.starts_with("f0x") => {
                        let bits = u64::from_str_radix(&w[3..], 16).unwrap();
                        V::I(bits)
                    }
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.cval(&t);
                        self.expect(b')');
                        V::A((0..ty.count()).map(|_| v.clone()).collect())
                    }
                    "getelementptr" => {
                        self.skip_flags();
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.cval(&pt);
                        let mut addr = Self::scalar_u(&base);
                        let mut cur = t.clone();
                        let mut first = true;
                        while self.eat(b',') {
                            self.kw("inrange");
                            let it = self.ty();
                            let iv = self.cval(&it);
                            let k = sext(Self::scalar_u(&iv), it.bits());
                            if first {
                                addr = addr.wrapping_add((k as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                addr = addr.wrapping_add(cur.offset(k as u64));
                                cur = cur.elem(if matches!(cur, Ty::Struct(..)) { k as u64 } else { 0 }).clone();
                            }
                        }
                        self.expect(b')');
                        V::I(addr)
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "zext" | "bitcast" | "addrspacecast" => {
                        self.skip_flags();
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.cval(&t);
                        if self.word() != "to" { self.fail("to"); }
                        let t2 = self.ty();
                        self.expect(b')');
                        V::I(mask(Self::scalar_u(&v), t2.bits()))
                    }
                    "sub" | "add" | "xor" | "mul" => {
                        self.skip_flags();
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.cval(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.cval(&t2);
                        self.expect(b')');
                        let (a, b) = (Self::scalar_u(&a), Self::scalar_u(&b));
                        V::I(mask(match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b }, t.bits()))
                    }
                    _ => self.fail(&format!("constant {:?}", w)),
                }
            }
        }
    }
    fn skip_flags(&mut self) {
        loop {
            self.ws();
            let w = self.peek_word();
            if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inrange") {
                self.word();
                if w == "inrange" && self.peek() == b'(' { self.skip_paren(); }
            } else {
                return;
            }
        }
    }
    fn konst(&mut self, v: V) -> Op {
        match v {
            V::I(x) => Op::C(x),
            v => { self.consts.push(v); Op::K(self.consts.len() as u32 - 1) }
        }
    }
}

pub fn mask(v: u64, b: u32) -> u64 {
    if b >= 64 { v } else { v & ((1u64 << b) - 1) }
}
pub fn sext(v: u64, b: u32) -> i64 {
    if b >= 64 || b == 0 { v as i64 } else { ((v << (64 - b)) as i64) >> (64 - b) }
}

fn emit(ty: &Ty, v: &V, out: &mut [u8]) {
    match v {
        V::I(x) => {
            let n = ty.size() as usize;
            out[..n.min(8)].copy_from_slice(&x.to_le_bytes()[..n.min(8)]);
        }
        V::A(vs) => {
            if let Ty::Int(_) = ty {
                for k in 0..2 {
                    if let V::I(x) = &vs[k] { out[k * 8..k * 8 + 8].copy_from_slice(&x.to_le_bytes()); }
                }
                return;
            }
            for (k, x) in vs.iter().enumerate() {
                let o = ty.offset(k as u64) as usize;
                emit(ty.elem(k as u64), x, &mut out[o..]);
            }
        }
        V::E(_) => unreachable!(),
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nregs: u32,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.nregs;
        let r = *self.regs.entry(n).or_insert(k);
        if r == k { self.nregs += 1; }
        r
    }
}

fn classify(n: &str) -> FnKind {
    if n.contains("4core9panicking") || n.contains("4core5slice5index16slice_index_fail") || n.contains("3std9panicking11begin_panic") || n.contains("3std7process5abort") || n.ends_with("4core6option13unwrap_failed") || n.ends_with("4core6option13expect_failed") || n.ends_with("4core6result13unwrap_failed") || n.ends_with("16slice_error_fail") || n.ends_with("len_mismatch_fail") {
        return FnKind::Panic;
    }
    if n.contains("18handle_alloc_error") || n.contains("7raw_vec17capacity_overflow") || n.contains("7raw_vec12handle_error") {
        return FnKind::PanicAlloc;
    }
    if n.contains("3fmt5floatfNt") && n.ends_with("7Display3fmt") {
        return FnKind::F32Display;
    }
    if n.contains("4hash3sip") && n.contains("6Hasher5write") {
        return FnKind::SipWrite;
    }
    FnKind::Normal
}

pub fn parse(src: &[u8]) -> Module {
    let mut p = P { s: src, i: 0, types: HashMap::new(), gaddr: HashMap::new(), consts: vec![], lastname: String::new() };
    // --- pass 1: names and sizes
    let mut fn_names: Vec<String> = vec![];
    let mut externs: Vec<String> = vec![];
    let mut globals: HashMap<String, Global> = HashMap::new();
    let mut gpos: Vec<(usize, u64, Ty, String)> = vec![];
    let mut fpos: Vec<usize> = vec![];
    let mut aliases: Vec<(String, usize)> = vec![];
    let mut addr = GLOBAL_BASE;
    let mut in_fn = false;
    while p.i < src.len() {
        let c = p.peek();
        if in_fn {
            if c == b'}' { in_fn = false; }
            p.eol();
            continue;
        }
        match c {
            b'%' => {
                p.i += 1;
                let n = p.name();
                p.expect(b'=');
                if p.word() != "type" { p.fail("type def"); }
                if p.peek_word() != "opaque" {
                    let t = p.ty();
                    p.types.insert(n, t);
                }
                p.eol();
            }
            b'@' => {
                p.i += 1;
                let n = p.name();
                p.expect(b'=');
                let mut constant = false;
                let mut external = false;
                let mut alias = false;
                loop {
                    let w = p.word();
                    match w {
                        "global" => break,
                        "constant" => { constant = true; break }
                        "external" | "extern_weak" => external = true,
                        "alias" => { alias = true; break }
                        "" => p.fail("global"),
                        _ => { p.ws(); if p.peek() == b'(' { p.skip_paren(); } }
                    }
                }
                if alias {
                    aliases.push((n, p.i));
                    p.eol();
                    continue;
                }
                let t = p.ty();
                let pos = p.i;
                // alignment
                let ls = &src[pos..pos + src[pos..].iter().position(|c| *c == b'\n').unwrap_or(0)];
                let al = find_align(ls).unwrap_or(t.align()).max(1);
                addr = align(addr, al.max(8));
                let size = t.size();
                globals.insert(n.clone(), Global { addr, size, constant });
                p.gaddr.insert(n.clone(), addr);
                if !external { gpos.push((pos, addr, t, n)); }
                addr += size.max(1) + 16;
                p.eol();
            }
            b'd' => {
                let w = p.word();
                if w == "define" || w == "declare" {
                    let st = p.i;
                    while p.peek() != b'@' { p.i += 1; }
                    p.i += 1;
                    let n = p.name();
                    if w == "define" {
                        p.gaddr.insert(n.clone(), FN_BASE + 16 * fn_names.len() as u64);
                        fn_names.push(n);
                        fpos.push(st);
                        in_fn = true;
                    } else {
                        let a = if n == "__cxa_thread_atexit_impl" || n == "gettid" || n == "statx" { 0 } else { EXT_BASE + 16 * externs.len() as u64 };
                        p.gaddr.insert(n.clone(), a);
                        externs.push(n);
                    }
                }
                p.eol();
            }
            _ => p.eol(),
        }
    }
    for (n, pos) in aliases {
        p.i = pos;
        let _t = p.ty();
        p.expect(b',');
        let t2 = p.ty();
        let v = p.cval(&t2);
        p.gaddr.insert(n, P::scalar_u(&v));
    }
    // --- global images
    let mut image = vec![];
    for (pos, a, t, n) in &gpos {
        p.i = *pos;
        p.lastname = n.clone();
        let v = p.cval(t);
        let mut b = vec![0u8; t.size() as usize];
        emit(t, &v, &mut b);
        image.push((*a, b));
    }
    // --- functions
    let fn_index: HashMap<String, u32> = fn_names.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
    let ext_index: HashMap<String, u32> = externs.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
    let mut funcs = vec![];
    for (k, pos) in fpos.iter().enumerate() {
        p.i = *pos;
        funcs.push(parse_fn(&mut p, fn_names[k].clone(), &fn_index, &ext_index));
    }
    Module { funcs, fn_index, externs, consts: p.consts, globals, image, globals_end: addr }
}

fn find_align(l: &[u8]) -> Option<u64> {
    let s = std::str::from_utf8(l).ok()?;
    let k = s.rfind(", align ")?;
    let t = &s[k + 8..];
    let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
    t[..e].parse().ok()
}

fn parse_fn(p: &mut P, name: String, fns: &HashMap<String, u32>, exts: &HashMap<String, u32>) -> Func {
    let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
    while p.peek() != b'@' { p.i += 1; }
    p.i += 1;
    p.name();
    p.expect(b'(');
    let mut unnamed = 0;
    let mut nargs = 0;
    if !p.eat(b')') {
        loop {
            p.ws();
            if p.peek() == b'.' { p.i += 3; break; }
            p.ty();
            p.skip_attrs(false);
            p.expect(b'%');
            let n = p.name();
            if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
            cx.reg(n);
            nargs += 1;
            if !p.eat(b',') { break; }
        }
        p.expect(b')');
    }
    p.eol();
    let start = p.i;
    // collect labels
    let mut nblocks = 0u32;
    {
        let mut first = true;
        loop {
            let c = p.peek();
            if c == b'}' { break; }
            if c == b'\n' { p.i += 1; continue; }
            if c == b';' { p.eol(); continue; }
            if c != b' ' && c != b'\t' {
                let n = p.name();
                if p.peek() != b':' { p.fail("label"); }
                cx.blocks.insert(n, nblocks);
                nblocks += 1;
                first = false;
            } else if first {
                cx.blocks.insert(unnamed.to_string(), nblocks);
                nblocks += 1;
                first = false;
            }
            p.eol();
        }
    }
    p.i = start;
    // instructions; terminators' phi moves are fixed up afterwards
    let mut blocks: Vec<Vec<I>> = (0..nblocks).map(|_| vec![]).collect();
    // phis[block] = (dst, [(pred, op)])
    let mut phis: Vec<Vec<(u32, Vec<(u32, Op)>)>> = (0..nblocks).map(|_| vec![]).collect();
    let mut cur: i64 = -1;
    loop {
        let c = p.peek();
        if c == b'}' { p.eol(); break; }
        if c == b'\n' { p.i += 1; continue; }
        if c == b';' { p.eol(); continue; }
        if c != b' ' && c != b'\t' {
            let n = p.name();
            cur = cx.blocks[&n] as i64;
            p.eol();
            continue;
        }
        if cur < 0 { cur = 0; }
        p.ws();
        if p.peek() == b'#' || p.peek() == b';' { p.eol(); continue; }
        let ins = parse_ins(p, &mut cx, fns, exts, &mut phis[cur as usize]);
        match ins {
            I::Nop => {}
            i => blocks[cur as usize].push(i),
        }
        p.eol();
    }
    for b in 0..nblocks {
        let fix = |t: &mut Target| {
            let mut mv = vec![];
            for (d, ins) in &phis[t.block as usize] {
                let op = ins.iter().find(|(q, _)| *q == b).unwrap_or_else(|| panic!("phi without incoming in {}", name)).1;
                mv.push((*d, op));
            }
            t.moves = mv.into();
        };
        if let Some(i) = blocks[b as usize].last_mut() {
            match i {
                I::Br(t) => fix(t),
                I::CondBr { t, f, .. } => { fix(t); fix(f) }
                I::Switch { targets, .. } => for t in targets.iter_mut() { fix(t) },
                I::Call { next: Some(t), .. } => fix(t),
                _ => {}
            }
        }
    }
    let kind = classify(&name);
    Func { name, nregs: cx.nregs, nargs, blocks, kind }
}

fn operand(p: &mut P, cx: &mut FnCtx, ty: &Ty) -> Op {
    p.ws();
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        Op::R(cx.reg(n))
    } else if let Ty::Other(_) = ty {
        Op::C(0)
    } else {
        let v = p.cval(ty);
        p.konst(v)
    }
}

fn label(p: &mut P, cx: &FnCtx) -> Target {
    p.ws();
    if p.word() != "label" { p.fail("label expected"); }
    p.expect(b'%');
    let n = p.name();
    Target { block: cx.blocks[&n], moves: Box::new([]) }
}

fn lanes(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Vec(n, e) => (e.bits(), *n as u32),
        t => (t.bits(), 0),
    }
}

fn parse_ins(p: &mut P, cx: &mut FnCtx, fns: &HashMap<String, u32>, exts: &HashMap<String, u32>, phis: &mut Vec<(u32, Vec<(u32, Op)>)>) -> I {
    let mut dst: Option<u32> = None;
    let start = p.i;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = Some(cx.reg(n));
        p.expect(b'=');
    }
    let mut w = p.word();
    while matches!(w, "tail" | "musttail" | "notail") { w = p.word(); }
    let d = dst.unwrap_or(0);
    let bin = |w: &str| Some(match w {
        "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor,
        "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, _ => return None,
    });
    if let Some(op) = bin(w) {
        p.skip_flags();
        let t = p.ty();
        let a = operand(p, cx, &t);
        p.expect(b',');
        let b = operand(p, cx, &t);
        let (bw, l) = lanes(&t);
        return I::Bin { op, w: bw, lanes: l, d, a, b };
    }
    match w {
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.skip_flags();
            let t = p.ty();
            let a = operand(p, cx, &t);
            p.expect(b',');
            let b = operand(p, cx, &t);
            let op = match w { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            if !matches!(t, Ty::F32 | Ty::F64) { return I::Unsupported(format!("{} {:?}", w, t)); }
            I::FBin { op, dbl: t == Ty::F64, d, a, b }
        }
        "fneg" => {
            p.skip_flags();
            let t = p.ty();
            let a = operand(p, cx, &t);
            if !matches!(t, Ty::F32 | Ty::F64) { return I::Unsupported(format!("{} {:?}", w, t)); }
            I::FNeg { dbl: t == Ty::F64, d, a }
        }
        "icmp" => {
            p.skip_flags();
            let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => p.fail("icmp") };
            let t = p.ty();
            let a = operand(p, cx, &t);
            p.expect(b',');
            let b = operand(p, cx, &t);
            let (bw, l) = lanes(&t);
            I::ICmp { p: pr, w: bw, lanes: l, d, a, b }
        }
        "fcmp" => {
            p.skip_flags();
            // bit 0: eq, 1: lt, 2: gt, 3: unordered
            let pr = match p.word() { "false" => 0, "oeq" => 1, "ogt" => 4, "oge" => 5, "olt" => 2, "ole" => 3, "one" => 6, "ord" => 7, "ueq" => 9, "ugt" => 12, "uge" => 13, "ult" => 10, "ule" => 11, "une" => 14, "uno" => 8, "true" => 15, _ => p.fail("fcmp") };
            let t = p.ty();
            let a = operand(p, cx, &t);
            p.expect(b',');
            let b = operand(p, cx, &t);
            if !matches!(t, Ty::F32 | Ty::F64) { return I::Unsupported(format!("{} {:?}", w, t)); }
            I::FCmp { p: pr, dbl: t == Ty::F64, d, a, b }
        }
        "load" => {
            p.skip_flags();
            let ty = p.ty();
            p.expect(b',');
            p.ty();
            let a = operand(p, cx, &Ty::Ptr);
            I::Load { d, ty, p: a }
        }
        "store" => {
            p.skip_flags();
            let ty = p.ty();
            let v = operand(p, cx, &ty);
            p.expect(b',');
            p.ty();
            let a = operand(p, cx, &Ty::Ptr);
            I::Store { ty, v, p: a }
        }
        "getelementptr" => {
            p.skip_flags();
            let t = p.ty();
            p.expect(b',');
            p.ty();
            let base = operand(p, cx, &Ty::Ptr);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t;
            let mut first = true;
            while p.eat(b',') {
                p.ws();
                if p.peek() == b'!' { break; }
                let it = p.ty();
                let o = operand(p, cx, &it);
                let scale;
                if first {
                    scale = cur.size() as i64;
                    first = false;
                } else if let Ty::Struct(..) = cur {
                    let Op::C(k) = o else { p.fail("struct index") };
                    off += cur.offset(k) as i64;
                    cur = cur.elem(k).clone();
                    continue;
                } else {
                    cur = cur.elem(0).clone();
                    scale = cur.size() as i64;
                }
                match o {
                    Op::C(k) => off += sext(k, it.bits()) * scale,
                    o => idx.push((o, scale, it.bits())),
                }
            }
            I::Gep { d, base, off, idx: idx.into() }
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => {
            p.skip_flags();
            let t = p.ty();
            let a = operand(p, cx, &t);
            if p.word() != "to" { p.fail("cast to"); }
            let t2 = p.ty();
            let op = match w {
                "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt,
                "fptrunc" => CastOp::FPTrunc, "fpext" => CastOp::FPExt, "uitofp" => CastOp::UIToFP, "sitofp" => CastOp::SIToFP,
                "fptoui" => CastOp::FPToUI, "fptosi" => CastOp::FPToSI, _ => CastOp::Bit,
            };
            if op == CastOp::Bit && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
                return I::BitVec { d, a, from: t, to: t2 };
            }
            let op = if op == CastOp::Bit && t.bits() < t2.bits() { CastOp::ZExt } else if op == CastOp::Bit && t.bits() > t2.bits() { CastOp::Trunc } else { op };
            let (fw, l) = lanes(&t);
            let (tw, _) = lanes(&t2);
            I::Cast { op, from: fw, to: tw, lanes: l, d, a }
        }
        "select" => {
            p.skip_flags();
            let tc = p.ty();
            let c = operand(p, cx, &tc);
            p.expect(b',');
            let t = p.ty();
            let a = operand(p, cx, &t);
            p.expect(b',');
            p.ty();
            let b = operand(p, cx, &t);
            let l = if let Ty::Vec(n, _) = tc { n as u32 } else { 0 };
            I::Select { d, c, a, b, ty: t, lanes: l }
        }
        "phi" => {
            p.skip_flags();
            let t = p.ty();
            let mut v = vec![];
            loop {
                p.expect(b'[');
                let o = operand(p, cx, &t);
                p.expect(b',');
                p.expect(b'%');
                let n = p.name();
                p.expect(b']');
                v.push((cx.blocks[&n], o));
                if !p.eat(b',') { break; }
                p.ws();
                if p.peek() != b'[' { break; }
            }
            phis.push((d, v));
            I::Nop
        }
        "call" | "invoke" => {
            p.skip_attrs(true);
            let rty = p.ty();
            p.ws();
            if p.peek() == b'(' { p.skip_paren(); }
            p.ws();
            let callee = match p.peek() {
                b'@' => {
                    p.i += 1;
                    let n = p.name();
                    if let Some(k) = fns.get(&n) { Callee::Fn(*k) } else if let Some(k) = exts.get(&n) { Callee::Ext(*k) } else { p.fail("callee") }
                }
                b'%' => {
                    p.i += 1;
                    let n = p.name();
                    Callee::Ind(Op::R(cx.reg(n)))
                }
                _ if p.peek_word() == "asm" => {
                    return if p.ctx().contains("asm sideeffect \"\"") { // optimisation barrier: passes nothing through
                        I::Nop
                    } else { I::Unsupported("inline asm".into()) };
                }
                _ => { let v = p.cval(&Ty::Ptr); Callee::Ind(p.konst(v)) }
            };
            p.expect(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty();
                    if let Ty::Other(_) = t {
                        let mut dp = 0;
                        loop {
                            match p.peek() { b'(' => dp += 1, b')' if dp == 0 => break, b')' => dp -= 1, b',' if dp == 0 => break, 0 => p.fail("metadata"), _ => {} }
                            p.i += 1;
                        }
                        args.push(Op::C(0));
                    } else {
                        p.skip_attrs(false);
                        args.push(operand(p, cx, &t));
                    }
                    if !p.eat(b',') { break; }
                }
                p.expect(b')');
            }
            let mut next = None;
            if w == "invoke" {
                loop {
                    p.wsall();
                    if p.peek_word() == "to" { p.word(); break; }
                    if p.peek() == b'#' { p.i += 1; p.word(); continue; }
                    if p.peek() == b'[' { while p.peek() != b']' { p.i += 1; } p.i += 1; continue; }
                    p.skip_attrs(false);
                    if p.peek_word().is_empty() && p.peek() != b'#' && p.peek() != b'[' { p.i += 1; }
                }
                next = Some(label(p, cx));
                p.ws();
                if p.word() != "unwind" { p.wsall(); p.word(); }
                let _ = label(p, cx);
            }
            I::Call { d: if rty == Ty::Void { None } else { dst.or(None) }, callee, args: args.into(), rty, next }
        }
        "extractvalue" | "insertvalue" => {
            let t = p.ty();
            let a = operand(p, cx, &t);
            let mut v = Op::C(0);
            if w == "insertvalue" {
                p.expect(b',');
                let t2 = p.ty();
                v = operand(p, cx, &t2);
            }
            let mut path = vec![];
            while p.eat(b',') {
                p.ws();
                if p.peek() == b'!' { break; }
                path.push(p.num() as u32);
            }
            if w == "insertvalue" { I::Insert { d, a, v, path: path.into() } } else { I::Extract { d, a, path: path.into() } }
        }
        "extractelement" => {
            let t = p.ty();
            let a = operand(p, cx, &t);
            p.expect(b',');
            let t2 = p.ty();
            let i = operand(p, cx, &t2);
            I::ExtractElt { d, a, i }
        }
        "insertelement" => {
            let t = p.ty();
            let a = operand(p, cx, &t);
            p.expect(b',');
            let t2 = p.ty();
            let v = operand(p, cx, &t2);
            p.expect(b',');
            let t3 = p.ty();
            let i = operand(p, cx, &t3);
            I::InsertElt { d, a, v, i }
        }
        "shufflevector" => {
            let t = p.ty();
            let a = operand(p, cx, &t);
            p.expect(b',');
            p.ty();
            let b = operand(p, cx, &t);
            p.expect(b',');
            let mt = p.ty();
            let m = p.cval(&mt);
            let V::A(m) = m else { p.fail("mask") };
            let mask: Vec<i32> = m.iter().map(|x| P::scalar_u(x) as u32 as i32).collect();
            I::Shuffle { d, a, b, mask: mask.into() }
        }
        "alloca" => {
            p.kw("inalloca");
            let t = p.ty();
            let mut n = Op::C(1);
            let mut al = t.align();
            while p.eat(b',') {
                p.ws();
                if p.peek() == b'!' { break; }
                if p.kw("align") { al = p.num() as u64; continue; }
                let t2 = p.ty();
                n = operand(p, cx, &t2);
            }
            I::Alloca { d, size: t.size(), n, align: al.max(1) }
        }
        "atomicrmw" => {
            p.skip_flags();
            let op = p.word().to_string();
            p.ty();
            let a = operand(p, cx, &Ty::Ptr);
            p.expect(b',');
            let t = p.ty();
            let v = operand(p, cx, &t);
            I::Rmw { d, op, w: t.bits(), p: a, v }
        }
        "cmpxchg" => {
            p.skip_flags();
            p.ty();
            let a = operand(p, cx, &Ty::Ptr);
            p.expect(b',');
            let t = p.ty();
            let c = operand(p, cx, &t);
            p.expect(b',');
            p.ty();
            let n = operand(p, cx, &t);
            I::CmpXchg { d, w: t.bits(), p: a, c, n, isptr: t == Ty::Ptr }
        }
        "fence" => I::Nop,
        "freeze" => {
            let t = p.ty();
            let a = operand(p, cx, &t);
            I::Move { d, a }
        }
        "br" => {
            if p.peek_word() == "label" {
                I::Br(label(p, cx))
            } else {
                p.ty();
                let c = operand(p, cx, &Ty::Int(1));
                p.expect(b',');
                let t = label(p, cx);
                p.expect(b',');
                let f = label(p, cx);
                I::CondBr { c, t, f }
            }
        }
        "switch" => {
            let t = p.ty();
            let c = operand(p, cx, &t);
            p.expect(b',');
            let def = label(p, cx);
            p.expect(b'[');
            let mut cases = vec![];
            let mut targets = vec![def];
            loop {
                p.wsall();
                if p.peek() == b']' { p.i += 1; break; }
                p.ty();
                let v = p.cval(&t);
                p.expect(b',');
                let l = label(p, cx);
                let k = targets.iter().position(|x| x.block == l.block).unwrap_or_else(|| { targets.push(l); targets.len() - 1 });
                cases.push((P::scalar_u(&v), k as u32));
            }
            I::Switch { c, w: t.bits(), cases: cases.into(), targets: targets.into() }
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void { I::Ret(None) } else { I::Ret(Some(operand(p, cx, &t))) }
        }
        "unreachable" => I::Unreachable,
        "landingpad" => {
            // never executed: panics end a path
            p.eol();
            loop {
                let k = p.i;
                p.ws();
                let w = p.peek_word();
                if matches!(w, "cleanup" | "catch" | "filter") { p.eol(); } else { p.i = k; break; }
            }
            p.i -= 1; // leave a newline for the caller's eol()
            I::Unsupported("landingpad".into())
        }
        "resume" => I::Unreachable,
        _ => I::Unsupported(String::from_utf8_lossy(&p.s[start..(start + 60).min(p.s.len())]).into_owned()),
    }
}
