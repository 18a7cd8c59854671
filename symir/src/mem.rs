//! Copy-on-write paged memory with an optional symbolic overlay per byte, and a bump allocator.
use crate::ir::{Ex, Module};
use std::rc::Rc;

pub const PAGE: usize = 4096;
pub const HEAP_BASE: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x4000_0000;
pub const STACK_END: u64 = 0x4800_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PAGE],
    /// expression of each byte (0 = concrete) and of the word it was stored with
    pub s: Option<Box<[(Ex, Ex); PAGE]>>,
}

#[derive(Clone, Default)]
pub struct Mem {
    globals: Vec<Rc<Page>>,
    heap: Vec<Rc<Page>>,
    stack: Vec<Rc<Page>>,
    pub next: u64,
    free: Vec<Vec<u64>>,
    zero: Option<Rc<Page>>,
}

pub struct Fault(pub u64);

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let zero = Rc::new(Page { d: [0; PAGE], s: None });
        let n = (m.globals_end as usize + PAGE) / PAGE;
        let mut pages: Vec<Page> = (0..n).map(|_| Page { d: [0; PAGE], s: None }).collect();
        for (a, b) in &m.image {
            for (i, x) in b.iter().enumerate() {
                let k = *a as usize + i;
                pages[k / PAGE].d[k % PAGE] = *x;
            }
        }
        Mem { globals: pages.into_iter().map(Rc::new).collect(), heap: vec![], stack: vec![], next: HEAP_BASE, free: vec![vec![]; 64], zero: Some(zero) }
    }
    #[inline]
    fn page(&self, a: u64) -> Result<&Page, Fault> {
        if a >= STACK_BASE && a < STACK_END {
            self.stack.get(((a - STACK_BASE) >> 12) as usize).map(|p| &**p).or(self.zero.as_deref()).ok_or(Fault(a))
        } else if a >= HEAP_BASE && a < self.next {
            self.heap.get(((a - HEAP_BASE) >> 12) as usize).map(|p| &**p).ok_or(Fault(a))
        } else if a >= PAGE as u64 && a < HEAP_BASE {
            self.globals.get((a >> 12) as usize).map(|p| &**p).ok_or(Fault(a))
        } else {
            Err(Fault(a))
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let slot = if a >= STACK_BASE && a < STACK_END {
            let k = ((a - STACK_BASE) >> 12) as usize;
            while self.stack.len() <= k { let z = self.zero.clone().unwrap(); self.stack.push(z); }
            &mut self.stack[k]
        } else if a >= HEAP_BASE && a < self.next {
            &mut self.heap[((a - HEAP_BASE) >> 12) as usize]
        } else if a >= PAGE as u64 && a < HEAP_BASE {
            self.globals.get_mut((a >> 12) as usize).ok_or(Fault(a))?
        } else {
            return Err(Fault(a));
        };
        Ok(Rc::make_mut(slot))
    }
    /// Concrete little-endian read of n <= 8 bytes; Ok(None) when some byte is symbolic.
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = (a as usize) & (PAGE - 1);
        if o + n <= PAGE {
            let p = self.page(a)?;
            if let Some(s) = &p.s { if s[o..o + n].iter().any(|x| x.0 != 0) { return Ok(None); } }
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&p.d[o..o + n]);
            return Ok(Some(u64::from_le_bytes(b)));
        }
        let mut r = 0u64;
        for i in 0..n {
            match self.byte(a + i as u64)? { (x, 0) => r |= (x as u64) << (8 * i), _ => return Ok(None) }
        }
        Ok(Some(r))
    }
    /// (concrete value, expression or 0)
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, Ex), Fault> {
        let p = self.page(a)?;
        let o = (a as usize) & (PAGE - 1);
        Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o].0)))
    }
    pub fn word(&self, a: u64) -> Ex {
        let Ok(p) = self.page(a) else { return 0 };
        p.s.as_ref().map_or(0, |s| s[(a as usize) & (PAGE - 1)].1)
    }
    #[inline]
    pub fn write(&mut self, a: u64, v: u64, n: usize) -> Result<(), Fault> {
        let o = (a as usize) & (PAGE - 1);
        if o + n <= PAGE {
            let p = self.page_mut(a)?;
            p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.s { for x in &mut s[o..o + n] { *x = (0, 0); } }
            return Ok(());
        }
        for i in 0..n { self.write(a + i as u64, v >> (8 * i), 1)?; }
        Ok(())
    }
    pub fn write_sym(&mut self, a: u64, e: Ex, word: Ex) -> Result<(), Fault> {
        let p = self.page_mut(a)?;
        let o = (a as usize) & (PAGE - 1);
        p.d[o] = 0;
        p.s.get_or_insert_with(|| Box::new([(0, 0); PAGE]))[o] = (e, word);
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src { return Ok(()); }
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sym: Vec<(u64, (Ex, Ex))> = vec![];
        let mut i = 0;
        while i < n {
            let a = src + i;
            let o = (a as usize) & (PAGE - 1);
            let k = ((PAGE - o) as u64).min(n - i) as usize;
            let p = self.page(a)?;
            buf.extend_from_slice(&p.d[o..o + k]);
            if let Some(s) = &p.s { for j in 0..k { if s[o + j].0 != 0 { sym.push((i + j as u64, s[o + j])); } } }
            i += k as u64;
        }
        self.write_bytes(dst, &buf)?;
        for (i, (e, w)) in sym { self.write_sym(dst + i, e, w)?; }
        Ok(())
    }
    pub fn write_bytes(&mut self, dst: u64, b: &[u8]) -> Result<(), Fault> {
        let mut i = 0usize;
        while i < b.len() {
            let a = dst + i as u64;
            let o = (a as usize) & (PAGE - 1);
            let k = (PAGE - o).min(b.len() - i);
            let p = self.page_mut(a)?;
            p.d[o..o + k].copy_from_slice(&b[i..i + k]);
            if let Some(s) = &mut p.s { for x in &mut s[o..o + k] { *x = (0, 0); } }
            i += k;
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        let mut r = vec![];
        for i in 0..n { match self.byte(a + i) { Ok((b, 0)) => r.push(b), _ => return None } }
        Some(r)
    }
    pub fn bytes_lossy(&self, a: u64, n: u64) -> String {
        let r: Vec<u8> = (0..n.min(4000)).map(|i| match self.byte(a + i) { Ok((b, 0)) => b, _ => b'?' }).collect();
        String::from_utf8_lossy(&r).into_owned()
    }
    fn class(n: u64) -> usize { (64 - (n.max(16) - 1).leading_zeros()) as usize }
    pub fn alloc(&mut self, n: u64, al: u64, zero: bool) -> u64 {
        if n > 1 << 28 { return 0; }
        // a 16-byte header holds the size class; larger alignments are rare and never reused
        if al <= 16 {
            let c = Self::class(n + 16);
            if let Some(a) = self.free[c].pop() {
                if zero { let z = vec![0u8; n as usize]; let _ = self.write_bytes(a, &z); }
                let _ = self.write(a - 8, n, 8);
                return a;
            }
            let sz = if n + 16 > 4096 { (n + 31) & !15 } else { 1u64 << c };
            let a = self.next + 16;
            self.grow(self.next + sz);
            let _ = self.write(a - 16, if n + 16 > 4096 { 0 } else { c as u64 }, 8);
            let _ = self.write(a - 8, n, 8);
            return a;
        }
        let a = (self.next + 16 + al - 1) / al * al;
        self.grow((a + n + 15) & !15);
        let _ = self.write(a - 16, 0, 8);
        let _ = self.write(a - 8, n, 8);
        a
    }
    fn grow(&mut self, end: u64) {
        self.next = end;
        let k = ((end - HEAP_BASE) as usize + PAGE - 1) / PAGE;
        while self.heap.len() < k { let z = self.zero.clone().unwrap(); self.heap.push(z); }
    }
    pub fn size_of(&self, a: u64) -> u64 { match self.read(a - 8, 8) { Ok(Some(x)) => x, _ => 0 } }
    pub fn dealloc(&mut self, a: u64) {
        if a < HEAP_BASE + 16 { return; }
        if let Ok(Some(c)) = self.read(a - 16, 8) { if c > 0 && c < 64 { self.free[c as usize].push(a); } }
    }
    pub fn heap_used(&self) -> u64 { self.next - HEAP_BASE }
}
