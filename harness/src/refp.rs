//! Reference reading of the documented grammar: a plain recursive descent parser, written
//! independently of the implementation, used as the oracle.

#[derive(Clone, PartialEq)]
pub enum T { Edge, Id(Vec<char>), Kw(u8), Ctl(char), Nl }
pub const KW: [&str; 7] = ["erd", "int", "uuid", "text", "timestamp", "PK", "FK"];
const ERD: u8 = 0;

#[derive(Clone, PartialEq)]
pub enum P { E(Vec<char>), F(Vec<char>, Vec<char>) }
#[derive(Clone, PartialEq)]
pub enum Entry { Ent(Vec<char>, Vec<(Vec<char>, u8, u8)>), Rel(P, P) }
pub struct Mod { pub name: Option<Vec<char>>, pub entries: Vec<Entry> }

fn start(c: char) -> bool { c == '_' || c.is_ascii_alphabetic() }
fn cont(c: char) -> bool { start(c) || c.is_ascii_digit() }

/// Tokens of the text or None for an unreadable text.
pub fn lex(s: &[char]) -> Option<Vec<T>> {
    let mut i = 0;
    let mut v = vec![];
    let n = s.len();
    while i < n {
        let c = s[i];
        if c == ' ' || c == '\t' { i += 1; continue; }
        if c == '/' {
            if i + 1 >= n || s[i + 1] != '/' { return None; }
            while i < n && s[i] != '\n' { i += 1; }
            continue;
        }
        if c == '\n' { v.push(T::Nl); i += 1; continue; }
        if c == '\r' {
            if i + 1 >= n || s[i + 1] != '\n' { return None; }
            v.push(T::Nl);
            i += 2;
            continue;
        }
        if c == '{' || c == '}' || c == ';' || c == '.' { v.push(T::Ctl(c)); i += 1; continue; }
        if c == 'o' && i + 3 < n && s[i + 1] == '-' && s[i + 2] == '-' && s[i + 3] == 'o' { v.push(T::Edge); i += 4; continue; }
        if c == '`' {
            let (w, j) = quoted(s, i)?;
            v.push(T::Id(w));
            i = j;
            continue;
        }
        if !start(c) { return None; }
        let b = i;
        while i < n && cont(s[i]) { i += 1; }
        v.push(word(&s[b..i]));
    }
    Some(v)
}

fn word(w: &[char]) -> T {
    for (k, kw) in KW.iter().enumerate() {
        if w.len() == kw.len() && kw.chars().zip(w.iter()).all(|(a, b)| a == *b) { return T::Kw(k as u8); }
    }
    T::Id(w.to_vec())
}

fn quoted(s: &[char], mut i: usize) -> Option<(Vec<char>, usize)> {
    let n = s.len();
    let mut w = vec![];
    i += 1;
    loop {
        if i >= n { return None; }
        let c = s[i];
        i += 1;
        if c == '`' { return Some((w, i)); }
        if c != '\\' { w.push(c); continue; }
        if i >= n { return None; }
        let e = s[i];
        i += 1;
        w.push(match e {
            '\\' | '/' | '"' | '`' => e,
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'u' => {
                if i + 4 > n { return None; }
                let mut x = 0u32;
                for k in 0..4 {
                    let h = s[i + k];
                    let d = match h { '0'..='9' => h as u32 - 48, 'a'..='f' => h as u32 - 87, 'A'..='F' => h as u32 - 55, _ => return None };
                    x = x * 16 + d;
                }
                i += 4;
                char::from_u32(x)?
            }
            _ => return None,
        });
    }
}

struct R<'a> { t: &'a [T], i: usize }
impl R<'_> {
    fn nl(&self) -> bool { self.i < self.t.len() && (self.t[self.i] == T::Nl || self.t[self.i] == T::Ctl(';')) }
    fn pad(&mut self) -> usize { let b = self.i; while self.nl() { self.i += 1; } self.i - b }
    fn ctl(&mut self, c: char) -> bool {
        if self.i < self.t.len() && self.t[self.i] == T::Ctl(c) { self.i += 1; true } else { false }
    }
    fn id(&mut self) -> Option<Vec<char>> {
        match self.t.get(self.i) { Some(T::Id(w)) => { self.i += 1; Some(w.clone()) } _ => None }
    }
    fn kw(&mut self, lo: u8, hi: u8) -> Option<u8> {
        match self.t.get(self.i) { Some(T::Kw(k)) if *k >= lo && *k <= hi => { self.i += 1; Some(*k) } _ => None }
    }
    fn path(&mut self) -> Option<P> {
        let a = self.id()?;
        if self.ctl('.') { Some(P::F(a, self.id()?)) } else { Some(P::E(a)) }
    }
    fn fields(&mut self) -> Option<Vec<(Vec<char>, u8, u8)>> {
        let mut v = vec![];
        self.pad();
        loop {
            if self.ctl('}') { return Some(v); }
            let n = self.id()?;
            let t = self.kw(1, 4)?;
            let k = self.kw(5, 6).unwrap_or(0);
            v.push((n, t, k));
            if self.pad() == 0 && self.t.get(self.i) != Some(&T::Ctl('}')) { return None; }
        }
    }
    fn entry(&mut self) -> Option<Entry> {
        let a = self.path()?;
        if let P::E(n) = &a {
            let at = self.i;
            self.pad();
            if self.ctl('{') { return Some(Entry::Ent(n.clone(), self.fields()?)); }
            self.i = at;
        }
        self.pad();
        if self.t.get(self.i) != Some(&T::Edge) { return None; }
        self.i += 1;
        self.pad();
        Some(Entry::Rel(a, self.path()?))
    }
    fn module(&mut self) -> Option<Mod> {
        self.pad();
        self.kw(ERD, ERD)?;
        self.pad();
        let name = self.id();
        self.pad();
        if !self.ctl('{') { return None; }
        let mut entries = vec![];
        self.pad();
        loop {
            if self.ctl('}') { break; }
            entries.push(self.entry()?);
            if self.pad() == 0 && self.t.get(self.i) != Some(&T::Ctl('}')) { return None; }
        }
        self.pad();
        if self.i == self.t.len() { Some(Mod { name, entries }) } else { None }
    }
}

pub fn read(s: &[char]) -> Option<Mod> {
    let t = lex(s)?;
    R { t: &t, i: 0 }.module()
}
