//! C01-C06: source text -> module.
use crate::refp::{self, Entry, P};
use crate::sym;
use seiren::erd::{EntityFieldKey, EntityFieldType, EntityPath, Module, ModuleEntry};
use seiren::parser::parse;

/// A text with symbolic bytes.
pub struct Txt(pub Vec<u8>);
impl Txt {
    pub fn new() -> Txt { Txt(vec![]) }
    pub fn s(&mut self, s: &str) { self.0.extend_from_slice(s.as_bytes()); }
    /// n symbolic ASCII characters
    pub fn ascii(&mut self, n: usize) { for _ in 0..n { self.0.push(sym::byte(0, 127)); } }
    pub fn set(&mut self, set: &[u8], n: usize) { for _ in 0..n { self.0.push(sym::set(set)); } }
    /// one symbolic character of any UTF-8 length, every scalar value
    pub fn wide(&mut self) {
        let v = &mut self.0;
        let cont = || sym::byte(0x80, 0xbf);
        match sym::choose(9) {
            0 => v.push(sym::byte(0, 127)),
            1 => { v.push(sym::byte(0xc2, 0xdf)); v.push(cont()); }
            2 => { v.push(0xe0); v.push(sym::byte(0xa0, 0xbf)); v.push(cont()); }
            3 => { v.push(sym::byte(0xe1, 0xec)); v.push(cont()); v.push(cont()); }
            4 => { v.push(0xed); v.push(sym::byte(0x80, 0x9f)); v.push(cont()); }
            5 => { v.push(sym::byte(0xee, 0xef)); v.push(cont()); v.push(cont()); }
            6 => { v.push(0xf0); v.push(sym::byte(0x90, 0xbf)); v.push(cont()); v.push(cont()); }
            7 => { v.push(sym::byte(0xf1, 0xf3)); v.push(cont()); v.push(cont()); v.push(cont()); }
            _ => { v.push(0xf4); v.push(sym::byte(0x80, 0x8f)); v.push(cont()); v.push(cont()); }
        }
    }
    pub fn str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.0) } }
}

pub fn name_is(a: &str, b: &[char]) -> bool {
    let mut it = b.iter();
    for c in a.chars() {
        match it.next() { Some(d) if *d == c => {} _ => return false }
    }
    it.next().is_none()
}

fn path_is(a: &EntityPath, b: &P) -> bool {
    match (a, b) {
        (EntityPath::Entity(x), P::E(y)) => name_is(x, y),
        (EntityPath::Field(x, f), P::F(y, g)) => name_is(x, y) && name_is(f, g),
        _ => false,
    }
}

pub fn type_no(t: &EntityFieldType) -> u8 {
    match t { EntityFieldType::Int => 1, EntityFieldType::Uuid => 2, EntityFieldType::Text => 3, EntityFieldType::Timestamp => 4 }
}
pub fn key_no(k: Option<&EntityFieldKey>) -> u8 {
    match k { None => 0, Some(EntityFieldKey::PrimaryKey) => 5, Some(EntityFieldKey::ForeginKey) => 6 }
}

pub fn module_is(m: &Module, r: &refp::Mod) -> bool {
    match (m.name(), &r.name) {
        (None, None) => {}
        (Some(a), Some(b)) => if !name_is(a, b) { return false },
        _ => return false,
    }
    if m.entries().len() != r.entries.len() { return false; }
    m.entries().zip(r.entries.iter()).all(|(e, x)| match (e, x) {
        (ModuleEntry::EntityDefinition(d), Entry::Ent(n, fs)) => {
            name_is(d.name(), n) && d.fields().len() == fs.len() && d.fields().zip(fs.iter()).all(|(f, (fn_, t, k))| {
                name_is(f.name(), fn_) && type_no(f.field_type()) == *t && key_no(f.field_key()) == *k
            })
        }
        (ModuleEntry::EntityRelation(q), Entry::Rel(a, b)) => path_is(q.start_path(), a) && path_is(q.end_path(), b),
        _ => false,
    })
}

pub const TOTAL: u32 = 1;
pub const DRAW: u32 = 8;
pub const ACCEPT: u32 = 2;
pub const CONTENT: u32 = 4;

pub fn judge(t: &Txt, what: u32) {
    let src = t.str();
    let (m, e1, e2) = parse(src);
    let clean = e1.is_empty() && e2.is_empty();
    sym::note(m.is_some() as u64 + 2 * e1.len() as u64 + 16 * e2.len() as u64);
    if what & TOTAL != 0 {
        sym::check(m.is_some() || !clean, "a module or an error");
        let n = src.chars().count();
        for sp in e1.iter().map(|e| e.span()).chain(e2.iter().map(|e| e.span())) {
            sym::check(sp.start <= sp.end && sp.start <= n && sp.end <= n + 1, "error span inside the text");
        }
    }
    if what & DRAW != 0 && clean {
        match &m { Some(m) => crate::svg::draw_module(m), None => sym::check(false, "an accepted text gives a module") }
    }
    if what & (ACCEPT | CONTENT) == 0 { return; }
    let chars: Vec<char> = src.chars().collect();
    let r = refp::read(&chars);
    let ok = clean && m.is_some();
    if r.is_some() { sym::reach("accepted"); } else { sym::reach("rejected"); }
    if what & ACCEPT != 0 {
        if r.is_some() { sym::check(ok, "a text of the grammar is accepted"); } else { sym::check(!ok, "a text outside the grammar is rejected"); }
    }
    if what & CONTENT != 0 && ok {
        if let (Some(m), Some(r)) = (&m, &r) { sym::check(module_is(m, r), "the module is what was written"); }
    }
}


/// BASE with a window of `del` characters from a symbolic position replaced by `ins` symbolic characters.
fn window(base: &str, del: usize, ins: usize, what: u32) {
    let b = base.as_bytes();
    let at = sym::choose((b.len() + 1 - del) as u32) as usize;
    let mut t = Txt::new();
    t.0.extend_from_slice(&b[..at]);
    t.ascii(ins);
    t.0.extend_from_slice(&b[at + del..]);
    judge(&t, what);
}
fn hole(pre: &str, n: usize, post: &str, what: u32) {
    let mut t = Txt::new();
    t.s(pre);
    t.ascii(n);
    t.s(post);
    judge(&t, what);
}
/// the text up to a symbolic position, then n symbolic characters, then nothing
fn prefix(base: &str, n: usize, what: u32) {
    let b = base.as_bytes();
    let at = sym::choose(b.len() as u32 + 1) as usize;
    let mut t = Txt::new();
    t.0.extend_from_slice(&b[..at]);
    t.ascii(n);
    judge(&t, what);
}
/// a symbolic sequence of k tokens between pre and post
fn tokens(pre: &str, k: usize, post: &str, what: u32) {
    let mut t = Txt::new();
    t.s(pre);
    for _ in 0..k {
        t.s(" ");
        match sym::choose(6) {
            0 => t.set(b"{};.\naZ_", 1),
            1 => t.s("int"),
            2 => t.s("PK"),
            3 => t.s("o--o"),
            4 => t.s("erd"),
            _ => t.s("`q`"),
        }
    }
    t.s(post);
    judge(&t, what);
}

/// one symbolic token
fn token(t: &mut Txt) {
    t.s(" ");
    match sym::choose(5) {
        0 => t.set(b"{};.\naZ_", 1),
        1 => t.s(kw()),
        2 => t.s("o--o"),
        3 => t.s("`q`"),
        _ => t.s("\r\n"),
    }
    t.s(" ");
}
/// a token sequence with del tokens from a symbolic position replaced by ins symbolic ones
fn token_window(base: usize, del: usize, ins: usize, what: u32) {
    let toks = TOKS[base];
    let at = sym::choose((toks.len() + 1 - del) as u32) as usize;
    let mut t = Txt::new();
    for i in 0..=toks.len() {
        if i == at { for _ in 0..ins { token(&mut t); } }
        if i < toks.len() && (i < at || i >= at + del) { t.s(toks[i]); t.s(" "); }
    }
    judge(&t, what);
}
/// sizes around the powers of two where counters end
pub fn size(small: u32) -> u32 {
    let k = sym::choose(small + 4);
    if k < small { k } else { [64, 128, 257, 300][(k - small) as usize] }
}
/// symbolic at both ends, otherwise letters in turn
fn ends(t: &mut Txt, k: u32, n: u32, set: &[u8]) { if k == 0 || k + 1 == n { t.set(set, 1); } else { t.0.push(b'A' + (k % 26) as u8); } }
/// a module that is long in one dimension
fn long(kind: u32, what: u32) {
    let n = size(12);
    let mut t = Txt::new();
    t.s("erd ");
    match kind {
        0 => { t.s("{a{"); for k in 0..n { if k > 0 { t.s(["\n", ";"][(k & 1) as usize]); } ends(&mut t, k, n, b"aeiptuFP_Z"); t.s([" int", " uuid PK", " text FK", " timestamp"][(k & 3) as usize]); } t.s("}}"); }
        1 => { t.s("m{"); for k in 0..n { if k > 0 { t.s(";"); } ends(&mut t, k, n, b"aeo_Z"); if k & 3 == 3 { t.s(".x o--o y"); } else { t.s("{z int}"); } } t.s("}"); }
        2 => { t.s("x"); for k in 0..n { ends(&mut t, k, n, b"az09_Z"); } t.s("{}"); }
        3 => { t.s("`"); for k in 0..n { if k % 16 == 1 { t.s("\\u00e9"); } else if k % 16 == 2 { t.s("\\n"); } else { ends(&mut t, k, n, b"a {};.-/\n`"); } } t.s("`{}"); }
        4 => { t.s("//"); for k in 0..n { ends(&mut t, k, n, b"a{};.-/`\\\t"); } t.s("\n{}"); }
        5 => { for _ in 0..n { t.s("\n"); } t.s("{"); for _ in 0..n { t.s("; "); } t.s("a{}"); for _ in 0..n { t.s("\r\n"); } t.s("}"); for _ in 0..n { t.s("\t"); } }
        _ => { t.s("{"); for k in 0..n { t.s("//"); ends(&mut t, k, n, b"a{}"); t.s("\n"); } t.s("}"); }
    }
    judge(&t, what);
}

const SMALL: &str = "erd m{a{x int PK;y text};a.x o--o b}";
const BASE: &str = "erd m{\na {x int PK; y text} // c\n`b`{}\na.x o--o b}";
const LONG: &str = "// g\nerd G {\r\n users { id int PK; `n m` text }\n\n posts {\n id uuid FK // k\n t timestamp\n }\n users.id o--o posts\n posts.t\n o--o\n users\n}\n";
const IDCH: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
const IDST: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";

// --- C03
fn nm(t: &mut Txt) { t.set(IDST, 1); if sym::flag() { t.set(IDCH, 1); } }
fn field(t: &mut Txt) {
    t.set(IDST, 1);
    t.s(["", " int", " uuid", " text", " timestamp"][1 + sym::choose(4) as usize]);
    t.s(["", " PK", " FK"][sym::choose(3) as usize]);
}
fn rel_end(t: &mut Txt) { t.set(IDST, 1); if sym::flag() { t.s("."); t.set(IDST, 1); } }
fn entry(t: &mut Txt, fields: u32) {
    if sym::flag() {
        rel_end(t);
        t.s(" o--o ");
        rel_end(t);
    } else {
        t.set(IDST, 1);
        t.s(" {");
        let n = sym::choose(fields + 1);
        for k in 0..n { if k > 0 { t.s([";", "\n"][(k & 1) as usize]); } field(t); }
        t.s("}");
    }
}
fn entries(max: u32, fields: u32) {
    let mut t = Txt::new();
    t.s("erd ");
    if sym::flag() { nm(&mut t); }
    t.s("{");
    let n = sym::choose(max + 1);
    for k in 0..n { if k > 0 { t.s(";"); } entry(&mut t, fields); }
    t.s("}");
    judge(&t, CONTENT | ACCEPT);
}

// --- C04
/// all constructs: several columns of every type and key, relations of every kind, quoted names, both separators
const TOKS: [&[&str]; 6] = [
    &["\n", "erd", "m", "\n", "{", "\n", "a", "\n", "{", "x", "int", "PK", "\n", "y", "text", ";", "}", "\n", "b", "{", "}", ";", "a", ".", "x", "\n", "o--o", "\n", "b", "\n", "}", "\n"],
    &["erd", "{", "a", "{", "x", "int", "\n", "PK", "}", "\n", "}"],
    &["erd", "{", "a", "{", "}", "b", "{", "}", "\n", "}"],
    &["erd", "{", "a", "{", "x", "\n", "int", "}", "\n", "a", "o--o", "\n", "}"],
    &["erd", "`g h`", "{", "`a`", ".", "b", "\n", "o--o", "`a`", "\n", "}", ";"],
    &["erd", "g", "{", "u", "{", "id", "int", "PK", ";", "n", "text", "\n", "v", "uuid", "FK", "}", ";", "p", "\n", "{", "\n", "t", "timestamp", "\n", "}", "\n", "u", ".", "id", "o--o", "p", "\n", "p", ".", "t", "o--o", "u", ".", "v", ";", "p", "o--o", "p", "}", "\n"],
];
fn wordy(s: &str) -> bool { s.as_bytes()[0] == b'_' || s.as_bytes()[0].is_ascii_alphanumeric() }
pub fn same(a: &Module, b: &Module) -> bool {
    fn p(a: &EntityPath, b: &EntityPath) -> bool { a == b }
    a.name() == b.name() && a.entries().len() == b.entries().len() && a.entries().zip(b.entries()).all(|(x, y)| match (x, y) {
        (ModuleEntry::EntityDefinition(x), ModuleEntry::EntityDefinition(y)) => {
            x.name() == y.name() && x.fields().len() == y.fields().len() && x.fields().zip(y.fields()).all(|(f, g)| f.name() == g.name() && f.field_type() == g.field_type() && f.field_key() == g.field_key())
        }
        (ModuleEntry::EntityRelation(x), ModuleEntry::EntityRelation(y)) => p(x.start_path(), y.start_path()) && p(x.end_path(), y.end_path()),
        _ => false,
    })
}
fn meaning(a: &Txt, b: &Txt) {
    let (m, e1, e2) = parse(a.str());
    let (n, f1, f2) = parse(b.str());
    let oka = e1.is_empty() && e2.is_empty() && m.is_some();
    let okb = f1.is_empty() && f2.is_empty() && n.is_some();
    sym::note(oka as u64);
    sym::check(oka == okb, "spacing does not change whether a text is accepted");
    if oka { sym::reach("accepted"); } else { sym::reach("rejected"); }
    if let (true, Some(m), Some(n)) = (oka && okb, &m, &n) { sym::check(same(m, n), "spacing does not change the module"); }
}
/// a text and its variant at one symbolic gap
fn spacing(base: usize, kind: u32, k: usize) {
    let toks = TOKS[base];
    let at = sym::choose(toks.len() as u32 + (kind <= 1) as u32) as usize;
    let (mut a, mut b) = (Txt::new(), Txt::new());
    for i in 0..=toks.len() {
        if i > 0 { a.s(" "); b.s(" "); }
        if i == at {
            match kind {
                0 => {
                    // spaces, in place of the single one or on top of it
                    if i > 0 && (i == toks.len() || !(wordy(toks[i - 1]) && wordy(toks[i])) || k > 1) { b.0.pop(); }
                    b.set(b" \t", k);
                }
                1 => {
                    // a comment up to the end of the line
                    if i < toks.len() && toks[i] != "\n" { sym::assume(false); }
                    if i == toks.len() && toks[i - 1] == "\n" && sym::flag() { b.0.pop(); }
                    b.s("//");
                    for _ in 0..k { let c = sym::byte(0, 127); sym::assume(c != b'\n'); b.0.push(c); }
                }
                2 => { if toks[i] != "\n" { sym::assume(false); } b.s("\r"); }
                3 => { if toks[i] == "\n" { b.s("; "); a.s("\n "); a.s(""); } else if toks[i] == ";" { b.s("\n "); a.s("; "); } else { sym::assume(false); } }
                4 => { if toks[i] != "\n" && toks[i] != ";" { sym::assume(false); } for _ in 0..k { match sym::choose(3) { 0 => b.s("\n"), 1 => b.s("\r\n "), _ => b.s("\n\t") } } }
                _ => {
                    // a whole line comment between two lines
                    if toks[i] != "\n" { sym::assume(false); }
                    b.s("\n //");
                    for _ in 0..k { let c = sym::byte(0, 127); sym::assume(c != b'\n'); b.0.push(c); }
                }
            }
            if kind == 3 { continue; }
        }
        if i < toks.len() { a.s(toks[i]); b.s(toks[i]); }
    }
    meaning(&a, &b);
}
/// no spaces at all against single spaces
fn tight(base: usize) {
    let toks = TOKS[base];
    let (mut a, mut b) = (Txt::new(), Txt::new());
    for i in 0..toks.len() {
        if i > 0 { a.s(" "); if wordy(toks[i - 1]) && wordy(toks[i]) { b.set(b" \t", 1); } }
        a.s(toks[i]);
        b.s(toks[i]);
    }
    meaning(&a, &b);
}

// --- C05
const QPRE: [&str; 6] = ["erd `", "erd{`", "erd{a{`", "erd{a{};`", "erd{a.`", "erd{a o--o a.`"];
const QPOST: [&str; 6] = ["`{}", "`{}}", "` int}}", "` o--o a}", "` o--o a}", "`}"];
fn quoted(f: impl Fn(&mut Txt)) { let c = sym::choose(6) as usize; quoted_in(c, f) }
fn quoted_in(c: usize, f: impl Fn(&mut Txt)) {
    let mut t = Txt::new();
    t.s(QPRE[c]);
    f(&mut t);
    t.s(QPOST[c]);
    judge(&t, ACCEPT | CONTENT);
}

// --- C06
const WPRE: [&str; 7] = ["", "erd ", "erd{", "erd{a{", "erd{a{b ", "erd{a{b int ", "erd{a.a o--o "];
const WPOST: [&str; 7] = [" {}", "{}", "{}}", " int}}", "}}", "}}", "}"];
fn word_in(c: usize, f: impl Fn(&mut Txt)) {
    let mut t = Txt::new();
    t.s(WPRE[c]);
    f(&mut t);
    t.s(WPOST[c]);
    judge(&t, ACCEPT | CONTENT);
}
fn word(f: impl Fn(&mut Txt)) { let c = sym::choose(7) as usize; word_in(c, f) }
fn kw() -> &'static str { refp::KW[sym::choose(7) as usize] }

harnesses! {
    c01_ascii1 { hole("", 1, "", TOTAL) }
    c01_ascii2 { hole("", 2, "", TOTAL) }
    c01_ascii3 { hole("", 3, "", TOTAL) }
    c01_ascii4 { hole("", 4, "", TOTAL) }
    c01_ascii5 { hole("", 5, "", TOTAL) }
    c01_wide1 { let mut t = Txt::new(); t.wide(); judge(&t, TOTAL) }
    c01_wide2 { let mut t = Txt::new(); t.wide(); t.wide(); judge(&t, TOTAL) }
    c01_wide_in { let mut t = Txt::new(); t.s("erd{"); t.wide(); t.s("{}}"); judge(&t, TOTAL) }
    c01_wide_quoted { let mut t = Txt::new(); t.s("erd `"); t.wide(); t.set(b"`\\a", 1); t.s("{"); judge(&t, TOTAL) }
    c01_wide_end { let mut t = Txt::new(); t.s("erd{}"); t.wide(); t.ascii(1); judge(&t, TOTAL) }
    c01_wide_comment { let mut t = Txt::new(); t.s("erd{//"); t.wide(); t.s("\n"); t.ascii(1); judge(&t, TOTAL) }
    c01_prefix1 { prefix(LONG, 1, TOTAL) }
    c01_prefix2 { prefix(SMALL, 2, TOTAL) }
    c01_ins1 { window(LONG, 0, 1, TOTAL) }
    c01_sub1 { window(LONG, 1, 1, TOTAL) }
    c01_del { window(LONG, 1, 0, TOTAL) }
    c01_del3 { window(LONG, 3, 0, TOTAL) }
    c01_ins2 { window(SMALL, 0, 2, TOTAL) }
    c01_sub2 { window(SMALL, 2, 2, TOTAL) }
    c01_tok3 { tokens("erd", 3, "", TOTAL) }
    c01_tok4 { tokens("", 4, "", TOTAL) }

    c02_sub1 { window(BASE, 1, 1, ACCEPT) }
    c02_ins1 { window(BASE, 0, 1, ACCEPT) }
    c02_del1 { window(LONG, 1, 0, ACCEPT) }
    c02_del2 { window(LONG, 2, 0, ACCEPT) }
    c02_sub1_long { window(LONG, 1, 1, ACCEPT) }
    c02_ins1_long { window(LONG, 0, 1, ACCEPT) }
    c02_sub2 { window(SMALL, 2, 2, ACCEPT) }
    c02_ins2 { window(SMALL, 0, 2, ACCEPT) }
    c02_before { hole("", 2, "erd{}", ACCEPT) }
    c02_before3 { hole("", 3, "erd{}", ACCEPT) }
    c02_after { hole("erd{}", 2, "", ACCEPT) }
    c02_after3 { hole("erd{a{}}", 3, "", ACCEPT) }
    c02_name { hole("erd", 3, "{}", ACCEPT) }
    c02_module { hole("erd{", 3, "}", ACCEPT) }
    c02_module4 { hole("erd{", 4, "}", ACCEPT) }
    c02_entity { hole("erd{a{", 3, "}}", ACCEPT) }
    c02_column { hole("erd{a{x int", 3, "}}", ACCEPT) }
    c02_between { hole("erd{a{}", 3, "b{}}", ACCEPT) }
    c02_columns { hole("erd{a{x int", 2, "y text}}", ACCEPT) }
    c02_rel_end { hole("erd{a o--o b", 3, "}", ACCEPT) }
    c02_rel_mid { hole("erd{a ", 3, "--o b}", ACCEPT) }
    c02_rel_after { hole("erd{a{};a o--o", 2, "b}", ACCEPT) }
    c02_tok_top3 { tokens("", 3, "", ACCEPT) }
    c02_tok_module3 { tokens("erd {", 3, " }", ACCEPT) }
    c02_tok_module4 { tokens("erd {", 4, " }", ACCEPT) }
    c02_tok_module5 { tokens("erd {", 5, " }", ACCEPT) }
    c02_tok_entity3 { tokens("erd { a {", 3, " } }", ACCEPT) }
    c02_tok_entity4 { tokens("erd { a {", 4, " } }", ACCEPT) }
    c02_tok_rel3 { tokens("erd { a o--o", 3, " }", ACCEPT) }
    c02_tok_rel4 { tokens("erd { a o--o", 4, " }", ACCEPT) }
    c02_tok_second { tokens("erd { a { x int }", 3, " }", ACCEPT) }
    c02_tok_header { tokens("erd", 3, " }", ACCEPT) }
    c01_u4 { let mut t = Txt::new(); t.s("erd{`\\u"); t.ascii(2); t.set(b"09afAFgGzZ`\\{ ", 2); t.s("`{}}"); judge(&t, TOTAL) }
    c01_u_open { let mut t = Txt::new(); t.s("erd `\\u"); t.set(b"0dfg", 1); t.ascii(2); judge(&t, TOTAL) }
    c01_u_wide { let mut t = Txt::new(); t.s("erd `\\u00"); t.wide(); t.s("0` {}"); judge(&t, TOTAL) }
    c01_escape { let mut t = Txt::new(); t.s("erd `a\\"); t.wide(); t.ascii(1); t.s("{}"); judge(&t, TOTAL) }
    c01_tok_ins { token_window(5, 0, 1, TOTAL) }
    c01_tok_sub { token_window(5, 1, 1, TOTAL) }
    c01_tok_del2 { token_window(5, 2, 0, TOTAL) }
    c01_tok_sub2 { token_window(5, 2, 2, TOTAL) }
    c01_long { let k = sym::choose(7); long(k, TOTAL) }
    c02_tok_ins { token_window(5, 0, 1, ACCEPT) }
    c02_tok_sub { token_window(5, 1, 1, ACCEPT) }
    c02_tok_del1 { token_window(5, 1, 0, ACCEPT) }
    c02_tok_del2 { token_window(5, 2, 0, ACCEPT) }
    c02_tok_ins2 { token_window(5, 0, 2, ACCEPT) }
    c02_tok_sub2 { token_window(5, 2, 2, ACCEPT) }
    c02_tok_join { token_window(5, 2, 1, ACCEPT) }
    c02_long { let k = sym::choose(7); long(k, ACCEPT) }
    c03_tok_ins { token_window(5, 0, 1, CONTENT) }
    c03_tok_sub { token_window(5, 1, 1, CONTENT) }
    c03_tok_del2 { token_window(5, 2, 0, CONTENT) }
    c03_tok_ins2 { token_window(5, 0, 2, CONTENT) }
    c03_long { let k = sym::choose(7); long(k, CONTENT) }
    c05_long { long(3, CONTENT | ACCEPT) }
    c16_sub1 { window(SMALL, 1, 1, DRAW) }
    c16_ins1 { window(SMALL, 0, 1, DRAW) }
    c16_long_sub1 { window(LONG, 1, 1, DRAW) }
    c16_tok_module3 { tokens("erd {", 3, " }", DRAW) }
    c16_tok_module5 { tokens("erd {", 5, " }", DRAW) }
    c16_tok_entity3 { tokens("erd { a {", 3, " } }", DRAW) }
    c16_tok_rel3 { tokens("erd { a { x int }\n a o--o", 3, " }", DRAW) }
    c16_tok_ins { token_window(5, 0, 1, DRAW) }
    c16_tok_sub { token_window(5, 1, 1, DRAW) }
    c16_tok_del2 { token_window(5, 2, 0, DRAW) }
    c16_wide { let mut t = Txt::new(); t.s("erd { `"); t.wide(); t.s("` { x int PK }; `"); t.wide(); t.s("` o--o `"); t.wide(); t.s("`.x }"); judge(&t, DRAW) }
    c02_type { hole("erd{a{x ", 4, "}}", ACCEPT) }

    c03_entries1 { entries(1, 2) }
    c03_entries2 { entries(2, 1) }
    c03_entries3 { entries(3, 0) }
    c03_entries3f { entries(3, 1) }
    c03_fields3 { let mut t = Txt::new(); t.s("erd{a{"); for k in 0..3 { if k > 0 { t.s(";"); } field(&mut t); } t.s("}}"); judge(&t, CONTENT | ACCEPT) }
    c03_sub1 { window(LONG, 1, 1, CONTENT) }
    c03_ins1 { window(LONG, 0, 1, CONTENT) }
    c03_ins2 { window(SMALL, 0, 2, CONTENT) }
    c03_sub2 { window(SMALL, 2, 2, CONTENT) }
    c03_tok { tokens("erd { a { x int }\n", 4, " }", CONTENT) }

    c04_space1 { let b = sym::choose(6); spacing(b as usize, 0, 1) }
    c04_space2 { let b = sym::choose(6); spacing(b as usize, 0, 2) }
    c04_comment0 { let b = sym::choose(6); spacing(b as usize, 1, 0) }
    c04_comment1 { let b = sym::choose(6); spacing(b as usize, 1, 1) }
    c04_comment2 { let b = sym::choose(6); spacing(b as usize, 1, 2) }
    c04_comment3 { spacing(0, 1, 3) }
    c04_crlf { let b = sym::choose(6); spacing(b as usize, 2, 0) }
    c04_separator { let b = sym::choose(6); spacing(b as usize, 3, 0) }
    c04_newlines1 { let b = sym::choose(6); spacing(b as usize, 4, 1) }
    c04_newlines2 { let b = sym::choose(6); spacing(b as usize, 4, 2) }
    c04_line_comment0 { let b = sym::choose(6); spacing(b as usize, 5, 0) }
    c04_line_comment1 { let b = sym::choose(6); spacing(b as usize, 5, 1) }
    c04_line_comment2 { let b = sym::choose(6); spacing(b as usize, 5, 2) }
    c04_tight { let b = sym::choose(6); tight(b as usize) }

    c05_any1 { quoted(|t| t.ascii(1)) }
    c05_any2 { quoted(|t| t.ascii(2)) }
    c05_any3 { quoted_in(0, |t| t.ascii(3)) }
    c05_any4 { quoted_in(0, |t| t.ascii(4)) }
    c05_wide { quoted(|t| t.wide()) }
    c05_wide2 { quoted_in(1, |t| { t.wide(); t.wide() }) }
    c05_escape { quoted(|t| { t.s("a\\"); t.ascii(1); t.s("b") }) }
    c05_escapes { quoted_in(2, |t| { t.s("\\"); t.ascii(1); t.s("\\"); t.ascii(1) }) }
    c05_escape_wide { quoted_in(0, |t| { t.s("\\"); t.wide() }) }
    c05_u4 { quoted_in(0, |t| { t.s("\\u"); t.set(b"0123456789abcdefABCDEF", 4) }) }
    c05_u4_any { quoted_in(1, |t| { t.s("\\u"); t.ascii(2); t.set(b"09afAFgG`", 2) }) }
    c05_u5 { quoted_in(0, |t| { t.s("\\u00"); t.set(b"0123456789abcdefABCDEF", 2); t.ascii(1) }) }
    c05_u_short { quoted_in(0, |t| { t.s("\\u00"); t.ascii(1); }) }
    c05_surrogates { quoted_in(0, |t| { t.s("\\ud"); t.set(b"789abcdeABCDEF", 1); t.set(b"0fF", 2); t.s("\\u"); t.set(b"d0", 1); t.s("c00") }) }
    c05_keyword { quoted(|t| { t.s(kw()) }) }
    c05_open { let mut t = Txt::new(); t.s(QPRE[sym::choose(6) as usize]); t.ascii(2); judge(&t, ACCEPT | CONTENT) }
    c05_two { let mut t = Txt::new(); t.s("erd{`"); t.ascii(1); t.s("`.`"); t.ascii(1); t.s("` o--o `"); t.ascii(1); t.s("`}"); judge(&t, ACCEPT | CONTENT) }
    c05_adjacent { hole("erd{`a`", 2, "`b`{}}", ACCEPT | CONTENT) }

    c06_word1 { word(|t| t.set(IDCH, 1)) }
    c06_word2 { word(|t| t.set(IDCH, 2)) }
    c06_word3 { word(|t| t.set(IDCH, 3)) }
    c06_word4 { word_in(4, |t| t.set(IDCH, 4)) }
    c06_any3 { word_in(2, |t| t.ascii(3)) }
    c06_suffix { word(|t| { t.s(kw()); t.ascii(1) }) }
    c06_prefix { word(|t| { t.ascii(1); t.s(kw()) }) }
    c06_letter { word(|t| { let k = kw().as_bytes(); let i = sym::choose(k.len() as u32) as usize; for j in 0..k.len() { if i == j { t.ascii(1) } else { t.0.push(k[j]) } } }) }
    c06_cut { word(|t| { let k = kw(); let i = 1 + sym::choose(k.len() as u32) as usize; t.s(&k[..i - 1]); t.s(&k[i..]) }) }
    c06_pair { word(|t| { t.s(kw()); if sym::flag() { t.set(b"_0 a", 1) } t.s(kw()) }) }
    c06_field_pair { word_in(3, |t| { t.set(IDCH, 1); t.s(kw()); t.s(" "); t.s(kw()); t.set(IDCH, 1) }) }
}
