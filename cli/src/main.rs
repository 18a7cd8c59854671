//! C27: the command line tool; C28: the notebook output. Its main.rs is compiled into this crate as a module; the system calls it ends in
//! (read, write, open) are answered by `os` below, from symbolic input and into memory.
#[macro_use]
#[path = "../../harness/src/mac.rs"]
mod mac;
#[path = "../../harness/src/sym.rs"]
mod sym;
mod os;

mod tool {
    include!(concat!(env!("OUT_DIR"), "/tool.rs"));
    /// Runs the tool as the operating system would; true: it ends successfully.
    pub fn run() -> bool {
        use std::io::Write as _;
        let code = std::process::Termination::report(main());
        let _ = std::io::stdout().flush();
        code == std::process::ExitCode::SUCCESS
    }
}

use os::{Os, Out};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::parser::parse;
use seiren::renderer::{Renderer, SVGRenderer};

fn st(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
fn find(hay: &[u8], needle: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while i + needle.len() <= hay.len() { if hay[i] == needle[0] && &hay[i..i + needle.len()] == needle { return Some(i + needle.len()); } i += 1; }
    None
}
/// Line and column of the character at an offset, counted from 1, and those of the end of the line before when
/// the place is behind the text's last line break.
fn place(src: &str, at: usize) -> [(usize, usize); 2] {
    let (mut l, mut c, mut prev, mut n) = (1, 1, (1, 1), 0);
    for ch in src.chars() {
        if n == at { return [(l, c), (l, c)]; }
        n += 1;
        if ch == '\n' { prev = (l, c + 1); l += 1; c = 1; } else { c += 1; }
    }
    [(l, c), if c == 1 && l > 1 { prev } else { (l, c) }]
}
/// what the library gives for the text: the drawing and the places of the errors, in order
fn expected(src: &str) -> (Vec<u8>, Vec<usize>) {
    let (m, te, pe) = parse(src);
    let at: Vec<usize> = te.iter().map(|e| e.span().start).chain(pe.iter().map(|e| e.span().start)).collect();
    let mut out = vec![];
    if let Some(m) = m {
        let mut doc = m.into_mir();
        let mut e = SimpleLayoutEngine::new();
        let vb = e.place_nodes(&mut doc);
        e.place_terminal_ports(&mut doc);
        e.draw_edge_path(&mut doc);
        let mut r = SVGRenderer::new();
        r.view_box = vb;
        sym::check(r.render(&doc, &mut out).is_ok(), "an accepted text is drawn");
    }
    (out, at)
}
/// Judge a run on a text that was read completely.
fn judge(src: &str, name: &str, ok: bool, o: &Out) {
    let (svg, at) = expected(src);
    sym::check(o.out.len() == svg.len() && o.out == svg, "standard output is the drawing and nothing else");
    if at.is_empty() {
        sym::check(ok, "a text without errors succeeds");
        sym::check(o.err.is_empty(), "without errors nothing is reported");
        sym::reach("drawn");
        return;
    }
    let mut i = 0;
    for a in &at {
        let ps = place(src, *a);
        let tag = |p: (usize, usize)| format!("{name}:{}:{}", p.0, p.1).into_bytes();
        let mut hit = ps.iter().find_map(|p| find(&o.err, format!("╭─[{}]", st(tag(*p))).as_bytes(), i));
        for p in ps {
            if hit.is_some() { break; }
            let t = tag(p);
            let mut f = i;
            while let Some(k) = find(&o.err, &t, f) {
                if o.err.get(k).map_or(true, |c| !c.is_ascii_digit()) { hit = Some(k); break; }
                f = k;
            }
            if hit.is_some() { break; }
        }
        let Some(k) = hit else { sym::check(false, "every error is reported with its position, in order"); return };
        i = k;
    }
    sym::reach("reported");
}
fn cleaned(v: Vec<u8>) -> Vec<u8> { os::plain(v) }

/// the text given on standard input, in pieces
fn piped(src: Vec<u8>, chunk: usize) {
    sym::hash_mode(1);
    os::begin(Os { args: &["seiren"], stdin: &src, chunk, file: None, fail: 0 });
    let ok = tool::run();
    let mut o = os::end();
    o.err = cleaned(o.err);
    judge(&st(src), "(stdin)", ok, &o);
}
/// the text in a file, something else on standard input
fn named(src: Vec<u8>, chunk: usize, args: &'static [&'static str]) {
    sym::hash_mode(1);
    os::begin(Os { args, stdin: b"erd { other { } }", chunk, file: Some((args[1], &src)), fail: 0 });
    let ok = tool::run();
    let mut o = os::end();
    o.err = cleaned(o.err);
    judge(&st(src), args[1], ok, &o);
}
/// reading fails: nothing is drawn, the failure is reported
fn unread(args: &'static [&'static str], src: &[u8], fail: i32, file: bool) {
    sym::hash_mode(1);
    os::begin(Os { args, stdin: if file { b"" } else { src }, chunk: 5, file: if file { Some(("some.erd", src)) } else { None }, fail });
    let ok = tool::run();
    let o = os::end();
    sym::check(o.out.is_empty(), "nothing is drawn when reading fails");
    sym::check(!ok && !o.err.is_empty(), "failing to read is reported");
    sym::reach("unread");
}
fn text(parts: &[&str], n: usize) -> Vec<u8> {
    // n symbolic characters between the parts
    let mut v = parts[0].as_bytes().to_vec();
    for p in &parts[1..] { for _ in 0..n { v.push(sym::byte(0, 127)); } v.extend_from_slice(p.as_bytes()); }
    v
}
/// C28: display on standard output and judge what arrives there.
fn shown(svg: &[u8], display: impl FnOnce()) {
    os::begin(Os { args: &["x"], stdin: b"", chunk: 1, file: None, fail: 0 });
    display();
    { use std::io::Write as _; let _ = std::io::stdout().flush(); }
    let o = os::end();
    let mut want = b"EVCXR_BEGIN_CONTENT image/svg+xml\n".to_vec();
    want.extend_from_slice(svg);
    want.extend_from_slice(b"\nEVCXR_END_CONTENT\n");
    sym::check(o.out.len() == want.len() && o.out == want, "the drawing is printed unchanged between the two marker lines");
    sym::check(o.err.is_empty(), "nothing else is printed");
    sym::reach("shown");
}
/// what the renderer gives for the text's document is what is shown
fn notebook(src: Vec<u8>, times: usize) {
    use seiren::evcxr::CustomDisplay as _;
    sym::hash_mode(1);
    let src = st(src);
    let (m, te, pe) = parse(&src);
    sym::assume(te.is_empty() && pe.is_empty());
    let Some(m) = m else { return };
    let mut doc = m.into_mir();
    let mut e = SimpleLayoutEngine::new();
    let vb = e.place_nodes(&mut doc);
    e.place_terminal_ports(&mut doc);
    e.draw_edge_path(&mut doc);
    use seiren::geometry::{Point, Rect, Size};
    for _ in 0..times {
        let vb = match sym::choose(3) { 0 => None, 1 => vb, _ => Some(Rect::new(Point::new(-7.5, 2.25), Size::new(0.5, 12345.0))) };
        let mut svg = vec![];
        let mut r = SVGRenderer::new();
        r.view_box = vb;
        sym::check(r.render(&doc, &mut svg).is_ok(), "an accepted text is drawn");
        shown(&svg, || seiren::evcxr::draw_erd(&doc, vb).evcxr_display());
    }
}
fn given(n: usize, pad: usize) {
    use seiren::evcxr::CustomDisplay as _;
    let mut v: Vec<u8> = vec![b'<'; pad];
    for _ in 0..n { v.push(sym::byte(0, 127)); }
    v.resize(v.len() + pad, b'\n');
    shown(&v, || seiren::evcxr::SVGOutput::new(st(v.clone())).evcxr_display());
}
/// a small module or not quite one, something before and something after it
fn small(symbolic: bool) {
    let of = |l: &'static [&'static str]| l[sym::choose(l.len() as u32) as usize];
    let mut v = of(&["", "\n", "\n\n  ", "\r\n\t", "// é\n", "\u{feff}", ";;\n"]).as_bytes().to_vec();
    if symbolic { v.push(sym::byte(0, 127)); }
    v.extend_from_slice(of(&["erd { }", "erd{}", "erd a { a o--o b; }", "erd { b { } }", "erd\n\n{ é { x int } }", "erd { a { x int FK\ny in } }", "erd", "a"]).as_bytes());
    v.extend_from_slice(of(&["", "\n", " \t\n\n", "// é", "}\n\n", "$", "`"]).as_bytes());
    if sym::flag() { piped(v, 4) } else { named(v, 1000, FILE) }
}
const FULL: &str = "erd m {\n  a {\n    id int PK\n  }\n  b {\n    a_id int FK\n  }\n  a.id o--o b.a_id\n}\n";
/// one character of a module replaced, inserted or deleted anywhere
fn edited(src: &str, how: u32) -> Vec<u8> {
    let s = src.as_bytes();
    let k = sym::choose(s.len() as u32 + if how == 1 { 1 } else { 0 }) as usize;
    let mut v = s[..k].to_vec();
    if how < 2 { v.push(sym::byte(0, 127)); }
    v.extend_from_slice(&s[if how == 1 { k } else { k + 1 }..]);
    v
}
const FILE: &[&str] = &["seiren", "some.erd"];
const FILE2: &[&str] = &["seiren", "some.erd", "more"];

harnesses! {
    c27_any1 { piped(text(&["", ""], 1), 1) }
    c27_any2 { piped(text(&["", ""], 2), 7) }
    c27_any3 { named(text(&["", ""], 3), 2, FILE) }
    c27_any4 { piped(text(&["", ""], 4), 3) }
    c27_sub2 { let v = edited(FULL, 0); named(edited(&st(v), 0), 1000, FILE) }
    c27_empty { if sym::flag() { piped(vec![], 1) } else { named(vec![], 1, FILE) } }
    c27_hole { piped(text(&["erd {\n a { x ", " }\n}\n"], 2), 5) }
    c27_lines { named(text(&["erd {\n a { }\n", "\nb {\n"], 2), 64, FILE) }
    c27_sub { named(edited(FULL, 0), 1000, FILE) }
    c27_ins { piped(edited(FULL, 1), 30) }
    c27_del { piped(edited(FULL, 2), 1) }
    c27_cut { let n = sym::choose(FULL.len() as u32 + 1) as usize; named(FULL.as_bytes()[..n].to_vec(), 9, FILE2) }
    c27_noise { let mut v = b"erd {\n".to_vec(); for i in 0..30 { v.extend(format!(" t{i} {{ {}c int }} $\n", if i % 2 == 0 { "? " } else { "" }).into_bytes()); } v.push(sym::byte(33, 126)); v.extend_from_slice(b"\n}\n"); piped(v, 11) }
    c27_wide { let mut v = b"erd { a { c".to_vec(); v.extend("é∀𝔸".as_bytes()); v.push(sym::byte(0, 127)); v.extend_from_slice(b" int } }\n"); piped(v, 3) }
    c27_small { small(false) }
    c27_small2 { small(true) }
    c27_many { let mut v = b"erd {\n".to_vec(); for i in 0..40 { v.extend(format!(" t{i} {{ c int\n d {} }}\n", if i % 9 == 5 { "tex" } else { "uuid PK" }).into_bytes()); } v.push(sym::byte(0, 127)); v.extend_from_slice(b"}"); named(v, 100, FILE) }
    c27_missing { unread(&["seiren", "no.erd"], b"erd { }", 0, true) }
    c27_failing { unread(FILE, b"erd { a { } }", 1 + sym::choose(4) as i32, true) }
    c27_failing_in { unread(&["seiren"], b"erd { a { } }", 1 + sym::choose(4) as i32, false) }
    c28_given1 { given(sym::choose(2) as usize, 0) }
    c28_given3 { given(3, 2) }
    c28_given4 { given(4, 0) }
    c28_given6 { given(6, 0) }
    c28_given_long { given(2, 700 + 600 * sym::choose(3) as usize) }
    c28_names { let mut v = b"erd { `".to_vec(); for _ in 0..2 { v.push(sym::byte(0, 127)); } v.extend_from_slice(b"` { `"); v.push(sym::byte(0, 127)); v.extend_from_slice(b"` int } }"); notebook(v, 1) }
    c28_edited { notebook(edited(FULL, sym::choose(3)), 1) }
    c28_twice { notebook(FULL.as_bytes().to_vec(), 3) }
    c28_many { let mut v = b"erd {".to_vec(); let n = 4 * sym::choose(8); for i in 0..n { v.extend(format!(" t{i} {{ a int; `\u{e9}{i}` uuid FK }};").into_bytes()); } v.extend_from_slice(b" z { } }"); notebook(v, 1) }
    c27_not_utf8 { let file = sym::flag(); let mut v = b"erd { a { } }".to_vec(); let k = sym::choose(v.len() as u32) as usize; v[k] = sym::byte(0x80, 0xff); unread(if file { FILE } else { &["seiren"] }, &v, 0, file) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut t = TABLE.to_vec();
    if let (Ok(n), Ok(f)) = (std::env::var("SYM_NAME"), std::env::var("SYM_FILE")) { return replay(&t, &n, &f); }
    if a.len() == 4 && a[1] == "replay" {
        std::env::set_var("SYM_NAME", &a[2]);
        std::env::set_var("SYM_FILE", &a[3]);
        return replay(&t, &a[2], &a[3]);
    }
    t.sort();
    for (n, _) in t { println!("{}", n); }
}
fn replay(t: &[(&str, mac::H)], n: &str, f: &str) {
    let Some((_, h)) = t.iter().find(|x| x.0 == n) else { eprintln!("no harness {}", n); std::process::exit(9) };
    sym::load(f);
    h();
}
