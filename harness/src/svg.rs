//! C16-C21, C26: the SVG drawing.
use crate::model::{end_path, fkey, ftype, letter, st};
use crate::place::{self, rows, tables};
use crate::sym;
use crate::text::Txt;
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::erd::{EntityDefinition, EntityField, EntityFieldType, EntityPath, EntityRelation, Module};
use seiren::error::BackendError;
use seiren::geometry::{Point, Rect, Size};
use seiren::layout::{LayoutEngine, RouteGraph, SimpleLayoutEngine};
use seiren::mir::{BadgeBuilder, Document, EdgeData, FieldShapeBuilder, NodeId, RecordShapeBuilder, ShapeKind, TextSpanBuilder};
use seiren::renderer::{Renderer, SVGRenderer};
use std::io::{self, Write};

// --- a small XML reader
pub struct El { pub name: String, pub attrs: Vec<(String, String)>, pub parent: usize, pub text: Vec<u32> }
impl El {
    pub fn get(&self, a: &str) -> Option<&str> { self.attrs.iter().find(|x| x.0 == a).map(|x| x.1.as_str()) }
    /// character data without the line breaks the writer puts around it
    fn inner(&self) -> &[u32] {
        let t = &self.text;
        if t.len() >= 2 && t[0] == 10 && t[t.len() - 1] == 10 { &t[1..t.len() - 1] } else { t }
    }
    fn says(&self, s: &str) -> bool { self.inner().len() == s.chars().count() && self.inner().iter().zip(s.chars()).all(|(a, b)| *a == b as u32) }
}
struct Rd<'a> { x: &'a [u8], i: usize }
impl Rd<'_> {
    fn at(&self, s: &str) -> bool { self.x[self.i..].starts_with(s.as_bytes()) }
    fn eat(&mut self, s: &str) -> Option<()> { if self.at(s) { self.i += s.len(); Some(()) } else { None } }
    fn space(&mut self) -> bool { let k = self.i; while self.i < self.x.len() && matches!(self.x[self.i], b' ' | b'\n' | b'\t' | b'\r') { self.i += 1; } self.i > k }
    fn name(&mut self) -> Option<String> {
        let k = self.i;
        while self.i < self.x.len() {
            let c = self.x[self.i];
            if c.is_ascii_alphabetic() || (self.i > k && (c.is_ascii_digit() || c == b'-' || c == b':')) { self.i += 1; } else { break; }
        }
        if self.i == k { None } else { String::from_utf8(self.x[k..self.i].to_vec()).ok() }
    }
    /// one character of content: a literal one XML allows, or a reference
    fn chr(&mut self) -> Option<u32> {
        let x = self.x;
        let b = *x.get(self.i)?;
        if b < 0x80 {
            self.i += 1;
            if b == b'&' {
                for (s, c) in [("amp;", '&'), ("lt;", '<'), ("gt;", '>'), ("quot;", '"'), ("apos;", '\'')] {
                    if self.at(s) { self.i += s.len(); return Some(c as u32); }
                }
                self.eat("#")?;
                let mut n = 0u32;
                let k = self.i;
                let hex = self.eat("x").is_some();
                while let Some(d) = self.x.get(self.i).and_then(|c| (*c as char).to_digit(if hex { 16 } else { 10 })) { n = n.checked_mul(if hex { 16 } else { 10 })?.checked_add(d)?; self.i += 1; }
                if self.i == k { return None; }
                self.eat(";")?;
                return if allowed(n) { Some(n) } else { None };
            }
            if b == b'\r' { if x.get(self.i) == Some(&b'\n') { self.i += 1; } return Some(10); }
            return if (b >= 0x20) | (b == 9) | (b == 10) { Some(b as u32) } else { None };
        }
        let n = if b >= 0xf0 { 4 } else if b >= 0xe0 { 3 } else { 2 };
        if self.i + n > x.len() { return None; }
        let mut c = (b as u32) & (0x7f >> n);
        for k in 1..n { c = c << 6 | (x[self.i + k] as u32 & 0x3f); }
        self.i += n;
        if n == 3 && !allowed(c) { return None; }
        Some(c)
    }
}
/// is the character one XML 1.0 allows
fn allowed(c: u32) -> bool { (c == 9) | (c == 10) | (c == 13) | ((c >= 0x20) & (c < 0xd800)) | ((c >= 0xe000) & (c < 0xfffe)) | ((c >= 0x10000) & (c < 0x110000)) }
/// The elements of a well-formed document in document order, the root first.
pub fn read(x: &[u8]) -> Option<Vec<El>> {
    let mut r = Rd { x, i: 0 };
    let mut els: Vec<El> = vec![];
    let mut open: Vec<usize> = vec![];
    loop {
        if open.is_empty() {
            r.space();
            if r.i == x.len() { return if els.is_empty() { None } else { Some(els) }; }
            if !els.is_empty() { return None; }
        }
        if *x.get(r.i)? != b'<' {
            let o = *open.last()?;
            if r.at("]]>") { return None; }
            let c = r.chr()?;
            els[o].text.push(c);
            continue;
        }
        r.i += 1;
        if r.eat("/").is_some() {
            let n = r.name()?;
            r.space();
            r.eat(">")?;
            if els[open.pop()?].name != n { return None; }
            continue;
        }
        let mut e = El { name: r.name()?, attrs: vec![], parent: open.last().copied().unwrap_or(0), text: vec![] };
        loop {
            let sp = r.space();
            if r.eat("/>").is_some() { els.push(e); break; }
            if r.eat(">").is_some() { open.push(els.len()); els.push(e); break; }
            if !sp { return None; }
            let a = r.name()?;
            r.space();
            r.eat("=")?;
            r.space();
            let q = *x.get(r.i)?;
            if q != b'"' && q != b'\'' { return None; }
            r.i += 1;
            let mut v = vec![];
            while *x.get(r.i)? != q {
                if x[r.i] == b'<' { return None; }
                if x[r.i] == b'&' { let c = r.chr()?; v.extend(char::from_u32(c)?.to_string().into_bytes()); continue; }
                let k = r.i;
                r.chr()?;
                v.extend_from_slice(&x[k..r.i]);
            }
            r.i += 1;
            if e.attrs.iter().any(|p| p.0 == a) { return None; }
            e.attrs.push((a, st(v)));
        }
    }
}
/// A number in the drawing; symbolic ones are printed as references.
pub fn num(s: &str) -> f32 {
    if let Some(h) = s.strip_prefix('~') { return u32::from_str_radix(h, 16).map_or(f32::NAN, sym::float_ref); }
    s.parse().unwrap_or(f32::NAN)
}
/// Numbers and command letters of a path, a view box or a point list.
fn items(s: &str) -> Vec<(u8, f32)> {
    let b = s.as_bytes();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b',' { i += 1; continue; }
        if c.is_ascii_alphabetic() { out.push((c, 0.0)); i += 1; continue; }
        let k = i;
        if c == b'~' { i = (i + 9).min(b.len()); } else { i += 1; while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.') { i += 1; } }
        out.push((0, num(&s[k..i])));
    }
    out
}
fn numbers(s: &str) -> Option<Vec<f32>> { let v = items(s); if v.iter().all(|x| x.0 == 0) { Some(v.into_iter().map(|x| x.1).collect()) } else { None } }

// --- what the drawing has to show
fn attr(e: &El, a: &str) -> f32 { e.get(a).map_or(f32::NAN, num) }
fn hex(v: u8) -> u8 { if v < 10 { b'0' + v } else { b'A' + (v - 10) } }
fn coloured(e: &El, a: &str, c: &Option<WebColor>) -> bool {
    match (e.get(a), c) {
        (None, None) => true,
        (Some(s), Some(WebColor::Named(NamedColor::White))) => s == "white",
        (Some(s), Some(WebColor::Named(NamedColor::Black))) => s == "black",
        (Some(s), Some(WebColor::RGB(c))) => {
            let b = s.as_bytes();
            if b.len() != 7 || b[0] != b'#' { return false; }
            for (k, v) in [c.red, c.green, c.blue].iter().enumerate() {
                if b[1 + 2 * k] != hex(v >> 4) { return false; }
                if b[2 + 2 * k] != hex(v & 15) { return false; }
            }
            true
        }
        _ => false,
    }
}
fn is_rect(e: &El, r: &Rect) -> bool {
    (attr(e, "x") == r.origin.x) & (attr(e, "y") == r.origin.y) & (attr(e, "width") == r.size.width) & (attr(e, "height") == r.size.height)
}
fn svg(doc: &Document, vb: Option<Rect>, g: Option<&RouteGraph>) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    r.edge_route_graph = g;
    match r.render(doc, &mut out) { Ok(()) => Some(out), Err(_) => { sym::check(false, "a complete layout is rendered"); None } }
}
/// The drawing of a laid-out document, parsed.
pub fn drawn(doc: &Document, vb: Option<Rect>, g: Option<&RouteGraph>) -> Vec<El> {
    let els = svg(doc, vb, g).and_then(|x| read(&x));
    let Some(els) = els else { sym::check(false, "the drawing is well-formed"); return vec![] };
    sym::check(els.len() > 0 && els[0].name == "svg" && els[0].get("xmlns") == Some("http://www.w3.org/2000/svg"), "the drawing is an SVG document");
    els
}

pub const SHAPES: u32 = 1;
pub const EDGES: u32 = 2;
const RADIUS: f32 = 6.0;

fn within(v: f32, lo: f32, hi: f32) -> bool { (v >= lo) & (v <= hi) }
/// C18
fn shapes(doc: &Document, els: &[El]) {
    let ts = tables(doc);
    let clips: Vec<usize> = (0..els.len()).filter(|i| els[*i].name == "clipPath").collect();
    sym::check(clips.len() == ts.len(), "one clip path per table");
    if clips.len() != ts.len() { return; }
    let mut ids: Vec<&str> = vec![];
    for (k, c) in clips.iter().enumerate() {
        let Some(id) = els[*c].get("id") else { sym::check(false, "a clip path has an id"); return };
        sym::check(!ids.contains(&id), "every clip path has an id of its own");
        ids.push(id);
        let inner: Vec<&El> = els.iter().enumerate().filter(|(i, e)| *i > 0 && e.parent == *c).map(|x| x.1).collect();
        sym::check(inner.len() == 1 && inner[0].name == "rect" && is_rect(inner[0], &ts[k].1), "a clip path is its table's rectangle");
    }
    let mut it = els.iter().skip(1).filter(|e| e.parent == 0 && e.name != "defs");
    let Some(page) = it.next() else { sym::check(false, "the page has a background"); return };
    sym::check(page.name == "rect" && page.get("width") == Some("100%") && page.get("height") == Some("100%"), "the page has a background");
    macro_rules! next { ($n:expr, $m:expr) => { match it.next() { Some(e) if e.name == $n => e, _ => { sym::check(false, $m); return } } } }
    for (k, (id, r)) in ts.iter().enumerate() {
        let ShapeKind::Record(rec) = doc.get_node(*id).unwrap().kind() else { return };
        let bg = next!("rect", "a table has a background");
        sym::check(is_rect(bg, r) & coloured(bg, "stroke", &rec.border_color) & coloured(bg, "fill", &rec.bg_color), "a table's background is at the table's rectangle in its colours");
        for (i, (fid, f)) in rows(doc, *id).iter().enumerate() {
            let ShapeKind::Field(sh) = doc.get_node(*fid).unwrap().kind() else { return };
            let (lo, hi, mid) = (f.origin.x, f.origin.x + f.size.width, f.origin.y + f.size.height / 2.0);
            if sh.bg_color.is_some() {
                let b = next!("rect", "a coloured row has a background");
                sym::check(is_rect(b, f) & coloured(b, "fill", &sh.bg_color), "a row's background is at the row in its colour");
                sym::check(b.get("clip-path").map_or(false, |s| s.strip_prefix("url(#").and_then(|s| s.strip_suffix(")")) == Some(ids[k])), "a row's background is clipped to its own table");
            }
            if i > 0 {
                let l = next!("line", "rows are separated by lines");
                sym::check((attr(l, "x1") == lo) & (attr(l, "x2") == hi) & (attr(l, "y1") == f.origin.y) & (attr(l, "y2") == f.origin.y) & coloured(l, "stroke", &sh.border_color), "the separator is the row's upper edge in its colour");
                if sh.border_color.is_some() { sym::reach("separator"); }
            }
            let text = |e: &El, s: &str, c: &Option<WebColor>, anchor: &str| {
                sym::check(e.says(s) && e.get("text-anchor") == Some(anchor) && e.get("dominant-baseline") == Some("middle") && coloured(e, "fill", c), "a row's text, anchor and colour");
                sym::check((attr(e, "y") == mid) & within(attr(e, "x"), lo, hi), "a row's text is at its vertical middle and inside the row");
            };
            let t = next!("text", "a row has a title");
            text(t, &sh.title.text, &sh.title.color, "start");
            if let Some(s) = &sh.subtitle { let e = next!("text", "a row has a type"); text(e, &s.text, &s.color, "end"); }
            if let Some(b) = &sh.badge {
                if b.bg_color.is_some() {
                    let c = next!("circle", "a badge has a circle");
                    let (cx, rad) = (attr(c, "cx"), attr(c, "r"));
                    sym::check((attr(c, "cy") == mid) & (cx - rad >= lo) & (cx + rad <= hi) & (rad > 0.0) & (rad + rad <= f.size.height) & coloured(c, "fill", &b.bg_color), "a badge is inside its row, in its colour");
                }
                let e = next!("text", "a badge has a text");
                text(e, &b.text, &b.color, "middle");
                sym::reach("badge");
            }
            sym::reach("row");
        }
    }
    let rest: Vec<&str> = it.map(|e| e.name.as_str()).collect();
    sym::check(rest.len() == 3 * doc.edges().count() && rest.chunks(3).all(|c| c == ["path", "circle", "circle"]), "nothing else but the edges is drawn");
    sym::reach("shapes");
}
fn view(els: &[El], vb: Option<Rect>) {
    match (els[0].get("viewBox"), vb) {
        (None, None) => sym::reach("no view box"),
        (Some(s), Some(r)) => {
            let v = numbers(s).unwrap_or_default();
            sym::check(v.len() == 4, "the view box has four numbers");
            if v.len() == 4 { sym::check((v[0] == r.origin.x) & (v[1] == r.origin.y) & (v[2] == r.size.width) & (v[3] == r.size.height), "the view box is the given one"); }
            sym::reach("view box");
        }
        _ => sym::check(false, "the view box is written exactly when given"),
    }
}
/// Is q on the segment from c to p: at the corner radius from c if there is room on this segment and the other one, else
/// nearer, and never past its middle.
fn beside(c: &Point, p: &Point, q: &Point, o: &Point) -> bool {
    let (vert, room) = (p.x == c.x, |a: &Point| ((a.x - c.x).abs() >= 2.0 * RADIUS) | ((a.y - c.y).abs() >= 2.0 * RADIUS));
    let (cc, pp, qq) = if vert { (c.y, p.y, q.y) } else { (c.x, p.x, q.x) };
    let on = if vert { q.x == c.x } else { (p.y == c.y) & (q.y == c.y) };
    let up = pp > cc;
    let (d, l) = if up { (qq - cc, pp - cc) } else { (cc - qq, cc - pp) };
    on & (d > 0.0) & (d <= RADIUS) & (d + d <= l) & ((d == RADIUS) | !(room(p) & room(o)))
}
/// C19
pub fn edges(doc: &Document, els: &[El]) {
    let paths: Vec<usize> = (0..els.len()).filter(|i| els[*i].name == "path").collect();
    sym::check(paths.len() == doc.edges().count(), "one path per edge");
    for (e, at) in doc.edges().zip(paths) {
        let p = e.path_points().unwrap_or(&[]);
        if p.len() < 2 { sym::check(false, "the edge is laid out"); return; }
        let circles: Vec<&El> = els[at + 1..].iter().take(2).filter(|e| e.name == "circle").collect();
        sym::check(circles.len() == 2, "two circles per edge");
        if circles.len() < 2 { return; }
        for (c, q) in circles.iter().zip([&p[0], &p[p.len() - 1]]) { sym::check((attr(c, "cx") == q.x) & (attr(c, "cy") == q.y), "the circles are at the ends of the route"); }
        let d = items(els[at].get("d").unwrap_or(""));
        // commands with their points
        let mut cmds: Vec<(u8, Vec<Point>)> = vec![];
        let mut xs = vec![];
        for (c, x) in d {
            if c != 0 { sym::check(xs.is_empty(), "path coordinates come in pairs"); cmds.push((c, vec![])); continue; }
            xs.push(x);
            if xs.len() == 2 { let Some(l) = cmds.last_mut() else { sym::check(false, "a path begins with a command"); return }; l.1.push(Point::new(xs[0], xs[1])); xs.clear(); }
        }
        let same = |a: &Point, b: &Point| (a.x == b.x) & (a.y == b.y);
        let mut it = cmds.iter();
        let Some((b'M', s)) = it.next() else { sym::check(false, "the path starts with a move"); return };
        sym::check(s.len() == 1 && same(&s[0], &p[0]), "the path starts at the first point");
        for i in 1..p.len() {
            let Some((b'L', s)) = it.next() else { sym::check(false, "segments are drawn as lines"); return };
            if s.len() != 1 { sym::check(false, "a line has one point"); return; }
            let straight = i + 1 == p.len() || ((p[i - 1].x == p[i].x) == (p[i].x == p[i + 1].x));
            if straight {
                sym::check(same(&s[0], &p[i]), "the path passes the ends and straight points");
                if i + 1 < p.len() { sym::reach("straight"); }
            } else {
                sym::check(beside(&p[i], &p[i - 1], &s[0], &p[i + 1]), "the line ends at the corner radius before the corner");
                let Some((b'Q', q)) = it.next() else { sym::check(false, "a corner is drawn as a curve"); return };
                sym::check(q.len() == 2 && same(&q[0], &p[i]) & beside(&p[i], &p[i + 1], &q[1], &p[i - 1]), "the curve bends at the corner and ends at the corner radius after it");
                sym::reach("corner");
            }
        }
        sym::check(it.next().is_none(), "the path ends at the last point");
        sym::reach("edge");
    }
}

// --- documents
fn coord(frac: i32) -> f32 { sym::f32(-(1 << 14), 1 << 14, frac) }
fn colour() -> Option<WebColor> {
    match sym::choose(4) {
        0 => None,
        1 => Some(WebColor::Named(NamedColor::White)),
        2 => Some(WebColor::Named(NamedColor::Black)),
        _ => Some(WebColor::RGB(RGBColor::new(sym::byte(0, 255), sym::byte(0, 255), sym::byte(0, 255)))),
    }
}
/// Which parts of a row are symbolic.
const KINDS: u32 = 1; // subtitle, badge present or not
const COLOURS: u32 = 2; // each colour chosen
/// the colours that are chosen, counted
struct Pick { at: u32, chosen: [u32; 2] }
impl Pick {
    fn new(what: u32, roles: u32) -> Pick { Pick { at: 0, chosen: if what & COLOURS != 0 { [sym::choose(roles), sym::choose(roles)] } else { [99; 2] } } }
    fn opt(&mut self, d: Option<WebColor>) -> Option<WebColor> {
        self.at += 1;
        if self.chosen.contains(&(self.at - 1)) { colour() } else { d }
    }
}
fn row(doc: &mut Document, k: usize, what: u32, pick: &mut Pick) -> NodeId {
    let mut opt = |d: Option<WebColor>| pick.opt(d);
    let rgb = |a, b, c| Some(WebColor::RGB(RGBColor::new(a, b, c)));
    let t = TextSpanBuilder::default().text(format!("r{k}")).color(opt(Some(WebColor::Named(NamedColor::White)))).build().unwrap();
    let mut f = FieldShapeBuilder::default();
    f.title(t);
    let (sub, badge) = if what & KINDS != 0 { (sym::flag(), sym::flag()) } else { (k > 0, k > 0) };
    if sub { f.subtitle(Some(TextSpanBuilder::default().text(format!("s{k}")).color(opt(rgb(1, 2, 3))).build().unwrap())); }
    if badge {
        let bg = if what & KINDS != 0 { if sym::flag() { rgb(9, 8, 7) } else { None } } else { opt(rgb(4, 5, 6)) };
        f.badge(Some(BadgeBuilder::default().text("PK").color(opt(rgb(7, 7, 7))).bg_color(bg).build().unwrap()));
    }
    f.bg_color(if what & KINDS != 0 { if sym::flag() { rgb(1, 1, 1) } else { None } } else { opt(if k == 0 { rgb(73, 73, 73) } else { None }) });
    f.border_color(opt(rgb(73, 73, 73)));
    doc.create_field(f.build().unwrap())
}
/// n tables with up to k rows, everything at symbolic places
fn anywhere(n: u32, lo: u32, k: u32, what: u32, frac: i32) -> Document {
    let mut pick = Pick::new(what, n * (2 + 7 * k));
    let mut doc = Document::new();
    for _ in 0..n {
        let c = lo + sym::choose(k + 1 - lo);
        let rs: Vec<NodeId> = (0..c as usize).map(|i| row(&mut doc, i, what, &mut pick)).collect();
        let (bg, bd) = (pick.opt(None), pick.opt(Some(WebColor::RGB(RGBColor::new(73, 73, 73)))));
        let t = doc.create_record(RecordShapeBuilder::default().bg_color(bg).border_color(bd).build().unwrap());
        for r in &rs { doc.get_node_mut(t).unwrap().append_child(*r); }
        for i in rs.into_iter().chain([t]) {
            let nd = doc.get_node_mut(i).unwrap();
            nd.origin = Some(Point::new(coord(frac), coord(frac)));
            nd.size = Some(Size::new(300.0, sym::f32(13 << frac, 250 << frac, frac)));
        }
        doc.body_mut().append_child(t);
    }
    doc
}
fn show(n: u32, lo: u32, k: u32, what: u32, frac: i32) {
    let doc = anywhere(n, lo, k, what, frac);
    let vb = if sym::flag() { Some(Rect::new(Point::new(coord(frac), coord(frac)), Size::new(coord(frac), coord(frac)))) } else { None };
    let els = drawn(&doc, vb, None);
    if els.is_empty() { return; }
    view(&els, vb);
    shapes(&doc, &els);
}
/// tables of the width w
fn wide(n: u32) {
    let w = [20.0f32, 35.5, 60.0, 100.0, 299.9, 300.0, 1000.0, 12345.7][sym::choose(8) as usize];
    let h = [13.0f32, 20.0, 35.0][sym::choose(3) as usize];
    sym::assume(h <= w);
    let mut doc = Document::new();
    for _ in 0..n {
        let rs: Vec<NodeId> = (0..2).map(|i| row(&mut doc, i, 0, &mut Pick::new(0, 0))).collect();
        let t = doc.create_record(RecordShapeBuilder::default().build().unwrap());
        for r in &rs { doc.get_node_mut(t).unwrap().append_child(*r); }
        for i in rs.into_iter().chain([t]) {
            let nd = doc.get_node_mut(i).unwrap();
            nd.origin = Some(Point::new(50.0, sym::f32(0, 4096, 1)));
            nd.size = Some(Size::new(w, h));
        }
        doc.body_mut().append_child(t);
    }
    shapes(&doc, &drawn(&doc, None, None));
}

/// A module laid out from start to end.
pub fn lay(m: &Module) -> (Document, SimpleLayoutEngine, Option<Rect>) {
    let mut doc = m.into_mir();
    let mut e = SimpleLayoutEngine::new();
    let vb = lay_on(&mut e, &mut doc);
    (doc, e, vb)
}
fn lay_on(e: &mut SimpleLayoutEngine, doc: &mut Document) -> Option<Rect> {
    let vb = e.place_nodes(doc);
    e.place_terminal_ports(doc);
    e.draw_edge_path(doc);
    vb
}
/// up to n tables of up to c columns with r relations between them, any of which may name nothing
fn module(n: u32, c: u32, r: u32, kinds: bool) -> Module {
    let mut m = Module::new(None);
    let n = sym::choose(n + 1);
    for t in 0..n {
        let mut d = EntityDefinition::new(format!("t{t}"));
        for f in 0..sym::choose(c + 1) {
            let (ty, k) = if kinds { (ftype(), fkey()) } else { (EntityFieldType::Int, None) };
            d.add_field(EntityField::new(format!("c{f}"), ty, k));
        }
        m.add_entity_definition(d);
    }
    let end = || {
        let t = format!("t{}", sym::choose(n + 1));
        let k = sym::choose(c + 2);
        if k == 0 { EntityPath::Entity(t) } else { EntityPath::Field(t, format!("c{}", k - 1)) }
    };
    for _ in 0..r { let a = end(); m.add_entity_relation(EntityRelation::new(a, end())); }
    m
}
/// C16
pub fn draw_module(m: &Module) {
    sym::hash_mode(3);
    let (doc, _, vb) = lay(m);
    drawn(&doc, vb, None);
    sym::reach("drawn");
    if doc.edges().count() > 0 { sym::reach("drawn with edges"); }
}
/// names that may coincide in every role
fn same_names(ents: u32, cols: u32, rels: u32, k: u8) {
    let mut m = Module::new(None);
    for _ in 0..ents {
        let mut d = EntityDefinition::new(letter(k));
        for _ in 0..sym::choose(cols + 1) { d.add_field(EntityField::new(letter(k), EntityFieldType::Uuid, None)); }
        m.add_entity_definition(d);
    }
    for _ in 0..rels { let a = end_path(|| letter(k)); m.add_entity_relation(EntityRelation::new(a, end_path(|| letter(k)))); }
    draw_module(&m);
}
/// a table of n columns, next to another one; a relation at one of the rows near multiples of 64
fn columns(n: u32) {
    let mut m = Module::new(None);
    for e in 0..2 {
        let mut d = EntityDefinition::new(format!("e{e}"));
        for c in 0..(if e == 0 { n } else { 1 }) { d.add_field(EntityField::new(format!("c{c}"), EntityFieldType::Text, None)); }
        m.add_entity_definition(d);
    }
    let at = (64 * sym::choose(n / 64 + 1)).saturating_sub(sym::choose(2)).min(n - 1);
    m.add_entity_relation(EntityRelation::new(EntityPath::Field("e0".into(), format!("c{at}")), EntityPath::Field("e1".into(), "c0".into())));
    draw_module(&m);
}
/// n tables without rows and a relation from the first to any of the last three
fn many(n: u32) {
    let mut m = Module::new(None);
    for e in 0..n { m.add_entity_definition(EntityDefinition::new(format!("e{e}"))); }
    m.add_entity_relation(EntityRelation::new(EntityPath::Entity("e0".into()), EntityPath::Entity(format!("e{}", n - 1 - sym::choose(3)))));
    draw_module(&m);
}
fn tall(kind: u32, n: u32) {
    let mut m = Module::new(None);
    let ents = if kind == 1 { n } else { 2 };
    for e in 0..ents {
        let mut d = EntityDefinition::new(format!("e{e}"));
        for c in 0..(if kind == 0 && e == 0 { n } else { 1 }) { d.add_field(EntityField::new(format!("c{c}"), EntityFieldType::Text, None)); }
        m.add_entity_definition(d);
    }
    let at = match kind { 0 => EntityPath::Field("e0".into(), format!("c{}", sym::choose(n))), 1 => EntityPath::Entity(format!("e{}", sym::choose(n))), _ => EntityPath::Entity("e0".into()) };
    for _ in 0..(if kind == 2 { n } else { 1 }) { m.add_entity_relation(EntityRelation::new(at.clone(), EntityPath::Field("e1".into(), "c0".into()))); }
    draw_module(&m);
}

// --- C17
/// what an XML reader has to give back for a name
fn expected(s: &str) -> Vec<u32> { s.chars().map(|c| if allowed(c as u32) { c as u32 } else { 0xfffd }).collect() }
fn named(m: impl Fn(&str) -> Module, s: &str) {
    let (a, b) = (m("x"), m(s));
    sym::hash_mode(1);
    let lay1 = |m: &Module| { let mut d = m.into_mir(); let mut e = SimpleLayoutEngine::new(); let vb = e.place_nodes(&mut d); (d, vb) };
    let ((da, va), (db, vb)) = (lay1(&a), lay1(&b));
    let (x, y) = (drawn(&da, va, None), drawn(&db, vb, None));
    sym::check(x.len() == y.len(), "a name adds no element");
    if x.len() != y.len() { return; }
    let want = expected(s);
    let mut seen = 0;
    for (p, q) in x.iter().zip(&y) {
        sym::check(p.name == q.name && p.parent == q.parent && p.attrs == q.attrs, "a name changes no element or attribute");
        if p.inner() == ['x' as u32] {
            seen += 1;
            let mut ok = q.inner().len() == want.len();
            if ok { for (a, b) in q.inner().iter().zip(&want) { ok = ok & (a == b); } }
            sym::check(ok, "the name is read back");
            sym::reach("name");
        } else {
            sym::check(p.text == q.text, "other texts are unchanged");
        }
    }
    sym::check(seen == 1, "the name is written once");
}
fn roles(t: &Txt) {
    let role = sym::choose(2);
    named(|s| {
        let mut d = EntityDefinition::new(if role == 0 { s.into() } else { "e".into() });
        d.add_field(EntityField::new(if role == 1 { s.into() } else { "c".into() }, EntityFieldType::Int, None));
        let mut m = Module::new(None);
        m.add_entity_definition(d);
        m
    }, t.str());
}
/// subtitles and badges
fn spans(t: &Txt) {
    sym::hash_mode(1);
    let role = sym::choose(3);
    let mk = |s: &str| {
        let mut doc = Document::new();
        let span = |k: u32| TextSpanBuilder::default().text(if role == k { s } else { "y" }).build().unwrap();
        let badge = BadgeBuilder::default().text(if role == 2 { s } else { "y" }).build().unwrap();
        let f = doc.create_field(FieldShapeBuilder::default().title(span(0)).subtitle(Some(span(1))).badge(Some(badge)).build().unwrap());
        let r = doc.create_record(RecordShapeBuilder::default().build().unwrap());
        doc.get_node_mut(r).unwrap().append_child(f);
        doc.body_mut().append_child(r);
        SimpleLayoutEngine::new().place_nodes(&mut doc);
        doc
    };
    let (x, y) = (drawn(&mk("x"), None, None), drawn(&mk(t.str()), None, None));
    let want = expected(t.str());
    sym::check(x.len() == y.len(), "a name adds no element");
    for (p, q) in x.iter().zip(&y) {
        sym::check(p.name == q.name && p.parent == q.parent && p.attrs == q.attrs, "a name changes no element or attribute");
        if p.inner() == ['x' as u32] { sym::check(q.inner() == &want[..], "the name is read back"); sym::reach("name"); }
    }
}

// --- C19
/// A route of n symbolic orthogonal segments.
fn route(n: u32, frac: i32) -> Vec<Point> {
    let mut p = vec![Point::new(sym::f32(0, 4096, frac), sym::f32(0, 4096, frac))];
    let mut dir = 4;
    for _ in 0..n {
        let d = sym::choose(4);
        sym::assume(dir == 4 || d != (dir + 2) % 4);
        dir = d;
        let l = sym::f32(1, 1000 << frac, frac);
        let q = *p.last().unwrap();
        p.push(match d { 0 => Point::new(q.x + l, q.y), 1 => Point::new(q.x, q.y + l), 2 => Point::new(q.x - l, q.y), _ => Point::new(q.x, q.y - l) });
    }
    p
}
/// A route of n segments of symbolic lengths in one of seven patterns: straight, stairs, spirals, zigzags.
fn long_route(n: u32, frac: i32) -> Vec<Point> {
    let turns: &[i32] = [&[0][..], &[1, 3], &[1], &[3], &[1, 1, 3, 3], &[3, 3, 1, 1], &[0, 1, 0, 3]][sym::choose(7) as usize];
    let mut dir = sym::choose(4) as i32;
    let mut p = vec![Point::new(sym::f32(0, 4096, frac), sym::f32(0, 4096, frac))];
    for k in 0..n as usize {
        let (q, l) = (*p.last().unwrap(), sym::f32(1, 1000 << frac, frac));
        p.push(match dir { 0 => Point::new(q.x + l, q.y), 1 => Point::new(q.x, q.y + l), 2 => Point::new(q.x - l, q.y), _ => Point::new(q.x, q.y - l) });
        dir = (dir + turns[k % turns.len()]) % 4;
    }
    p
}
/// a drawing with one long route, and the overlay
fn long_routes(n: u32, frac: i32, over: bool) {
    let mut doc = Document::new();
    let (a, b) = (bare(&mut doc), bare(&mut doc));
    let p = long_route(n, frac);
    doc.add_edge(EdgeData::new(a, b, Some(p)));
    if over { overlay(&doc, &RouteGraph::new(), None); } else { edges(&doc, &drawn(&doc, None, None)); }
}
/// n edges with a corner each, the place of one of them symbolic
fn many_edges(n: u32) {
    let mut doc = Document::new();
    let (a, b) = (bare(&mut doc), bare(&mut doc));
    let it = sym::choose(n);
    let p = route(2, 1);
    for k in 0..n {
        let y = 40.0 * k as f32;
        doc.add_edge(EdgeData::new(a, b, Some(if k == it { p.clone() } else { vec![Point::new(1.0, y), Point::new(30.0, y), Point::new(30.0, y + 7.5)] })));
    }
    edges(&doc, &drawn(&doc, None, None));
}
fn bare(doc: &mut Document) -> NodeId {
    let t = place::table(doc, 0);
    let nd = doc.get_node_mut(t).unwrap();
    nd.origin = Some(Point::zero());
    nd.size = Some(Size::new(300.0, 35.0));
    t
}
fn routes(ns: &[u32], frac: i32) {
    let mut doc = Document::new();
    let (a, b) = (bare(&mut doc), bare(&mut doc));
    for n in ns { let p = route(*n, frac); doc.add_edge(EdgeData::new(a, b, Some(p))); }
    edges(&doc, &drawn(&doc, None, None));
}
fn whole(n: u32, c: u32, r: u32, what: u32, kinds: bool) {
    sym::hash_mode(3);
    let (doc, e, vb) = lay(&module(n, c, r, kinds));
    let els = drawn(&doc, vb, None);
    if els.is_empty() { return; }
    view(&els, vb);
    if what & SHAPES != 0 { shapes(&doc, &els); }
    if what & EDGES != 0 { edges(&doc, &els); }
    let _ = e;
}

// --- C20
struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += b.len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// n tables of k rows and e edges, any of which may lack its layout
fn partial(n: usize, k: usize, e: u32, overlay: bool) {
    let mut doc = Document::new();
    let mut ids = vec![];
    for _ in 0..n { let t = place::table(&mut doc, k as u32); ids.push(t); let r: Vec<NodeId> = doc.get_node(t).unwrap().children().collect(); ids.extend(r); }
    let mut lacking: Vec<NodeId> = vec![];
    for i in &ids {
        let (o, s) = (sym::flag(), sym::flag());
        let nd = doc.get_node_mut(*i).unwrap();
        if o { nd.origin = Some(Point::new(1.0, 2.0)); }
        if s { nd.size = Some(Size::new(300.0, 35.0)); }
        if !(o && s) { lacking.push(*i); }
    }
    for j in 0..e {
        let (a, b) = (ids[j as usize % ids.len()], ids[(j as usize + 1) % ids.len()]);
        let p = sym::flag();
        doc.add_edge(EdgeData::new(a, b, if p { Some(vec![Point::new(0.0, 0.0), Point::new(50.0, 0.0)]) } else { None }));
        if !p { lacking.push(a); }
    }
    let mut w = Count(0);
    let g = RouteGraph::new();
    let mut r = SVGRenderer::new();
    if overlay { r.edge_route_graph = Some(&g); }
    match r.render(&doc, &mut w) {
        Ok(()) => { sym::check(lacking.is_empty(), "an incomplete layout is reported"); sym::check(w.0 > 0, "a complete layout is written"); sym::reach("complete"); }
        Err(BackendError::InvalidLayout(i)) => { sym::check(lacking.contains(&i), "the error names a node without layout"); sym::check(w.0 == 0, "an incomplete layout writes nothing"); sym::reach("incomplete"); }
        Err(_) => sym::check(false, "an incomplete layout is an invalid layout"),
    }
}
/// A writer that takes at most `take` bytes at once and fails in the given way from the given write on.
struct Faulty { calls: u32, fail_at: u32, kind: u32, take: usize, got: Vec<u8>, failed: bool }
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail_at {
            match self.kind {
                0 => { self.failed = true; return Err(io::Error::from(io::ErrorKind::BrokenPipe)); }
                1 => { self.failed = true; return Ok(0); }
                2 => { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
                3 => { self.failed = true; return Err(io::Error::from(io::ErrorKind::WouldBlock)); }
                4 => { self.failed = true; return Err(io::Error::from_raw_os_error(28)); }
                _ => { self.failed = true; return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
            }
        }
        if self.failed { return Err(io::Error::from(io::ErrorKind::BrokenPipe)); }
        let n = b.len().min(self.take);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.kind == 6 { self.failed = true; return Err(io::Error::from(io::ErrorKind::BrokenPipe)); }
        Ok(())
    }
}
fn faulty(n: u32, takes: &[usize]) {
    let mut m = Module::new(None);
    for t in 0..n {
        let mut d = EntityDefinition::new(format!("t{t}"));
        d.add_field(EntityField::new("c".into(), EntityFieldType::Int, None));
        m.add_entity_definition(d);
    }
    let mut doc = m.into_mir();
    let vb = SimpleLayoutEngine::new().place_nodes(&mut doc);
    let Some(whole) = svg(&doc, vb, None) else { return };
    let kind = sym::choose(7);
    let take = takes[sym::choose(takes.len() as u32) as usize];
    let most = if take == usize::MAX { 1 } else { whole.len() / take + 1 } as u32;
    let fail_at = 1 + 32 * sym::choose(most / 32 + 1) + sym::choose(32);
    sym::assume(fail_at <= most + 1);
    let mut w = Faulty { calls: 0, fail_at, kind, take, got: vec![], failed: false };
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    match r.render(&doc, &mut w) {
        Ok(()) => { sym::check(!w.failed, "a failed write is reported"); sym::check(w.got == whole, "success means everything was written"); sym::reach("written"); }
        Err(BackendError::IoFailure(_)) => { sym::check(w.failed, "an error means a write failed"); sym::check(whole.starts_with(&w.got), "nothing else was written"); sym::reach("failed"); }
        Err(_) => sym::check(false, "a failed write is an I/O error"),
    }
}

// --- C21
/// the same module on a fresh engine and on one that drew another document before, with other hash seeds
fn reuse(n: u32, c: u32, r: u32, used: bool) {
    sym::hash_mode(2);
    let m = module(n, c, r, false);
    let mut e = SimpleLayoutEngine::new();
    if used {
        let mut d = module(2, 1, 1, false).into_mir();
        lay_on(&mut e, &mut d);
    }
    same_bytes(&m, &mut e, 1);
}
/// the same on an engine that drew a large document before
fn after_large(n: u32, c: u32, r: u32) {
    sym::hash_mode(3);
    let mut big = Module::new(None);
    for t in 0..5 {
        let mut d = EntityDefinition::new(format!("t{t}"));
        for f in 0..6 { d.add_field(EntityField::new(format!("c{f}"), EntityFieldType::Int, None)); }
        big.add_entity_definition(d);
    }
    let end = |t: i32, c: i32| if c < 0 { EntityPath::Entity(format!("t{t}")) } else { EntityPath::Field(format!("t{t}"), format!("c{c}")) };
    for (a, b, x, y) in [(0, -1, 3, -1), (1, -1, 2, -1), (0, 1, 1, 2), (2, 0, 3, 3), (4, 2, 0, 4), (4, -1, 4, -1), (1, 3, 2, 2), (3, 5, 2, 1)] { big.add_entity_relation(EntityRelation::new(end(a, b), end(x, y))); }
    let mut e = SimpleLayoutEngine::new();
    let mut d = big.into_mir();
    lay_on(&mut e, &mut d);
    same_bytes(&module(n, c, r, false), &mut e, 1);
}
fn same_bytes(m: &Module, e: &mut SimpleLayoutEngine, more: u32) {
    let (d1, e1, v1) = lay(m);
    let Some(x) = svg(&d1, v1, None) else { return };
    let xg = svg(&d1, v1, Some(e1.edge_route_graph()));
    for k in 0..=more {
        // the last round with colliding keys
        if k == more { sym::hash_mode(3); }
        let mut d2 = m.into_mir();
        let v2 = lay_on(e, &mut d2);
        let Some(y) = svg(&d2, v2, None) else { return };
        sym::check(x == y, "the drawing depends on the source only");
        sym::check(xg == svg(&d2, v2, Some(e.edge_route_graph())), "the routes depend on the source only");
        let ports = |d: &Document| -> Vec<(Point, seiren::geometry::Orientation)> { tables(d).iter().flat_map(|t| [t.0].into_iter().chain(rows(d, t.0).into_iter().map(|r| r.0))).flat_map(|i| d.get_node(i).unwrap().terminal_ports().map(|p| (*p.location(), p.orientation())).collect::<Vec<_>>()).collect() };
        let (p, q) = (ports(&d1), ports(&d2));
        sym::check(p.len() == q.len() && p.iter().zip(&q).all(|(a, b)| a.0.x == b.0.x && a.0.y == b.0.y && a.1 == b.1), "ports depend on the source only");
        sym::reach("compared");
    }
    if d1.edges().count() > 0 { sym::reach("compared with edges"); }
}
/// symbolic names: the table of nodes is looked up with equal or different keys
fn reuse_names(ents: u32, k: u8) {
    sym::hash_mode(3);
    let mut m = Module::new(None);
    for _ in 0..ents {
        let mut d = EntityDefinition::new(letter(k));
        d.add_field(EntityField::new(letter(k), EntityFieldType::Int, None));
        m.add_entity_definition(d);
    }
    let a = end_path(|| letter(k));
    m.add_entity_relation(EntityRelation::new(a, end_path(|| letter(k))));
    same_bytes(&m, &mut SimpleLayoutEngine::new(), 0);
}
/// two documents one after the other on one engine, then both again in the other order
fn twice(n: u32, c: u32) {
    sym::hash_mode(2);
    let (a, b) = (module(n, c, 1, false), module(n, c, 1, false));
    let mut e = SimpleLayoutEngine::new();
    let mut draw = |m: &Module| { let mut d = m.into_mir(); let v = lay_on(&mut e, &mut d); svg(&d, v, None) };
    let (x, y) = (draw(&a), draw(&b));
    sym::check(draw(&b) == y && draw(&a) == x && draw(&a) == x, "an engine's earlier documents leave no trace");
    sym::reach("compared");
}

// --- C26
fn overlay(doc: &Document, g: &RouteGraph, vb: Option<Rect>) {
    let (x, y) = (drawn(doc, vb, None), drawn(doc, vb, Some(g)));
    sym::check(y.len() >= x.len(), "the overlay follows the drawing");
    if y.len() < x.len() { return; }
    for (a, b) in x.iter().zip(&y) { sym::check(a.name == b.name && a.parent == b.parent && a.attrs == b.attrs && (a.text == b.text || a.name == "svg"), "the overlay leaves the drawing intact"); }
    let more = &y[x.len()..];
    let of = |n: &str| -> Vec<&El> { more.iter().filter(|e| e.name == n).collect() };
    sym::check(more.iter().all(|e| e.parent == 0), "the overlay is on top");
    let (lines, heads, circles, labels) = (of("line"), of("polygon"), of("circle"), of("text"));
    sym::check(more.len() == lines.len() + heads.len() + circles.len() + labels.len(), "the overlay shows nothing else");
    let at = |id| *g.get_node(id).unwrap().location();
    let es: Vec<(Point, Point)> = g.edges().map(|e| (at(e.source_id()), at(e.target_id()))).collect();
    sym::check(lines.len() == es.len() && heads.len() == es.len(), "one line and one arrow head per connection");
    if lines.len() != es.len() || heads.len() != es.len() { return; }
    for ((l, h), (s, t)) in lines.iter().zip(&heads).zip(&es) {
        sym::check((attr(l, "x1") == s.x) & (attr(l, "y1") == s.y) & (attr(l, "x2") == t.x) & (attr(l, "y2") == t.y), "a line joins the two nodes");
        let v = h.get("points").and_then(numbers).unwrap_or_default();
        if v.len() != 6 { sym::check(false, "an arrow head has three corners"); return; }
        // along: how far before the target; across: beside the line
        let (sx, sy) = (if t.x > s.x { 1.0 } else if t.x < s.x { -1.0 } else { 0.0 }, if t.y > s.y { 1.0 } else if t.y < s.y { -1.0 } else { 0.0f32 });
        let along = |k: usize| (t.x - v[2 * k]) * sx + (t.y - v[2 * k + 1]) * sy;
        let across = |k: usize| (t.x - v[2 * k]) * sy + (t.y - v[2 * k + 1]) * sx;
        sym::check((along(0) >= 0.0) & (along(0) <= 5.0) & (across(0) == 0.0), "an arrow head ends at the target");
        sym::check((along(1) > along(0)) & (along(2) == along(1)) & (along(1) <= 20.0) & (across(1) != 0.0) & (across(1) == -across(2)), "an arrow head points along the connection");
        sym::reach("arrow");
    }
    let nodes: Vec<(Point, String)> = g.node_ids().map(|i| (at(i), i.to_string())).collect();
    let points: Vec<Point> = doc.edges().flat_map(|e| e.path_points().unwrap_or(&[]).to_vec()).collect();
    let shapes = tables(doc);
    sym::check(circles.len() == nodes.len() + points.len(), "one circle per node and route point");
    sym::check(labels.len() == nodes.len() + shapes.len(), "one label per node and table");
    if circles.len() != nodes.len() + points.len() || labels.len() != nodes.len() + shapes.len() { return; }
    for (c, p) in circles.iter().zip(nodes.iter().map(|n| &n.0).chain(&points)) { sym::check((attr(c, "cx") == p.x) & (attr(c, "cy") == p.y), "a circle per node and route point at its place"); }
    for (l, (p, s)) in labels.iter().zip(&nodes) { sym::check(l.says(s) && (attr(l, "x") - p.x).abs() <= 20.0 && (attr(l, "y") - p.y).abs() <= 20.0, "a node's label names it"); sym::reach("node"); }
    for (l, (id, _)) in labels[nodes.len()..].iter().zip(&shapes) { sym::check(l.says(&id.to_string()), "a table's label names it"); sym::reach("table"); }
}
fn overlay_whole(n: u32, c: u32, r: u32) {
    sym::hash_mode(3);
    let (doc, e, vb) = lay(&module(n, c, r, false));
    overlay(&doc, e.edge_route_graph(), vb);
}
/// a route graph of n nodes at symbolic places connected in a chain or star
fn overlay_graph(n: u32, tables: u32, frac: i32) {
    sym::hash_mode(2);
    let mut doc = Document::new();
    for _ in 0..tables { let t = bare(&mut doc); doc.get_node_mut(t).unwrap().origin = Some(Point::new(coord(frac), coord(frac))); }
    let mut g = RouteGraph::new();
    let mut at = vec![Point::new(sym::f32(0, 4096, frac), sym::f32(0, 4096, frac))];
    let mut ids = vec![g.add_node(at[0])];
    for _ in 1..n {
        let from = sym::choose(ids.len() as u32) as usize;
        let p = at[from];
        let l = sym::f32(1, 1000 << frac, frac);
        let q = match sym::choose(4) { 0 => Point::new(p.x + l, p.y), 1 => Point::new(p.x, p.y + l), 2 => Point::new(p.x - l, p.y), _ => Point::new(p.x, p.y - l) };
        for a in &at { sym::assume((a.x != q.x) | (a.y != q.y)); }
        let id = g.add_node(q);
        if sym::flag() { g.add_edge(ids[from], id); } else { g.add_edge(id, ids[from]); }
        ids.push(id);
        at.push(q);
    }
    overlay(&doc, &g, None);
}
fn text(f: impl Fn(&mut Txt)) -> Txt { let mut t = Txt::new(); f(&mut t); t }

harnesses! {
    c16_modules2 { draw_module(&module(2, 1, 1, true)) }
    c16_modules3 { draw_module(&module(3, 1, 1, false)) }
    c16_two_rels { draw_module(&module(2, 1, 2, false)) }
    c16_names { same_names(2, 1, 1, 2) }
    c16_names2 { same_names(1, 2, 2, 2) }
    c16_tall { tall(sym::choose(3), 12) }
    c16_columns { tall(0, 60) }
    c16_columns280 { columns(280) }
    c16_many { many(24) }
    c16_rels { tall(2, 300) }

    c17_wide { roles(&text(|t| t.wide())) }
    c17_wide2 { roles(&text(|t| { t.wide(); t.wide() })) }
    c17_ascii3 { roles(&text(|t| t.ascii(3))) }
    c17_tail { roles(&text(|t| { t.s("a]]"); t.wide() })) }
    c17_entity { roles(&text(|t| { t.s("&"); t.ascii(2); t.s(";") })) }
    c17_tag { roles(&text(|t| { t.s("</"); t.ascii(2); t.s("\"/>") })) }
    c17_spans { spans(&text(|t| { t.wide() })) }
    c17_spans2 { spans(&text(|t| { t.ascii(2) })) }
    c17_long { roles(&text(|t| { for _ in 0..40 { t.s("a&<>é\u{1}") } t.wide(); for _ in 0..40 { t.s("<b>") } })) }

    c18_one { show(1, 0, 3, 0, 2) }
    c18_two { show(2, 0, 4, 0, 2) }
    c18_five { show(5, 0, 2, 0, 1) }
    c18_tall { show(1, 40, 40, 0, 0) }
    c18_many { show(20, 1, 1, 0, 0) }
    c18_three { show(3, 1, 2, 0, 3) }
    c18_kinds { show(1, 2, 2, KINDS, 2) }
    c18_kinds3 { show(1, 3, 3, KINDS, 2) }
    c18_colours { show(1, 1, 1, COLOURS, 2) }
    c18_colours2 { show(1, 2, 2, COLOURS, 2) }
    c18_width { wide(1) }
    c18_whole { whole(3, 2, 0, SHAPES, false) }
    c18_whole_kinds { whole(2, 1, 0, SHAPES, true) }
    c18_whole_edges { whole(2, 1, 1, SHAPES, false) }
    c18_whole3 { whole(3, 2, 1, SHAPES, false) }

    c19_one { routes(&[1], 2) }
    c19_two { routes(&[2], 2) }
    c19_three { routes(&[3], 2) }
    c19_four { routes(&[4], 2) }
    c19_five { routes(&[5], 1) }
    c19_seven { routes(&[7], 1) }
    c19_long { long_routes(12, 1, false) }
    c19_many { many_edges(20) }
    c19_three_edges { routes(&[2, 2, 2], 1) }
    c19_pair { routes(&[2, 2], 2) }
    c19_whole { whole(2, 1, 1, EDGES, false) }
    c19_whole3 { whole(4, 1, 1, EDGES, false) }

    c20_one { partial(1, 2, 1, false) }
    c20_two { partial(2, 1, 2, false) }
    c20_rows3 { partial(1, 3, 1, false) }
    c20_four { partial(2, 2, 1, false) }
    c20_three { partial(3, 0, 2, false) }
    c20_overlay { partial(1, 1, 1, true) }
    c20_writer { faulty(1, &[usize::MAX, 7, 64, 4096]) }
    c20_writer0 { faulty(0, &[usize::MAX, 1, 100]) }
    c20_writer5 { faulty(5, &[usize::MAX, 97, 1000, 4096]) }

    c21_fresh { reuse(3, 1, 1, false) }
    c21_used { reuse(2, 1, 1, true) }
    c21_rels { reuse(2, 1, 2, false) }
    c21_large { after_large(2, 1, 1) }
    c21_names { reuse_names(2, 2) }
    c21_twice { twice(2, 0) }

    c26_graph2 { overlay_graph(2, 1, 2) }
    c26_graph3 { overlay_graph(3, 0, 2) }
    c26_long { long_routes(12, 1, true) }
    c26_graph4 { overlay_graph(4, 1, 1) }
    c26_whole { overlay_whole(2, 1, 1) }
    c26_graph5 { overlay_graph(5, 0, 0) }
    c26_whole_cols { overlay_whole(2, 2, 1) }
    c26_whole4 { overlay_whole(5, 1, 1) }
    c26_whole3 { overlay_whole(3, 0, 1) }
    c26_whole_rels { overlay_whole(2, 0, 2) }
}
