//! C10-C12: placing tables, rows and ports.
use crate::geo::opposite;
use crate::sym;
use seiren::geometry::{Orientation, Point, Rect, Size};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::mir::{self, Document, FieldShapeBuilder, NodeId, RecordShapeBuilder, ShapeKind, TextSpanBuilder};

pub fn field(doc: &mut Document) -> NodeId {
    let t = TextSpanBuilder::default().text("f").build().unwrap();
    doc.create_field(FieldShapeBuilder::default().title(t).build().unwrap())
}
/// A table with n rows (header included).
pub fn table(doc: &mut Document, n: u32) -> NodeId {
    let rows: Vec<NodeId> = (0..n).map(|_| field(doc)).collect();
    let id = doc.create_record(RecordShapeBuilder::default().build().unwrap());
    for r in rows { doc.get_node_mut(id).unwrap().append_child(r); }
    doc.body_mut().append_child(id);
    id
}
pub fn tables(doc: &Document) -> Vec<(NodeId, Rect)> {
    doc.body().children().map(|i| (i, doc.get_node(i).unwrap().rect().unwrap_or(Rect::zero()))).collect()
}
pub fn rows(doc: &Document, t: NodeId) -> Vec<(NodeId, Rect)> {
    doc.get_node(t).unwrap().children().map(|i| (i, doc.get_node(i).unwrap().rect().unwrap_or(Rect::zero()))).collect()
}

// --- C10
pub fn grid_ok(doc: &Document, vb: Option<Rect>) {
    let ts = tables(doc);
    for (id, _) in &ts { sym::check(doc.get_node(*id).unwrap().rect().is_some(), "every table is placed"); }
    for (i, (id, r)) in ts.iter().enumerate() {
        let h: f32 = rows(doc, *id).iter().map(|(_, r)| r.height()).sum();
        sym::check(r.height() == h && r.width() > 0.0, "a table is as tall as its rows");
        if i >= 3 {
            let up = ts[i - 3].1;
            sym::check(r.min_x() == up.min_x(), "tables of a column are aligned at the left");
        }
        if i % 3 > 0 {
            let prev = ts[i - 1].1;
            sym::check(r.min_y() == prev.min_y(), "tables of a row are aligned at the top");
            sym::check(r.min_x() > prev.min_x(), "a row runs from left to right");
        } else if i >= 3 {
            for p in &ts[i - 3..i] { sym::check(r.min_y() > p.1.min_y(), "rows follow from top to bottom"); }
        }
        for (_, s) in &ts[..i] {
            let (dx, dy) = ((r.min_x() - s.max_x()).max(s.min_x() - r.max_x()), (r.min_y() - s.max_y()).max(s.min_y() - r.max_y()));
            sym::check(dx >= 80.0 || dy >= 80.0, "tables are 80 units apart");
        }
    }
    let Some(vb) = vb else { sym::check(false, "view box returned"); return };
    sym::check(vb.origin == Point::zero(), "view box starts at the origin");
    sym::check(vb.width().is_finite() && vb.height().is_finite() && vb.width() > 0.0 && vb.height() > 0.0, "view box is finite");
    for (_, r) in &ts {
        sym::check(r.min_x() > vb.min_x() && r.max_x() < vb.max_x() && r.min_y() > vb.min_y() && r.max_y() < vb.max_y(), "view box contains every table with a margin");
    }
    if ts.is_empty() { sym::reach("empty"); } else { sym::reach("placed"); }
}
fn grid(n: u32, lo: u32, k: u32) {
    let mut doc = Document::new();
    for _ in 0..n { let h = lo + sym::choose(k); table(&mut doc, h); }
    let vb = SimpleLayoutEngine::new().place_nodes(&mut doc);
    grid_ok(&doc, vb);
}
/// one tall table anywhere among n
fn tall(n: u32, lo: u32, h: u32) {
    let at = sym::choose(n);
    let k = lo + sym::choose(h);
    let mut doc = Document::new();
    for i in 0..n { table(&mut doc, if i == at { k } else { 1 }); }
    let vb = SimpleLayoutEngine::new().place_nodes(&mut doc);
    grid_ok(&doc, vb);
}

// --- C11
pub fn rows_ok(doc: &Document) {
    for (id, r) in tables(doc) {
        let rs = rows(doc, id);
        let mut y = r.min_y();
        for (k, (_, f)) in rs.iter().enumerate() {
            sym::check(f.min_x() == r.min_x() && f.width() == r.width(), "a row has its table's left edge and width");
            sym::check(f.min_y() == y, "rows follow each other without gap or overlap");
            sym::check(f.height() > 0.0 && f.height() == rs[0].1.height(), "rows have the same height");
            y = f.max_y();
            if k + 1 == rs.len() { sym::check(y == r.max_y(), "the last row ends at the bottom of its table"); sym::reach("rows"); }
        }
    }
}
fn tiling(n: u32, lo: u32, k: u32) {
    let mut doc = Document::new();
    for _ in 0..n { let h = lo + sym::choose(k); table(&mut doc, h); }
    SimpleLayoutEngine::new().place_nodes(&mut doc);
    rows_ok(&doc);
}

// --- C12
pub fn port_at(r: &Rect, o: Orientation) -> Point {
    match o {
        Orientation::Up => Point::new(r.origin.x + r.size.width / 2.0, r.origin.y),
        Orientation::Down => Point::new(r.origin.x + r.size.width / 2.0, r.origin.y + r.size.height),
        Orientation::Left => Point::new(r.origin.x, r.origin.y + r.size.height / 2.0),
        Orientation::Right => Point::new(r.origin.x + r.size.width, r.origin.y + r.size.height / 2.0),
    }
}
const ALL: [Orientation; 4] = [Orientation::Up, Orientation::Down, Orientation::Left, Orientation::Right];
fn ports_of(doc: &Document, id: NodeId, r: &Rect, want: [bool; 4]) {
    let n = doc.get_node(id).unwrap();
    for (o, w) in ALL.iter().zip(want) {
        let mut k = 0;
        for p in n.terminal_ports() {
            if p.orientation() == *o {
                k += 1;
                let at = port_at(r, *o);
                sym::check(p.location().x == at.x && p.location().y == at.y, "a port is in the middle of the side it points away from");
            }
        }
        sym::check(k == w as u32, "exactly the ports of the shape's free sides");
    }
    let _ = opposite;
}
pub fn ports_ok(doc: &Document) {
    let mut ids: Vec<mir::TerminalPortId> = vec![];
    let mut all = |doc: &Document, id: NodeId| for p in doc.get_node(id).unwrap().terminal_ports() {
        sym::check(!ids.contains(&p.id()), "port ids are unique");
        ids.push(p.id());
    };
    for (id, r) in tables(doc) {
        ports_of(doc, id, &r, [true; 4]);
        all(doc, id);
        let rs = rows(doc, id);
        for (k, (f, fr)) in rs.iter().enumerate() {
            ports_of(doc, *f, fr, [k == 0, k + 1 == rs.len(), true, true]);
            all(doc, *f);
            sym::reach("row ports");
        }
    }
    sym::check(doc.body().terminal_ports().len() == 0, "no port outside the tables");
}
fn num(m: i32) -> f32 { sym::f32(-m, m, 2) }
fn size(m: i32) -> Size { Size::new(sym::f32(1, m, 2), sym::f32(1, m, 2)) }
/// tables and rows at arbitrary places
fn ports(n: u32, k: u32, m: i32) {
    let mut doc = Document::new();
    for _ in 0..n {
        let t = table(&mut doc, sym::choose(k + 1));
        let ids: Vec<NodeId> = doc.get_node(t).unwrap().children().chain([t]).collect();
        for i in ids {
            let (o, s) = (Point::new(num(m), num(m)), size(m));
            let nd = doc.get_node_mut(i).unwrap();
            nd.origin = Some(o);
            nd.size = Some(s);
        }
    }
    SimpleLayoutEngine::new().place_terminal_ports(&mut doc);
    ports_ok(&doc);
    sym::reach("ports");
}
/// through place_nodes
fn ports_placed(n: u32, k: u32) {
    let mut doc = Document::new();
    for _ in 0..n { table(&mut doc, sym::choose(k + 1)); }
    let mut e = SimpleLayoutEngine::new();
    e.place_nodes(&mut doc);
    e.place_terminal_ports(&mut doc);
    ports_ok(&doc);
    for (id, _) in tables(&doc) { let ShapeKind::Record(_) = doc.get_node(id).unwrap().kind() else { return }; }
}

harnesses! {
    c10_empty { grid(0, 1, 1) }
    c10_up_to_4 { grid(sym::choose(5), 1, 5) }
    c10_up_to_4_empty { grid(sym::choose(5), 0, 3) }
    c10_7 { grid(7, 1, 3) }
    c10_9 { grid(9, 1, 2) }
    c10_10 { grid(10, 1, 3) }
    c10_tall { tall(sym::choose(8) + 1, 1, 60) }
    c10_huge { tall(sym::choose(4) + 1, 250, 20) }
    c10_crowd { grid(250 + sym::choose(12), 1, 1) }
    c10_many { grid(10 + sym::choose(20), 2, 1) }
    c11_up_to_3 { tiling(sym::choose(4), 0, 8) }
    c11_4 { tiling(4, 0, 5) }
    c11_7 { tiling(7, 1, 3) }
    c11_tall { tiling(1, 0, 80) }
    c11_huge { tiling(1, 250, 60) }
    c12_one { ports(1, 5, 1 << 20) }
    c12_two { ports(2, 4, 1 << 20) }
    c12_three { ports(3, 3, 1 << 20) }
    c12_five { ports(5, 3, 1 << 20) }
    c12_tall { ports(1, 20, 1 << 20) }
    c12_huge { ports(1, 0, 4); let mut doc = Document::new(); table(&mut doc, 250 + sym::choose(12)); let mut e = SimpleLayoutEngine::new(); e.place_nodes(&mut doc); e.place_terminal_ports(&mut doc); ports_ok(&doc) }
    c12_placed { ports_placed(sym::choose(5), 4) }
}
