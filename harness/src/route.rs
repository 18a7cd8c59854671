//! C13-C15: routing edges between placed tables; C25: the route graph.
use crate::place::{self, port_at};
use crate::{svg, sym};
use seiren::geometry::{Orientation, Point, Rect, Size};
use seiren::layout::{LayoutEngine, RouteGraph, SimpleLayoutEngine};
use seiren::mir::{Document, EdgeData, NodeId, TerminalPort};

const UP: Orientation = Orientation::Up;
const DOWN: Orientation = Orientation::Down;
const LEFT: Orientation = Orientation::Left;
const RIGHT: Orientation = Orientation::Right;
const LINE: f32 = 35.0;

/// What an edge is attached to.
#[derive(Clone, Copy, PartialEq)]
pub enum End { Table, First, Middle, Last, Only }
use End::*;
pub const ENDS: [End; 5] = [Table, First, Middle, Last, Only];

pub struct Map {
    pub doc: Document,
    pub ids: Vec<NodeId>,
    rects: Vec<Rect>,
    rows: Vec<f32>,
    /// rows that exist as nodes: table, kind, index, node
    made: Vec<(usize, End, f32, NodeId)>,
}

fn ports(doc: &mut Document, id: NodeId, r: Rect, os: &[Orientation]) {
    let n = doc.get_node_mut(id).unwrap();
    for o in os { n.add_terminal_port(id, port_at(&r, *o), *o); }
}

impl Map {
    /// Tables at the places C10 gives them, each with a symbolic number of rows (header included) up to max.
    pub fn new(n: usize, max: &[i32]) -> Self {
        let mut doc = Document::new();
        let (mut ids, mut rects, mut rows) = (vec![], vec![], vec![]);
        let (mut y, mut h) = (50.0f32, 0.0f32);
        for i in 0..n {
            if i > 0 && i % 3 == 0 { y += h + 80.0; h = 0.0; }
            let m = max[i % max.len()];
            let k = if m > 0 { sym::f32(1, m, 0) } else { -m as f32 };
            let r = Rect::new(Point::new(50.0 + 380.0 * (i % 3) as f32, y), Size::new(300.0, LINE * k));
            h = h.max(r.size.height);
            let id = place::table(&mut doc, 0);
            let nd = doc.get_node_mut(id).unwrap();
            nd.origin = Some(r.origin);
            nd.size = Some(r.size);
            ports(&mut doc, id, r, &[UP, RIGHT, DOWN, LEFT]);
            ids.push(id);
            rects.push(r);
            rows.push(k);
        }
        Map { doc, ids, rects, rows, made: vec![] }
    }
    /// The node of an end; rows get the ports C12 gives them.
    pub fn end(&mut self, t: usize, e: End) -> NodeId {
        let n = self.rows[t];
        if e == Table { return self.ids[t]; }
        if e != Middle {
            if let Some(m) = self.made.iter().find(|m| m.0 == t && m.1 == e) { return m.3; }
        } else {
            let same: Vec<NodeId> = self.made.iter().filter(|m| m.0 == t && m.1 == e).map(|m| m.3).collect();
            let k = sym::choose(same.len() as u32 + 1) as usize;
            if k < same.len() { return same[k]; }
        }
        let at = match e {
            Only => { sym::assume(n == 1.0); 0.0 }
            First => { sym::assume(n >= 2.0); 0.0 }
            Last => { sym::assume(n >= 2.0); n - 1.0 }
            _ => {
                let k = sym::f32(1, 40, 0);
                sym::assume((n >= 3.0) & (k < n - 1.0));
                for m in &self.made { if m.0 == t { sym::assume(k != m.2); } }
                k
            }
        };
        let r = Rect::new(Point::new(self.rects[t].origin.x, self.rects[t].origin.y + LINE * at), Size::new(300.0, LINE));
        let id = place::field(&mut self.doc);
        let nd = self.doc.get_node_mut(id).unwrap();
        nd.origin = Some(r.origin);
        nd.size = Some(r.size);
        let os: &[Orientation] = match e { Only => &[UP, RIGHT, DOWN, LEFT], First => &[UP, RIGHT, LEFT], Last => &[RIGHT, DOWN, LEFT], _ => &[RIGHT, LEFT] };
        ports(&mut self.doc, id, r, os);
        self.doc.get_node_mut(self.ids[t]).unwrap().append_child(id);
        self.made.push((t, e, at, id));
        id
    }
    pub fn edge(&mut self, a: (usize, End), b: (usize, End)) {
        let s = self.end(a.0, a.1);
        let d = self.end(b.0, b.1);
        self.doc.add_edge(EdgeData::new(s, d, None));
    }
}

fn eq(a: &Point, b: &Point) -> bool { (a.x == b.x) & (a.y == b.y) }
/// b lies strictly in direction o from a
fn towards(a: &Point, b: &Point, o: Orientation) -> bool {
    match o {
        Orientation::Up => (a.x == b.x) & (b.y < a.y),
        Orientation::Down => (a.x == b.x) & (b.y > a.y),
        Orientation::Left => (a.y == b.y) & (b.x < a.x),
        Orientation::Right => (a.y == b.y) & (b.x > a.x),
    }
}
fn leaves(ps: &[TerminalPort], p: &Point, next: &Point) -> bool {
    let mut ok = false;
    for t in ps { ok = ok | (eq(t.location(), p) & towards(p, next, t.orientation())); }
    ok
}
fn ports_of(doc: &Document, id: NodeId) -> Vec<TerminalPort> { doc.get_node(id).unwrap().terminal_ports().cloned().collect() }
fn each<F: FnMut(NodeId, NodeId, &[Point])>(doc: &Document, mut f: F) {
    for e in doc.edges() {
        let p: &[Point] = e.path_points().unwrap_or(&[]);
        f(e.source_id(), e.target_id(), p);
    }
}
pub const ROUTED: u32 = 1;
pub const CLEAR: u32 = 2;
pub const SHORTEST: u32 = 4;

pub fn routed(doc: &Document) {
    each(doc, |s, d, p| {
        if p.len() < 2 { sym::check(false, "every edge has a route of at least two points"); return; }
        let n = p.len();
        sym::check(leaves(&ports_of(doc, s), &p[0], &p[1]), "the route starts at a port of the source, in its direction");
        sym::check(leaves(&ports_of(doc, d), &p[n - 1], &p[n - 2]), "the route ends at a port of the target, against its direction");
        let mut straight = true;
        for i in 1..n { straight = straight & ((p[i - 1].x == p[i].x) != (p[i - 1].y == p[i].y)); }
        sym::check(straight, "segments are horizontal or vertical and have a positive length");
        let mut onward = true;
        for i in 2..n {
            let (a, b, c) = (p[i - 2], p[i - 1], p[i]);
            let back = ((b.x > a.x) & (c.x < b.x)) | ((b.x < a.x) & (c.x > b.x)) | ((b.y > a.y) & (c.y < b.y)) | ((b.y < a.y) & (c.y > b.y));
            onward = onward & !back;
        }
        sym::check(onward, "a route never doubles back");
        if n > 2 { sym::reach("bent route"); }
        sym::reach("route");
    });
}
pub fn clear(doc: &Document) {
    let ts: Vec<Rect> = place::tables(doc).into_iter().map(|t| t.1).collect();
    each(doc, |_, _, p| {
        let mut ok = true;
        for i in 1..p.len() {
            let (a, b) = (p[i - 1], p[i]);
            for r in &ts {
                let inside = ((a.x > r.min_x()) | (b.x > r.min_x())) & ((a.x < r.max_x()) | (b.x < r.max_x())) & ((a.y > r.min_y()) | (b.y > r.min_y())) & ((a.y < r.max_y()) | (b.y < r.max_y()));
                ok = ok & !inside;
            }
            sym::reach("segment");
        }
        sym::check(ok, "no segment runs through a table");
    });
}
fn len(a: &Point, b: &Point) -> f32 { (a.x - b.x).abs() + (a.y - b.y).abs() }
/// The chosen route against all others of the route graph, by Bellman's equations.
pub fn shortest(doc: &Document, g: &RouteGraph) {
    let at: Vec<Point> = g.node_ids().map(|i| *g.get_node(i).unwrap().location()).collect();
    let idx = |id| g.node_ids().position(|x| x == id).unwrap();
    let mut adj: Vec<Vec<(usize, f32)>> = vec![vec![]; at.len()];
    for e in g.edges() {
        let (a, b) = (idx(e.source_id()), idx(e.target_id()));
        let l = len(&at[a], &at[b]);
        adj[a].push((b, l));
        adj[b].push((a, l));
    }
    each(doc, |s, d, p| {
        // every step is a connection of the graph
        let mut total = 0.0;
        let mut linked = true;
        for i in 1..p.len() {
            let mut ok = false;
            for a in 0..at.len() {
                for (b, _) in &adj[a] { ok = ok | (eq(&at[a], &p[i - 1]) & eq(&at[*b], &p[i])); }
            }
            linked = linked & ok;
            total += len(&p[i - 1], &p[i]);
        }
        sym::check(linked & (p.len() > 1), "every step of the route is a connection of the graph");
        let nodes = |id| -> Vec<usize> { ports_of(doc, id).iter().filter_map(|t| g.get_terminal_port(t.id())).map(idx).collect() };
        let (from, to) = (nodes(s), nodes(d));
        // all sources at once, unless an end is a source too
        let groups: Vec<Vec<usize>> = if from.iter().any(|a| to.contains(a)) { from.iter().map(|a| vec![*a]).collect() } else { vec![from] };
        for src in groups {
            // relax connections until nothing improves, as long as it is shorter than the chosen route
            let mut dist: Vec<Option<f32>> = vec![None; at.len()];
            let mut queue = std::collections::VecDeque::new();
            let mut waiting = vec![false; at.len()];
            for a in &src { dist[*a] = Some(0.0); queue.push_back(*a); }
            while let Some(i) = queue.pop_front() {
                waiting[i] = false;
                let x = dist[i].unwrap();
                for (j, l) in &adj[i] {
                    let y = x + *l;
                    if y < total && dist[*j].map_or(true, |z| y < z) {
                        dist[*j] = Some(y);
                        if !waiting[*j] { waiting[*j] = true; queue.push_back(*j); }
                    }
                }
            }
            for b in &to {
                if src.contains(b) { continue; }
                sym::check(dist[*b].is_none(), "no other route between the two ends is shorter");
            }
            sym::reach("compared");
        }
    });
}
pub const DRAWN: u32 = 8;
pub fn judge(mut m: Map, what: u32) {
    sym::hash_mode(2);
    let mut e = SimpleLayoutEngine::new();
    e.draw_edge_path(&mut m.doc);
    if what & ROUTED != 0 { routed(&m.doc); }
    if what & CLEAR != 0 { clear(&m.doc); }
    if what & DRAWN != 0 { svg::edges(&m.doc, &svg::drawn(&m.doc, None, None)); }
    if what & SHORTEST != 0 { shortest(&m.doc, e.edge_route_graph()); }
}
fn kind(es: &[End]) -> End { es[sym::choose(es.len() as u32) as usize] }

/// One edge between two of n tables.
fn one(n: usize, max: &[i32], a: usize, b: usize, es: &[End], fs: &[End], what: u32) {
    let (e, f) = (kind(es), kind(fs));
    let mut m = Map::new(n, max);
    m.edge((a, e), (b, f));
    judge(m, what);
}
/// Several edges, all ends from `es`.
fn many(n: usize, max: &[i32], pairs: &[(usize, usize)], es: &[End], what: u32) {
    let ends: Vec<(End, End)> = pairs.iter().map(|_| (kind(es), kind(es))).collect();
    let mut m = Map::new(n, max);
    for (k, (a, b)) in pairs.iter().enumerate() { m.edge((*a, ends[k].0), (*b, ends[k].1)); }
    judge(m, what);
}
/// One edge between any two of n tables (or one and itself) with k further edges elsewhere.
fn anywhere(n: usize, max: &[i32], es: &[End], what: u32) {
    let a = sym::choose(n as u32) as usize;
    let b = sym::choose(n as u32) as usize;
    one(n, max, a, b, es, es, what);
}
/// A module laid out by the engine from start to end: up to n tables of up to c columns, r relations.
fn whole(n: u32, c: u32, r: u32, what: u32) {
    use seiren::erd::{EntityDefinition, EntityField, EntityFieldType, EntityPath, EntityRelation, Module};
    sym::hash_mode(3);
    let mut m = Module::new(None);
    let n = sym::choose(n) + 1;
    let mut rows = vec![];
    for t in 0..n {
        let mut d = EntityDefinition::new(format!("t{t}"));
        let k = sym::choose(c + 1);
        for f in 0..k { d.add_field(EntityField::new(format!("c{f}"), EntityFieldType::Int, None)); }
        rows.push(k);
        m.add_entity_definition(d);
    }
    for _ in 0..r {
        let mut end = || {
            let t = sym::choose(n);
            let k = sym::choose(rows[t as usize] + 1);
            if k == 0 { EntityPath::Entity(format!("t{t}")) } else { EntityPath::Field(format!("t{t}"), format!("c{}", k - 1)) }
        };
        let (a, b) = (end(), end());
        m.add_entity_relation(EntityRelation::new(a, b));
    }
    let mut doc = m.into_mir();
    let mut e = SimpleLayoutEngine::new();
    e.place_nodes(&mut doc);
    e.place_terminal_ports(&mut doc);
    e.draw_edge_path(&mut doc);
    sym::check(doc.edges().count() == r as usize, "every relation became an edge");
    if what & ROUTED != 0 { routed(&doc); }
    if what & CLEAR != 0 { clear(&doc); }
    if what & SHORTEST != 0 { shortest(&doc, e.edge_route_graph()); }
}
/// Tables put at symbolic places, apart as the grid keeps them but off the whole numbers.
fn shifted(rows: &[f32], frac: i32, wide: i32, a: (usize, End), b: (usize, End), what: u32) {
    let mut doc = Document::new();
    let (mut ids, mut rects) = (vec![], vec![]);
    let (mut x, mut y, mut h, mut low) = (0.0f32, 0.0f32, 0.0f32, 0.0f32);
    for (i, k) in rows.iter().enumerate() {
        if i % 3 == 0 { x = 0.0; if i > 0 { y = low + 80.0; } h = 0.0; }
        x += sym::f32(0, wide, frac);
        let o = Point::new(50.0 + 380.0 * (i % 3) as f32 + x, 50.0 + y + sym::f32(0, wide, frac));
        let r = Rect::new(o, Size::new(300.0, LINE * *k));
        h = h.max(LINE * *k);
        low = y + h + wide as f32;
        let id = place::table(&mut doc, 0);
        let nd = doc.get_node_mut(id).unwrap();
        nd.origin = Some(r.origin);
        nd.size = Some(r.size);
        ports(&mut doc, id, r, &[UP, RIGHT, DOWN, LEFT]);
        ids.push(id);
        rects.push(r);
    }
    let mut m = Map { doc, ids, rects, rows: rows.to_vec(), made: vec![] };
    m.edge(a, b);
    judge(m, what);
}
const TR: [End; 3] = [Table, First, Last];
const TM: [End; 2] = [Table, Middle];

harnesses! {
    c19_two_tables { one(2, &[9], 0, 1, &ENDS, &ENDS, DRAWN) }
    c19_past { one(3, &[6], 0, 2, &ENDS, &ENDS, DRAWN) }
    c19_below { one(4, &[5, -2, -3], 0, 3, &ENDS, &ENDS, DRAWN) }
    c19_slant { one(5, &[4, 4, -2], 0, 4, &ENDS, &TR, DRAWN) }
    c19_rise { one(6, &[3, -4, 3], 3, 2, &TM, &ENDS, DRAWN) }
    c19_over { one(7, &[3, -1, -4], 0, 6, &ENDS, &TR, DRAWN) }
    c19_self { one(2, &[4], 1, 1, &ENDS, &ENDS, DRAWN) }
    c19_both { many(3, &[3], &[(0, 2), (2, 1)], &TM, DRAWN) }
    c19_shifted { shifted(&[2.0, 1.0], 2, 7, (0, Last), (1, Only), DRAWN) }
    c13_tower0 { anywhere(5, &[20, -1, -2, -3, -1], &[Table, Only], ROUTED) }
    c13_tower1 { anywhere(5, &[-2, 20, -1, -1, -4], &[Table, Only], ROUTED) }
    c13_tower2 { anywhere(6, &[-1, -2, 20, -1, -3, -2], &[Table, Only], ROUTED) }
    c13_tower4 { anywhere(8, &[-1, -3, -2, -2, 16, -1, -1, -2], &[Table], ROUTED) }
    c14_tower0 { anywhere(5, &[20, -1, -2, -3, -1], &[Table, Only], CLEAR) }
    c14_tower1 { anywhere(5, &[-2, 20, -1, -1, -4], &[Table, Only], CLEAR) }
    c14_tower2 { anywhere(6, &[-1, -2, 20, -1, -3, -2], &[Table, Only], CLEAR) }
    c14_tower4 { anywhere(8, &[-1, -3, -2, -2, 16, -1, -1, -2], &[Table], CLEAR) }
    c15_tower0 { anywhere(5, &[20, -1, -2, -3, -1], &[Table, Only], SHORTEST) }
    c15_tower1 { anywhere(5, &[-2, 20, -1, -1, -4], &[Table, Only], SHORTEST) }
    c15_tower2 { anywhere(6, &[-1, -2, 20, -1, -3, -2], &[Table, Only], SHORTEST) }
    c15_tower4 { anywhere(8, &[-1, -3, -2, -2, 16, -1, -1, -2], &[Table], SHORTEST) }
    c19_tower0 { anywhere(5, &[20, -1, -2, -3, -1], &[Table, Only], DRAWN) }
    c19_tower1 { anywhere(5, &[-2, 20, -1, -1, -4], &[Table, Only], DRAWN) }
    c19_tower2 { anywhere(6, &[-1, -2, 20, -1, -3, -2], &[Table, Only], DRAWN) }
    c19_tower4 { anywhere(8, &[-1, -3, -2, -2, 16, -1, -1, -2], &[Table], DRAWN) }
    c13_two { one(2, &[9], 0, 1, &ENDS, &ENDS, ROUTED) }
    c13_two_tall { one(2, &[60], 0, 1, &TM, &ENDS, ROUTED) }
    c13_past { one(3, &[6], 0, 2, &ENDS, &ENDS, ROUTED) }
    c13_back { one(3, &[5], 2, 0, &TM, &ENDS, ROUTED) }
    c13_below { one(4, &[5, -2, -3], 0, 3, &ENDS, &ENDS, ROUTED) }
    c13_slant { one(5, &[4, 4, -2], 0, 4, &ENDS, &TR, ROUTED) }
    c13_far { one(6, &[3, -2, 3], 0, 5, &ENDS, &TM, ROUTED) }
    c13_rise { one(6, &[3, -4, 3], 3, 2, &TM, &ENDS, ROUTED) }
    c13_over { one(7, &[3, -1, -4], 0, 6, &ENDS, &TR, ROUTED) }
    c13_self1 { one(1, &[9], 0, 0, &ENDS, &ENDS, ROUTED) }
    c13_self2 { one(2, &[4], 1, 1, &ENDS, &ENDS, ROUTED) }
    c13_self4 { one(4, &[3, -3, -2], 0, 0, &ENDS, &ENDS, ROUTED) }
    c13_cross { many(2, &[4], &[(0, 1), (1, 0)], &ENDS, ROUTED) }
    c13_fan { many(3, &[3], &[(0, 1), (0, 2)], &TR, ROUTED) }
    c13_both { many(3, &[3], &[(0, 2), (2, 1)], &TM, ROUTED) }
    c13_square { many(5, &[3, -2, -1], &[(0, 3), (1, 4)], &TM, ROUTED) }
    c13_any5 { anywhere(5, &[3, -2, 2], &[Table, Middle], ROUTED) }
    c13_any9 { anywhere(9, &[2, -2, -1], &[Table], ROUTED) }
    c13_whole { whole(3, 2, 1, ROUTED) }
    c13_whole2 { whole(2, 2, 2, ROUTED) }
    c13_whole7 { whole(7, 1, 1, ROUTED) }
    c14_two { one(2, &[9], 0, 1, &ENDS, &ENDS, CLEAR) }
    c14_two_tall { one(2, &[60], 0, 1, &TM, &ENDS, CLEAR) }
    c14_past { one(3, &[6], 0, 2, &ENDS, &ENDS, CLEAR) }
    c14_back { one(3, &[5], 2, 0, &TM, &ENDS, CLEAR) }
    c14_below { one(4, &[5, -2, -3], 0, 3, &ENDS, &ENDS, CLEAR) }
    c14_slant { one(5, &[4, 4, -2], 0, 4, &ENDS, &TR, CLEAR) }
    c14_far { one(6, &[3, -2, 3], 0, 5, &ENDS, &TM, CLEAR) }
    c14_rise { one(6, &[3, -4, 3], 3, 2, &TM, &ENDS, CLEAR) }
    c14_over { one(7, &[3, -1, -4], 0, 6, &ENDS, &TR, CLEAR) }
    c14_self1 { one(1, &[9], 0, 0, &ENDS, &ENDS, CLEAR) }
    c14_self2 { one(2, &[4], 1, 1, &ENDS, &ENDS, CLEAR) }
    c14_self4 { one(4, &[3, -3, -2], 0, 0, &ENDS, &ENDS, CLEAR) }
    c14_cross { many(2, &[4], &[(0, 1), (1, 0)], &ENDS, CLEAR) }
    c14_fan { many(3, &[3], &[(0, 1), (0, 2)], &TR, CLEAR) }
    c14_both { many(3, &[3], &[(0, 2), (2, 1)], &TM, CLEAR) }
    c14_square { many(5, &[3, -2, -1], &[(0, 3), (1, 4)], &TM, CLEAR) }
    c14_any5 { anywhere(5, &[3, -2, 2], &[Table, Middle], CLEAR) }
    c14_any9 { anywhere(9, &[2, -2, -1], &[Table], CLEAR) }
    c14_whole { whole(3, 2, 1, CLEAR) }
    c14_whole2 { whole(2, 2, 2, CLEAR) }
    c14_whole7 { whole(7, 1, 1, CLEAR) }
    c15_two { one(2, &[9], 0, 1, &ENDS, &ENDS, SHORTEST) }
    c15_two_tall { one(2, &[60], 0, 1, &TM, &ENDS, SHORTEST) }
    c15_past { one(3, &[6], 0, 2, &ENDS, &ENDS, SHORTEST) }
    c15_back { one(3, &[5], 2, 0, &TM, &ENDS, SHORTEST) }
    c15_below { one(4, &[5, -2, -3], 0, 3, &ENDS, &ENDS, SHORTEST) }
    c15_slant { one(5, &[4, 4, -2], 0, 4, &ENDS, &TR, SHORTEST) }
    c15_far { one(6, &[3, -2, 3], 0, 5, &ENDS, &TM, SHORTEST) }
    c15_rise { one(6, &[3, -4, 3], 3, 2, &TM, &ENDS, SHORTEST) }
    c15_over { one(7, &[3, -1, -4], 0, 6, &ENDS, &TR, SHORTEST) }
    c15_self1 { one(1, &[9], 0, 0, &ENDS, &ENDS, SHORTEST) }
    c15_self2 { one(2, &[4], 1, 1, &ENDS, &ENDS, SHORTEST) }
    c15_self4 { one(4, &[3, -3, -2], 0, 0, &ENDS, &ENDS, SHORTEST) }
    c15_cross { many(2, &[4], &[(0, 1), (1, 0)], &ENDS, SHORTEST) }
    c15_fan { many(3, &[3], &[(0, 1), (0, 2)], &TR, SHORTEST) }
    c15_both { many(3, &[3], &[(0, 2), (2, 1)], &TM, SHORTEST) }
    c15_square { many(5, &[3, -2, -1], &[(0, 3), (1, 4)], &TM, SHORTEST) }
    c15_any5 { anywhere(5, &[3, -2, 2], &[Table, Middle], SHORTEST) }
    c15_any9 { anywhere(9, &[2, -2, -1], &[Table], SHORTEST) }
    c15_whole { whole(3, 2, 1, SHORTEST) }
    c15_whole2 { whole(2, 2, 2, SHORTEST) }
    c15_whole7 { whole(7, 1, 1, SHORTEST) }
    c13_two20 { one(2, &[20], 0, 1, &TR, &ENDS, ROUTED) }
    c13_past9 { one(3, &[9], 0, 2, &ENDS, &ENDS, ROUTED) }
    c13_slant6 { one(5, &[6, 6, -2], 0, 4, &ENDS, &ENDS, ROUTED) }
    c13_over6 { one(7, &[6, -2, 5], 0, 6, &ENDS, &ENDS, ROUTED) }
    c13_fan3 { many(4, &[3, -2, -3], &[(0, 1), (0, 2), (0, 3)], &TR, ROUTED) }
    c13_any6 { anywhere(6, &[3], &[Table, Middle], ROUTED) }
    c13_any12 { anywhere(12, &[2, -3, -1], &[Table], ROUTED) }
    c13_whole5 { whole(5, 1, 1, ROUTED) }
    c13_whole4 { whole(4, 2, 1, ROUTED) }
    c13_whole3 { whole(2, 2, 3, ROUTED) }
    c14_two20 { one(2, &[20], 0, 1, &TR, &ENDS, CLEAR) }
    c14_past9 { one(3, &[9], 0, 2, &ENDS, &ENDS, CLEAR) }
    c14_slant6 { one(5, &[6, 6, -2], 0, 4, &ENDS, &ENDS, CLEAR) }
    c14_over6 { one(7, &[6, -2, 5], 0, 6, &ENDS, &ENDS, CLEAR) }
    c14_fan3 { many(4, &[3, -2, -3], &[(0, 1), (0, 2), (0, 3)], &TR, CLEAR) }
    c14_any6 { anywhere(6, &[3], &[Table, Middle], CLEAR) }
    c14_any12 { anywhere(12, &[2, -3, -1], &[Table], CLEAR) }
    c14_whole5 { whole(5, 1, 1, CLEAR) }
    c14_whole4 { whole(4, 2, 1, CLEAR) }
    c14_whole3 { whole(2, 2, 3, CLEAR) }
    c15_two20 { one(2, &[20], 0, 1, &TR, &ENDS, SHORTEST) }
    c15_past9 { one(3, &[9], 0, 2, &ENDS, &ENDS, SHORTEST) }
    c15_slant6 { one(5, &[6, 6, -2], 0, 4, &ENDS, &ENDS, SHORTEST) }
    c15_over6 { one(7, &[6, -2, 5], 0, 6, &ENDS, &ENDS, SHORTEST) }
    c15_fan3 { many(4, &[3, -2, -3], &[(0, 1), (0, 2), (0, 3)], &TR, SHORTEST) }
    c15_any6 { anywhere(6, &[3], &[Table, Middle], SHORTEST) }
    c15_any12 { anywhere(12, &[2, -3, -1], &[Table], SHORTEST) }
    c15_whole5 { whole(5, 1, 1, SHORTEST) }
    c15_whole4 { whole(4, 2, 1, SHORTEST) }
    c15_whole3 { whole(2, 2, 3, SHORTEST) }
    c13_shifted { shifted(&[2.0, 1.0], 2, 7, (0, Last), (1, Only), ROUTED) }
    c14_shifted { shifted(&[2.0, 1.0], 2, 7, (0, Last), (1, Only), CLEAR) }
    c15_shifted { shifted(&[2.0, 1.0], 2, 7, (0, Last), (1, Only), SHORTEST) }
    c13_shifted3 { shifted(&[2.0, 1.0, 2.0], 2, 3, (0, Table), (2, Table), ROUTED) }
    c14_shifted3 { shifted(&[2.0, 1.0, 2.0], 2, 3, (0, Table), (2, Table), CLEAR) }
    c15_shifted3 { shifted(&[2.0, 1.0, 2.0], 2, 3, (0, Table), (2, Table), SHORTEST) }
    c15_shifted_self { shifted(&[3.0, 1.0], 3, 15, (0, First), (0, Last), SHORTEST) }
    c15_shifted_below { shifted(&[2.0, 1.0, 1.0, 2.0], 2, 7, (0, Table), (3, First), SHORTEST) }
    c25_ops3 { graph(3, 2, 9) }
    c25_ops4 { graph(4, 1, 5) }
    c25_ops5 { graph(5, 0, 1) }
    c25_ops6 { graph(6, 0, 0) }
    c25_points { points(5, 2, 7) }
    c25_ports { port_set(4) }
    c25_links { links(4, 5) }
}

/// What the graph should contain.
#[derive(Default)]
struct Model {
    at: Vec<(Point, Option<Orientation>)>,
    ports: Vec<(TerminalPort, usize)>,
    edges: Vec<(usize, usize)>,
}
fn compare(g: &RouteGraph, m: &Model, ids: &[seiren::layout::RouteNodeId]) {
    sym::check(g.node_ids().len() == m.at.len() && g.nodes().count() == m.at.len(), "one node per location");
    let mut ok = true;
    for (i, (id, (p, o))) in g.node_ids().zip(&m.at).enumerate() {
        ok = ok & (id == ids[i]);
        let n = g.get_node(id).unwrap();
        ok = ok & eq(n.location(), p) & (n.orientation() == *o);
    }
    sym::check(ok, "nodes keep their number, location and orientation");
    let mut ok = true;
    for (t, i) in &m.ports { ok = ok & (g.get_terminal_port(t.id()) == Some(ids[*i])); }
    sym::check(ok, "a port's node is the one at its location");
    let es: Vec<_> = g.edges().collect();
    sym::check(es.len() == m.edges.len(), "one edge per connection");
    let mut ok = true;
    for (e, (a, b)) in es.iter().zip(&m.edges) { ok = ok & (e.source_id() == ids[*a]) & (e.target_id() == ids[*b]); }
    sym::check(ok, "edges connect what was connected");
    sym::reach("compared");
}
fn spot(frac: i32, hi: i32) -> Point { Point::new(sym::f32(0, hi, frac), if hi == 0 { sym::f32(0, 3, frac) } else { sym::f32(0, hi, frac) }) }
struct Build {
    doc: Document,
    node: NodeId,
    g: RouteGraph,
    m: Model,
    ids: Vec<seiren::layout::RouteNodeId>,
}
impl Build {
    fn new() -> Self {
        let mut doc = Document::new();
        let node = place::field(&mut doc);
        Build { doc, node, g: RouteGraph::new(), m: Model::default(), ids: vec![] }
    }
    /// index of the node at p, decided on this path
    fn find(&self, p: &Point) -> Option<usize> { self.m.at.iter().position(|q| eq(&q.0, p)) }
    fn settle(&mut self, id: seiren::layout::RouteNodeId, p: Point, o: Option<Orientation>, k: Option<usize>) -> usize {
        match k {
            Some(k) => { sym::check(id == self.ids[k], "a known location keeps its node"); sym::reach("shared"); k }
            None => {
                sym::check(!self.ids.contains(&id), "a new location gets a new node");
                self.ids.push(id);
                self.m.at.push((p, o));
                self.ids.len() - 1
            }
        }
    }
    fn node(&mut self, p: Point) {
        let k = self.find(&p);
        // sharing a location with a port is refused by design
        if let Some(k) = k { sym::assume(self.m.at[k].1.is_none()); }
        let id = self.g.add_node(p);
        self.settle(id, p, None, k);
    }
    fn port(&mut self, p: Point, o: Orientation) {
        let k = self.find(&p);
        if let Some(k) = k { sym::assume(self.m.at[k].1 == Some(o)); }
        let n = self.doc.get_node_mut(self.node).unwrap();
        n.add_terminal_port(self.node, p, o);
        let t = n.terminal_ports().last().unwrap().clone();
        let id = self.g.add_terminal_port(&t);
        let k = self.settle(id, p, Some(o), k);
        self.m.ports.push((t, k));
    }
    fn again(&mut self, i: usize) {
        let (t, k) = self.m.ports[i].clone();
        let id = self.g.add_terminal_port(&t);
        sym::check(id == self.ids[k], "adding a port again changes nothing");
    }
    fn link(&mut self, a: usize, b: usize) {
        self.g.add_edge(self.ids[a], self.ids[b]);
        if !self.m.edges.iter().any(|e| *e == (a, b) || *e == (b, a)) { self.m.edges.push((a, b)); }
    }
    fn compare(&self) { compare(&self.g, &self.m, &self.ids); }
}
const SIDES: [Orientation; 4] = [UP, DOWN, LEFT, RIGHT];
fn graph(n: u32, frac: i32, hi: i32) {
    let mut b = Build::new();
    for _ in 0..n {
        match sym::choose(4) {
            0 => b.node(spot(frac, hi)),
            1 => { let o = SIDES[sym::choose(4) as usize]; b.port(spot(frac, hi), o) }
            2 => {
                let k = b.ids.len() as u32;
                sym::assume(k > 0);
                let (x, y) = (sym::choose(k) as usize, sym::choose(k) as usize);
                b.link(x, y);
            }
            _ => {
                let k = b.m.ports.len() as u32;
                sym::assume(k > 0);
                b.again(sym::choose(k) as usize);
            }
        }
        b.compare();
    }
}
fn points(n: u32, frac: i32, hi: i32) {
    let mut b = Build::new();
    for _ in 0..n { b.node(spot(frac, hi)); }
    b.compare();
}
fn port_set(n: u32) {
    let mut b = Build::new();
    for _ in 0..n { let o = SIDES[sym::choose(4) as usize]; b.port(spot(1, 3), o); }
    b.compare();
}
/// n nodes, k connections between any of them, then the same the other way round
fn links(n: u32, k: u32) {
    let mut b = Build::new();
    for i in 0..n { b.node(Point::new(i as f32, sym::f32(0, 99, 2))); }
    let ps: Vec<(usize, usize)> = (0..k).map(|_| (sym::choose(n) as usize, sym::choose(n) as usize)).collect();
    for p in &ps { b.link(p.0, p.1); }
    b.compare();
    for p in &ps { b.link(p.1, p.0); }
    b.compare();
}
