//! C07-C09: module <-> text, module -> document.
use crate::sym;
use crate::text::{key_no, same, type_no};
use seiren::color::{NamedColor, WebColor};
use seiren::erd::{EntityDefinition, EntityField, EntityFieldKey, EntityFieldType, EntityPath, EntityRelation, Module, ModuleEntry};
use seiren::mir::{self, ShapeKind};
use seiren::parser::parse;

const IDCH: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
const IDST: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";

pub fn st(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// A plain name of n symbolic characters.
pub fn plain(n: usize) -> String {
    let mut v = vec![sym::set(IDST)];
    for _ in 1..n { v.push(sym::set(IDCH)); }
    st(v)
}
/// A name of one character out of a, b, c or d.
pub fn letter(k: u8) -> String { st(vec![sym::byte(b'a', b'a' + k - 1)]) }
pub fn ftype() -> EntityFieldType {
    match sym::choose(4) { 0 => EntityFieldType::Int, 1 => EntityFieldType::Uuid, 2 => EntityFieldType::Text, _ => EntityFieldType::Timestamp }
}
pub fn fkey() -> Option<EntityFieldKey> {
    match sym::choose(3) { 0 => None, 1 => Some(EntityFieldKey::PrimaryKey), _ => Some(EntityFieldKey::ForeginKey) }
}
fn not_keyword(s: &str) { for k in crate::refp::KW { sym::assume(s != k); } }

// --- C07
fn display(m: &Module) {
    let s = m.to_string();
    let (p, e1, e2) = parse(&s);
    sym::check(e1.is_empty() && e2.is_empty(), "displayed text is accepted");
    match p { Some(p) => sym::check(same(m, &p), "displayed text gives back the module"), None => sym::check(false, "displayed text gives a module") }
    sym::reach("round trip");
}
pub fn end_path(n: impl Fn() -> String) -> EntityPath { let a = n(); if sym::flag() { EntityPath::Field(a, n()) } else { EntityPath::Entity(a) } }
fn any_module(entries: u32, fields: u32, named: bool) -> Module {
    let n = || plain(1);
    let mut m = Module::new(if named && sym::flag() { Some(n()) } else { None });
    for _ in 0..sym::choose(entries + 1) {
        if sym::flag() {
            let a = end_path(n);
            m.add_entity_relation(EntityRelation::new(a, end_path(n)));
        } else {
            let mut d = EntityDefinition::new(n());
            for _ in 0..sym::choose(fields + 1) { let x = n(); let t = ftype(); d.add_field(EntityField::new(x, t, fkey())); }
            m.add_entity_definition(d);
        }
    }
    m
}
/// names of several symbolic characters in one role
fn long_name(role: u32, n: usize) {
    let s = plain(n);
    not_keyword(&s);
    named_role(role, s)
}
fn named_role(role: u32, s: String) {
    let mut m = Module::new(if role == 0 { Some(s.clone()) } else { None });
    match role {
        0 => {}
        1 => m.add_entry(ModuleEntry::EntityDefinition(EntityDefinition::new(s))),
        2 => {
            let mut d = EntityDefinition::new("a".into());
            d.add_field(EntityField::new(s, ftype(), fkey()));
            m.add_entity_definition(d);
        }
        3 => m.add_entity_relation(EntityRelation::new(EntityPath::Entity(s), EntityPath::Entity("b".into()))),
        4 => m.add_entity_relation(EntityRelation::new(EntityPath::Field("b".into(), s), EntityPath::Field("b".into(), "c".into()))),
        5 => m.add_entity_relation(EntityRelation::new(EntityPath::Field("a".into(), "c".into()), EntityPath::Field(s, "c".into()))),
        _ => m.add_entity_relation(EntityRelation::new(EntityPath::Entity("c".into()), EntityPath::Entity(s))),
    }
    display(&m);
}
/// keywords with one more or one changed character
fn near_keyword() {
    let k = crate::refp::KW[sym::choose(7) as usize];
    let mut v = vec![];
    match sym::choose(3) {
        0 => { v.extend_from_slice(k.as_bytes()); v.push(sym::set(IDCH)); }
        1 => { v.push(sym::set(IDST)); v.extend_from_slice(k.as_bytes()); }
        _ => { let i = sym::choose(k.len() as u32) as usize; v.extend_from_slice(k.as_bytes()); v[i] = if i == 0 { sym::set(IDST) } else { sym::set(IDCH) }; }
    }
    let s = st(v);
    not_keyword(&s);
    named_role(sym::choose(7), s);
}

// --- C08
fn is_rgb(c: &Option<WebColor>, r: u8, g: u8, b: u8) -> bool {
    match c { Some(WebColor::RGB(c)) => c.red == r && c.green == g && c.blue == b, _ => false }
}
fn is_white(c: &Option<WebColor>) -> bool { matches!(c, Some(WebColor::Named(NamedColor::White))) }
pub fn text_of(t: &EntityFieldType) -> &'static str { ["int", "uuid", "text", "timestamp"][type_no(t) as usize - 1] }
fn tables(m: &Module) {
    sym::hash_mode(1);
    let doc = m.into_mir();
    let defs: Vec<&EntityDefinition> = m.entries().filter_map(|e| match e { ModuleEntry::EntityDefinition(d) => Some(d), _ => None }).collect();
    let recs: Vec<mir::NodeId> = doc.body().children().collect();
    sym::check(recs.len() == defs.len(), "one record per entity");
    let mut seen: Vec<mir::NodeId> = vec![];
    for (id, d) in recs.iter().zip(defs.iter()) {
        let Some(n) = doc.get_node(*id) else { sym::check(false, "record exists"); return };
        sym::check(!seen.contains(id), "a record of its own");
        seen.push(*id);
        let ShapeKind::Record(r) = n.kind() else { sym::check(false, "a record per entity"); return };
        sym::check(r.rounded && is_rgb(&r.bg_color, 33, 33, 33) && is_rgb(&r.border_color, 73, 73, 73), "record colours");
        let rows: Vec<mir::NodeId> = n.children().collect();
        sym::check(rows.len() == d.fields().len() + 1, "a header row and a row per column");
        for (k, rid) in rows.iter().enumerate() {
            sym::check(!seen.contains(rid), "a row of its own");
            seen.push(*rid);
            let Some(ShapeKind::Field(f)) = doc.get_node(*rid).map(|n| n.kind()) else { sym::check(false, "rows are fields"); return };
            if k == 0 {
                sym::check(f.title.text == d.name(), "header carries the entity name");
                sym::check(f.subtitle.is_none() && f.badge.is_none(), "header has neither type nor badge");
                sym::check(is_white(&f.title.color) && is_rgb(&f.bg_color, 73, 73, 73), "header colours");
            } else {
                let c = d.fields().nth(k - 1).unwrap();
                sym::check(f.title.text == c.name(), "row carries the column name");
                sym::check(is_white(&f.title.color), "title colour");
                let Some(sub) = &f.subtitle else { sym::check(false, "row carries the type"); return };
                sym::check(sub.text == text_of(c.field_type()), "row carries the column type");
                sym::check(match type_no(c.field_type()) { 1 | 2 => is_rgb(&sub.color, 236, 199, 0), 3 => is_rgb(&sub.color, 214, 105, 5), _ => is_rgb(&sub.color, 6, 182, 151) }, "type colour");
                match (&f.badge, key_no(c.field_key())) {
                    (None, 0) => {}
                    (Some(b), 5) => sym::check(b.text == "PK" && is_white(&b.color) && is_rgb(&b.bg_color, 55, 55, 55), "PK badge"),
                    (Some(b), 6) => sym::check(b.text == "FK" && is_rgb(&b.color, 17, 112, 251) && is_rgb(&b.bg_color, 32, 41, 55), "FK badge"),
                    _ => sym::check(false, "badge exactly when the column has a key"),
                }
            }
        }
    }
    sym::reach("checked");
}
/// entities with symbolic names (which may coincide), columns and relations between
fn some_entities(ents: u32, fields: u32, rels: u32, k: u8, kinds: bool) -> Module {
    let mut m = Module::new(None);
    for _ in 0..sym::choose(ents + 1) {
        if rels > 0 && sym::flag() { let a = end_path(|| letter(k)); m.add_entity_relation(EntityRelation::new(a, end_path(|| letter(k)))); }
        let mut d = EntityDefinition::new(letter(k));
        for _ in 0..sym::choose(fields + 1) {
            let x = letter(k);
            let (t, q) = if kinds { (ftype(), fkey()) } else { (EntityFieldType::Int, None) };
            d.add_field(EntityField::new(x, t, q));
        }
        m.add_entity_definition(d);
    }
    m
}
fn wide_name() {
    let mut t = crate::text::Txt::new();
    t.wide();
    if sym::flag() { t.wide(); }
    let mut d = EntityDefinition::new(st(t.0.clone()));
    d.add_field(EntityField::new(st(t.0), ftype(), fkey()));
    let mut m = Module::new(None);
    m.add_entity_definition(d);
    tables(&m);
}

// --- C09
fn header_of(doc: &mir::Document, r: mir::NodeId) -> &str {
    let h = doc.get_node(r).unwrap().children().next().unwrap();
    match doc.get_node(h).unwrap().kind() { ShapeKind::Field(f) => &f.title.text, _ => "" }
}
/// does the node stand for the path (with duplicate names any of them may)
fn stands_for(doc: &mir::Document, id: mir::NodeId, p: &EntityPath) -> bool {
    doc.body().children().any(|r| match p {
        EntityPath::Entity(n) => r == id && header_of(doc, r) == n,
        EntityPath::Field(n, f) => header_of(doc, r) == n && doc.get_node(r).unwrap().children().skip(1).any(|c| {
            c == id && match doc.get_node(c).unwrap().kind() { ShapeKind::Field(x) => x.title.text == *f, _ => false }
        }),
    })
}
fn resolvable(m: &Module, p: &EntityPath) -> bool {
    m.entries().any(|e| match (e, p) {
        (ModuleEntry::EntityDefinition(d), EntityPath::Entity(n)) => d.name() == n,
        (ModuleEntry::EntityDefinition(d), EntityPath::Field(n, f)) => d.name() == n && d.fields().any(|c| c.name() == f),
        _ => false,
    })
}
fn edges(m: &Module) {
    sym::hash_mode(1);
    let doc = m.into_mir();
    let mut want: Vec<&EntityRelation> = vec![];
    for e in m.entries() {
        if let ModuleEntry::EntityRelation(r) = e { if resolvable(m, r.start_path()) && resolvable(m, r.end_path()) { want.push(r); } }
    }
    sym::note(want.len() as u64);
    let ids: Vec<mir::EdgeId> = doc.edge_ids().collect();
    sym::check(ids.len() == want.len(), "one edge per resolvable relation");
    sym::check(doc.edges().count() == want.len(), "one edge per resolvable relation");
    for (id, r) in ids.iter().zip(want.iter()) {
        let Some(e) = doc.edge(*id) else { sym::check(false, "edge exists"); return };
        sym::check(stands_for(&doc, e.source_id(), r.start_path()), "edge starts at the first end of its relation");
        sym::check(stands_for(&doc, e.target_id(), r.end_path()), "edge ends at the second end of its relation");
        sym::check(doc.edge_endpoints(*id) == Some((e.source_id(), e.target_id())), "edge is attached to its ends");
        sym::check(e.path_points().is_none(), "no route yet");
        sym::reach("edge");
    }
    if want.is_empty() { sym::reach("no edge"); }
}
/// two entities with columns (symbolic names) and a relation anywhere among them
/// names of arbitrary characters and different lengths: no two of them may be taken for the same unless they are
fn odd(swap: bool) {
    let ch = || sym::byte(0, 127);
    let name = |n: usize| { let v: Vec<u8> = (0..n).map(|_| ch()).collect(); unsafe { String::from_utf8_unchecked(v) } };
    let mut m = Module::new(None);
    let la = 1 + 2 * sym::choose(2) as usize;
    let mut a = EntityDefinition::new(name(la));
    if sym::flag() { a.add_field(EntityField::new(name(1), EntityFieldType::Int, None)); }
    let mut b = EntityDefinition::new(name(1));
    b.add_field(EntityField::new(name(1), EntityFieldType::Int, None));
    if swap { m.add_entity_definition(b); m.add_entity_definition(a); } else { m.add_entity_definition(a); m.add_entity_definition(b); }
    let end = || match sym::choose(3) { 0 => EntityPath::Entity(name(1)), 1 => EntityPath::Entity(name(3)), _ => EntityPath::Field(name(1), name(1)) };
    let x = end();
    m.add_entity_relation(EntityRelation::new(x, EntityPath::Entity("zz".into())));
    let y = end();
    m.add_entity_relation(EntityRelation::new(y, end()));
    let mut z = EntityDefinition::new("zz".into());
    z.add_field(EntityField::new(name(1), EntityFieldType::Int, None));
    m.add_entity_definition(z);
    edges(&m);
}
fn relations(shape: u32, rels: u32, k: u8) {
    let mut m = Module::new(None);
    let rel = |m: &mut Module| { let a = end_path(|| letter(k)); m.add_entity_relation(EntityRelation::new(a, end_path(|| letter(k)))); };
    let slot = sym::choose(3);
    let ent = |m: &mut Module, f: u32| {
        let mut d = EntityDefinition::new(letter(k));
        for _ in 0..f { d.add_field(EntityField::new(letter(k), EntityFieldType::Int, None)); }
        m.add_entity_definition(d);
    };
    let put = |m: &mut Module, at: u32| if at == slot { for _ in 0..rels { rel(m); } };
    put(&mut m, 0);
    ent(&mut m, shape & 3);
    put(&mut m, 1);
    if shape & 16 == 0 { ent(&mut m, (shape >> 2) & 3); }
    put(&mut m, 2);
    edges(&m);
}
/// names of two symbolic characters
fn pairs() {
    let n = || st(vec![sym::byte(b'a', b'b'), sym::byte(b'a', b'b')]);
    let mut m = Module::new(None);
    let mut d = EntityDefinition::new(n());
    d.add_field(EntityField::new(n(), EntityFieldType::Text, None));
    m.add_entity_relation(EntityRelation::new(EntityPath::Field(n(), n()), EntityPath::Entity(n())));
    m.add_entity_definition(d);
    edges(&m);
}

/// a module long in one dimension, with a symbolic name at its end
fn long(f: fn(&Module)) {
    let kind = sym::choose(4);
    let n = crate::text::size(12);
    let mut m = Module::new(None);
    let name = |k: u32| format!("n{}", k);
    let last = |k: u32| if k + 1 == n { plain(1) } else { name(k) };
    match kind {
        0 => {
            let mut d = EntityDefinition::new("a".into());
            for k in 0..n {
                let t = [EntityFieldType::Int, EntityFieldType::Uuid, EntityFieldType::Text, EntityFieldType::Timestamp][(k % 4) as usize];
                d.add_field(EntityField::new(last(k), t, [None, Some(EntityFieldKey::PrimaryKey), Some(EntityFieldKey::ForeginKey)][(k % 3) as usize]));
            }
            m.add_entity_definition(d);
            m.add_entity_relation(EntityRelation::new(EntityPath::Field("a".into(), name(0)), EntityPath::Entity("a".into())));
        }
        1 => for k in 0..n {
            let mut d = EntityDefinition::new(last(k));
            if k % 2 == 1 { d.add_field(EntityField::new(name(k), EntityFieldType::Uuid, None)); }
            m.add_entity_definition(d);
            if k % 8 == 7 { m.add_entity_relation(EntityRelation::new(EntityPath::Field(name(k), name(k)), EntityPath::Entity(name(k - 1)))); }
        },
        2 => {
            let mut d = EntityDefinition::new("a".into());
            d.add_field(EntityField::new("x".into(), EntityFieldType::Text, None));
            m.add_entity_definition(d);
            for k in 0..n { m.add_entity_relation(EntityRelation::new(EntityPath::Entity("a".into()), if k % 2 == 0 { EntityPath::Entity(if k + 1 == n { letter(2) } else { "a".into() }) } else { EntityPath::Field("a".into(), "x".into()) })); }
        }
        _ => {
            let mut s = String::from("x");
            for k in 0..n { s.push_str(if k + 1 == n { "Y" } else { "z" }); }
            let mut d = EntityDefinition::new(s.clone());
            d.add_field(EntityField::new(s.clone(), EntityFieldType::Text, None));
            m.add_entity_definition(d);
            m.add_entity_relation(EntityRelation::new(EntityPath::Entity(s.clone()), EntityPath::Field(s.clone(), s)));
        }
    }
    f(&m);
}

harnesses! {
    c07_long { long(display) }
    c08_long { long(tables) }
    c09_long { long(edges) }
    c07_modules1 { display(&any_module(1, 1, true)) }
    c07_modules2 { display(&any_module(2, 0, true)) }
    c07_modules2f { display(&any_module(2, 1, false)) }
    c07_modules3 { display(&any_module(3, 0, false)) }
    c07_columns2 { display(&any_module(1, 2, false)) }
    c07_columns3 { let mut d = EntityDefinition::new("a".into()); for _ in 0..3 { let x = plain(1); let t = ftype(); d.add_field(EntityField::new(x, t, fkey())); } let mut m = Module::new(None); m.add_entity_definition(d); display(&m) }
    c07_name2 { long_name(sym::choose(7), 2) }
    c07_name3 { long_name(sym::choose(7), 3) }
    c07_name4 { long_name(sym::choose(7), 4) }
    c07_name6 { long_name(sym::choose(3), 6) }
    c07_near_keyword { near_keyword() }
    c08_entities1 { tables(&some_entities(1, 2, 1, 3, true)) }
    c08_entities2 { tables(&some_entities(2, 1, 1, 2, true)) }
    c08_entities3 { tables(&some_entities(3, 1, 0, 3, false)) }
    c08_entities4 { tables(&some_entities(4, 2, 0, 4, false)) }
    c08_columns3 { tables(&some_entities(1, 3, 0, 3, true)) }
    c08_relations { tables(&some_entities(2, 1, 1, 3, false)) }
    c08_odd { let name = |n: usize| { let v: Vec<u8> = (0..n).map(|_| sym::byte(0, 127)).collect(); st(v) }; let mut m = Module::new(None); let mut d = EntityDefinition::new(name(2)); d.add_field(EntityField::new(name(3), ftype(), None)); m.add_entity_definition(d); let mut e = EntityDefinition::new(st([b"some_name", name(1).as_bytes()].concat())); e.add_field(EntityField::new(st([name(1).as_bytes(), b"a_rather_long_column_name"].concat()), EntityFieldType::Int, None)); m.add_entity_definition(e); tables(&m) }
    c08_wide { wide_name() }
    c09_one { relations(16 + sym::choose(3), 1, 3) }
    c09_two { relations(5, 1, 3) }
    c09_two_wide { relations(10, 1, 4) }
    c09_two_rels { relations(1, 2, 2) }
    c09_two_rels3 { relations(5, 2, 3) }
    c09_three_rels { relations(17, 3, 2) }
    c09_odd { odd(false) }
    c09_odd2 { odd(true) }
    c09_pairs { pairs() }
}
