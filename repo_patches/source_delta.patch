From a19dbef73ecb8fb3fdefbbacca3fb525a3a4b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 01/12] fix: intersected_line treats upward segments like
 downward ones

The test for a line lying entirely inside the rectangle compared the start
with the top and the end with the bottom only, so for a line going up the
answer depended on the order of its end points.
---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..c4bb965 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,7 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        if x > left && (x + dx) < right && y.min(y + dy) > top && y.max(y + dy) < bottom {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 3465adff327b0b1d5594aa85b4729b5c335dec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 02/12] fix: never connect junctions across a table

The collision test was only applied to the second and later candidates of a
direction, because && binds tighter than ||, so routes ran through tables.
---
 src/layout.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..ce0a242 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y)
+                            && no_collision()
+                        {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +735,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y)
+                            && no_collision()
+                        {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +751,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x)
+                            && no_collision()
+                        {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +767,8 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x)
+                            && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From 211485c62526fb8d69901ec0ce05bb9e7b27bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 03/12] fix: finite view box for a document without tables

The height of an empty grid row was f32::MIN, so the view box of an empty
module had a height of -3.4e38.
---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index ce0a242..979e33a 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,13 +272,13 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
                 // Move to next row.
                 base_y += max_height + Self::RECORD_SPACE;
-                max_height = f32::MIN;
+                max_height = 0.0;
             }
 
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
-- 
2.43.0


From a7777a8ddba97994cfe135d74c0741e4141a9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 04/12] fix: route relations whose ends share a port location

A relation of a table or column with itself, or of a table with its own
middle column, got a path of a single point and panicked in the renderer.
---
 src/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 979e33a..22437c3 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -811,6 +811,12 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                // Ports of both ends may share the location (e.g. a relation to itself), but a path
+                // must have two distinct ends.
+                if src_node == dst_node {
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From 2f2c46452508cea2f0187b47a0cf0e3b66dd484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 05/12] fix: start every layout with an empty route graph

An engine used for a second document routed its edges through the junctions
of the first one, or panicked.
---
 src/layout.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 22437c3..d481ed0 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -439,6 +439,9 @@ impl LayoutEngine for SimpleLayoutEngine {
         //
         // e. Add start/end terminal ports.
 
+        // Forget the routes of a previously drawn document.
+        self.edge_route_graph = RouteGraph::new();
+
         // Place junction nodes at the four corner points around each shape node.
         let shape_junctions = self.edge_junction_nodes_around_shapes(&doc);
 
-- 
2.43.0


From 3c03d863f74974bc9f39577c80f72e4b296eaacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 06/12] fix: accept entity names as relation ends

The documented grammar is identifier, [ ".", identifier ], but the parser
required the dot and made the identifier after it optional.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..cdcecd3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -194,7 +194,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 84482a2692a623cf50bb15d68d3a3eeb3def9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 07/12] fix: keep relations written before the entities they
 connect

They were dropped silently.
---
 src/erd.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/erd.rs b/src/erd.rs
index fd368f9..691edad 100644
--- a/src/erd.rs
+++ b/src/erd.rs
@@ -126,15 +126,19 @@ impl Module {
 
                     doc.body_mut().append_child(record_id);
                 }
-                ModuleEntry::EntityRelation(relation) => {
-                    let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
-                    let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
-
-                    doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
-                }
+                // Relations may precede the definitions of their ends.
+                ModuleEntry::EntityRelation(_) => continue,
             }
         }
 
+        for entry in self.entries.iter() {
+            let ModuleEntry::EntityRelation(relation) = entry else { continue };
+            let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
+            let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
+
+            doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
+        }
+
         doc
     }
 
-- 
2.43.0


From f088d7c1de571df49a5effbabd083b5420b0361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 08/12] fix: report text left over after the module

Neither the tokenizer nor the parser required the end of input, so everything
after the first complete module or after the first unknown character near the
end was dropped without an error.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cdcecd3..36aaeef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,6 +165,7 @@ fn tokenizer() -> impl Parser<char, Vec<(Token, Span)>, Error = Simple<char>> {
         .padded_by(comment.repeated())
         .padded_by(spaces)
         .repeated()
+        .then_ignore(end())
 }
 
 fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Clone {
@@ -278,6 +279,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
 
             module
         })
+        .then_ignore(end())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2dd297c0d3c6acefb05de61f7cdf71603dc4500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 09/12] fix: escape names in the SVG

A name containing markup characters or control characters, which quoted
identifiers allow, made the SVG malformed or changed its structure.
---
 src/renderer.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..5573a08 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -234,6 +234,27 @@ impl SVGAnchor {
     }
 }
 
+/// Escapes characters that can't be written literally in XML character data. Characters that can't
+/// appear in a XML document at all are replaced with U+FFFD.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            // A literal carriage return is read back as a line feed.
+            '\r' => escaped.push_str("&#13;"),
+            '\t' | '\n' => escaped.push(c),
+            '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => escaped.push('\u{FFFD}'),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 impl SVGRenderer<'_> {
     fn draw_text(
         &self,
@@ -245,7 +266,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From 68439e168ec38847465bf6fee9b5788d2c4603a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 10/12] fix: compare routes by their exact length

Truncating each step to whole units could prefer a longer route.
---
 src/layout.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index d481ed0..4ed222e 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -227,11 +227,11 @@ impl RouteEdgeData {
 }
 
 // Used for computing shortest path
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Add)]
-struct RouteCost(u32);
+#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Default, Add)]
+struct RouteCost(f32);
 
 impl RouteCost {
-    pub const MAX: Self = Self(u32::MAX);
+    pub const MAX: Self = Self(f32::MAX);
 }
 
 #[derive(Debug)]
@@ -854,9 +854,9 @@ impl SimpleLayoutEngine {
                 let to_node = graph.node_weight(edge.target()).unwrap();
 
                 let distance = node.location().distance(to_node.location());
-                RouteCost(distance as u32)
+                RouteCost(distance)
             },
-            |_| RouteCost(0),
+            |_| RouteCost(0.0),
         )
         .unwrap_or_else(|| {
             panic!(
-- 
2.43.0


From 39a63414002a0576a09a116c69577b612e90501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 11/12] fix: keep rounded corners within short segments of an
 edge

Curves of two corners less than 12 apart overlapped, and the path ran back over itself or left the
route.
---
 src/renderer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 5573a08..448deaf 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -294,7 +294,7 @@ impl SVGRenderer<'_> {
         edge: &mir::EdgeData,
     ) -> Result<(element::Path, element::Circle, element::Circle), BackendError> {
         let circle_radius = 4.0;
-        let path_radius = 6.0;
+        let corner_radius = 6.0f32;
         let stroke_width = 1.5;
         let stroke_color = WebColor::RGB(RGBColor {
             red: 136,
@@ -362,6 +362,12 @@ impl SVGRenderer<'_> {
                 let d1 = bp.orthogonal_direction(&pt);
                 let d2 = pt.orthogonal_direction(&fp);
 
+                // A curve must not run past the middle of a short segment, where it would meet the
+                // curve of the next corner or leave the route.
+                let path_radius = corner_radius
+                    .min(bp.distance(&pt) / 2.0)
+                    .min(pt.distance(&fp) / 2.0);
+
                 match (d1, d2) {
                     (Orientation::Up, Orientation::Up)
                     | (Orientation::Down, Orientation::Down)
-- 
2.43.0


From b4431a7f6c51195796a4e6a331043264b322390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:53 +0000
Subject: [PATCH 12/12] fix: reporting errors of an empty source no longer
 panics

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..36ed283 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -32,6 +32,9 @@ fn main() -> Result<(), io::Error> {
         .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))
         .collect::<Vec<_>>();
 
+    // The reporter cannot deal with a source without any line.
+    let reported_src = if src.is_empty() { "\n" } else { src.as_str() };
+
     // Report errors
     for e in errors {
         let filename = filename.as_str();
@@ -100,7 +103,7 @@ fn main() -> Result<(), io::Error> {
 
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            .eprint((filename, Source::from(reported_src)))
             .unwrap();
     }
 
-- 
2.43.0

