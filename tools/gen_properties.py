#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARSER, ERD, MIR, LAY, REN, GEO, COL, ERR = ("src/parser.rs","src/erd.rs","src/mir.rs","src/layout.rs","src/renderer.rs","src/geometry.rs","src/color.rs","src/error.rs")

p("C01", "Parsing is total and never fails silently",
  "For every source text, parsing returns without panicking or looping, and it yields a module or reports at least one error (or both). Every reported error carries a span inside the text, in character offsets, where the end of input is the one position just past the last character.",
  ["inputs"], "every source text (any characters, including malformed escapes, stray bytes, unterminated quotes and comments)",
  "The tests parse two accepted scripts and four example files; none feeds a malformed text, and the property ranges over all of them.",
  [PARSER], [("tokenizer and its skip-then-retry recovery", "parser::tokenizer"), ("recovering parse of the token stream", "parser::parse")],
  observe=["parser::parse"])

p("C02", "Exactly the documented grammar is accepted, and all of the text counts",
  "A source text is accepted without any error exactly when the whole of it is one ERD module of the grammar documented in the parser, where newline and `;` both separate entries and either may be repeated wherever padding is allowed. Nothing may be left over before or after the module: leftover text, a missing separator, a misplaced token or an unknown column type is reported as an error, never skipped.",
  ["inputs"], "every sequence of tokens and stray characters up to the stated length",
  "Tests only accept well-formed samples; that no other text is accepted, and no well-formed one rejected, quantifies over all token sequences.",
  [PARSER], [("token grammar combinators", "parser::erd_module_parser"), ("tokenizer", "parser::tokenizer")], observe=["parser::parse"])

p("C03", "The parsed module is what was written",
  "For every accepted text the module has the written module name (or none) and exactly the written entries in source order: each entity with its name and all of its columns in order with the written name, type and key, and each relation with its two endpoints in the written order. Nothing is added, lost, merged or reordered.",
  ["inputs"], "every accepted text up to the stated number of entries, columns and relations",
  "The two parser tests compare two fixed modules; names, types, keys, counts and orders vary without bound.",
  [PARSER, ERD], [("mapping of parsed tokens to AST", "parser::erd_module_parser"), ("AST containers", "erd::Module, erd::EntityDefinition, erd::EntityRelation")], observe=["parser::parse", "erd::Module::entries"])

p("C04", "Spaces, comments and blank lines never change the meaning",
  "Inserting spaces, tabs or line comments between two tokens, writing a newline as LF or CRLF, writing a separator as newline or `;`, or repeating a newline, changes neither whether a text is accepted nor the module it yields. A line comment ends at its line's end whatever it contains.",
  ["inputs"], "every comment text and every placement of trivia between the tokens of a module",
  "One test contains one arrangement of comments; the claim covers every comment text at every position.",
  [PARSER], [("comment and space padding around tokens", "parser::tokenizer"), ("pad/separator parsers", "parser::erd_module_parser")], observe=["parser::parse"])

p("C05", "Quoted identifiers name exactly the decoded text",
  "A backquoted identifier denotes exactly the characters between the quotes after decoding the escapes \\\\ \\/ \\\" \\` \\b \\f \\n \\r \\t and \\uXXXX (exactly four hex digits), and it is an ordinary name wherever an identifier is allowed, even when it spells a keyword, contains spaces or is not a plain identifier. An escape outside this list, a \\u escape naming no character, or a missing closing quote is reported as an error.",
  ["inputs"], "every content of a quoted identifier, including every escape and every \\u code",
  "The tests quote two keyword-like names and use no escape at all.",
  [PARSER], [("escape and quoted_ident parsers", "parser::tokenizer")], observe=["parser::parse"])

p("C06", "Identifiers and keywords are told apart by the whole word",
  "An unquoted word (a letter or underscore followed by letters, digits and underscores, as long as possible) is a keyword exactly when the whole word is one of erd, int, uuid, text, timestamp, PK, FK, case-sensitively; any other word, including one that starts or ends with a keyword, is an identifier kept verbatim.",
  ["inputs"], "every word over ASCII up to the stated length",
  "One example name (about_html) contains no keyword prefix; the tests cannot cover every word.",
  [PARSER], [("keyword and ident parsers and their order", "parser::tokenizer")], observe=["parser::parse"])

p("C07", "A module's text form parses back to the same module",
  "For every module whose names are plain, non-keyword identifiers, the text produced by displaying it is accepted without errors and parses to a module with the same name, entities, columns, types, keys and relations, in the same order.",
  ["inputs", "programs"], "every module built through the API with plain identifiers, any number of entities, columns and relations, relations naming an entity or a column",
  "Tests display two modules and compare the text; none parses displayed text back, and none displays a relation that names an entity.",
  [ERD, PARSER], [("Display of Module, EntityDefinition, EntityField, EntityPath, EntityRelation", "src/erd.rs"), ("grammar of relations", "parser::erd_module_parser")], observe=["erd::Module Display", "parser::parse"])

p("C08", "Every entity becomes one table with its columns in order",
  "Turning a module into a drawable document yields one record per entity in source order (also when entities share a name), each with a header row carrying the entity name followed by one row per column in order. A column row carries the column name as title, its type as subtitle in the type's colour, and a PK or FK badge exactly when the column has that key.",
  ["inputs"], "every module: any names, types, keys, numbers of entities and columns, duplicates included",
  "Tests cover one demo module; the mapping must hold for every combination of types, keys, names and counts.",
  [ERD, MIR], [("AST to MIR translation", "erd::Module::into_mir"), ("document graph", "mir::Document")], observe=["mir::Document::body", "mir::Document::get_node"])

p("C09", "Every resolvable relation becomes exactly one edge between its endpoints",
  "Each relation whose two endpoints name a defined entity or a defined column becomes exactly one edge from the node of its first endpoint to the node of its second, in source order, wherever in the module the entities are defined. A relation naming an undefined entity or column adds nothing and disturbs no other edge.",
  ["inputs"], "every module: any mixture and order of definitions and relations, entity and column endpoints, defined and undefined names, columns of the same name in different entities",
  "Tests only have relations after the definitions, between existing columns.",
  [ERD, MIR], [("node path table and edge creation", "erd::Module::into_mir"), ("edge storage", "mir::Document::add_edge")], observe=["mir::Document::edges"])

p("C10", "Tables are placed in order, apart from each other, inside the view box",
  "For every document the tables are placed in source order, three per row from left to right and rows from top to bottom, aligned at the left of their column and the top of their row, each as tall as its rows. Any two tables are at least 80 units apart horizontally or vertically, and the returned view box is finite, starts at the origin and contains every table with a margin, also for a document without tables.",
  ["inputs"], "every number of tables and every number of columns per table",
  "Tests place at most five tables in the examples and compare exact text; overlap depends on the heights of all tables in a row.",
  [LAY], [("grid placement and view box", "layout::SimpleLayoutEngine::place_nodes")], observe=["LayoutEngine::place_nodes", "mir::NodeData::rect"])

p("C11", "A table's rows tile it from top to bottom",
  "After placement the header row and the column rows of a table all have the table's left edge and width, follow each other in order without gap or overlap starting at the table's top edge, all have the same height, and the last ends at the table's bottom edge.",
  ["inputs"], "every number of tables and of columns per table, in every grid position",
  "Tests check fixed small tables through their rendered text only.",
  [LAY], [("row placement", "layout::SimpleLayoutEngine::place_nodes")], observe=["mir::NodeData::rect"])

p("C12", "Terminal ports sit on the outline and point outwards",
  "For every laid-out document, whatever the positions and sizes, each table gets one port in the middle of each of its four sides; each row gets ports in the middle of its left and right sides, the first row also on its top and the last row also on its bottom side, and no others. Each port's orientation points away from the shape it is on, and no two ports of a document have the same id.",
  ["inputs"], "every table rectangle and every number of rows (1, 2, 3 or more)",
  "Ports show in the tests only indirectly through the few routes drawn.",
  [LAY, MIR], [("port placement", "layout::SimpleLayoutEngine::place_terminal_ports"), ("port ids", "mir::NodeData::add_terminal_port")], observe=["mir::NodeData::terminal_ports"])

p("C13", "Every edge is routed from port to port by horizontal and vertical segments",
  "After layout every edge of the document has a route that starts at a port of the edge's source, ends at a port of its target, has at least two points, and consists of horizontal or vertical segments of positive length that never double back. The first segment leaves the source in its port's outward direction and the last enters the target against its port's outward direction.",
  ["inputs"], "every document produced from a module: numbers of tables and columns, relations between any two tables or columns, relations of a table or a column with itself",
  "Tests compare the routes of nine relations in four diagrams; none relates a table to itself.",
  [LAY], [("route graph construction", "layout::SimpleLayoutEngine::draw_edge_path"), ("shortest path per edge", "layout find_shortest_edges_path")], observe=["mir::EdgeData::path_points"])

p("C14", "Routes never run through a table",
  "No segment of any edge's route passes through the interior of any table in the document, whatever the heights of the tables and wherever in the grid the related tables stand.",
  ["inputs"], "every document: table heights, grid positions and related rows or tables",
  "The routes in the tests connect neighbouring tables; whether a route avoids tables in between depends on all heights and positions.",
  [LAY, GEO], [("nearest neighbour connection with collision test", "layout connect_nearest_neighbor_edge_junctions"), ("line/rectangle intersection", "geometry::Rect::intersected_line")], observe=["mir::EdgeData::path_points"])

p("C15", "The chosen route is a shortest one",
  "For every edge, no other route through the layout engine's route graph between any port of the edge's source and any different port of its target is shorter than the chosen one, and every step of the chosen route is a connection of that graph.",
  ["inputs"], "every document with routes",
  "Tests fix the text of a few routes and never compare lengths of alternatives.",
  [LAY], [("port pair minimisation and A*", "layout find_shortest_edges_path / compute_shortest_path")], observe=["SimpleLayoutEngine::edge_route_graph", "mir::EdgeData::path_points"])

p("C16", "Every accepted diagram can be drawn",
  "For every module accepted by the parser, translating, placing, routing and rendering it completes without panicking and yields an SVG document, including modules without tables, tables without columns, relations of a table or column with itself, repeated relations, duplicate names and relations naming undefined things.",
  ["inputs"], "every accepted source text",
  "The tests draw four well-behaved diagrams and one empty document.",
  [PARSER, ERD, LAY, REN], [("whole pipeline", "parser::parse, Module::into_mir, SimpleLayoutEngine, SVGRenderer::render")], observe=["renderer::Renderer::render"])

p("C17", "The SVG is well-formed whatever the names contain",
  "For every document the rendered SVG is well-formed XML: markup characters in entity or column names appear escaped, characters that XML forbids never appear, and an XML reader gets back the names as text with forbidden characters replaced. No name can add, close or alter an element or attribute.",
  ["inputs"], "every entity and column name",
  "All names in the tests are plain words.",
  [REN], [("text rendering", "renderer::SVGRenderer::draw_text")], observe=["renderer::Renderer::render"])

p("C18", "The SVG shows every table and row once, in order, at its place",
  "For every laid-out document the SVG contains, per table in order, a clip path with an id of its own, a background rectangle at the table's rectangle, and per row in order its separator line (between rows only), its title left-aligned, its type right-aligned and its key badge exactly when present, all at the row's vertical middle and horizontally inside the row, coloured as the document says. The header's coloured background refers to its own table's clip path, and the view box attribute is exactly the given view box.",
  ["inputs"], "every laid-out document: positions, sizes, names, colours, keys, numbers of tables and rows",
  "The tests compare complete text for a handful of diagrams.",
  [REN], [("shape rendering", "renderer::SVGRenderer::render"), ("text", "renderer::SVGRenderer::draw_text")], observe=["renderer::Renderer::render"])

p("C19", "Edges are drawn along their route with correctly rounded corners",
  "For every edge with an orthogonal route the SVG contains one path and two circles centred on the route's first and last point. The path starts at the first point, ends at the last, passes every straight-through point, and replaces each corner by a curve whose control point is the corner and whose ends lie on the two adjoining segments, on the side the route comes from and goes to: at the corner radius from the corner where both segments are at least twice the radius long, otherwise nearer, so that no curve reaches past the middle of a segment.",
  ["inputs"], "every orthogonal route: any coordinates, any sequence of turns",
  "The tests contain three of the eight kinds of turn at fixed coordinates.",
  [REN, GEO], [("corner drawing", "renderer::SVGRenderer::draw_edge_connection"), ("direction of a segment", "geometry::Point::orthogonal_direction")], observe=["renderer::Renderer::render"])

p("C20", "Incomplete layouts and failing writers are reported, never half-drawn",
  "Rendering a document in which any table or row has no position or size, or any edge has no route, returns the invalid-layout error naming that node (for an edge, its source), and writes nothing. When the writer fails, rendering returns an I/O error instead of panicking or reporting success.",
  ["inputs", "fault_sequences"], "every subset of missing positions, sizes and routes; a writer failing at any write",
  "No test renders an incomplete document or uses a failing writer.",
  [REN, ERR], [("layout checks before drawing", "renderer::SVGRenderer::render"), ("error conversion", "error::BackendError")], observe=["renderer::Renderer::render"])

p("C21", "Output depends only on the source",
  "Laying out and rendering the same module always yields the same bytes: neither the random seeds of hash tables nor documents laid out earlier by the same engine change any position, route or byte of the output.",
  ["inputs", "histories"], "every module, every pair of hash seeds, every earlier document laid out with the same engine",
  "Each test process lays out each document once with a fresh engine.",
  [LAY, REN, ERD], [("route graph owned by the engine", "layout::SimpleLayoutEngine::draw_edge_path"), ("hash maps used in layout and translation", "layout::RouteGraph, erd::Module::into_mir")],
  state=[("edge_route_graph", "route graph kept in the engine between calls", "layout::SimpleLayoutEngine")], observe=["renderer::Renderer::render"])

p("C22", "Colours are written in the form SVG understands",
  "Every RGB colour is written as # followed by exactly six upper-case hexadecimal digits giving red, green and blue in that order, so that reading it back gives the same three values; every named colour is written as its SVG keyword.",
  ["inputs"], "all 2^24 RGB colours and every named colour",
  "Three colours are tested.",
  [COL], [("Display of RGBColor, NamedColor, WebColor", "src/color.rs")], observe=["color::WebColor Display"])

p("C23", "Line and rectangle intersection is exact and independent of direction",
  "A segment is reported to intersect a rectangle exactly when it meets the rectangle without lying entirely in its interior, and the answer does not depend on the order of the segment's end points. The two points returned lie on the segment and, up to rounding, in the rectangle, and end points lying in the rectangle are returned as they are.",
  ["inputs"], "every rectangle and every segment within the stated coordinate range, horizontal, vertical, oblique and degenerate",
  "The tests sample some twenty segments of one rectangle.",
  [GEO], [("Liang-Barsky clipping", "geometry::Rect::intersected_line"), ("predicate", "geometry::Rect::intersects_line")], observe=["geometry::Rect::intersects_line", "geometry::Rect::intersected_line"])

p("C24", "Point and rectangle arithmetic keeps its documented contracts",
  "For all finite values: a rectangle's min/mid/max coordinates and centre agree with its origin and size; insetting moves the origin by the inset, changes each dimension by twice the inset and never yields a negative dimension; containment holds exactly for points between the minimum and maximum edges, edges included. The distance between two points is symmetric, zero to itself and at least each coordinate difference, and the direction between horizontally or vertically aligned points reverses when the points are swapped.",
  ["inputs"], "all finite coordinates and sizes within the stated range",
  "The tests evaluate about ten fixed cases.",
  [GEO], [("Rect accessors, inset_by, contains_point", "geometry::Rect"), ("distance, orthogonal_direction", "geometry::Point")], observe=["geometry::Rect", "geometry::Point"])

p("C25", "The route graph has one node per location and one edge per connection",
  "Whatever is added in whatever order, adding a location that is already present returns the node already there, each port's location maps to the node at that location with the port's orientation, nodes and edges are never lost or renumbered, and connecting two nodes twice, in either order, leaves one edge between them.",
  ["histories", "inputs"], "every sequence of additions up to the stated length with arbitrary locations",
  "No test uses the route graph directly.",
  [LAY], [("node deduplication by location", "layout::RouteGraph::add_node / add_terminal_port"), ("edge deduplication", "layout::RouteGraph::add_edge")],
  state=[("terminal_ports", "port id to node id", "layout::RouteGraph")], observe=["layout::RouteGraph"])

p("C26", "The debug overlay shows exactly the route graph and leaves the drawing intact",
  "Rendering with the route graph attached yields the same drawing followed by exactly one line and one arrow head per graph edge, one labelled circle per graph node at its location, one circle per route point and one label per table; an arrow head lies at the edge's target end and points along the edge.",
  ["inputs"], "every route graph and document",
  "The overlay is off in every test.",
  [REN, LAY], [("debug drawing", "renderer::SVGRenderer::draw_debug_info")], observe=["renderer::Renderer::render"])

p("C27", "The command line tool prints one diagram and reports every error",
  "The command reads the named file or standard input, writes the SVG of the parsed module to standard output and nothing else there, and reports every tokenizer and parser error on standard error with its position.",
  ["inputs", "configurations"], "every source text and both input modes",
  "No test runs the command.",
  ["src/main.rs"], [("main", "src/main.rs")], observe=["process stdout/stderr"])

p("C28", "Notebook output is exactly the drawing between its two markers",
  "Displaying a drawn document, or a given SVG text, in a notebook prints on standard output the line EVCXR_BEGIN_CONTENT image/svg+xml, then the SVG unchanged (for a document: what the renderer gives for that document and view box), then the line EVCXR_END_CONTENT, and nothing else.",
  ["inputs"], "every document, view box and SVG text",
  "No test touches the notebook interface.",
  ["src/evcxr.rs", REN], [("draw_erd, SVGOutput", "src/evcxr.rs")], observe=["process stdout"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
