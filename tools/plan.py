"""Which harnesses decide which property: (name, quick seconds or 0, thorough seconds). See harness/src for the code."""
import re
from pathlib import Path

LIMITS = {"quick": 780, "thorough": 5400}

COMMON_ASSUMPTIONS = [
    "The LLVM IR that rustc writes for the harness (release, opt-level 1, overflow checks on, panic=abort) stands for the code; the symbolic executor symir and z3 are trusted. Sampled paths are re-run on the native build and must agree, and every counterexample is replayed natively before it is reported.",
    "Nothing is claimed outside the stated bounds.",
]


def H(*names, q=30, t=None):
    return [(n, q, t or max(q * 4, 60)) for n in names]


def T(*names, t=300):
    return [(n, 0, t) for n in names]


PLAN = {
    "C01": dict(
        harnesses=H("c01_ascii1", "c01_ascii2", "c01_ascii3", "c01_wide1", "c01_wide2", "c01_wide_in", "c01_wide_quoted", "c01_wide_end", "c01_wide_comment", "c01_prefix1", "c01_prefix2", "c01_ins1", "c01_sub1", "c01_del", "c01_del3", "c01_tok3", "c01_ascii4", "c01_escape", "c01_u4", "c01_u_open", "c01_u_wide", "c01_tok_ins", "c01_tok_sub", "c01_tok_del2", "c01_long")
        + T("c01_tok4", "c01_ins2", "c01_sub2", "c01_tok_sub2", t=120) + T("c01_ascii5", t=600),
        bounds="texts of up to 4 (thorough 5) arbitrary ASCII characters, one or two arbitrary Unicode characters in six surroundings, a 190-character and a 34-character module with a window of up to 2 (3 deleted) characters at every position replaced by arbitrary ASCII, all truncations of them, token sequences of up to 3 (4) tokens, a 45-token module with a token inserted or replaced (thorough: two) anywhere, escapes with arbitrary characters, and names, comments, columns, entries and blank lines of lengths up to 300; 400 million instructions per path",
        reach=[]),
    "C02": dict(
        harnesses=H("c02_before", "c02_after", "c02_before3", "c02_after3", "c02_name", "c02_module", "c02_entity", "c02_column", "c02_between", "c02_columns", "c02_rel_end", "c02_rel_mid", "c02_rel_after", "c02_tok_top3", "c02_tok_module3", "c02_tok_entity3", "c02_tok_rel3", "c02_tok_second", "c02_tok_header", "c02_del1", "c02_del2", "c02_sub1", "c02_ins1", "c02_sub1_long", "c02_ins1_long", "c02_tok_ins", "c02_tok_sub", "c02_tok_del1", "c02_tok_del2", "c02_tok_join", "c02_long")
        + T("c02_tok_ins2", "c02_tok_sub2", "c02_module4", "c02_type", "c02_tok_module4", "c02_tok_entity4", "c02_tok_rel4", "c02_sub2", "c02_ins2", t=200) + T("c02_tok_module5", t=900),
        bounds="modules with a hole of 2-3 (thorough 4) arbitrary ASCII characters in twelve places of the grammar, with a symbolic sequence of 3 (4-5) tokens in six places, a 190-character module with one character replaced, inserted or one/two deleted anywhere, a 45-token module with all constructs with any token inserted, replaced (thorough: two) or up to two deleted anywhere, and texts of up to 300 columns, entries, blank lines, comments or name characters; acceptance compared with an independent reference parser of the documented grammar",
        reach=["accepted", "rejected"]),
    "C03": dict(
        harnesses=H("c03_entries1", "c03_fields3", "c03_sub1", "c03_ins1", "c03_tok", "c03_tok_ins", "c03_tok_sub", "c03_tok_del2", "c03_long", q=40) + T("c03_tok_ins2", "c03_ins2", "c03_sub2", t=120) + T("c03_entries2", t=400) + T("c03_entries3", "c03_entries3f", t=1200),
        bounds="modules with up to one entry with up to 2 columns (thorough: 3 entries), entities with 3 columns, all names symbolic, all types and keys; single-character edits anywhere in a 190-character module; 4-token sequences; token edits in a 45-token module; up to 300 columns, entries or name characters; content compared with an independent reference parser",
        reach=["accepted"]),
    "C04": dict(
        harnesses=H("c04_space1", "c04_space2", "c04_comment0", "c04_comment1", "c04_comment2", "c04_comment3", "c04_crlf", "c04_separator", "c04_newlines1", "c04_newlines2", "c04_line_comment0", "c04_line_comment1", "c04_line_comment2", "c04_tight"),
        bounds="six texts (accepted and rejected), one symbolic gap: up to 2 symbolic spaces/tabs, a comment of up to 3 arbitrary ASCII characters, CRLF, separators exchanged, up to 2 further newlines, or every space removed",
        reach=["accepted", "rejected"]),
    "C05": dict(
        harnesses=H("c05_any1", "c05_any2", "c05_any3", "c05_escape", "c05_escapes", "c05_escape_wide", "c05_u4", "c05_u4_any", "c05_u5", "c05_u_short", "c05_surrogates", "c05_wide", "c05_wide2", "c05_keyword", "c05_open", "c05_two", "c05_adjacent", "c05_any4", "c05_long"),
        bounds="quoted identifiers of up to 4 arbitrary ASCII or 2 arbitrary Unicode characters in six places of the grammar, every escape, \\u with 1-5 arbitrary characters, surrogates, keywords in quotes, two quoted identifiers in a row, missing closing quotes, names of up to 300 characters",
        reach=["accepted", "rejected"]),
    "C06": dict(
        harnesses=H("c06_word1", "c06_word2", "c06_word3", "c06_word4", "c06_letter", "c06_prefix", "c06_suffix", "c06_cut", "c06_pair", "c06_field_pair", "c06_any3"),
        bounds="words of up to 4 symbolic characters, keywords with one letter changed, with up to 2 symbolic characters before or after, cut short, and pairs of keywords, in seven places of the grammar",
        reach=["accepted", "rejected"]),
    "C07": dict(
        harnesses=H("c07_modules1", "c07_modules2", "c07_modules2f", "c07_columns2", "c07_name2", "c07_name3", "c07_name4", "c07_name6", "c07_near_keyword", "c07_long") + [("c07_columns3", 0, 120)] + T("c07_modules3", t=400),
        bounds="modules of up to 2 (thorough 3) entries with up to 1-3 columns, symbolic one-letter names, all types and keys, relations of every kind; one name of up to 6 symbolic characters; names next to keywords; up to 300 columns, entities, relations or characters in a name",
        reach=[]),
    "C08": dict(
        harnesses=H("c08_entities1", "c08_columns3", "c08_entities3", "c08_odd", "c08_wide", "c08_relations", "c08_long", q=40) + [("c08_entities2", 40, 200), ("c08_entities4", 0, 200)],
        bounds="modules of up to 3 (thorough 4) entities with up to 2-3 columns, symbolic names that may coincide, all types and keys, relations between; names of up to two arbitrary Unicode or three arbitrary ASCII characters; up to 300 columns or entities",
        reach=["checked"]),
    "C09": dict(
        harnesses=H("c09_one", "c09_two", "c09_two_wide", "c09_two_rels", "c09_pairs", "c09_odd", "c09_odd2", "c09_three_rels", "c09_two_rels3", "c09_long", q=40),
        bounds="one or two entities with up to 2 columns each and up to 3 relations before, between or after them, all names symbolic over up to 4 letters so that they may coincide or name nothing; names of arbitrary ASCII characters, 1 and 3 long; up to 300 entities, columns or relations; hash tables explored with all keys colliding",
        assumptions=["HashMap's SipHash is replaced by a constant (every key collides), so that look-ups compare the keys themselves; the order of a hash table's own iteration is then the insertion order"],
        reach=["edge", "no edge"]),
    "C10": dict(
        harnesses=H("c10_empty", "c10_up_to_4", "c10_up_to_4_empty", "c10_7", "c10_9", "c10_10", "c10_tall", "c10_many", "c10_huge", "c10_crowd"),
        bounds="up to 10 tables with 0-5 rows each in every combination (10 tables: 3 heights), up to 8 tables one of which has up to 60 rows, up to 29 and 250-261 tables of equal height, a table with 250-269 columns",
        reach=["placed", "empty"]),
    "C11": dict(
        harnesses=H("c11_up_to_3", "c11_4", "c11_7", "c11_tall", "c11_huge"),
        bounds="up to 3 tables with up to 7 rows, 4 with up to 4, 7 with up to 3, one with up to 79 and 250-309 rows, in every combination",
        reach=["rows"]),
    "C12": dict(
        harnesses=H("c12_one", "c12_two", "c12_three", "c12_five", "c12_tall", "c12_placed", "c12_huge"),
        bounds="up to 5 tables with up to 3-20 rows, position and size of every table and row symbolic (quarters up to 2^18); and tables placed by the engine itself, with up to 261 columns",
        reach=["ports", "row ports"]),
    **{P: dict(
        harnesses=H(*[f"{P.lower()}_{n}" for n in ("whole", "whole2", "whole5", "two", "past", "back", "below", "slant", "far", "rise", "over", "self1", "self2", "self4", "cross", "fan", "both", "square", "any5", "any9", "shifted", "tower0", "tower1", "tower2", "tower4")], q=60, t=300)
        + [(f"{P.lower()}_shifted3", 60 if P == "C15" else 0, 300)] + (H("c15_shifted_self") + T("c15_shifted_below") if P == "C15" else [])
        + T(*[f"{P.lower()}_{n}" for n in ("two20", "past9", "slant6", "over6", "fan3", "any6", "any12", "whole3", "whole4", "whole7", "two_tall")], t=400),
        bounds="documents of up to 9 (thorough 12) tables at the grid's places with symbolic heights (up to 9 rows, thorough up to 60, for the tables that matter, fixed heights for the others), one to three edges between tables and rows (first, last, only, any inner row at a symbolic index), up to five tables one of which has up to 16-20 rows, of the same table, neighbours, over one table in between, and across grid rows; tables at symbolic fractional places; and modules of up to 5 (7) tables with up to 2 columns and up to 2 (3) relations laid out by the engine from start to end",
        assumptions=["positions, sizes and ports of the tables are those C10-C12 establish (the `whole` harnesses use the engine's own)"],
        reach=R)
       for P, R in (("C13", ["route", "bent route"]), ("C14", ["segment"]), ("C15", ["compared"]))},
    "C16": dict(
        harnesses=H(*["c16_" + n for n in "modules2 modules3 names names2 tall columns columns280 many rels sub1 ins1 long_sub1 tok_module3 tok_entity3 tok_rel3 tok_ins tok_sub tok_del2 wide".split()], q=60, t=300) + T("c16_two_rels", "c16_tok_module5", t=1200),
        bounds="modules of up to 3 tables with up to 2 columns and one (thorough two) relation between any of them or undefined names; up to 2 entities, 2 columns, 2 relations with symbolic names that may coincide; a table with up to 60 or with 280 columns, 12 and 24 tables, 300 repeated relations; and every accepted text among: a 36-character module with one character replaced or inserted, a 190-character one with one replaced, 3 (5) symbolic tokens in three places, token edits anywhere in a 45-token module, names of arbitrary Unicode characters; the drawing is read back by a strict XML reader",
        reach=["drawn", "drawn with edges"]),
    "C17": dict(
        harnesses=H(*["c17_" + n for n in "wide ascii3 tail entity tag spans spans2 long wide2".split()], q=100, t=300),
        bounds="names of up to two arbitrary Unicode characters or three arbitrary ASCII characters, alone or after ']]', in '&..;', in '</..\"/>' and within 440 characters, in entity names, column names, types and badges; the drawing is read by a strict XML reader and compared element by element with the one for the name x",
        reach=["name"]),
    "C18": dict(
        harnesses=H(*["c18_" + n for n in "one two three five many tall kinds kinds3 colours colours2 width whole whole_kinds whole_edges whole3".split()], q=90, t=300),
        bounds="up to 5 tables with up to 4 rows (one with 40; 20 tables with one), every table and row at a symbolic place (quarters, eighths or halves up to 2^14) with a symbolic height, width 300 (eight widths in c18_width); every combination of type, badge, badge circle and background for up to 3 rows; any two colours of up to two rows any value (all 2^24, named, none); symbolic view box or none; modules of up to 3 tables with up to 2 columns and a relation laid out by the engine",
        assumptions=["numbers that are symbolic are printed as a reference to their value instead of decimal digits (the decimal printing of f32 is core's); rows are at least 13 and at most 250 units high"],
        reach=["shapes", "row", "badge", "separator", "view box", "no view box"]),
    "C19": dict(
        harnesses=H(*["c19_" + n for n in "one two three four five seven long many pair three_edges whole whole3 two_tables past below slant rise over self both shifted tower2".split()], q=60, t=300),
        bounds="routes of up to 7 orthogonal segments in every direction that does not double back, start and lengths symbolic (quarters or halves, from a quarter or half up to 1000), 12 segments in seven patterns, up to three edges in a drawing, 20 edges with one of them symbolic; modules of up to 4 tables with a relation routed by the engine; and the engine's routes between tables of symbolic heights at the grid's places, as in C13",
        assumptions=["symbolic numbers are printed as references to their value"],
        reach=["edge", "corner", "straight"]),
    "C20": dict(
        harnesses=H(*["c20_" + n for n in "one two three four rows3 overlay writer0 writer writer5".split()], q=60, t=300),
        bounds="up to 3 tables with up to 3 rows and up to 2 edges, each position, size and route present or absent; documents of 0, 1 and 5 tables to a writer that takes 1, 7, 64, 97, 100, 1000, 4096 or all bytes at once and fails at any write with six kinds of error or when flushed",
        reach=["complete", "incomplete", "written", "failed"]),
    "C21": dict(
        harnesses=H(*["c21_" + n for n in "fresh large names twice".split()], q=90, t=300) + [("c21_used", 100, 1200), ("c21_rels", 0, 1200)],
        bounds="modules of up to 3 tables with one column and one (thorough two) relation, drawn by a fresh engine, by one with other hash seeds, by one that drew any module of up to 2 tables before or a fixed one of 5 tables with 8 relations, and with all hash keys colliding; two modules drawn alternately by one engine; symbolic names",
        assumptions=["hash seeds: four pairs per path and the all-colliding hash, not every seed; within one process"],
        reach=["compared", "compared with edges"]),
    "C26": dict(
        harnesses=H(*["c26_" + n for n in "graph2 graph3 graph4 long whole whole3 whole_cols whole_rels".split()], q=60, t=300) + T("c26_graph5", "c26_whole4", t=900),
        bounds="route graphs of up to 4 (thorough 5) nodes at symbolic places in every orthogonal tree shape and edge direction, with a table at a symbolic place; routes of 12 segments in seven patterns; modules of up to 3 (5) tables with up to 2 columns and up to 2 relations laid out by the engine",
        assumptions=["symbolic numbers are printed as references"],
        reach=["arrow", "node", "table"]),
    "C27": dict(
        crate="cli",
        harnesses=H(*["c27_" + n for n in "any1 any2 any3 empty hole lines small sub ins del cut noise wide many missing failing failing_in not_utf8".split()], q=60, t=300) + T("c27_any4", "c27_sub2", "c27_small2", t=600),
        bounds="the tool's main.rs run on texts of up to 3 (thorough 4) arbitrary ASCII characters, an empty text, a 76-character module with one character replaced (thorough: two), inserted or deleted anywhere or cut short, two texts with a hole of 2 characters, 8 small texts with 7 beginnings and 7 endings (empty modules, blank lines, comments, a byte order mark), 40 entities with errors between, 30 lines with up to 45 stray characters, characters of 2-4 bytes, given in a file or on standard input in pieces of 1 to 1000 bytes; missing file, file that cannot be opened or read, any non-UTF-8 byte anywhere",
        assumptions=["the system calls read, write, open and close are answered by the harness; what ariadne prints besides the positions is not judged, nor is its decoration", "standard output and error accept every write"],
        reach=["drawn", "reported", "unread"]),
    "C28": dict(
        crate="cli",
        harnesses=H(*["c28_" + n for n in "given1 given3 given4 given_long names edited twice many".split()], q=60, t=300) + T("c28_given6", t=600),
        bounds="SVG texts of up to 4 (thorough 6) arbitrary ASCII characters, alone or among up to 3800 fixed ones; documents with three arbitrary ASCII characters in their names, with one character of a 76-character module replaced, inserted or deleted, with up to 29 tables; three view boxes; three displays one after the other",
        assumptions=["the system call write is answered by the harness and accepts everything"],
        reach=["shown"]),
    "C25": dict(
        harnesses=H("c25_ops3", "c25_ops4", "c25_ops5", "c25_points", "c25_ports", "c25_links") + T("c25_ops6", t=400),
        bounds="sequences of up to 5 (thorough 6) additions of points, ports and connections at symbolic locations that may coincide (quarters up to 9/4 for 3 additions, fewer for longer sequences), 5 points, 4 ports, 5 connections between 4 nodes made both ways round",
        assumptions=["adding a location again with another orientation is refused by a panic in the code; such sequences are excluded"],
        reach=["compared", "shared"]),
    "C22": dict(
        harnesses=H("c22_rgb", "c22_web", "c22_named"),
        bounds="all 2^24 colours and every named colour: no bound", reach=["rgb"]),
    "C23": dict(
        harnesses=H("c23_horizontal", "c23_vertical", "c23_horizontal_half", "c23_vertical_half", "c23_slopes3", "c23_slopes9", "c23_slopes_far", "c23_any1", "c23_points_h", "c23_points_v", "c23_points_any", q=40),
        bounds="see harness list: integer or half-integer coordinates up to 300, horizontal and vertical segments of any length, slanted segments with given x/y extents, rectangle symbolic",
        reach=[]),
    "C24": dict(
        harnesses=H("c24_accessors", "c24_accessors_fine", "c24_inset", "c24_contains", "c24_distance_h", "c24_distance_v", "c24_distance_any", "c24_distance_far", "c24_direction", "c24_path"),
        bounds="coordinates n/8 (or n/65536) with |n| < 2^20 (distances: n/2 up to 2^10 along the axes, ten y differences otherwise), all symbolic; paths of up to 3 commands",
        reach=["in", "out", "axis", "any", "direction", "path"]),
}


def bodies():
    """Harness name -> its defining expression, as the bound it explores."""
    out = {}
    for f in sorted((Path(__file__).resolve().parent.parent).glob("[hc]*/src/*.rs")):
        for m in re.finditer(r"^    (c\d\d_\w+) \{(.*)\}\s*$", f.read_text(), re.M):
            out[m.group(1)] = m.group(2).strip()
    return out


_B = bodies()
for _p in PLAN.values():
    _text = _p["bounds"]
    _p["bounds_text"] = _text
    _p["bounds"] = {h[0]: _B.get(h[0], "") for h in _p["harnesses"]}
