//! C22-C24: colours, rectangles, points.
use crate::sym;
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::geometry::{Orientation, Path, PathCommand, Point, Rect, Size};

// --- C22
fn hex(b: u8) -> Option<u8> {
    if b >= b'0' && b <= b'9' { Some(b - b'0') } else if b >= b'A' && b <= b'F' { Some(b - b'A' + 10) } else { None }
}
fn rgb_text(s: &str, r: u8, g: u8, b: u8) {
    let s = s.as_bytes();
    sym::check(s.len() == 7 && s[0] == b'#', "# and six digits");
    for (k, want) in [r, g, b].into_iter().enumerate() {
        let (x, y) = (hex(s[1 + 2 * k]), hex(s[2 + 2 * k]));
        match (x, y) { (Some(x), Some(y)) => sym::check(x * 16 + y == want, "digits give the value back"), _ => sym::check(false, "upper-case hexadecimal digits") }
    }
    sym::reach("rgb");
}

// --- C23
struct Seg { l: i32, t: i32, r: i32, b: i32, ax: i32, ay: i32, bx: i32, by: i32 }
/// m: size of the integer grid; scale: grid step
fn cross(s: &Seg, x: i32, y: i32) -> i32 { (s.bx - s.ax) * (y - s.ay) - (s.by - s.ay) * (x - s.ax) }
fn meets(s: &Seg) -> bool {
    let boxes = (s.ax.max(s.bx) >= s.l) & (s.ax.min(s.bx) <= s.r) & (s.ay.max(s.by) >= s.t) & (s.ay.min(s.by) <= s.b);
    let (c1, c2, c3, c4) = (cross(s, s.l, s.t), cross(s, s.r, s.t), cross(s, s.l, s.b), cross(s, s.r, s.b));
    let above = (c1 > 0) & (c2 > 0) & (c3 > 0) & (c4 > 0);
    let below = (c1 < 0) & (c2 < 0) & (c3 < 0) & (c4 < 0);
    boxes & !above & !below
}
fn inside(s: &Seg) -> bool {
    (s.ax > s.l) & (s.ax < s.r) & (s.ay > s.t) & (s.ay < s.b) & (s.bx > s.l) & (s.bx < s.r) & (s.by > s.t) & (s.by < s.b)
}
fn pt(x: i32, y: i32, f: f32) -> Point { Point::new(x as f32 * f, y as f32 * f) }
fn segment(s: &Seg, f: f32) -> (Rect, Point, Point) {
    (Rect::new(pt(s.l, s.t, f), Size::new((s.r - s.l) as f32 * f, (s.b - s.t) as f32 * f)), pt(s.ax, s.ay, f), pt(s.bx, s.by, f))
}
fn hit_exact(s: Seg, f: f32, swap: bool) {
    let (r, a, b) = segment(&s, f);
    let got = r.intersects_line(&a, &b);
    let want = if s.ay == s.by {
        (s.ay >= s.t) & (s.ay <= s.b) & (s.ax.max(s.bx) >= s.l) & (s.ax.min(s.bx) <= s.r)
    } else if s.ax == s.bx {
        (s.ax >= s.l) & (s.ax <= s.r) & (s.ay.max(s.by) >= s.t) & (s.ay.min(s.by) <= s.b)
    } else { meets(&s) } & !inside(&s);
    sym::check(got == want, "intersects exactly when it meets the rectangle without lying in its interior");
    if got { sym::reach("hit"); } else { sym::reach("no hit"); }
    if swap { sym::check(r.intersects_line(&b, &a) == got, "independent of the order of the end points"); }
}
fn any_rect(m: i32) -> (i32, i32, i32, i32) {
    let (l, t) = (sym::int(-m, m), sym::int(-m, m));
    let (w, h) = (sym::int(0, m), sym::int(0, m));
    (l, t, l + w, t + h)
}
fn any_seg(m: i32, kind: u32) -> Seg {
    let (l, t, r, b) = any_rect(m);
    let (ax, ay) = (sym::int(-2 * m, 2 * m), sym::int(-2 * m, 2 * m));
    let (bx, by) = match kind { 0 => (sym::int(-2 * m, 2 * m), ay), 1 => (ax, sym::int(-2 * m, 2 * m)), _ => (sym::int(-2 * m, 2 * m), sym::int(-2 * m, 2 * m)) };
    Seg { l, t, r, b, ax, ay, bx, by }
}
fn points_ends(r: &Rect, a: &Point, b: &Point, p: &Point, q: &Point) {
    for e in [a, b] {
        if r.contains_point(e) {
            let is = (p.x == e.x && p.y == e.y) || (q.x == e.x && q.y == e.y);
            sym::check(is, "an end point in the rectangle is returned as it is");
            sym::reach("end point");
        }
    }
}
fn points_ok(r: &Rect, a: &Point, b: &Point, p: &Point, q: &Point) {
    let tol = 0.0;
    for z in [p, q] {
        sym::check(z.x >= r.min_x() - tol && z.x <= r.max_x() + tol, "returned point in the rectangle (x)");
        sym::check(z.y >= r.min_y() - tol && z.y <= r.max_y() + tol, "returned point in the rectangle (y)");
        sym::check(z.x >= a.x.min(b.x) - tol && z.x <= a.x.max(b.x) + tol, "returned point on the segment (x)");
        sym::check(z.y >= a.y.min(b.y) - tol && z.y <= a.y.max(b.y) + tol, "returned point on the segment (y)");
    }
}
/// any rectangle, any first end point, extents out of a list
fn sloped(m: i32, d: &[i32]) -> Seg {
    let (l, t, r, b) = any_rect(m);
    let (ax, ay) = (sym::int(-2 * m, 2 * m), sym::int(-2 * m, 2 * m));
    let (dx, dy) = (d[sym::choose(d.len() as u32) as usize], d[sym::choose(d.len() as u32) as usize]);
    Seg { l, t, r, b, ax, ay, bx: ax + dx, by: ay + dy }
}
const STEP: [i32; 13] = [0, 1, -1, 2, -2, 8, -8, 16, -16, 64, -64, 512, -512];
/// rectangles of any size and segments whose extents are powers of two (the division is exact)
fn hit_points(m: i32, nx: u32, ny: u32) {
    let (l, t, r, b) = any_rect(m);
    let (ax, ay) = (sym::int(-2 * m, 2 * m), sym::int(-2 * m, 2 * m));
    let (dx, dy) = (STEP[sym::choose(nx) as usize], STEP[sym::choose(ny) as usize]);
    let s = Seg { l, t, r, b, ax, ay, bx: ax + dx, by: ay + dy };
    let (r, a, b) = segment(&s, 1.0);
    let Some((p, q)) = r.intersected_line(&a, &b) else { return };
    sym::reach("points");
    points_ok(&r, &a, &b, &p, &q);
    points_ends(&r, &a, &b, &p, &q);
    for z in [p, q] {
        sym::check((z.y - a.y) * dx as f32 == (z.x - a.x) * dy as f32, "returned point on the line");
    }
}

// --- C24
fn num(m: i32, frac: i32) -> f32 { sym::f32(-m, m, frac) }
fn rect(m: i32, frac: i32) -> Rect { Rect::new(Point::new(num(m, frac), num(m, frac)), Size::new(sym::f32(0, m, frac), sym::f32(0, m, frac))) }
fn accessors(m: i32, frac: i32) {
    let r = rect(m, frac);
    let (x, y, w, h) = (r.origin.x, r.origin.y, r.size.width, r.size.height);
    sym::check(r.min_x() == x && r.min_y() == y && r.width() == w && r.height() == h, "minimum is the origin");
    sym::check(r.max_x() - x == w && r.max_y() - y == h, "maximum is origin plus size");
    sym::check(r.max_x() >= r.min_x() && r.max_y() >= r.min_y(), "maximum not before minimum");
    sym::check(r.mid_x() - r.min_x() == r.max_x() - r.mid_x() && r.mid_y() - r.min_y() == r.max_y() - r.mid_y(), "middle is half way");
    sym::check(r.center().x == r.mid_x() && r.center().y == r.mid_y(), "centre is the middle");
    sym::check(*r.origin() == r.origin && *r.size() == r.size, "accessors agree");
    sym::reach("rect");
}
fn inset(m: i32, frac: i32) {
    let r = rect(m, frac);
    let (dx, dy) = (num(m, frac), num(m, frac));
    let s = r.inset_by(dx, dy);
    sym::check(s.origin.x == r.origin.x + dx && s.origin.y == r.origin.y + dy, "inset moves the origin");
    sym::check(s.size.width >= 0.0 && s.size.height >= 0.0, "inset never yields a negative size");
    for (a, b, d) in [(r.size.width, s.size.width, dx), (r.size.height, s.size.height, dy)] {
        let w = a - d - d;
        if w >= 0.0 { sym::check(b == w, "inset changes the size by twice the inset"); } else { sym::check(b == 0.0, "inset stops at an empty size"); }
    }
    sym::reach("inset");
}
fn contains(m: i32, frac: i32) {
    let r = rect(m, frac);
    let p = Point::new(num(m, frac), num(m, frac));
    let want = (p.x >= r.origin.x) & (p.x - r.origin.x <= r.size.width) & (p.y >= r.origin.y) & (p.y - r.origin.y <= r.size.height);
    sym::check(r.contains_point(&p) == want, "contains exactly the points between the edges");
    if want { sym::reach("in"); } else { sym::reach("out"); }
}
fn distance_axes(m: i32, frac: i32, vertical: bool) {
    let a = Point::new(num(m, frac), num(m, frac));
    let b = if vertical { Point::new(a.x, num(m, frac)) } else { Point::new(num(m, frac), a.y) };
    let d = a.distance(&b);
    let want = if vertical { (a.y - b.y).abs() } else { (a.x - b.x).abs() };
    sym::check(d == want, "distance along an axis is the coordinate difference");
    sym::check(b.distance(&a) == d, "distance is symmetric");
    sym::check(a.distance(&a) == 0.0, "distance to itself is zero");
    sym::reach("axis");
}
fn distance_any(m: i32, frac: i32) {
    const D: [f32; 10] = [0.0, 0.5, -1.0, 2.0, -3.0, 4.0, 7.0, -12.0, 20.0, 60.0];
    let a = Point::new(num(m, frac), 10.0);
    let b = Point::new(0.0, 10.0 + D[sym::choose(10) as usize]);
    let (a, b) = if sym::flag() { (Point::new(a.y, a.x), Point::new(b.y, b.x)) } else { (a, b) };
    let d = a.distance(&b);
    sym::check(d >= (a.x - b.x).abs(), "distance at least the x difference");
    sym::check(d >= (a.y - b.y).abs(), "distance at least the y difference");
    sym::check(d <= (a.x - b.x).abs() + (a.y - b.y).abs(), "distance at most both differences together");
    sym::check(b.distance(&a) == d, "distance is symmetric");
    sym::reach("any");
}
pub fn opposite(o: Orientation) -> Orientation {
    match o { Orientation::Up => Orientation::Down, Orientation::Down => Orientation::Up, Orientation::Left => Orientation::Right, Orientation::Right => Orientation::Left }
}
fn direction(m: i32, frac: i32) {
    let a = Point::new(num(m, frac), num(m, frac));
    let vertical = sym::flag();
    let b = if vertical { Point::new(a.x, num(m, frac)) } else { Point::new(num(m, frac), a.y) };
    sym::assume(a != b);
    let d = a.orthogonal_direction(&b);
    let want = if vertical { if b.y < a.y { Orientation::Up } else { Orientation::Down } } else if b.x < a.x { Orientation::Left } else { Orientation::Right };
    sym::check(d == want, "direction leads to the other point");
    sym::check(b.orthogonal_direction(&a) == opposite(d), "direction reverses when the points are swapped");
    sym::reach("direction");
}
fn same(a: &Point, b: &Point) -> bool { a.x == b.x && a.y == b.y }
fn paths() {
    let p = || Point::new(num(1 << 20, 3), num(1 << 20, 3));
    let start = p();
    let mut path = Path::new(start);
    let mut want: Vec<(u32, Point, Point)> = vec![(0, start, start)];
    for _ in 0..sym::choose(4) {
        let (a, b) = (p(), p());
        match sym::choose(3) {
            0 => { path.move_to(a); want.push((0, a, a)); }
            1 => { path.line_to(a); want.push((1, a, a)); }
            _ => { path.quad_to(a, b); want.push((2, a, b)); }
        }
    }
    sym::check(path.commands().len() == want.len(), "every command is kept");
    for (c, (k, a, b)) in path.commands().zip(want.iter()) {
        let ok = match c {
            PathCommand::MoveTo(x) => *k == 0 && same(x, a),
            PathCommand::LineTo(x) => *k == 1 && same(x, a),
            PathCommand::QuadTo(x, y) => *k == 2 && same(x, a) && same(y, b),
        };
        sym::check(ok, "commands in the order they were added");
    }
    sym::check(same(path.start_point(), &start), "start point");
    sym::check(same(path.end_point(), &want.last().unwrap().2), "end point");
    sym::reach("path");
}

harnesses! {
    c22_rgb { let (r, g, b) = (sym::byte(0, 255), sym::byte(0, 255), sym::byte(0, 255)); rgb_text(&RGBColor::new(r, g, b).to_string(), r, g, b) }
    c22_web { let (r, g, b) = (sym::byte(0, 255), sym::byte(0, 255), sym::byte(0, 255)); rgb_text(&WebColor::RGB(RGBColor { red: r, green: g, blue: b }).to_string(), r, g, b) }
    c22_named {
        sym::check(WebColor::Named(NamedColor::White).to_string() == "white" && NamedColor::White.to_string() == "white", "white");
        sym::check(WebColor::Named(NamedColor::Black).to_string() == "black" && NamedColor::Black.to_string() == "black", "black");
        sym::check(WebColor::default().to_string() == "black", "default");
    }
    c23_horizontal { hit_exact(any_seg(300, 0), 1.0, true) }
    c23_vertical { hit_exact(any_seg(300, 1), 1.0, true) }
    c23_horizontal_half { hit_exact(any_seg(300, 0), 0.5, true) }
    c23_vertical_half { hit_exact(any_seg(300, 1), 0.5, true) }
    c23_slopes3 { hit_exact(sloped(60, &[-3, -2, -1, 0, 1, 2, 3]), 1.0, true) }
    c23_slopes_far { hit_exact(sloped(60, &[-100, -37, -11, 7, 24, 50, 113]), 1.0, true) }
    c23_slopes9 { hit_exact(sloped(60, &[-9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), 1.0, true) }
    c23_any1 { hit_exact(any_seg(1, 2), 1.0, true) }
    c23_points_h { hit_points(100, 13, 1) }
    c23_points_v { hit_points(100, 1, 13) }
    c23_points_any { hit_points(20, 7, 7) }
    c24_accessors { accessors(1 << 20, 3) }
    c24_accessors_fine { accessors(1 << 20, 16) }
    c24_inset { inset(1 << 20, 3) }
    c24_contains { contains(1 << 20, 3) }
    c24_distance_h { distance_axes(1 << 10, 1, false) }
    c24_distance_v { distance_axes(1 << 10, 1, true) }
    c24_distance_any { distance_any(1 << 5, 1) }
    c24_distance_far { distance_any(1 << 8, 1) }
    c24_direction { direction(1 << 20, 3) }
    c24_path { paths() }
}
