#[macro_use]
mod mac;
mod geo;
mod place;
mod model;
mod refp;
mod route;
mod svg;
mod sym;
mod text;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut t = [text::TABLE, model::TABLE, geo::TABLE, place::TABLE, route::TABLE, svg::TABLE].concat();
    if a.len() == 4 && a[1] == "replay" {
        let Some((_, f)) = t.iter().find(|(n, _)| *n == a[2]) else { eprintln!("no harness {}", a[2]); std::process::exit(9) };
        sym::load(&a[3]);
        f();
        return;
    }
    t.sort();
    for (n, _) in t { println!("{}", n); }
}
