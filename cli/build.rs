//! Copies the tool's main.rs so that it can be included as a module (inner attributes and doc comments are dropped,
//! modules of its own are looked up where they are). Runs at every build: main.rs of this crate is touched.
use std::{env, fs, path::Path};
fn main() {
    let src = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../repo/src").canonicalize().unwrap();
    let mut out = String::new();
    for l in fs::read_to_string(src.join("main.rs")).unwrap().lines() {
        let t = l.trim();
        if t.starts_with("#![") || t.starts_with("//!") { continue; }
        if let Some(m) = t.trim_start_matches("pub ").strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            for f in [format!("{m}.rs"), format!("{m}/mod.rs")] {
                if src.join(&f).exists() { out += &format!("#[path = {:?}]\n", src.join(&f)); break; }
            }
        }
        out += l;
        out += "\n";
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("tool.rs"), out).unwrap();
}
