//! The type of positions is in the root of zuban_python (which cannot be built here).
fn main() {
    let lib = "/repo/crates/zuban_python/src/lib.rs";
    println!("cargo:rerun-if-changed={lib}");
    println!("cargo:rerun-if-changed=/repo/crates/zuban_python/src/lines.rs");
    let s = std::fs::read_to_string(lib).unwrap();
    let a = s.find("pub enum InputPosition {").expect("InputPosition");
    let b = a + s[a..].find("\n}").unwrap() + 2;
    std::fs::write(std::env::var("OUT_DIR").unwrap() + "/pos.rs", format!("#[derive(Debug, Clone, Copy)]\n{}", &s[a..b])).unwrap();
}
