// collects the harness functions of the enabled property into a table for the replayer
use std::io::Write;
fn main() {
    println!("cargo:rerun-if-changed=src");
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs");
    let mut s = String::from("pub fn find(n: &str) -> Option<extern \"C-unwind\" fn()> {\n    match n {\n");
    let mut mods = String::new();
    for i in 1..=40 {
        let id = format!("c{:02}", i);
        if std::env::var(format!("CARGO_FEATURE_{}", id.to_uppercase())).is_err() { continue; }
        let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
        let path = format!("{}/src/{}.rs", dir, id);
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        mods.push_str(&format!("#[path = \"{}\"] pub mod {};\n", path, id));
        for l in text.lines() {
            if let Some(r) = l.trim().strip_prefix("harness!(") {
                let name = r.split(',').next().unwrap().trim();
                s.push_str(&format!("        \"{}\" => Some({}::{}),\n", name, id, name));
            }
        }
    }
    s.push_str("        _ => None,\n    }\n}\n");
    std::fs::File::create(out).unwrap().write_all((mods + &s).as_bytes()).unwrap();
}
