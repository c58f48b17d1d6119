// Rewrites the library's root so that its private modules can be named from the checks: every
// `mod x;` becomes `pub mod x;` with an explicit path, crate attributes are dropped, and nothing
// else changes.  The module files themselves are compiled from /repo as they are.
use std::{env, fs, path::Path};
fn main() {
    let src = Path::new("/repo/packages/circuit_reader/src");
    println!("cargo:rerun-if-changed={}", src.display());
    let text = fs::read_to_string(src.join("lib.rs")).unwrap();
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_end();
        if t.starts_with("#![") {
            continue;
        }
        let body = t.strip_prefix("pub mod ").or_else(|| t.strip_prefix("mod ")).or_else(|| t.strip_prefix("pub(crate) mod "));
        if let Some(name) = body.and_then(|b| b.strip_suffix(';')) {
            let f = src.join(format!("{}.rs", name));
            let d = src.join(name).join("mod.rs");
            let p = if f.exists() { f } else { d };
            out.push_str(&format!("#[path = \"{}\"]\npub mod {};\n", p.display(), name));
            continue;
        }
        if t.starts_with("//!") {
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("root.rs"), out).unwrap();
}
