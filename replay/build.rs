//! Table of the entry points of the harness modules that are compiled in.
use std::io::Write;
fn main() {
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../harness/src");
    println!("cargo:rerun-if-changed={}", dir.display());
    let mut names = vec![];
    for f in ["crypto", "field", "point", "ecdhe", "ct", "codec", "record", "hs"] {
        if std::env::var(format!("CARGO_FEATURE_{}", f.to_uppercase())).is_err() {
            continue;
        }
        let t = std::fs::read_to_string(dir.join(format!("{}.rs", f))).unwrap();
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("pub extern \"C\" fn ") {
                if let Some(n) = r.split("() {").next() {
                    names.push(n.to_string())
                }
            }
        }
    }
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("entries.rs");
    let mut o = std::fs::File::create(out).unwrap();
    writeln!(o, "extern \"C\" {{").unwrap();
    for n in &names {
        writeln!(o, "    fn {}();", n).unwrap();
    }
    writeln!(o, "}}\npub fn find(n: &str) -> Option<unsafe extern \"C\" fn()> {{\n    match n {{").unwrap();
    for n in &names {
        writeln!(o, "        {:?} => Some({}),", n, n).unwrap();
    }
    writeln!(o, "        _ => None,\n    }}\n}}").unwrap();
}
