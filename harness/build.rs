// collects the names of all harness entry points (`pub fn h_...()`) into a dispatch table
use std::{fs, path::Path};
fn main() {
    let src = Path::new("src");
    let mut out = String::from("pub static ENTRIES: &[(&str, extern \"C\" fn())] = &[\n");
    let mut files: Vec<_> = fs::read_dir(src).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "lib" || m == "main" || m == "c37" && std::env::var("CARGO_FEATURE_STORE").is_err() || f.extension().map_or(true, |e| e != "rs") {
            continue;
        }
        for l in fs::read_to_string(&f).unwrap().lines() {
            if l.starts_with("h_c") && l.contains('{') {
                let n = l[..l.find('{').unwrap()].trim();
                out.push_str(&format!("(\"{n}\", crate::{m}::{n}),\n"));
            }
        }
    }
    out.push_str("];\n");
    fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("entries.rs"), out).unwrap();
    println!("cargo:rerun-if-changed=src");
}
