use std::fmt::Write;
fn main() {
    let mut out = String::new();
    let mut names = vec![];
    for e in std::fs::read_dir("src").unwrap() {
        let p = e.unwrap().path();
        println!("cargo:rerun-if-changed={}", p.display());
        let stem = match p.file_stem() { Some(s) => s.to_string_lossy().to_string(), None => continue };
        if std::env::var(format!("CARGO_FEATURE_{}", stem.to_uppercase())).is_err() { continue; }
        let s = std::fs::read_to_string(&p).unwrap();
        for l in s.split("extern \"C\" fn ").skip(1) {
            let n: String = l.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if n.starts_with("h_") { names.push(n); }
        }
    }
    names.sort();
    out.push_str("extern \"C\" {\n");
    for n in &names { writeln!(out, "    fn {}();", n).unwrap(); }
    out.push_str("}\npub static HARNESSES: &[(&str, unsafe extern \"C\" fn())] = &[\n");
    for n in &names { writeln!(out, "    (\"{}\", {}),", n, n).unwrap(); }
    out.push_str("];\n");
    std::fs::write(format!("{}/registry.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
