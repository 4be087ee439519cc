//! Lists the harness entry points for the replay binary.
use std::io::Write;
fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut o = String::new();
    for (feat, file, m) in [("API", "src/api.rs", "api"), ("API", "src/api2.rs", "api2"), ("KERN", "src/kern.rs", "kern"), ("KERN", "src/kern2.rs", "kern2"), ("KERN", "src/kern3.rs", "kern3"), ("KERN", "src/kern4.rs", "kern4"), ("KERN", "src/kern5.rs", "kern5")] {
        if std::env::var(format!("CARGO_FEATURE_{feat}")).is_err() {
            continue;
        }
        for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("pub extern \"C\" fn h_") {
                o += &format!("{m}::h_{},\n", r.split('(').next().unwrap());
            }
        }
    }
    let p = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs");
    std::fs::File::create(p).unwrap().write_all(format!("table! {{ {o} }}").as_bytes()).unwrap();
}
