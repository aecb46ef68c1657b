// Makes the shipped example models available to the harness binaries: for every
// module file of /repo/examples/<name>/ (all .rs files but main.rs) emits a
// `#[path = ..] pub mod ..;` line, included at the crate root of each binary, so
// the models under test are the very files of /repo's working tree.
use std::{env, fs, path::Path};

fn main() {
    let repo = env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-env-changed=VERIF_REPO");
    for ex in ["tsptw", "psp", "srflp"] {
        let dir = format!("{repo}/examples/{ex}");
        println!("cargo:rerun-if-changed={dir}");
        let mut s = String::new();
        let mut names: Vec<String> = fs::read_dir(&dir)
            .map(|rd| rd.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
            .unwrap_or_default();
        names.sort();
        for f in names {
            let p = format!("{dir}/{f}");
            if f.ends_with(".rs") && f != "main.rs" {
                let m = f.trim_end_matches(".rs");
                s += &format!("#[allow(warnings)]\n#[path = {:?}]\npub mod {};\n", p, m);
            } else if Path::new(&format!("{p}/mod.rs")).exists() {
                s += &format!("#[allow(warnings)]\n#[path = {:?}]\npub mod {};\n", format!("{p}/mod.rs"), f);
            }
        }
        fs::write(format!("{out}/{ex}_mods.rs"), s).unwrap();
    }
}
