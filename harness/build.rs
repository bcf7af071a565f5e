use std::{env, fs, path::Path, path::PathBuf};

// The crate under test is compiled into this one. On every build its sources are mirrored from the
// repository's working tree into OUT_DIR with these mechanical rewrites and nothing else:
//   * `mod x;` / `pub(...) mod x;`        -> `pub(crate) mod x;`   (so that harnesses can name it)
//   * harness files of src/h/ are appended, as a child module `verif`, to the module they belong to
//   * in the model build only (MD_VERIF_MODEL=1, i.e. under the solver, never in the native replay):
//     `std::collections` -> `crate::vcollections`, an association-list model of HashMap/HashSet
fn main() {
    let repo = PathBuf::from(env::var("MD_RECOVER_REPO").unwrap_or_else(|_| "/repo".into()));
    let model = env::var("MD_VERIF_MODEL").is_ok_and(|v| v == "1");
    let here = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    println!("cargo:rustc-check-cfg=cfg(kani)");
    println!("cargo:rustc-check-cfg=cfg(model)");
    if model {
        println!("cargo:rustc-cfg=model");
    }
    println!("cargo:rerun-if-env-changed=MD_RECOVER_REPO");
    println!("cargo:rerun-if-env-changed=MD_VERIF_MODEL");
    println!("cargo:rerun-if-env-changed=MD_VERIF_ONLY");
    println!("cargo:rerun-if-env-changed=MD_VERIF_STAMP");
    println!("cargo:rerun-if-changed={}", repo.join("src").display());
    println!("cargo:rerun-if-changed={}", here.join("src").display());
    println!("cargo:rerun-if-changed=build.rs");

    let mirror = out.join("mirror");
    let _ = fs::remove_dir_all(&mirror);
    copy(&repo.join("src"), &mirror, model);

    // the harness files to compile, if not all
    let only = env::var("MD_VERIF_ONLY").unwrap_or_default();
    let mut table = String::new();
    for entry in fs::read_dir(here.join("src/h")).unwrap() {
        let file = entry.unwrap().path();
        if file.extension().is_none_or(|e| e != "rs") {
            continue;
        }
        // `a.b.c.rs` belongs to module crate::a::b::c
        let stem = file.file_stem().unwrap().to_str().unwrap().to_owned();
        if !only.is_empty() && only.split(',').all(|o| o != stem) {
            continue;
        }
        let rel = stem.replace('.', "/");
        let mut target = mirror.join(format!("{rel}.rs"));
        if !target.exists() {
            target = mirror.join(&rel).join("mod.rs");
        }
        let mut text = fs::read_to_string(&target)
            .unwrap_or_else(|e| panic!("no module for {stem}: {e}"));
        text += &format!(
            "\n#[allow(warnings)]\npub(crate) mod verif {{ include!({:?}); }}\n",
            file.display().to_string()
        );
        fs::write(&target, text).unwrap();
        let path = format!("crate::{}::verif", stem.replace('.', "::"));
        for line in fs::read_to_string(&file).unwrap().lines() {
            let l = line.trim();
            if let Some(rest) = l.strip_prefix("pub fn p") {
                if let Some(i) = rest.find("()") {
                    let n = &rest[..i];
                    if n.as_bytes().first().is_some_and(u8::is_ascii_digit) {
                        table += &format!("        \"p{n}\" => Some({path}::p{n} as fn()),\n");
                    }
                }
            }
            // macro-generated harnesses: `harness!(p01_name, ...)`-style lines
            if let Some(i) = l.find("!(p") {
                if l[..i].starts_with("h_") {
                    let rest = &l[i + 2..];
                    let n: String = rest
                        .chars()
                        .take_while(|c| c.is_ascii_alphanumeric() || *c == '_')
                        .collect();
                    table += &format!("        \"{n}\" => Some({path}::{n} as fn()),\n");
                }
            }
        }
    }
    fs::write(
        out.join("table.rs"),
        format!("pub fn lookup(name: &str) -> Option<fn()> {{\n    match name {{\n{table}        _ => None,\n    }}\n}}\n"),
    )
    .unwrap();

    let main = fs::read_to_string(repo.join("src/main.rs")).unwrap();
    let mut mods = String::new();
    for line in main.lines() {
        if let Some(name) = module_name(line) {
            let flat = mirror.join(format!("{name}.rs"));
            let path = if flat.exists() { flat } else { mirror.join(name).join("mod.rs") };
            mods += &format!("#[path = {:?}]\npub(crate) mod {name};\n", path.display().to_string());
        }
    }
    fs::write(out.join("mods.rs"), mods).unwrap();
}

/// `mod x;` with any visibility -> `x`
fn module_name(line: &str) -> Option<&str> {
    let l = line.trim();
    let l = if let Some(r) = l.strip_prefix("pub(") {
        r.split_once(')')?.1.trim_start()
    } else {
        l.strip_prefix("pub ").unwrap_or(l)
    };
    let name = l.strip_prefix("mod ")?.strip_suffix(';')?.trim();
    name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_').then_some(name)
}

fn copy(from: &Path, to: &Path, model: bool) {
    fs::create_dir_all(to).unwrap();
    for entry in fs::read_dir(from).unwrap() {
        let path = entry.unwrap().path();
        let dest = to.join(path.file_name().unwrap());
        if path.is_dir() {
            copy(&path, &dest, model);
        } else if path.extension().is_some_and(|e| e == "rs") {
            let text = fs::read_to_string(&path).unwrap();
            let mut result = String::with_capacity(text.len());
            for line in text.lines() {
                if let Some(name) = module_name(line) {
                    if !matches!(name, "test" | "tests") {
                        result += &format!("pub(crate) mod {name};\n");
                        continue;
                    }
                }
                result += line;
                result.push('\n');
            }
            if model {
                result = result.replace("std::collections", "crate::vcollections");
            }
            fs::write(&dest, result).unwrap();
        }
    }
}
