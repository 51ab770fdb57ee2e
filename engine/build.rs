use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let o = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let root = String::from_utf8(o.stdout).unwrap().trim().to_string();
    let lib = format!("{}/lib", root);
    let mut name = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM") && n.ends_with(".so") {
            name = Some(n.trim_start_matches("lib").trim_end_matches(".so").to_string());
        }
    }
    let name = name.expect("libLLVM of the toolchain");
    println!("cargo:rustc-link-search=native={}", lib);
    println!("cargo:rustc-link-lib=dylib={}", name);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
}
