use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap();
    let lib = format!("{}/lib", sysroot.trim());
    let so = std::fs::read_dir(&lib).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so")).expect("libLLVM in the toolchain");
    println!("cargo:rustc-link-arg={}/{}", lib, so);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    println!("cargo:rustc-link-arg=-lz3");
}
