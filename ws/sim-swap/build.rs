// both contracts export ink's metadata function, which nothing here calls
fn main() {
    println!("cargo:rustc-link-arg=-Wl,--allow-multiple-definition");
    println!("cargo:rerun-if-changed=build.rs");
}
