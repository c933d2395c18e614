fn main() {
    // libz3 from Debian's libz3-dev / libz3-4
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
}
