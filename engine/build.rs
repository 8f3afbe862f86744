fn main() {
    // libz3.so (4.8.12, libz3-dev) is in the default system library directory
    println!("cargo:rustc-link-lib=dylib=z3");
}
