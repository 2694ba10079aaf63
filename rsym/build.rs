fn main() {
    println!("cargo:rustc-link-arg=-l:libz3.so.4");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
}
