fn main() {
    println!("cargo::rustc-check-cfg=cfg(thumb)");
    if std::env::var("TARGET").unwrap().starts_with("thumb") {
        println!("cargo::rustc-cfg=thumb");
    }
}
