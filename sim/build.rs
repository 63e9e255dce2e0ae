fn main() {
    // mio looks these up with dlsym at run time
    for s in ["epoll_create1", "pipe2", "accept4", "time", "gettimeofday"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={}", s);
    }
    println!("cargo:rerun-if-changed=build.rs");
}
