fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(vp_hooks)");
    // the harness sees these calls of the code under test (see src/shim.rs)
    for f in ["sodium_allocarray", "sodium_malloc", "munmap", "mmap", "mmap64", "mprotect", "mlock", "munlock", "madvise",
        "open", "open64", "openat", "openat64", "close", "write", "writev", "pwrite64", "ftruncate", "ftruncate64", "truncate64", "fsync", "fdatasync",
        "sync", "rename", "renameat", "renameat2", "unlink", "unlinkat", "link", "linkat", "mkdir", "copy_file_range", "sendfile64"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
}
