#[allow(arithmetic_overflow)]
fn overflow() {
    let _ = 255_u8 + 1;
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // Whether the crate is built with overflow checks, which decides what the operators do.
    if std::panic::catch_unwind(overflow).is_err() {
        println!("cargo:rustc-cfg=checks");
    }
}
