fn main() {
    // simrt.o is compiled by tools/build.sh before cargo runs.
    println!("cargo:rerun-if-env-changed=SIMRT_OBJ");
    let o = std::env::var("SIMRT_OBJ").expect("SIMRT_OBJ");
    println!("cargo:rerun-if-changed={o}");
    println!("cargo:rustc-link-arg={o}");
    println!("cargo:rustc-link-arg=-rdynamic");
}
