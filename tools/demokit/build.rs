fn main() {
    revmc_build::emit();
    println!("cargo:rustc-link-arg=-Wl,-rpath,/root/.rustup/toolchains/1.98.1-x86_64-unknown-linux-gnu/lib");
}
