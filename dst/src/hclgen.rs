//! `hclgen <n>`: the circuits of module `hcl` as Rust source.
mod hcl;
mod prng;
fn main() {
    let n = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    print!("{}", hcl::file(n));
}
