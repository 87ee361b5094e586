//! Exhaustive exploration of the arkworks-free modules of /repo against independent references.
#[global_allocator]
static ALLOC: mc::alloc::Counting = mc::alloc::Counting;
mod aes_ref;
mod c04;
mod c06;
mod c07;
mod c08;
mod c11;
mod c14;
mod c19;
pub fn file(name: &str, bytes: &[u8]) -> String { let p = format!("{}/{}", mc::scratch(), name); std::fs::write(&p, bytes).unwrap(); p }
fn main() {
    mc::before_each(|| { let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64); getrandom::control::install(getrandom::control::Source::Seeded(seed ^ 0x7a6b656e63), u64::MAX) });
    mc::main(|p| match p {
        "C04" => c04::run(),
        "C06" => c06::run(),
        "C07" => c07::run(),
        "C08" => c08::run(),
        "C11" => c11::run(),
        "C14" => c14::run(),
        "C19" => c19::run(),
        _ => panic!("unknown property {}", p),
    });
}
