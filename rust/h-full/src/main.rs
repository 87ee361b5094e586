//! Exhaustive exploration of the arkworks-dependent code of /repo, built against the stand-ins.
#[global_allocator]
static ALLOC: mc::alloc::Counting = mc::alloc::Counting;
mod bind;
mod cmd;
mod core;
mod util;
pub fn file(name: &str, bytes: &[u8]) -> String { let p = format!("{}/{}", mc::scratch(), name); std::fs::write(&p, bytes).unwrap(); p }
fn main() {
    mc::before_each(|| { let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64); getrandom::control::install(getrandom::control::Source::Seeded(seed ^ 0x7a6b656e63), u64::MAX) });
    mc::main(|p| match p {
        "C01" => core::c01(),
        "C02" => { core::c02(); bind::c02() }
        "C03" => { core::c03(); cmd::c03() }
        "C04" => { core::c04(); cmd::c04() }
        "C05" => { core::c05(); cmd::c05() }
        "C06" => bind::c06(),
        "C07" => { bind::c07(); cmd::c07() }
        "C09" => bind::c09(),
        "C10" => bind::c10(),
        "C11" => cmd::c11(),
        "C12" => cmd::c12(),
        "C13" => cmd::c13(),
        "C15" => cmd::c15(),
        "C18" => cmd::c18(),
        "C20" => core::c20(),
        "C21" => core::c21(),
        _ => panic!("unknown property {}", p),
    });
}
