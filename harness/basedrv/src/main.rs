//! Driver for poseidon-base: `basedrv <mode> <seed> <tier> <outdir>` logs calls of the real code.
// every mode is a feature (m-<mode>): a check builds only what it runs
#![allow(dead_code, unused_imports, unused_macros, unused_variables)]
#[macro_use]
mod calls;
mod gens;
mod m01;
mod m03;
mod m05;
mod m07;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, tier, dir) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].as_str(), a[4].as_str());
    vcommon::quiet_panics();
    let mut o = vcommon::Out::new(dir);
    let deep = tier == "thorough";
    match mode {
        #[cfg(feature = "m-permute")]
        "permute" => m01::permutes(&mut o, seed, deep),
        #[cfg(feature = "m-compact")]
        "compact" => m01::compacts(&mut o, seed, deep),
        #[cfg(feature = "m-fixed")]
        "fixed" => m03::fixed(&mut o, seed, deep),
        #[cfg(feature = "m-var")]
        "var" => m03::var(&mut o, seed, deep),
        #[cfg(feature = "m-separate")]
        "separate" => m03::separate(&mut o, seed, deep),
        #[cfg(feature = "m-history")]
        "history" => m05::history(&mut o, seed, deep),
        #[cfg(feature = "m-race")]
        "race" => m05::race(&mut o, seed),
        #[cfg(feature = "m-gen")]
        "gen" => m07::gen(&mut o, seed, deep),
        #[cfg(feature = "m-tables")]
        "tables" => m07::tables(&mut o, seed),
        #[cfg(feature = "m-advert")]
        "advert" => m07::advert(&mut o),
        _ => panic!("unknown mode"),
    }
    o.finish();
}
