//! Driver for poseidon-circuit: `circdrv <mode> <seed> <tier> <outdir>` records what the real code builds.
// every mode is a feature (m-<mode>): a check builds only what it runs
#![allow(dead_code, unused_imports, unused_macros, unused_variables)]
mod builder;
mod chips;
mod dump;
mod gadget;
mod keys;
mod perms;
mod specs;
mod table;
mod tables;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, tier, dir) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].as_str(), a[4].as_str());
    vcommon::quiet_panics();
    let mut o = vcommon::Out::new(dir);
    let deep = tier == "thorough";
    match mode {
        #[cfg(feature = "m-tables")]
        "tables" => tables::honest(&mut o, seed, deep),
        #[cfg(feature = "m-tsearch")]
        "tsearch" => tables::search(&mut o, seed, deep),
        #[cfg(feature = "m-tsearch")]
        "tlocal" => tables::local(&mut o, seed, deep),
        #[cfg(feature = "m-psearch")]
        "plocal" => perms::local(&mut o, seed, deep),
        #[cfg(feature = "m-gsearch")]
        "glocal" => gadget::local(&mut o, seed, deep),
        #[cfg(feature = "m-parallel")]
        "parallel" => tables::parallel(&mut o, seed, deep),
        #[cfg(feature = "m-fixedpart")]
        "fixedpart" => tables::fixedpart(&mut o, seed, deep),
        #[cfg(feature = "m-checks")]
        "checks" => tables::checks(&mut o, seed, deep),
        #[cfg(feature = "m-budget")]
        "budget" => tables::budget(&mut o, seed, deep),
        #[cfg(feature = "m-budget")]
        "rows" => perms::rows(&mut o, seed),
        #[cfg(feature = "m-perms")]
        "perms" => perms::honest(&mut o, seed, deep),
        #[cfg(feature = "m-psearch")]
        "psearch" => perms::search(&mut o, seed, deep),
        #[cfg(feature = "m-gadget")]
        "gadget" => gadget::honest(&mut o, seed, deep),
        #[cfg(feature = "m-gsearch")]
        "gsearch" => gadget::search(&mut o, seed, deep),
        #[cfg(feature = "m-keys")]
        "keys" => keys::keys(&mut o, seed, deep),
        #[cfg(feature = "m-builder")]
        "builder" => builder::replay(&mut o, seed, deep, a.get(5).map(|s| s.as_str())),
        _ => panic!("unknown mode"),
    }
    o.finish();
}
