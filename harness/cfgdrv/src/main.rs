//! `cfgdrv config <seed> <tier> <outdir>`: the calls that every build configuration must answer alike
#![allow(deprecated)]
#[path = "../../basedrv/src/calls.rs"]
#[macro_use]
mod calls;
use calls::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, PrimeField};
use poseidon_base::hash::{HashSpec, Hashable};
use poseidon_base::primitives::*;
use vcommon::*;

/// C09: one fixed set of calls, executed in every build configuration
fn config(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC09);
    let n = if deep { 1500 } else { 400 };
    for i in 0..n {
        let m: [Fr; 2] = msg::<Fr>(r, 2).try_into().unwrap();
        let d = Fr::pick(r);
        let out = guarded(|| <Fr as Hashable>::hash_with_domain(m, d));
        o.ev(&format!("{{\"k\":\"iden3\",\"pr\":1001,\"msg\":{},\"dom\":{},{}}}", ja(&m), d.j(), res(&out)));
        let out = guarded(|| <Fr as Hashable>::hash(m));
        o.ev(&format!("{{\"k\":\"iden3\",\"pr\":1001,\"msg\":{},\"dom\":{},{}}}", ja(&m), Fr::ZERO.j(), res(&out)));
        let v = msg::<Fr>(r, 1 + i % 9);
        fr_msg(o, &v, None);
        let c = edge_caps();
        fr_msg(o, &v, Some(c[r.below(c.len())]));
        let st: [Fr; 3] = core::array::from_fn(|_| Fr::pick(r));
        let out = guarded(|| {
            let mut s = st;
            <Fr as Hashable>::hasher().permute(&mut s);
            s
        });
        let (ok, p) = (out.is_some(), out.unwrap_or([Fr::ZERO; 3]));
        o.ev(&format!("{{\"k\":\"permute\",\"pr\":1001,\"via\":\"cfg\",\"in\":{},\"ok\":{ok},\"out\":{}}}", ja(&st), ja(&p)));
    }
    for l in [17usize, 32, 33, 127, 128, 129, 255, 256, 257] {
        let v = msg::<Fr>(r, l);
        fr_msg(o, &v, None);
        fr_msg(o, &v, Some(u128::MAX));
    }
    for c in edge_caps() {
        let v = msg::<Fr>(r, 1 + (c % 5) as usize);
        fr_msg(o, &v, Some(c));
        let m: [Fr; 2] = msg::<Fr>(r, 2).try_into().unwrap();
        let d = Fr::from_u128(c) * Fr::from_u128(1 << 126);
        let out = guarded(|| <Fr as Hashable>::hash_with_domain(m, d));
        o.ev(&format!("{{\"k\":\"iden3\",\"pr\":1001,\"msg\":{},\"dom\":{},{}}}", ja(&m), d.j(), res(&out)));
    }
    let k = if deep { 10 } else { 2 };
    lens!(o, r, 1001, k, Fr, HashSpec<Fr>, 3, 2, [1, 2, 3, 4, 5, 8, 9, 16, 17]);
    #[cfg(feature = "pallas")]
    {
        use halo2curves::pasta::Fp;
        lens!(o, r, 1002, k, Fp, HashSpec<Fp>, 3, 2, [1, 2, 3, 4, 5]);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    assert_eq!(a[1], "config");
    vcommon::quiet_panics();
    let mut o = Out::new(&a[4]);
    config(&mut o, a[2].parse().unwrap(), a[3] == "thorough");
    o.finish();
}
