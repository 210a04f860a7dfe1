//! C03 fixed-length, C04 variable-length, C06 separation
#![allow(deprecated)]
use crate::calls::*;
use crate::gens::GS;
use halo2curves::bn256::{Fq, Fr};
use halo2curves::ff::{Field, PrimeField};
use poseidon_base::hash::{HashSpec, Hashable, MessageHashable, HASHABLE_DOMAIN_SPEC};
use poseidon_base::primitives::*;
use vcommon::*;

/// what a domain says of messages of `len` words
fn domain<F: FJ, D: Domain<F, RATE>, const RATE: usize>(o: &mut Out, d: &str, t: usize, len: usize) {
    let r = guarded(|| (D::initial_capacity_element(), D::padding(len).into_iter().collect::<Vec<F>>(), D::layout(t)));
    let ok = r.is_some();
    let (cap, pad, lay) = r.unwrap_or((F::ZERO, vec![], 0));
    o.ev(&format!(
        "{{\"k\":\"domain\",\"d\":\"{d}\",\"f\":{},\"t\":{t},\"rate\":{RATE},\"len\":{len},\"ok\":{ok},\"cap\":{},\"pad\":{},\"lay\":{lay}}}",
        F::desc(),
        cap.j(),
        ja(&pad)
    ));
}
macro_rules! domains {
    ($o:expr, $F:ty, $RATE:literal, [$($L:literal),*]) => {$(
        for t in $RATE + 1..$RATE + 4 {
            domain::<$F, ConstantLength<$L>, $RATE>($o, "const", t, $L);
            domain::<$F, ConstantLengthIden3<$L>, $RATE>($o, "iden3", t, $L);
        }
    )*};
}
fn var_domains<F: FJ, const RATE: usize>(o: &mut Out, max: usize) {
    for t in RATE + 1..RATE + 4 {
        for len in (1..max).chain([65_535, 65_536, 65_537]) {
            domain::<F, VariableLengthIden3, RATE>(o, "var", t, len);
        }
    }
}

macro_rules! gset {
    ($o:expr, $F:ty, $T:literal, $RATE:literal, $A:literal, $RF:literal, $RP:literal, $SD:literal) => {{
        type S = GS<$A, $RF, $RP, $SD>;
        let (rc, mds, _) = <S as Spec<$F, $T, $RATE>>::constants();
        $o.params(pr_json::<$F, $T>($RATE, $RF, $RP, $A, &rc, &mds))
    }};
}

pub fn fixed(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC03);
    let k = if deep { 20 } else { 2 };
    // exhaustive short messages over tiny fields
    {
        type F = Toy<3, 0, 0>;
        type S = GS<5, 4, 2, 1>;
        let pr = gset!(o, F, 3, 2, 5, 4, 2, 1);
        for a in 0..3 {
            for d in 0..3 {
                iden3::<F, S, 3, 2, 1>(o, pr, [Toy(a)], Toy(d));
                for b in 0..3 {
                    iden3::<F, S, 3, 2, 2>(o, pr, [Toy(a), Toy(b)], Toy(d));
                    for c in 0..3 {
                        iden3::<F, S, 3, 2, 3>(o, pr, [Toy(a), Toy(b), Toy(c)], Toy(d));
                        iden3::<F, S, 3, 2, 4>(o, pr, [Toy(a), Toy(b), Toy(c), Toy(d)], Toy(1));
                        plain::<F, S, 3, 2, 4>(o, pr, [Toy(a), Toy(b), Toy(c), Toy(d)]);
                    }
                }
            }
            plain::<F, S, 3, 2, 1>(o, pr, [Toy(a)]);
            for b in 0..3 {
                plain::<F, S, 3, 2, 2>(o, pr, [Toy(a), Toy(b)]);
                for c in 0..3 {
                    plain::<F, S, 3, 2, 3>(o, pr, [Toy(a), Toy(b), Toy(c)]);
                }
            }
        }
    }
    // every width/rate shape, all lengths up to several blocks
    {
        type F = Toy<46337, 0, 0>;
        let pr = gset!(o, F, 3, 2, 5, 8, 9, 2);
        lens!(o, r, pr, k, F, GS<5, 8, 9, 2>, 3, 2, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1024, 1025]);
        let pr = gset!(o, F, 2, 1, 5, 4, 3, 3);
        lens!(o, r, pr, k, F, GS<5, 4, 3, 3>, 2, 1, [1, 2, 3, 4, 5, 8, 17, 64, 255, 256, 257]);
        let pr = gset!(o, F, 4, 2, 5, 4, 3, 4);
        lens!(o, r, pr, k, F, GS<5, 4, 3, 4>, 4, 2, [1, 2, 3, 4, 5, 8, 17, 129, 257]);
        let pr = gset!(o, F, 5, 4, 5, 4, 3, 5);
        lens!(o, r, pr, k, F, GS<5, 4, 3, 5>, 5, 4, [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 31, 32, 33, 63, 64, 65, 128, 130, 255, 256, 257, 258, 259]);
        let pr = gset!(o, F, 6, 3, 5, 4, 3, 6);
        lens!(o, r, pr, k, F, GS<5, 4, 3, 6>, 6, 3, [1, 2, 3, 4, 5, 6, 7, 9, 10, 64, 65, 66, 254, 255, 256, 257, 258]);
        let pr = gset!(o, F, 9, 8, 5, 4, 3, 7);
        lens!(o, r, pr, k, F, GS<5, 4, 3, 7>, 9, 8, [1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 63, 64, 65, 255, 256, 257, 258, 511, 512, 513]);
        let pr = gset!(o, F, 3, 1, 5, 4, 3, 8);
        lens!(o, r, pr, k, F, GS<5, 4, 3, 8>, 3, 1, [1, 2, 3, 4, 5, 33, 256, 257]);
        let pr = gset!(o, Fr, 4, 3, 5, 8, 56, 9);
        lens!(o, r, pr, k, Fr, GS<5, 8, 56, 9>, 4, 3, [1, 2, 3, 4, 5, 6, 7]);
        let pr = gset!(o, Fq, 5, 2, 5, 8, 20, 10);
        lens!(o, r, pr, k, Fq, GS<5, 8, 20, 10>, 5, 2, [1, 2, 3, 4, 5]);
    }
    // the published BN254 / Pallas functions
    lens!(o, r, 1001, k * 2, Fr, HashSpec<Fr>, 3, 2, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    lens!(o, r, 1001, 1, Fr, HashSpec<Fr>, 3, 2, [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
    #[cfg(feature = "pallas")]
    {
        use halo2curves::pasta::Fp;
        lens!(o, r, 1002, k * 2, Fp, HashSpec<Fp>, 3, 2, [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17]);
        // the published vectors of this instance (stored, not computed): they bind the specification itself
        for t in pasta::test_vectors::fp::hash() {
            let m = t.input.map(|b| Fp::from_repr(b).unwrap());
            o.ev(&format!("{{\"k\":\"plain\",\"pr\":1002,\"msg\":{},{}}}", ja(&m), res(&Some(Fp::from_repr(t.output).unwrap()))));
        }
    }
    domains!(o, Toy<46337, 0, 0>, 1, [1, 2, 3, 255, 256, 257]);
    domains!(o, Fr, 1, [1, 2, 3]);
    domains!(o, Fr, 2, [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537]);
    domains!(o, Fq, 3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255, 256, 257, 258]);
    domains!(o, Toy<46337, 0, 0>, 4, [1, 2, 3, 4, 5, 6, 7, 8, 9, 1023, 1024, 1025, 1026]);
    domains!(o, Fr, 8, [1, 2, 7, 8, 9, 15, 16, 17, 255, 256, 257, 511, 512, 513]);
    let mut doms = Fr::edges();
    for b in 0..254 {
        doms.push(Fr::from(2).pow_vartime([b as u64]));
    }
    for (i, d) in doms.iter().enumerate() {
        let m: [Fr; 2] = msg::<Fr>(r, 2).try_into().unwrap();
        let out = guarded(|| <Fr as Hashable>::hash_with_domain(m, *d));
        o.ev(&format!("{{\"k\":\"iden3\",\"pr\":1001,\"msg\":{},\"dom\":{},{}}}", ja(&m), d.j(), res(&out)));
        if i % 4 == 0 {
            let out = guarded(|| <Fr as Hashable>::hasher().hash(m, *d));
            o.ev(&format!("{{\"k\":\"iden3\",\"pr\":1001,\"msg\":{},\"dom\":{},{}}}", ja(&m), d.j(), res(&out)));
            let out = guarded(|| <Fr as Hashable>::hash(m));
            o.ev(&format!("{{\"k\":\"iden3\",\"pr\":1001,\"msg\":{},\"dom\":{},{}}}", ja(&m), Fr::ZERO.j(), res(&out)));
        }
    }
}

pub fn var(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC04);
    {
        // exhaustive: all messages of up to 4 words over F_3, several capacities
        type F = Toy<3, 0, 0>;
        type S = GS<5, 4, 2, 1>;
        let pr = gset!(o, F, 3, 2, 5, 4, 2, 1);
        for n in 1..=4u32 {
            for code in 0..3u32.pow(n) {
                let m: Vec<F> = (0..n).map(|i| Toy(code / 3u32.pow(i) % 3)).collect();
                for c in [0u128, 1, 2, 5] {
                    varh::<F, S, 3, 2>(o, pr, &m, c);
                }
            }
        }
    }
    macro_rules! shape {
        ($F:ty, $T:literal, $RATE:literal, $RP:literal, $SD:literal, $max:expr, $long:expr) => {{
            let pr = gset!(o, $F, $T, $RATE, 5, 4, $RP, $SD);
            for n in 1..=$max {
                for _ in 0..(if deep { 8 } else { 1 }) {
                    let m = msg::<$F>(r, n);
                    let caps = edge_caps();
                    varh::<$F, GS<5, 4, $RP, $SD>, $T, $RATE>(o, pr, &m, caps[r.below(caps.len())]);
                    varh::<$F, GS<5, 4, $RP, $SD>, $T, $RATE>(o, pr, &m, n as u128 * HASHABLE_DOMAIN_SPEC);
                    if n < 24 {
                        let c = caps[r.below(caps.len())];
                        let m = steer::<$F, GS<5, 4, $RP, $SD>, $T, $RATE>(r, $T - $RATE, <$F>::from_u128(c), n);
                        varh::<$F, GS<5, 4, $RP, $SD>, $T, $RATE>(o, pr, &m, c);
                    }
                }
            }
            for n in $long {
                let m = msg::<$F>(r, n);
                let caps = edge_caps();
                varh::<$F, GS<5, 4, $RP, $SD>, $T, $RATE>(o, pr, &m, caps[r.below(caps.len())]);
            }
        }};
    }
    type F = Toy<46337, 0, 0>;
    shape!(F, 3, 2, 9, 2, 140, [255usize, 256, 257, 300, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 1535, 2047, 2048, 2049, 4095, 4096, 4097, 5000]);
    shape!(F, 2, 1, 3, 3, 40, [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
    shape!(F, 4, 2, 3, 4, 40, [64usize, 65, 255, 256, 257, 512, 513, 1024, 1025]);
    shape!(F, 5, 4, 3, 5, 70, [127usize, 128, 129, 255, 256, 257, 258, 259, 511, 512, 513, 1023, 1024, 1025, 1026, 2048, 4093, 4097]);
    shape!(F, 6, 3, 3, 6, 40, [64usize, 65, 66, 67, 127, 128, 129, 255, 256, 257, 258, 510, 512, 513, 767, 768, 769, 1024, 1025, 3000]);
    shape!(F, 9, 8, 3, 7, 70, [127usize, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 8191, 8192, 8193, 16384, 65535, 65536, 65537]);
    shape!(Fr, 4, 3, 10, 9, 20, [32usize, 63, 64, 65, 128, 255, 256, 257]);
    var_domains::<Fr, 1>(o, 20);
    var_domains::<Fr, 2>(o, 140);
    var_domains::<F, 3>(o, 40);
    var_domains::<Fq, 4>(o, 70);
    var_domains::<F, 8>(o, 70);
    // the published BN254 function: default and explicit capacities
    let top = if deep { 260 } else { 40 };
    for n in 1..=top {
        let m = msg::<Fr>(r, n);
        fr_msg(o, &m, None);
        if n < 20 || deep {
            let c = edge_caps();
            let c = c[r.below(c.len())];
            fr_msg(o, &m, Some(c));
            let out = guarded(|| <Fr as MessageHashable>::msg_hasher().hash_with_cap(&m, c));
            o.ev(&format!("{{\"k\":\"var\",\"pr\":1001,\"msg\":{},\"cap\":{},{}}}", ja(&m), jcap(c), res(&out)));
        }
    }
    let mut long = vec![63usize, 64, 65, 96, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 383, 384, 385, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025];
    if deep {
        long.extend([1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192, 10_000, 16_385]);
    }
    for n in long {
        let m = msg::<Fr>(r, n);
        if n % 3 == 0 {
            let c = edge_caps();
            fr_msg(o, &m, Some(c[r.below(c.len())]));
        } else {
            fr_msg(o, &m, None);
        }
    }
    for (i, c) in edge_caps().into_iter().enumerate() {
        let n = 1 + r.below(3);
        let m = if i % 3 == 0 { steer::<Fr, HashSpec<Fr>, 3, 2>(r, 1, Fr::from_u128(c), n + 2) } else { msg::<Fr>(r, n) };
        fr_msg(o, &m, Some(c));
    }
}

/// C06: families of related calls; only the equality pattern of the digests matters
pub fn separate(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC06);
    // digest -> number, in order of first appearance
    let mut seen: Vec<Fr> = vec![];
    let mut id = |x: &Option<Fr>| -> usize {
        match x {
            None => 0,
            Some(x) => match seen.iter().position(|y| y == x) {
                Some(i) => i + 1,
                None => {
                    seen.push(*x);
                    seen.len()
                }
            },
        }
    };
    let alphabet: [Fr; 3] = [Fr::ZERO, Fr::ONE, Fr::from_str_vartime("18446744073709551616").unwrap()];
    let mut var = |o: &mut Out, m: &[Fr], cap: Option<u128>| {
        let x = guarded(|| <Fr as MessageHashable>::hash_msg(m, cap));
        // the default capacity is the specification's business
        let c = cap.map(jcap).unwrap_or_else(|| "[]".into());
        o.ev(&format!("{{\"k\":\"svar\",\"legacy\":{},\"msg\":{},\"cap\":{c},\"d\":{}}}", cfg!(feature = "legacy"), ja(m), id(&x)));
    };
    let caps: Vec<Option<u128>> = vec![None, Some(0), Some(1), Some(2), Some(1 << 64), Some(2 << 64), Some(3 << 64), Some(4 << 64), Some(1 << 127)];
    let maxlen = if deep { 5 } else { 4 };
    for n in 1..=maxlen {
        for code in 0..3usize.pow(n) {
            let m: Vec<Fr> = (0..n).map(|i| alphabet[code / 3usize.pow(i) % 3]).collect();
            for c in &caps {
                var(o, &m, *c);
            }
        }
    }
    // zero messages of growing length; every cap bit; every word bit
    for n in 1..=80 {
        var(o, &vec![Fr::ZERO; n], None);
        var(o, &vec![Fr::ZERO; n], Some(7));
    }
    for b in 0..128 {
        var(o, &[Fr::from(3), Fr::from(4)], Some(1 << b));
        var(o, &[Fr::from(3), Fr::from(4)], Some(u128::MAX ^ (1 << b)));
    }
    for b in 0..254u64 {
        let x = Fr::from(2).pow_vartime([b]);
        var(o, &[x, Fr::from(4)], Some(5));
        var(o, &[Fr::from(4), x], Some(5));
        var(o, &[Fr::from(4), Fr::from(4), x], None);
    }
    // one changed, swapped, dropped or appended word in a long message
    let base: Vec<Fr> = (0..33).map(|_| Fr::rnd(r)).collect();
    var(o, &base, None);
    for i in 0..33 {
        let mut m = base.clone();
        m[i] += Fr::ONE;
        var(o, &m, None);
        let mut m = base.clone();
        m.swap(i, (i + 1) % 33);
        var(o, &m, None);
        let mut m = base.clone();
        m.swap(i, (i + 2) % 33);
        var(o, &m, None);
        let mut m = base.clone();
        m.remove(i);
        var(o, &m, None);
        var(o, &m, Some(33 << 64));
        let mut m = base.clone();
        m.insert(i, Fr::ZERO);
        var(o, &m, None);
        var(o, &m, Some(33 << 64));
        var(o, &base[..=i], None);
        var(o, &base[i..], None);
        var(o, &base[..=i], Some(33 << 64));
    }
    for z in 1..6 {
        let mut m = base.clone();
        m.extend(vec![Fr::ZERO; z]);
        var(o, &m, None);
        var(o, &m, Some(33 << 64));
    }
    // long messages: lengths, single words and trailing zeros around block and counter boundaries
    let long: Vec<Fr> = (0..1030).map(|i| if i % 3 == 0 { Fr::ZERO } else { Fr::from(i) }).collect();
    for n in [254usize, 255, 256, 257, 258, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026] {
        var(o, &vec![Fr::ZERO; n], None);
        var(o, &vec![Fr::ZERO; n], Some(7));
        var(o, &long[..n], None);
        var(o, &long[..n], Some(7));
        let mut m = long[..n].to_vec();
        m[n - 1] += Fr::ONE;
        var(o, &m, Some(7));
        let mut m = long[..n].to_vec();
        m[r.below(n)] += Fr::ONE;
        var(o, &m, Some(7));
        m.swap(n - 1, n - 2);
        var(o, &m, Some(7));
    }
    // two-word hashing with domains
    let mut two = |o: &mut Out, m: [Fr; 2], d: Fr| {
        let x = guarded(|| <Fr as Hashable>::hash_with_domain(m, d));
        o.ev(&format!("{{\"k\":\"siden3\",\"msg\":{},\"dom\":{},\"d\":{}}}", ja(&m), d.j(), id(&x)));
    };
    for b in 0..254u64 {
        let x = Fr::from(2).pow_vartime([b]);
        two(o, [Fr::ONE, Fr::ONE], x);
        two(o, [x, Fr::ONE], Fr::ONE);
        two(o, [Fr::ONE, x], Fr::ONE);
    }
    for a in alphabet {
        for b in alphabet {
            for d in alphabet {
                two(o, [a, b], d);
            }
        }
    }
    for _ in 0..(if deep { 2000 } else { 100 }) {
        let (a, b, d) = (Fr::pick(r), Fr::pick(r), Fr::pick(r));
        two(o, [a, b], d);
        two(o, [b, a], d);
        two(o, [a, d], b);
    }
    let d0 = |x: Option<Fr>, o: &mut Out, m: &[Fr], id: &mut dyn FnMut(&Option<Fr>) -> usize| {
        o.ev(&format!("{{\"k\":\"splain\",\"msg\":{},\"d\":{}}}", ja(m), id(&x)));
    };
    macro_rules! pl {
        ($($L:literal),*) => {$(
            for code in 0..3usize.pow(if $L > 4 { 4 } else { $L }) {
                let m: [Fr; $L] = core::array::from_fn(|i| if i > 3 { Fr::ZERO } else { alphabet[code / 3usize.pow(i as u32) % 3] });
                let x = guarded(|| Hash::<Fr, HashSpec<Fr>, ConstantLength<$L>, 3, 2>::init().hash(m));
                d0(x, o, &m, &mut id);
            }
        )*};
    }
    pl!(1, 2, 3, 4, 5, 6);
}
