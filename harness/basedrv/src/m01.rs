//! C01 permutations, C02 optimised constants
use crate::gens::{structured, GS, M_KINDS, RC_KINDS};
use halo2curves::bn256::{Fq, Fr};
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::*;
use vcommon::*;

pub fn perm_event<F: FJ, const T: usize>(o: &mut Out, pr: usize, via: &str, st: [F; T], r: Option<[F; T]>) {
    let (ok, out) = match &r {
        Some(x) => (true, ja(x)),
        None => (false, "[]".into()),
    };
    o.ev(&format!("{{\"k\":\"permute\",\"pr\":{pr},\"via\":\"{via}\",\"in\":{},\"ok\":{ok},\"out\":{out}}}", ja(&st)));
}

fn states<F: FJ, const T: usize>(r: &mut Rng, n: usize) -> Vec<[F; T]> {
    let e = F::edges();
    let mut v: Vec<[F; T]> = vec![[F::ZERO; T], [F::ONE; T], [-F::ONE; T]];
    // every edge value at every position
    for i in 0..T {
        for x in &e {
            let mut s = [F::ZERO; T];
            s[i] = *x;
            v.push(s);
        }
    }
    let keep = n / 3;
    while v.len() > keep.max(3) {
        let k = r.below(v.len());
        v.swap_remove(k);
    }
    while v.len() < n {
        let mut s: [F; T] = core::array::from_fn(|_| F::pick(r));
        if r.below(4) == 0 {
            s[r.below(T)] = s[r.below(T)];
        }
        v.push(s);
    }
    v
}
/// all states of a tiny field
fn all<F: FJ, const T: usize>(p: u64) -> Vec<[F; T]> {
    (0..p.pow(T as u32))
        .map(|mut n| {
            core::array::from_fn(|_| {
                let d = n % p;
                n /= p;
                F::from(d)
            })
        })
        .collect()
}

fn generic<F: FJ, const T: usize, const RATE: usize, const A: u64, const RF: usize, const RP: usize, const SD: u64>(
    o: &mut Out,
    sts: Vec<[F; T]>,
) {
    type S<const A: u64, const RF: usize, const RP: usize, const SD: u64> = GS<A, RF, RP, SD>;
    let (rc, mds, _) = <S<A, RF, RP, SD> as Spec<F, T, RATE>>::constants();
    let pr = o.params(pr_json::<F, T>(RATE, RF, RP, A, &rc, &mds));
    for (i, st) in sts.into_iter().enumerate() {
        if i % 3 == 2 {
            let h = guarded(Hash::<F, S<A, RF, RP, SD>, ConstantLength<2>, T, RATE>::init);
            let r = h.and_then(|h| {
                guarded(|| {
                    let mut s = st;
                    h.permute(&mut s);
                    s
                })
            });
            perm_event(o, pr, "hasher", st, r);
        } else {
            let r = guarded(|| {
                let mut s = st;
                permute::<F, S<A, RF, RP, SD>, T, RATE>(&mut s, &mds, &rc);
                s
            });
            perm_event(o, pr, "free", st, r);
        }
    }
}

/// explicit parameter sets with structure, handed to the permutation
fn shapes<F: FJ, const T: usize, const RATE: usize, const A: u64, const RF: usize, const RP: usize>(o: &mut Out, r: &mut Rng, one_in: usize) {
    for rck in 0..RC_KINDS {
        for mk in 0..M_KINDS {
            if r.below(one_in) > 0 {
                continue;
            }
            let (rc, mds) = structured::<F, T>(RF, RP, rck, mk, r);
            let pr = o.params(pr_json::<F, T>(RATE, RF, RP, A, &rc, &mds));
            for k in 0..2 {
                let mut st: [F; T] = core::array::from_fn(|_| F::rnd(r));
                if k == 1 && RF > 0 {
                    // S-box inputs 0, 1 and -1 in the first round
                    let e = [F::ZERO, F::ONE, -F::ONE];
                    st = core::array::from_fn(|i| e[r.below(3)] - rc[0][i]);
                }
                let out = guarded(|| {
                    let mut s = st;
                    permute::<F, GS<A, RF, RP, 0>, T, RATE>(&mut s, &mds, &rc);
                    s
                });
                perm_event(o, pr, "free", st, out);
            }
        }
    }
}

/// 1/5 modulo p - 1
trait Fifth: FJ + P128Pow5T3Constants {
    const E: [u64; 4];
}
impl Fifth for Fr {
    const E: [u64; 4] = [0xcfe7f7a98ccccccd, 0x535cb9d394945a0d, 0x93736af8679aad17, 0x26b6a528b427b354];
}
#[cfg(feature = "pallas")]
impl Fifth for halo2curves::pasta::Fp {
    const E: [u64; 4] = [0xe0f0f3f0cccccccd, 0x4e9ee0c9a10a60e2, 0x3333333333333333, 0x3333333333333333];
}
/// a starting state from which round `round` sees `v` at the S-box of word `w`
fn directed<F: Fifth>(round: usize, w: usize, v: F, r: &mut Rng) -> [F; 3] {
    let rc = F::round_constants();
    let inv = F::mds_inv();
    let part = 4..4 + F::partial_rounds();
    let mut s: [F; 3] = core::array::from_fn(|_| F::rnd(r));
    s[w] = v - rc[round][w];
    for i in (0..round).rev() {
        let mut t: [F; 3] = core::array::from_fn(|a| inv[a][0] * s[0] + inv[a][1] * s[1] + inv[a][2] * s[2]);
        for j in 0..3 {
            if j == 0 || !part.contains(&i) {
                t[j] = t[j].pow_vartime(F::E);
            }
            t[j] -= rc[i][j];
        }
        s = t;
    }
    s
}
fn directed_all<F: Fifth>(r: &mut Rng) -> Vec<[F; 3]> {
    let n = 8 + F::partial_rounds();
    let e = F::edges();
    let mut v = vec![];
    for i in 0..n {
        for w in 0..3 {
            if w == 0 || i < 4 || i + 4 >= n {
                let vals = [F::ZERO, F::ONE, -F::ONE, e[r.below(e.len())]];
                for x in vals {
                    v.push(directed(i, w, x, r));
                }
            }
        }
    }
    // all words at once in the first round
    for a in 0..3 {
        for x in [F::ZERO, F::ONE, -F::ONE] {
            let mut s = directed(0, a, x, r);
            for b in 0..3 {
                s[b] = x - F::round_constants()[0][b];
            }
            v.push(s);
        }
    }
    v
}

fn shipped<F: FJ, S: CachedSpec<F, 3, 2>>(o: &mut Out, name: &str, pr: usize, sts: Vec<[F; 3]>) {
    let (rc, mds, _) = S::constants();
    for (i, st) in sts.into_iter().enumerate() {
        match i % 3 {
            0 => {
                let r = guarded(|| {
                    let mut s = st;
                    permute::<F, S, 3, 2>(&mut s, &mds, &rc);
                    s
                });
                perm_event(o, pr, &format!("{name}-free"), st, r)
            }
            1 => {
                let r = guarded(|| {
                    let mut s = st;
                    Hash::<F, S, ConstantLengthIden3<2>, 3, 2>::init().permute(&mut s);
                    s
                });
                perm_event(o, pr, &format!("{name}-hasher"), st, r)
            }
            _ => {
                let r = guarded(|| {
                    let mut s = st;
                    permute::<F, S, 3, 2>(&mut s, S::cached_mds(), S::cached_round_constants());
                    s
                });
                perm_event(o, pr, &format!("{name}-cached"), st, r)
            }
        }
    }
}

macro_rules! toypair {
    ($o:expr, $p:literal, $rp:literal, $sd:literal, $sts:expr) => {{
        type F = Toy<$p, $rp, $sd>;
        let rc = <F as P128Pow5T3Constants>::round_constants();
        let mds = <F as P128Pow5T3Constants>::mds();
        let pr = $o.params(pr_json::<F, 3>(2, 8, $rp, 5, &rc, &mds));
        let s: Vec<[F; 3]> = $sts;
        shipped::<F, P128Pow5T3<F>>($o, "raw", pr, s.clone());
        shipped::<F, P128Pow5T3Compact<F>>($o, "compact", pr, s);
    }};
}

pub fn permutes(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC01);
    // exhaustive: every state of the field
    generic::<Toy<7, 0, 0>, 3, 2, 5, 8, 57, 1>(o, all(7));
    generic::<Toy<7, 0, 0>, 3, 2, 5, 8, 0, 2>(o, all(7));
    generic::<Toy<7, 0, 0>, 3, 1, 5, 2, 1, 3>(o, all(7));
    generic::<Toy<5, 0, 0>, 3, 2, 3, 4, 3, 4>(o, all(5));
    generic::<Toy<5, 0, 0>, 4, 3, 7, 6, 5, 5>(o, all(5));
    generic::<Toy<3, 0, 0>, 5, 4, 5, 8, 2, 6>(o, all(3));
    generic::<Toy<13, 0, 0>, 2, 1, 5, 8, 4, 7>(o, all(13));
    toypair!(o, 7, 57, 0, all(7));
    toypair!(o, 5, 56, 1, all(5));
    toypair!(o, 3, 4, 2, all(3));
    // sampled: larger fields and widths
    let k = if deep { 1200 } else { 60 };
    generic::<Toy<46337, 0, 0>, 3, 2, 5, 8, 57, 11>(o, states(r, k * 2));
    generic::<Toy<46337, 0, 0>, 2, 1, 5, 8, 56, 12>(o, states(r, k));
    generic::<Toy<46337, 0, 0>, 5, 4, 5, 8, 60, 13>(o, states(r, k));
    generic::<Toy<46337, 0, 0>, 9, 8, 5, 8, 63, 14>(o, states(r, k));
    generic::<Toy<32771, 0, 0>, 12, 8, 7, 8, 22, 15>(o, states(r, k));
    generic::<Toy<257, 0, 0>, 4, 2, 3, 6, 41, 16>(o, states(r, k));
    generic::<Toy<251, 0, 0>, 6, 5, 5, 10, 7, 17>(o, states(r, k));
    generic::<Toy<46337, 0, 0>, 3, 2, 11, 2, 0, 18>(o, states(r, k));
    generic::<Toy<46337, 0, 0>, 1, 1, 5, 8, 9, 19>(o, states(r, k));
    generic::<Fr, 3, 2, 5, 8, 57, 21>(o, states(r, k * 2));
    generic::<Fr, 5, 4, 5, 8, 60, 22>(o, states(r, k / 2));
    generic::<Fr, 2, 1, 17, 6, 3, 23>(o, states(r, k));
    generic::<Fq, 3, 2, 5, 8, 57, 24>(o, states(r, k));
    generic::<halo2curves::pasta::Fq, 4, 3, 5, 8, 56, 25>(o, states(r, k));
    toypair!(o, 46337, 57, 3, states(r, k));
    toypair!(o, 10007, 56, 4, states(r, k));
    // parameter sets with structure
    shapes::<Toy<46337, 0, 0>, 3, 2, 5, 8, 5>(o, r, 1);
    shapes::<Toy<251, 0, 0>, 3, 2, 5, 4, 2>(o, r, 3);
    shapes::<Toy<46337, 0, 0>, 2, 1, 5, 4, 3>(o, r, 3);
    shapes::<Toy<46337, 0, 0>, 5, 4, 5, 4, 3>(o, r, 3);
    shapes::<Toy<46337, 0, 0>, 4, 2, 7, 6, 1>(o, r, 5);
    shapes::<Fr, 3, 2, 5, 8, 7>(o, r, 12);
    generic::<Toy<46337, 0, 0>, 3, 2, 5, 8, 5, 100>(o, states(r, 12));
    generic::<Toy<46337, 0, 0>, 3, 2, 5, 8, 5, 101>(o, states(r, 12));
    generic::<Toy<46337, 0, 0>, 3, 2, 5, 8, 5, 102>(o, states(r, 12));
    generic::<Toy<46337, 0, 0>, 3, 2, 5, 8, 5, 103>(o, states(r, 12));
    generic::<Toy<46337, 0, 0>, 3, 2, 5, 8, 5, 104>(o, states(r, 12));
    generic::<Toy<46337, 0, 0>, 3, 2, 5, 8, 5, 105>(o, states(r, 12));
    toypair!(o, 251, 8, 100, states(r, 15));
    toypair!(o, 46337, 5, 102, states(r, 15));
    toypair!(o, 46337, 5, 104, states(r, 15));
    // every S-box of the published permutations at special inputs
    shipped::<Fr, HashSpec<Fr>>(o, "bn254", 1001, directed_all::<Fr>(r));
    let (rc, mds, _) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
    for st in directed_all::<Fr>(r) {
        if deep || r.below(3) == 0 {
            let out = guarded(|| {
                let mut s = st;
                permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&mut s, &mds, &rc);
                s
            });
            perm_event(o, 1001, "bn254-raw", st, out);
        }
    }
    #[cfg(feature = "pallas")]
    {
        use halo2curves::pasta::Fp;
        let v = directed_all::<Fp>(r);
        shipped::<Fp, HashSpec<Fp>>(o, "pallas", 1002, v.into_iter().filter(|_| deep || r.below(3) == 0).collect());
    }
    // the published parameter sets; their expected constants come from the specification (see bn254 / pallas)
    shipped::<Fr, HashSpec<Fr>>(o, "bn254", 1001, states(r, k * 6));
    #[cfg(feature = "pallas")]
    {
        use halo2curves::pasta::Fp;
        shipped::<Fp, HashSpec<Fp>>(o, "pallas", 1002, states(r, k * 4));
        // the published vectors of this instance (stored, not computed): they bind the specification itself
        use halo2curves::ff::PrimeField;
        for t in pasta::test_vectors::fp::permute() {
            let w = |x: [[u8; 32]; 3]| x.map(|b| Fp::from_repr(b).unwrap());
            perm_event(o, 1002, "published vector", w(t.initial_state), Some(w(t.final_state)));
        }
    }
}

fn compact_event<F: FJ + P128Pow5T3Constants>(o: &mut Out, pr: usize) {
    let inv0 = F::mds_inv();
    let r = guarded(|| <P128Pow5T3Compact<F> as Spec<F, 3, 2>>::constants());
    let raw = guarded(|| <P128Pow5T3<F> as Spec<F, 3, 2>>::constants());
    let show = |r: &Option<(Vec<[F; 3]>, Mds<F, 3>, Mds<F, 3>)>| match r {
        Some((rc, m, i)) => format!("\"ok\":true,\"rc\":{},\"mds\":{},\"inv\":{}", jm(rc), jm(m), jm(i)),
        None => "\"ok\":false,\"rc\":[],\"mds\":[],\"inv\":[]".into(),
    };
    o.ev(&format!("{{\"k\":\"compact\",\"pr\":{pr},\"inv0\":{},\"rf\":{},\"rp\":{},{}}}", jm(&inv0),
        <P128Pow5T3Compact<F> as Spec<F, 3, 2>>::full_rounds(), <P128Pow5T3Compact<F> as Spec<F, 3, 2>>::partial_rounds(), show(&r)));
    o.ev(&format!("{{\"k\":\"rawset\",\"pr\":{pr},\"inv0\":{},\"rf\":{},\"rp\":{},{}}}", jm(&inv0),
        <P128Pow5T3<F> as Spec<F, 3, 2>>::full_rounds(), <P128Pow5T3<F> as Spec<F, 3, 2>>::partial_rounds(), show(&raw)));
}
fn both<F: FJ + P128Pow5T3Constants>(o: &mut Out, pr: usize, sts: Vec<[F; 3]>) {
    compact_event::<F>(o, pr);
    let (rc1, mds1, _) = match guarded(|| <P128Pow5T3Compact<F> as Spec<F, 3, 2>>::constants()) {
        Some(x) => x,
        None => return,
    };
    let (rc0, mds0, _) = <P128Pow5T3<F> as Spec<F, 3, 2>>::constants();
    for st in sts {
        let a = guarded(|| {
            let mut s = st;
            permute::<F, P128Pow5T3<F>, 3, 2>(&mut s, &mds0, &rc0);
            s
        });
        let b = guarded(|| {
            let mut s = st;
            permute::<F, P128Pow5T3Compact<F>, 3, 2>(&mut s, &mds1, &rc1);
            s
        });
        let ok = a.is_some() && b.is_some();
        let z = [F::ZERO; 3];
        o.ev(&format!(
            "{{\"k\":\"both\",\"pr\":{pr},\"in\":{},\"ok\":{ok},\"raw\":{},\"out\":{}}}",
            ja(&st),
            ja(&a.unwrap_or(z)),
            ja(&b.unwrap_or(z))
        ));
    }
}
macro_rules! toyboth {
    ($o:expr, $p:literal, [$($rp:literal),*], $sd:literal, $sts:expr) => {$({
        type F = Toy<$p, $rp, $sd>;
        let rc = <F as P128Pow5T3Constants>::round_constants();
        let mds = <F as P128Pow5T3Constants>::mds();
        let pr = $o.params(pr_json::<F, 3>(2, 8, $rp, 5, &rc, &mds));
        both::<F>($o, pr, $sts);
    })*};
}

pub fn compacts(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC02);
    toyboth!(o, 7, [0, 1, 2, 3, 4, 7, 56, 57], 0, all(7));
    toyboth!(o, 5, [0, 1, 2, 5, 60], 1, all(5));
    toyboth!(o, 3, [0, 1, 2, 3, 13], 2, all(3));
    let k = if deep { 400 } else { 25 };
    toyboth!(o, 46337, [0, 1, 2, 3, 8, 22, 56, 57, 60, 100], 3, states(r, k));
    toyboth!(o, 251, [0, 1, 2, 3, 22, 57], 4, states(r, k));
    toyboth!(o, 32771, [1, 56, 57], 5, states(r, k));
    toyboth!(o, 251, [0, 1, 2, 7], 100, states(r, k));
    toyboth!(o, 251, [0, 1, 5], 101, states(r, k));
    toyboth!(o, 46337, [1, 2, 8, 57], 102, states(r, k));
    toyboth!(o, 46337, [2, 5], 103, states(r, k));
    toyboth!(o, 46337, [2, 8], 104, states(r, k));
    toyboth!(o, 46337, [2, 8], 105, states(r, k));
    let v = directed_all::<Fr>(r);
    both::<Fr>(o, 1001, v.into_iter().filter(|_| deep || r.below(4) == 0).collect());
    both::<Fr>(o, 1001, states(r, k * 6));
    #[cfg(feature = "pallas")]
    both::<halo2curves::pasta::Fp>(o, 1002, states(r, k * 4));
}
