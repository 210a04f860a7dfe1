//! C07 default parameter generation, C08 tables and accessors
use crate::gens::Gen;
use halo2curves::bn256::{Fq, Fr};
use poseidon_base::hash::HashSpec;
use poseidon_base::params::{self, CachedConstants};
use poseidon_base::primitives::*;
use std::sync::{Arc, Barrier};
use vcommon::*;

fn one<F: FJ, const T: usize, const RF: usize, const RP: usize, const SKIP: usize>(o: &mut Out) {
    let r = guarded(|| <Gen<RF, RP, SKIP> as Spec<F, T, 1>>::constants());
    let body = match r {
        Some((rc, m, i)) => format!("\"ok\":true,\"rc\":{},\"mds\":{},\"inv\":{}", jm(&rc), jm(&m), jm(&i)),
        None => "\"ok\":false,\"rc\":[],\"mds\":[],\"inv\":[]".into(),
    };
    o.ev(&format!("{{\"k\":\"gen\",\"f\":{},\"t\":{T},\"rf\":{RF},\"rp\":{RP},\"skip\":{SKIP},{body}}}", F::desc()));
}
macro_rules! grid {
    ($o:expr, $F:ty, [$($T:literal),*], $RR:tt) => { $( grid!(@ $o, $F, $T, $RR); )* };
    (@ $o:expr, $F:ty, $T:literal, [$(($RF:literal, $RP:literal, $SK:literal)),*]) => { $( one::<$F, $T, $RF, $RP, $SK>($o); )* };
}

pub fn gen(o: &mut Out, _seed: u64, deep: bool) {
    // big fields: 254/255 bits; heavy to recompute, so few in the quick tier
    one::<Fr, 3, 8, 57, 0>(o);
    one::<Fr, 2, 8, 6, 1>(o);
    one::<Fr, 5, 4, 2, 0>(o);
    one::<halo2curves::pasta::Fp, 3, 8, 56, 0>(o);
    one::<Fq, 3, 8, 0, 2>(o);
    one::<Fq, 4, 2, 3, 0>(o);
    one::<halo2curves::pasta::Fq, 2, 6, 1, 3>(o);
    // Vesta: no stored parameters; the generated ones must give the published vectors
    #[cfg(feature = "pallas")]
    {
        use halo2curves::ff::PrimeField;
        use halo2curves::pasta::Fq as Fv;
        use poseidon_base::primitives::pasta::test_vectors::fq;
        one::<Fv, 3, 8, 56, 0>(o);
        if let Some((rc, m, _)) = guarded(|| <Gen<8, 56, 0> as Spec<Fv, 3, 2>>::constants()) {
            let pr = o.params(pr_json::<Fv, 3>(2, 8, 56, 5, &rc, &m));
            let w = |b: [u8; 32]| Fv::from_repr(b).unwrap();
            for t in fq::permute() {
                crate::m01::perm_event(o, pr, "published vector", t.initial_state.map(w), Some(t.final_state.map(w)));
            }
            for t in fq::hash() {
                o.ev(&format!("{{\"k\":\"plain\",\"pr\":{pr},\"msg\":{},\"ok\":true,\"out\":{}}}", ja(&t.input.map(w)), w(t.output).j()));
            }
        }
    }
    if deep {
        one::<Fr, 9, 8, 63, 0>(o);
        one::<Fr, 4, 8, 56, 2>(o);
        one::<Fr, 12, 8, 22, 0>(o);
        one::<halo2curves::pasta::Fq, 5, 8, 56, 1>(o);
        one::<Fq, 6, 10, 13, 4>(o);
        one::<halo2curves::pasta::Fp, 5, 8, 60, 0>(o);
    }
    // toy fields: rejections, duplicates and skips happen all the time
    grid!(o, Toy<13, 0, 0>, [1, 2, 3], [(8, 57, 0), (2, 0, 0), (8, 5, 1), (4, 3, 2), (6, 1, 5)]);
    grid!(o, Toy<17, 0, 0>, [1, 2, 3, 4], [(8, 56, 0), (2, 1, 1), (4, 3, 2), (8, 0, 7)]);
    grid!(o, Toy<23, 0, 0>, [2, 3, 4], [(8, 57, 0), (2, 1, 1), (4, 3, 2)]);
    grid!(o, Toy<31, 0, 0>, [2, 3, 5], [(8, 57, 0), (2, 2, 1), (4, 9, 3)]);
    grid!(o, Toy<61, 0, 0>, [3, 4, 6], [(8, 57, 0), (2, 2, 1), (4, 9, 3), (8, 3, 4)]);
    grid!(o, Toy<127, 0, 0>, [2, 3, 5], [(8, 57, 0), (8, 56, 1), (6, 22, 2)]);
    grid!(o, Toy<131, 0, 0>, [2, 3, 5], [(8, 57, 0), (8, 56, 1), (6, 22, 2)]);
    grid!(o, Toy<251, 0, 0>, [3, 5, 8], [(8, 57, 0), (8, 60, 1)]);
    grid!(o, Toy<257, 0, 0>, [3, 5, 8], [(8, 57, 0), (8, 60, 1)]);
    grid!(o, Toy<32749, 0, 0>, [3, 9], [(8, 57, 0), (8, 120, 1)]);
    grid!(o, Toy<32771, 0, 0>, [3, 9, 12], [(8, 57, 0), (8, 22, 1)]);
    grid!(o, Toy<46337, 0, 0>, [3, 5], [(8, 57, 0), (10, 56, 1), (8, 300, 0), (30, 513, 0)]);
    grid!(o, Toy<46337, 0, 0>, [2], [(8, 1023, 0), (600, 5, 0), (8, 255, 0), (8, 256, 0), (8, 257, 3), (256, 1, 0), (8, 3, 20), (2, 0, 255), (2, 0, 256), (2, 1, 300)]);
    grid!(o, Toy<46337, 0, 0>, [1, 4, 6, 7, 10, 11, 15, 16, 17, 24, 31, 32, 33], [(8, 10, 0), (2, 3, 3)]);
    grid!(o, Toy<127, 0, 0>, [4, 6, 9, 12], [(8, 11, 0), (2, 3, 9)]);
    grid!(o, Toy<11, 0, 0>, [1, 2, 3, 4], [(2, 3, 0), (4, 4, 5)]);
    grid!(o, Toy<7, 0, 0>, [1, 2], [(2, 3, 0), (8, 57, 4)]);
    grid!(o, Toy<46309, 0, 0>, [3, 8], [(8, 57, 0), (8, 57, 10)]);
}

#[derive(Clone, Copy)]
enum V {
    M(usize),
}
type View = (&'static str, &'static str, Box<dyn Fn() -> (String, String, String) + Send + Sync>);

fn views() -> Vec<View> {
    let mut v: Vec<View> = vec![];
    macro_rules! view {
        ($n:literal, $form:literal, $e:expr) => {
            v.push(($n, $form, Box::new($e)));
        };
    }
    let none = || "[]".to_string();
    view!("bn256::fp", "raw", || (jm(&*bn256::fp::ROUND_CONSTANTS as &[[Fr; 3]]), jm(&*bn256::fp::MDS as &[[Fr; 3]]), jm(&*bn256::fp::MDS_INV as &[[Fr; 3]])));
    view!("Fr as P128Pow5T3Constants", "raw", || (
        jm(&<Fr as P128Pow5T3Constants>::round_constants()),
        jm(&<Fr as P128Pow5T3Constants>::mds()),
        jm(&<Fr as P128Pow5T3Constants>::mds_inv())
    ));
    view!("P128Pow5T3<Fr>::constants", "raw", || {
        let (a, b, c) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
        (jm(&a), jm(&b), jm(&c))
    });
    view!("P128Pow5T3Compact<Fr>::constants", "compact", || {
        let (a, b, c) = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
        (jm(&a), jm(&b), jm(&c))
    });
    view!("Fr as CachedConstants", "compact", || (
        jm(<Fr as CachedConstants>::cached_round_constants()),
        jm(<Fr as CachedConstants>::cached_mds()),
        jm(<Fr as CachedConstants>::cached_mds_inv())
    ));
    // in the long form the cached set may be either form: both define the published permutation
    view!("HashSpec<Fr> as CachedSpec", "either", || (
        jm(<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_round_constants()),
        jm(<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds()),
        jm(<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds_inv())
    ));
    view!("params::round_constant, mds", "compact", move || (
        jm(&(0..65).map(params::round_constant::<Fr>).collect::<Vec<_>>()),
        jm(params::mds::<Fr>()),
        none()
    ));
    #[cfg(feature = "pallas")]
    {
        use halo2curves::pasta::Fp;
        macro_rules! pview {
            ($n:literal, $form:literal, $e:expr) => {
                v.push((concat!("pallas ", $n), $form, Box::new($e)));
            };
        }
        pview!("pasta::fp", "raw", || (jm(&pasta::fp::ROUND_CONSTANTS), jm(&pasta::fp::MDS), jm(&pasta::fp::MDS_INV)));
        pview!("P128Pow5T3Constants", "raw", || (
            jm(&<Fp as P128Pow5T3Constants>::round_constants()),
            jm(&<Fp as P128Pow5T3Constants>::mds()),
            jm(&<Fp as P128Pow5T3Constants>::mds_inv())
        ));
        pview!("Compact::constants", "compact", || {
            let (a, b, c) = <P128Pow5T3Compact<Fp> as Spec<Fp, 3, 2>>::constants();
            (jm(&a), jm(&b), jm(&c))
        });
        pview!("HashSpec as CachedSpec", "either", || (
            jm(<HashSpec<Fp> as CachedSpec<Fp, 3, 2>>::cached_round_constants()),
            jm(<HashSpec<Fp> as CachedSpec<Fp, 3, 2>>::cached_mds()),
            jm(<HashSpec<Fp> as CachedSpec<Fp, 3, 2>>::cached_mds_inv())
        ));
    }
    v
}

pub fn tables(o: &mut Out, seed: u64) {
    o.ev(&format!(
        "{{\"k\":\"rounds\",\"pr\":1001,\"rf\":[{},{}],\"rp\":[{},{},{}]}}",
        <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::full_rounds(),
        <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::full_rounds(),
        <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::partial_rounds(),
        <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::partial_rounds(),
        <Fr as P128Pow5T3Constants>::partial_rounds()
    ));
    #[cfg(feature = "pallas")]
    {
        use halo2curves::pasta::Fp;
        o.ev(&format!(
            "{{\"k\":\"rounds\",\"pr\":1002,\"rf\":[{},{}],\"rp\":[{},{},{}]}}",
            <P128Pow5T3<Fp> as Spec<Fp, 3, 2>>::full_rounds(),
            <P128Pow5T3Compact<Fp> as Spec<Fp, 3, 2>>::full_rounds(),
            <P128Pow5T3<Fp> as Spec<Fp, 3, 2>>::partial_rounds(),
            <P128Pow5T3Compact<Fp> as Spec<Fp, 3, 2>>::partial_rounds(),
            <Fp as P128Pow5T3Constants>::partial_rounds()
        ));
    }
    let views = Arc::new(views());
    let n = views.len();
    let threads = 16;
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (views, bar) = (views.clone(), bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                (0..n)
                    .map(|i| {
                        // each thread visits the views in its own order
                        let V::M(k) = V::M((seed as usize + t * 3 + i * if t % 2 == 0 { 1 } else { n - 1 }) % n);
                        (k, guarded(|| views[k].2()))
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    // identical observations are logged once, with their number
    let mut seen: Vec<(usize, Option<(String, String, String)>, usize)> = vec![];
    for h in hs {
        for (k, r) in h.join().unwrap() {
            match seen.iter_mut().find(|x| x.0 == k && x.1 == r) {
                Some(x) => x.2 += 1,
                None => seen.push((k, r, 1)),
            }
        }
    }
    for (k, r, times) in seen {
        let pr = if views[k].0.starts_with("pallas") { 1002 } else { 1001 };
        let body = match r {
            Some((a, b, c)) => format!("\"ok\":true,\"rc\":{a},\"mds\":{b},\"inv\":{c}"),
            None => "\"ok\":false,\"rc\":[],\"mds\":[],\"inv\":[]".into(),
        };
        o.ev(&format!(
            "{{\"k\":\"table\",\"pr\":{pr},\"view\":\"{}\",\"form\":\"{}\",\"times\":{times},{body}}}",
            views[k].0, views[k].1
        ));
    }
}

/// rows per hash that this build advertises
pub fn advert(o: &mut Out) {
    use poseidon_base::hash::Hashable;
    fn one<F: Hashable>(o: &mut Out, field: &str, p: u64) {
        let b = guarded(F::hash_block_size);
        o.ev(&format!(
            "{{\"k\":\"advert\",\"short\":{},\"field\":\"{field}\",\"p\":{p},\"rp\":{},\"ok\":{},\"block\":{}}}",
            cfg!(feature = "short"),
            <F::SpecType as Spec<F, 3, 2>>::partial_rounds(),
            b.is_some(),
            b.unwrap_or(0)
        ));
    }
    one::<Fr>(o, "bn254", 0);
    macro_rules! toys {
        ($($rp:literal)*) => { $(one::<Toy<31, $rp, 0>>(o, "toy", 31);)* };
    }
    toys!(0 1 2 3 4 5 8 21 56 57);
}
