//! Parameter sets for the gadgets, and the parameter record of a field's own permutation.
use halo2curves::ff::Field;
use poseidon_base::hash::Hashable;
use poseidon_base::primitives::{Mds, P128Pow5T3Constants, Spec};
use vcommon::*;

/// width-generic permutation with x^5: full rounds, partial rounds, seed
#[derive(Clone, Copy, Debug)]
pub struct TS<const RF: usize, const RP: usize, const SD: u64>;

fn inverse<F: Field, const T: usize>(m: &Mds<F, T>) -> Option<Mds<F, T>> {
    let mut a = *m;
    let mut b = [[F::ZERO; T]; T];
    for i in 0..T {
        b[i][i] = F::ONE;
    }
    for c in 0..T {
        let p = (c..T).find(|r| a[*r][c] != F::ZERO)?;
        a.swap(c, p);
        b.swap(c, p);
        let k = a[c][c].invert().unwrap();
        for j in 0..T {
            a[c][j] *= k;
            b[c][j] *= k;
        }
        for r in 0..T {
            if r != c {
                let k = a[r][c];
                for j in 0..T {
                    let (x, y) = (a[c][j], b[c][j]);
                    a[r][j] -= k * x;
                    b[r][j] -= k * y;
                }
            }
        }
    }
    Some(b)
}

impl<F: FJ, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SD: u64> Spec<F, T, RATE> for TS<RF, RP, SD> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v.pow_vartime([5])
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> (Vec<[F; T]>, Mds<F, T>, Mds<F, T>) {
        let mut r = Rng(SD.wrapping_mul(104729) + T as u64);
        let rc = (0..RF + RP).map(|_| core::array::from_fn(|_| F::rnd(&mut r))).collect();
        loop {
            let m: Mds<F, T> = core::array::from_fn(|_| {
                core::array::from_fn(|_| {
                    let x = F::rnd(&mut r);
                    if x == F::ZERO {
                        F::ONE
                    } else {
                        x
                    }
                })
            });
            if let Some(i) = inverse(&m) {
                return (rc, m, i);
            }
        }
    }
}
pub fn ts_params<F: FJ, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SD: u64>(o: &mut Out) -> usize {
    let (rc, m, _) = <TS<RF, RP, SD> as Spec<F, T, RATE>>::constants();
    o.params(pr_json::<F, T>(RATE, RF, RP, 5, &rc, &m))
}

/// fields whose hash the tables use: where their parameters come from
pub trait HF: FJ + Hashable + poseidon_base::params::CachedConstants {
    const NAME: &'static str;
    fn pr(o: &mut Out) -> usize;
}
impl HF for halo2curves::bn256::Fr {
    const NAME: &'static str = "bn254";
    fn pr(_: &mut Out) -> usize {
        1001
    }
}
impl<const P: u32, const RP: usize, const SD: u32> HF for Toy<P, RP, SD> {
    const NAME: &'static str = "toy";
    fn pr(o: &mut Out) -> usize {
        let rc = <Self as P128Pow5T3Constants>::round_constants();
        let m = <Self as P128Pow5T3Constants>::mds();
        o.params(pr_json::<Self, 3>(2, 8, RP, 5, &rc, &m))
    }
}
