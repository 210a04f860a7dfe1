//! Permutation specs of any width: constants either drawn at random or produced by the default generation.
use halo2curves::ff::FromUniformBytes;
use poseidon_base::primitives::{CachedSpec, Mds, Spec};
use vcommon::{FJ, Rng};

/// alpha, full rounds, partial rounds, seed of the constants
#[derive(Clone, Copy, Debug)]
pub struct GS<const A: u64, const RF: usize, const RP: usize, const SD: u64>;

type Par<F, const T: usize> = (Vec<[F; T]>, Mds<F, T>, Mds<F, T>);

impl<F: FJ, const T: usize, const RATE: usize, const A: u64, const RF: usize, const RP: usize, const SD: u64> Spec<F, T, RATE>
    for GS<A, RF, RP, SD>
{
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v.pow_vartime([A])
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> Par<F, T> {
        let mut r = Rng(SD.wrapping_mul(7919) + T as u64);
        if SD >= 100 {
            let (a, b) = STRUCT[(SD - 100) as usize % STRUCT.len()];
            let (rc, m) = structured::<F, T>(RF, RP, a, b, &mut r);
            return (rc, m, [[F::ZERO; T]; T]);
        }
        let rc = (0..RF + RP).map(|_| core::array::from_fn(|_| F::pick(&mut r))).collect();
        let m = core::array::from_fn(|_| core::array::from_fn(|_| F::rnd(&mut r)));
        (rc, m, [[F::ZERO; T]; T])
    }
}
fn cache<F: FJ, const T: usize, const A: u64, const RF: usize, const RP: usize, const SD: u64>() -> &'static Par<F, T> {
    vcommon::toy::cached::<(F, [u8; T], GS<A, RF, RP, SD>), _>(|| <GS<A, RF, RP, SD> as Spec<F, T, 1>>::constants())
}
impl<F: FJ, const T: usize, const RATE: usize, const A: u64, const RF: usize, const RP: usize, const SD: u64>
    CachedSpec<F, T, RATE> for GS<A, RF, RP, SD>
{
    fn cached_round_constants() -> &'static [[F; T]] {
        &cache::<F, T, A, RF, RP, SD>().0
    }
    fn cached_mds() -> &'static Mds<F, T> {
        &cache::<F, T, A, RF, RP, SD>().1
    }
    fn cached_mds_inv() -> &'static Mds<F, T> {
        &cache::<F, T, A, RF, RP, SD>().2
    }
}

/// default generation: full rounds, partial rounds, skipped matrices
#[derive(Clone, Copy, Debug)]
pub struct Gen<const RF: usize, const RP: usize, const SKIP: usize>;
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SKIP: usize>
    Spec<F, T, RATE> for Gen<RF, RP, SKIP>
{
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v.pow_vartime([5])
    }
    fn secure_mds() -> usize {
        SKIP
    }
}

/// combinations of constant and matrix structures that get a spec type of their own (seeds from 100)
pub const STRUCT: [(usize, usize); 6] = [(2, 12), (4, 1), (3, 6), (9, 3), (1, 0), (6, 11)];
pub const RC_KINDS: usize = 13;
pub const M_KINDS: usize = 15;
/// parameter sets with structure: zero words, equal rounds, sparse, triangular, symmetric, singular matrices...
pub fn structured<F: FJ, const T: usize>(rf: usize, rp: usize, rck: usize, mk: usize, r: &mut Rng) -> (Vec<[F; T]>, Mds<F, T>) {
    let n = rf + rp;
    let (p0, p1) = (rf / 2, rf / 2 + rp);
    let mut rc: Vec<[F; T]> = (0..n).map(|_| core::array::from_fn(|_| F::rnd(r))).collect();
    let same = rc.first().copied();
    for (i, row) in rc.iter_mut().enumerate() {
        let part = p0 <= i && i < p1;
        for (j, x) in row.iter_mut().enumerate() {
            let zero = match rck {
                0 => false,
                1 => true,
                2 => i == p0 && j > 0,
                3 => part && j > 0,
                4 => part && i + 1 < p1 && j > 0,
                5 => j == 0,
                6 => {
                    *x = same.unwrap()[j];
                    false
                }
                7 => i + 1 < n,
                8 => j + 1 < T,
                9 => r.below(2) == 0,
                10 => i % 2 == 1,
                11 => !part && j > 0,
                12 => i == p1 && j > 0,
                _ => false,
            };
            if zero {
                *x = F::ZERO;
            }
        }
    }
    let mut m: Mds<F, T> = core::array::from_fn(|_| core::array::from_fn(|_| F::rnd(r)));
    let (a, b) = (r.below(T), r.below(T));
    let row0 = m[0];
    for i in 0..T {
        for j in 0..T {
            let zero = match mk {
                1 => {
                    m[i][j] = F::ONE;
                    i != j
                }
                2 => i != j,
                3 => {
                    m[i][j] = F::ONE;
                    j != (i + 1) % T
                }
                4 => j < i,
                5 => j > i,
                6 => r.below(2) == 0,
                7 => i == a,
                8 => j == a,
                9 => {
                    m[i][j] = m[i.min(j)][i.max(j)];
                    false
                }
                10 => {
                    m[i][j] = row0[(j + T - i) % T];
                    false
                }
                11 => {
                    m[i][j] = if r.below(2) == 0 { F::ONE } else { -F::ONE };
                    false
                }
                12 => i == a && j == b,
                13 => {
                    if i == 0 {
                        m[i][j] = F::ONE;
                    }
                    i == 0 && j > 0
                }
                14 => true,
                _ => false,
            };
            if zero {
                m[i][j] = F::ZERO;
            }
        }
    }
    (rc, m)
}
