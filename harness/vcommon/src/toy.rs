//! Prime fields small enough for TLC's integers and for exhaustive enumeration.
//! `Toy<P, RP, SD>`: modulus P (odd prime < 46341), RP partial rounds, SD selects the round constants and matrix.
use crate::Rng;
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::*;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use poseidon_base::params::CachedConstants;
use poseidon_base::primitives::{CachedSpec, Mds, P128Pow5T3, P128Pow5T3Compact, P128Pow5T3Constants, Spec};
use rand::RngCore;
use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Toy<const P: u32, const RP: usize, const SD: u32>(pub u32);

const fn powmod(b: u32, mut e: u64, p: u32) -> u32 {
    let mut r: u64 = 1 % p as u64;
    let mut b: u64 = b as u64 % p as u64;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p as u64;
        }
        b = b * b % p as u64;
        e >>= 1;
    }
    r as u32
}
const fn generator(p: u32) -> u32 {
    let mut g = 1;
    loop {
        // order of g
        let mut x = g as u64 % p as u64;
        let mut o = 1;
        while x != 1 % p as u64 {
            x = x * g as u64 % p as u64;
            o += 1;
        }
        if o == p - 1 {
            return g;
        }
        g += 1;
    }
}
const fn two_adicity(p: u32) -> u32 {
    (p - 1).trailing_zeros()
}

impl<const P: u32, const RP: usize, const SD: u32> fmt::Debug for Toy<P, RP, SD> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32, const RP: usize, const SD: u32> fmt::Display for Toy<P, RP, SD> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl<const P: u32, const RP: usize, const SD: u32> $tr for Toy<P, RP, SD> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let g: fn(u64, u64, u64) -> u64 = $e;
                Toy(g(self.0 as u64, o.0 as u64, P as u64) as u32)
            }
        }
        impl<'a, const P: u32, const RP: usize, const SD: u32> $tr<&'a Self> for Toy<P, RP, SD> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                self.$f(*o)
            }
        }
        impl<'a, 'b, const P: u32, const RP: usize, const SD: u32> $tr<&'a Toy<P, RP, SD>> for &'b Toy<P, RP, SD> {
            type Output = Toy<P, RP, SD>;
            fn $f(self, o: &'a Toy<P, RP, SD>) -> Toy<P, RP, SD> {
                (*self).$f(*o)
            }
        }
        impl<const P: u32, const RP: usize, const SD: u32> $tra for Toy<P, RP, SD> {
            fn $fa(&mut self, o: Self) {
                *self = self.$f(o);
            }
        }
        impl<'a, const P: u32, const RP: usize, const SD: u32> $tra<&'a Self> for Toy<P, RP, SD> {
            fn $fa(&mut self, o: &'a Self) {
                *self = self.$f(*o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |a, b, p| (a + b) % p);
binop!(Sub, sub, SubAssign, sub_assign, |a, b, p| (a + p - b) % p);
binop!(Mul, mul, MulAssign, mul_assign, |a, b, p| a * b % p);
impl<const P: u32, const RP: usize, const SD: u32> Neg for Toy<P, RP, SD> {
    type Output = Self;
    fn neg(self) -> Self {
        Toy((P - self.0) % P)
    }
}
impl<'a, const P: u32, const RP: usize, const SD: u32> Neg for &'a Toy<P, RP, SD> {
    type Output = Toy<P, RP, SD>;
    fn neg(self) -> Toy<P, RP, SD> {
        -*self
    }
}
impl<const P: u32, const RP: usize, const SD: u32> Sum for Toy<P, RP, SD> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Toy(0), |a, b| a + b)
    }
}
impl<'a, const P: u32, const RP: usize, const SD: u32> Sum<&'a Self> for Toy<P, RP, SD> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Toy(0), |a, b| a + b)
    }
}
impl<const P: u32, const RP: usize, const SD: u32> Product for Toy<P, RP, SD> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Toy(1 % P), |a, b| a * b)
    }
}
impl<'a, const P: u32, const RP: usize, const SD: u32> Product<&'a Self> for Toy<P, RP, SD> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Toy(1 % P), |a, b| a * b)
    }
}
impl<const P: u32, const RP: usize, const SD: u32> ConstantTimeEq for Toy<P, RP, SD> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u32, const RP: usize, const SD: u32> ConditionallySelectable for Toy<P, RP, SD> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Toy(u32::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u32, const RP: usize, const SD: u32> From<u64> for Toy<P, RP, SD> {
    fn from(v: u64) -> Self {
        Toy((v % P as u64) as u32)
    }
}
impl<const P: u32, const RP: usize, const SD: u32> From<bool> for Toy<P, RP, SD> {
    fn from(v: bool) -> Self {
        Toy(v as u32)
    }
}
impl<const P: u32, const RP: usize, const SD: u32> Field for Toy<P, RP, SD> {
    const ZERO: Self = Toy(0);
    const ONE: Self = Toy(1);
    fn random(mut rng: impl RngCore) -> Self {
        Toy((rng.next_u64() % P as u64) as u32)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Toy(powmod(self.0, P as u64 - 2, P)), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        let t = *num * Toy(powmod(div.0, P as u64 - 2, P));
        for i in 0..P {
            if Self(i) * Self(i) == t {
                return (Choice::from((div.0 != 0 || num.0 == 0) as u8), Toy(i));
            }
        }
        (Choice::from(0), Toy(0))
    }
}
impl<const P: u32, const RP: usize, const SD: u32> PrimeField for Toy<P, RP, SD> {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r);
        CtOption::new(Toy((v % P as u64) as u32), Choice::from((v < P as u64) as u8))
    }
    fn to_repr(&self) -> [u8; 8] {
        (self.0 as u64).to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "toy";
    const NUM_BITS: u32 = 32 - P.leading_zeros();
    const CAPACITY: u32 = 31 - P.leading_zeros();
    const TWO_INV: Self = Toy((P + 1) / 2);
    const MULTIPLICATIVE_GENERATOR: Self = Toy(generator(P));
    const S: u32 = two_adicity(P);
    const ROOT_OF_UNITY: Self = Toy(powmod(generator(P), ((P - 1) >> two_adicity(P)) as u64, P));
    const ROOT_OF_UNITY_INV: Self =
        Toy(powmod(powmod(generator(P), ((P - 1) >> two_adicity(P)) as u64, P), P as u64 - 2, P));
    const DELTA: Self = Toy(powmod(generator(P), 1 << two_adicity(P), P));
}
impl<const P: u32, const RP: usize, const SD: u32> FromUniformBytes<64> for Toy<P, RP, SD> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        let mut r: u64 = 0;
        for x in b.iter().rev() {
            r = (r * 256 + *x as u64) % P as u64;
        }
        Toy(r as u32)
    }
}

fn inverse<F: Field>(m: &[[F; 3]; 3]) -> Option<[[F; 3]; 3]> {
    let c = |a: usize, b: usize, d: usize, e: usize| m[a][b] * m[d][e] - m[a][e] * m[d][b];
    let det = m[0][0] * c(1, 1, 2, 2) - m[0][1] * c(1, 0, 2, 2) + m[0][2] * c(1, 0, 2, 1);
    let d: Option<F> = det.invert().into();
    let d = d?;
    let adj = [
        [c(1, 1, 2, 2), -c(0, 1, 2, 2), c(0, 1, 1, 2)],
        [-c(1, 0, 2, 2), c(0, 0, 2, 2), -c(0, 0, 1, 2)],
        [c(1, 0, 2, 1), -c(0, 0, 2, 1), c(0, 0, 1, 1)],
    ];
    let mut r = adj;
    for row in r.iter_mut() {
        for x in row.iter_mut() {
            *x = *x * d;
        }
    }
    Some(r)
}

impl<const P: u32, const RP: usize, const SD: u32> Toy<P, RP, SD> {
    /// zero entries of structured matrices, row-major bits
    const PATTERNS: [u32; 6] = [0b000000010, 0b000001000, 0b011101110, 0b000000110, 0b011001000, 0b100010001];
    fn rng(tag: u64) -> Rng {
        Rng(0x1234_5678 ^ ((P as u64) << 20) ^ ((RP as u64) << 40) ^ ((SD as u64) << 50) ^ tag)
    }
    fn draw(r: &mut Rng) -> Self {
        Toy((r.next() % P as u64) as u32)
    }
    /// an invertible matrix, without zero entries when the field has room for that
    fn matrix() -> ([[Self; 3]; 3], [[Self; 3]; 3]) {
        let mut r = Self::rng(77);
        loop {
            let mut m = [[Toy(0); 3]; 3];
            for row in m.iter_mut() {
                for x in row.iter_mut() {
                    *x = Self::draw(&mut r);
                    if P > 3 && x.0 == 0 {
                        x.0 = 1;
                    }
                }
            }
            if SD >= 100 {
                // structured matrices: zero entries by a pattern of the seed
                for i in 0..9 {
                    if Self::PATTERNS[(SD - 100) as usize % 6] >> i & 1 == 1 {
                        m[i / 3][i % 3] = Toy(0);
                    }
                }
            }
            if let Some(i) = inverse(&m) {
                return (m, i);
            }
        }
    }
}
impl<const P: u32, const RP: usize, const SD: u32> P128Pow5T3Constants for Toy<P, RP, SD> {
    fn partial_rounds() -> usize {
        RP
    }
    fn round_constants() -> Vec<[Self; 3]> {
        let mut r = Self::rng(5);
        if SD >= 100 {
            // structured constants: zero words
            let k = SD - 100;
            let half = 4 + RP;
            return (0..8 + RP)
                .map(|i| {
                    core::array::from_fn(|j| {
                        let x = Self::draw(&mut r);
                        let zero = match k % 6 {
                            0 => i == 4 && j > 0,
                            1 => true,
                            2 => r.below(2) == 0,
                            3 => j == 0,
                            4 => i >= 4 && i < half && j > 0,
                            _ => i + 1 < half,
                        };
                        if zero {
                            Toy(0)
                        } else {
                            x
                        }
                    })
                })
                .collect();
        }
        (0..8 + RP).map(|_| [Self::draw(&mut r), Self::draw(&mut r), Self::draw(&mut r)]).collect()
    }
    fn mds() -> Mds<Self, 3> {
        Self::matrix().0
    }
    fn mds_inv() -> Mds<Self, 3> {
        Self::matrix().1
    }
}

/// per-type leaked cache
pub fn cached<K: 'static, V: Send + Sync + 'static>(mk: impl FnOnce() -> V) -> &'static V {
    static M: OnceLock<Mutex<HashMap<(TypeId, TypeId), &'static (dyn Any + Send + Sync)>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    let key = (TypeId::of::<K>(), TypeId::of::<V>());
    if let Some(v) = m.lock().unwrap().get(&key) {
        return v.downcast_ref().unwrap();
    }
    let v: &'static V = Box::leak(Box::new(mk()));
    m.lock().unwrap().entry(key).or_insert(v).downcast_ref().unwrap()
}
type Params<F> = (Vec<[F; 3]>, [[F; 3]; 3], [[F; 3]; 3]);
fn compact<const P: u32, const RP: usize, const SD: u32>() -> &'static Params<Toy<P, RP, SD>> {
    struct K;
    cached::<(K, Toy<P, RP, SD>), _>(|| <P128Pow5T3Compact<Toy<P, RP, SD>> as Spec<Toy<P, RP, SD>, 3, 2>>::constants())
}
fn raw<const P: u32, const RP: usize, const SD: u32>() -> &'static Params<Toy<P, RP, SD>> {
    struct K;
    cached::<(K, u8, Toy<P, RP, SD>), _>(|| <P128Pow5T3<Toy<P, RP, SD>> as Spec<Toy<P, RP, SD>, 3, 2>>::constants())
}
impl<const P: u32, const RP: usize, const SD: u32> CachedConstants for Toy<P, RP, SD> {
    fn cached_round_constants() -> &'static [[Self; 3]] {
        &compact::<P, RP, SD>().0
    }
    fn cached_mds() -> &'static Mds<Self, 3> {
        &compact::<P, RP, SD>().1
    }
    fn cached_mds_inv() -> &'static Mds<Self, 3> {
        &compact::<P, RP, SD>().2
    }
}
impl<const P: u32, const RP: usize, const SD: u32> CachedSpec<Toy<P, RP, SD>, 3, 2> for P128Pow5T3Compact<Toy<P, RP, SD>> {
    fn cached_round_constants() -> &'static [[Toy<P, RP, SD>; 3]] {
        &compact::<P, RP, SD>().0
    }
    fn cached_mds() -> &'static Mds<Toy<P, RP, SD>, 3> {
        &compact::<P, RP, SD>().1
    }
    fn cached_mds_inv() -> &'static Mds<Toy<P, RP, SD>, 3> {
        &compact::<P, RP, SD>().2
    }
}
impl<const P: u32, const RP: usize, const SD: u32> CachedSpec<Toy<P, RP, SD>, 3, 2> for P128Pow5T3<Toy<P, RP, SD>> {
    fn cached_round_constants() -> &'static [[Toy<P, RP, SD>; 3]] {
        &raw::<P, RP, SD>().0
    }
    fn cached_mds() -> &'static Mds<Toy<P, RP, SD>, 3> {
        &raw::<P, RP, SD>().1
    }
    fn cached_mds_inv() -> &'static Mds<Toy<P, RP, SD>, 3> {
        &raw::<P, RP, SD>().2
    }
}

impl<const P: u32, const RP: usize, const SD: u32> poseidon_base::hash::Hashablebase for Toy<P, RP, SD> {}
impl<const P: u32, const RP: usize, const SD: u32> poseidon_base::hash::Hashable for Toy<P, RP, SD> {
    type SpecType = poseidon_base::hash::HashSpec<Self>;
    type DomainType = poseidon_base::primitives::ConstantLengthIden3<2>;
    fn hash_with_domain(inp: [Self; 2], domain: Self) -> Self {
        Self::hasher().hash(inp, domain)
    }
}
impl<const P: u32, const RP: usize, const SD: u32> poseidon_base::hash::MessageHashable for Toy<P, RP, SD> {
    type DomainType = poseidon_base::primitives::VariableLengthIden3;
    fn hash_msg(msg: &[Self], cap: Option<u128>) -> Self {
        Self::msg_hasher()
            .hash_with_cap(msg, cap.unwrap_or(msg.len() as u128 * poseidon_base::hash::HASHABLE_DOMAIN_SPEC))
    }
}
