//! calls of the real code, logged (shared by basedrv and cfgdrv)
#![allow(deprecated)]
use halo2curves::bn256::Fr;
use poseidon_base::hash::MessageHashable;
use poseidon_base::primitives::*;
use vcommon::*;

pub fn res<F: FJ>(r: &Option<F>) -> String {
    match r {
        Some(x) => format!("\"ok\":true,\"out\":{}", x.j()),
        None => format!("\"ok\":false,\"out\":{}", F::ZERO.j()),
    }
}

pub fn plain<F: FJ, S: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(o: &mut Out, pr: usize, m: [F; L]) {
    let r = guarded(|| Hash::<F, S, ConstantLength<L>, T, RATE>::init().hash(m));
    o.ev(&format!("{{\"k\":\"plain\",\"pr\":{pr},\"msg\":{},{}}}", ja(&m), res(&r)));
}
pub fn iden3<F: FJ, S: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(o: &mut Out, pr: usize, m: [F; L], d: F) {
    let r = guarded(|| Hash::<F, S, ConstantLengthIden3<L>, T, RATE>::init().hash(m, d));
    o.ev(&format!("{{\"k\":\"iden3\",\"pr\":{pr},\"msg\":{},\"dom\":{},{}}}", ja(&m), d.j(), res(&r)));
}
pub fn varh<F: FJ, S: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize>(o: &mut Out, pr: usize, m: &[F], c: u128) {
    let r = guarded(|| Hash::<F, S, VariableLengthIden3, T, RATE>::init().hash_with_cap(m, c));
    o.ev(&format!("{{\"k\":\"var\",\"pr\":{pr},\"msg\":{},\"cap\":{},{}}}", ja(m), jcap(c), res(&r)));
}

pub fn msg<F: FJ>(r: &mut Rng, n: usize) -> Vec<F> {
    match r.below(8) {
        0 => vec![F::ZERO; n],
        1 => vec![-F::ONE; n],
        2 => {
            let x = F::rnd(r);
            vec![x; n]
        }
        3 => (0..n).map(|i| F::from(i as u64)).collect(),
        4 => {
            // a single non-zero word
            let mut v = vec![F::ZERO; n];
            v[r.below(n)] = F::rnd(r);
            v
        }
        5 => (0..n).map(|_| F::rnd(r)).collect(),
        _ => (0..n).map(|_| F::pick(r)).collect(),
    }
}

/// a message whose words steer the state, before each permutation, to zero, one, minus one, repeated words...
pub fn steer<F: FJ, S: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize>(r: &mut Rng, lay: usize, cap: F, n: usize) -> Vec<F> {
    let mut st = [F::ZERO; T];
    st[(RATE + lay) % T] = cap;
    let mut m = vec![];
    while m.len() < n {
        let kind = r.below(8);
        for j in 0..RATE.min(n - m.len()) {
            let target = match kind {
                0 => F::ZERO,
                1 => F::ONE,
                2 => -F::ONE,
                3 => st[(lay + RATE) % T],
                4 => st[lay + j],
                5 => [F::ZERO, F::ONE, -F::ONE][r.below(3)],
                6 => -S::cached_round_constants()[0][lay + j],
                _ => F::pick(r),
            };
            m.push(target - st[lay + j]);
            st[lay + j] = target;
        }
        permute::<F, S, T, RATE>(&mut st, S::cached_mds(), S::cached_round_constants());
    }
    m
}

macro_rules! lens {
    ($o:expr, $r:expr, $pr:expr, $reps:expr, $F:ty, $S:ty, $T:literal, $RATE:literal, [$($L:literal),*]) => {$(
        for _ in 0..$reps {
            let c = <$F>::from_u128(($L as u128) << 64);
            let m = if $r.below(3) == 0 { steer::<$F, $S, $T, $RATE>($r, 0, c, $L) } else { msg::<$F>($r, $L) };
            let m: [$F; $L] = m.try_into().unwrap();
            plain::<$F, $S, $T, $RATE, $L>($o, $pr, m);
            let d = <$F as FJ>::pick($r);
            let m = if $r.below(3) == 0 { steer::<$F, $S, $T, $RATE>($r, $T - $RATE, d, $L) } else { msg::<$F>($r, $L) };
            let m: [$F; $L] = m.try_into().unwrap();
            iden3::<$F, $S, $T, $RATE, $L>($o, $pr, m, d);
        }
    )*};
}
pub fn fr_msg(o: &mut Out, m: &[Fr], cap: Option<u128>) {
    let r = guarded(|| <Fr as MessageHashable>::hash_msg(m, cap));
    match cap {
        Some(c) => o.ev(&format!("{{\"k\":\"var\",\"pr\":1001,\"msg\":{},\"cap\":{},{}}}", ja(m), jcap(c), res(&r))),
        None => o.ev(&format!(
            "{{\"k\":\"vardef\",\"pr\":1001,\"legacy\":{},\"msg\":{},{}}}",
            cfg!(feature = "legacy"),
            ja(m),
            res(&r)
        )),
    }
}
pub fn edge_caps() -> Vec<u128> {
    let mut v = vec![0u128, 1, 2, 3, u128::MAX, u128::MAX - 1, 1 << 64, (1 << 64) - 1, (1 << 64) + 1, 2 << 64, 3 << 64, 10 << 64, u64::MAX as u128];
    for b in 0..128 {
        v.push(1 << b);
    }
    v.push(0xffff_ffff);
    v.push(u128::MAX << 64);
    v
}
