//! Key generation: the same circuit synthesised without a witness (no advice value is computed), and with several
//! witnesses, must leave the same fixed part.
use crate::chips::Ideal;
use crate::gadget::Gad;
use crate::perms::{Perm, Via};
use crate::specs::{HF, TS};
use crate::table::*;
use crate::tables::{cpus, side_of};
use halo2_proofs::dev::record_as;
use halo2_proofs::plonk::Circuit;
use halo2curves::bn256::Fr;
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::Spec;
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, SeptidonChip, StateWord};
use std::marker::PhantomData;
use vcommon::*;

const K: u32 = 11;

fn event<F: FJ, C: Circuit<F>>(o: &mut Out, key: &str, mode: &str, c: &C, witness: bool) {
    let b = match guarded(|| record_as(K, c, vec![], witness)) {
        Some(Ok((_, _, rec))) => Some(rec),
        _ => None,
    };
    let mut side = side_of(b.as_ref());
    if let Some(i) = side.find("\"advice\":\"") {
        // the witness is not compared here
        let j = i + 10 + side[i + 10..].find('"').unwrap();
        side.replace_range(i + 10..j, "");
    }
    o.ev(&format!("{{\"k\":\"key\",\"key\":\"{key}\",\"mode\":\"{mode}\",\"cpus\":{},\"side\":{side}}}", cpus()));
}

fn perms<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2, Word = StateWord<F>>>(o: &mut Out, r: &mut Rng, sizes: &[usize]) {
    for &n in sizes {
        for (via, name) in [(Via::Each, "each"), (Via::Batch, "batch"), (Via::Chain, "chain")] {
            if n == 0 && via == Via::Chain {
                continue;
            }
            mode(via == Via::Batch);
            let key = format!("{} {} rp {} {name} {n}", PC::NAME, F::NAME, <F::SpecType as Spec<F, 3, 2>>::partial_rounds());
            let mut st = |i: usize| -> Vec<[F; 3]> {
                (0..n).map(|_| if i == 0 { [F::ZERO; 3] } else { core::array::from_fn(|_| F::pick(r)) }).collect()
            };
            let c = Perm::<F, PC> { states: st(1), via, known: true, _p: PhantomData };
            event(o, &key, "keygen of the circuit without witnesses", &c.without_witnesses(), false);
            event(o, &key, "keygen", &c, false);
            for i in 0..4 {
                event(o, &key, "witness", &Perm::<F, PC> { states: st(i), via, known: true, _p: PhantomData }, true);
            }
        }
    }
}

fn gadgets<F: FJ, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(o: &mut Out, r: &mut Rng, tag: &str) {
    let shapes: [(bool, Vec<bool>, usize); 4] = [
        (true, vec![true; L], 0),
        (false, vec![true; RATE], RATE + 1),
        (false, (0..2 * RATE).map(|i| i % 3 != 1).collect(), 1),
        (false, (0..3 * RATE).map(|i| i < RATE).collect(), 2 * RATE + 1),
    ];
    for (hash, pat, squeeze) in shapes {
        // fixed words belong to the shape
        let fixed: Vec<F> = pat.iter().map(|_| F::pick(r)).collect();
        let key = format!("sponge {tag} T{T} RATE{RATE} L{L} hash {hash} {pat:?} {fixed:?} {squeeze}");
        let mut c = |i: usize| Gad::<F, S, T, RATE, L> {
            hash,
            words: pat.iter().zip(fixed.iter()).map(|(m, x)| (*m, if !*m { *x } else if i == 0 { F::ZERO } else { F::pick(r) })).collect(),
            squeeze,
            known: true,
            _p: PhantomData,
        };
        event(o, &key, "keygen of the circuit without witnesses", &c(1).without_witnesses(), false);
        event(o, &key, "keygen", &c(1), false);
        for i in 0..3 {
            event(o, &key, "witness", &c(i), true);
        }
    }
}

fn tables<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, r: &mut Rng, calcs: usize)
where
    PC::Config: Sync,
{
    let key = format!("table {} {} rp {} step {STEP} calcs {calcs}", PC::NAME, F::NAME, <F::SpecType as Spec<F, 3, 2>>::partial_rounds());
    let tab = |rows: &[Row<F>]| Tab::<F, PC, STEP> { table: raw_table(rows, false), calcs, _p: PhantomData };
    for par in [false, true] {
        mode(par);
        let c = Tab::<F, PC, STEP> { table: PoseidonHashTable::default(), calcs, _p: PhantomData };
        event(o, &key, "keygen of the circuit without witnesses", &c, false);
        for i in 0..3 {
            let rows = if i == 0 { message::<F>(r, STEP, calcs - 1) } else { random_rows::<F>(r, STEP, calcs - 1) };
            event(o, &key, "keygen", &tab(&rows), false);
            event(o, &key, "witness", &tab(&rows), true);
        }
    }
}

pub fn keys(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC20);
    let sizes: &[usize] = if deep { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33] } else { &[0, 1, 2, 3, 5, 9] };
    type A = Toy<31, 57, 0>;
    type B = Toy<31, 4, 1>;
    type C = Toy<31, 5, 1>;
    perms::<A, SeptidonChip>(o, r, sizes);
    perms::<A, Pow5Chip<A, 3, 2>>(o, r, sizes);
    perms::<B, Pow5Chip<B, 3, 2>>(o, r, sizes);
    perms::<C, Pow5Chip<C, 3, 2>>(o, r, &[1, 2]);
    perms::<Fr, SeptidonChip>(o, r, &[1, 3]);
    perms::<Fr, Pow5Chip<Fr, 3, 2>>(o, r, &[1, 3]);
    macro_rules! lens {
        ($f:ty, $s:ty, $t:literal, $rate:literal, $tag:literal, [$($l:literal),*]) => { $(gadgets::<$f, $s, $t, $rate, $l>(o, r, $tag);)* };
    }
    lens!(A, TS<8, 4, 1>, 3, 2, "a", [1, 2, 3, 4, 5, 8]);
    lens!(A, TS<4, 3, 3>, 5, 4, "b", [1, 3, 4, 5, 9]);
    lens!(A, TS<6, 5, 4>, 2, 1, "c", [1, 2, 3]);
    lens!(A, TS<4, 0, 5>, 4, 3, "d", [2, 3, 4]);
    lens!(Fr, HashSpec<Fr>, 3, 2, "bn254", [1, 2, 3, 5]);
    for calcs in if deep { vec![1, 2, 3, 4, 5, 8, 17, 40] } else { vec![1, 2, 5, 8] } {
        tables::<A, SeptidonChip, 2>(o, r, calcs);
        tables::<A, Ideal, 3>(o, r, calcs);
        tables::<B, Pow5Chip<B, 3, 2>, 1>(o, r, calcs);
        tables::<Fr, SeptidonChip, 32>(o, r, calcs);
    }
}
