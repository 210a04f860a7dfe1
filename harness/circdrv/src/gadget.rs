//! The in-circuit sponge: Hash::hash of a message of L words, and absorbing / squeezing word by word.
use crate::dump::circuit;
use crate::specs::{ts_params, TS};
use halo2_proofs::circuit::{AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::record;
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error};
use halo2curves::bn256::Fr;
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::{Absorbing, ConstantLength, Spec};
use poseidon_circuit::poseidon::{Hash, PaddedWord, Pow5Chip, Pow5Config, Sponge};
use std::marker::PhantomData;
use vcommon::*;

/// hash: Hash::hash(message); otherwise absorb the words (true: a message cell, false: a fixed word), then squeeze
#[derive(Clone)]
pub struct Gad<F, S, const T: usize, const RATE: usize, const L: usize> {
    pub hash: bool,
    pub words: Vec<(bool, F)>,
    pub squeeze: usize,
    /// false: the message words are unknown
    pub known: bool,
    pub _p: PhantomData<S>,
}
impl<F: FJ, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize> Circuit<F> for Gad<F, S, T, RATE, L> {
    type Config = (Column<Advice>, Column<Advice>, Pow5Config<F, T, RATE>);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Gad { hash: self.hash, words: self.words.clone(), squeeze: self.squeeze, known: false, _p: PhantomData }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let msg = meta.advice_column();
        let out = meta.advice_column();
        meta.enable_equality(msg);
        meta.enable_equality(out);
        let state = [0; T].map(|_| meta.advice_column());
        let sbox = meta.advice_column();
        let a = [0; T].map(|_| meta.fixed_column());
        let b = [0; T].map(|_| meta.fixed_column());
        meta.enable_constant(b[0]);
        (msg, out, Pow5Chip::configure::<S>(meta, state, sbox, a, b))
    }
    fn synthesize(&self, (cm, co, cfg): Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let chip = Pow5Chip::construct(cfg);
        let cells: Vec<Option<AssignedCell<F, F>>> = l.assign_region(
            || "message",
            |mut region| {
                let mut v = vec![];
                for (i, (m, x)) in self.words.iter().enumerate() {
                    v.push(if *m { Some(region.assign_advice(|| "word", cm, i, || if self.known { Value::known(*x) } else { Value::unknown() })?) } else { None });
                }
                Ok(v)
            },
        )?;
        let mut outs = vec![];
        if self.hash {
            let h = Hash::<F, _, S, ConstantLength<L>, T, RATE>::init(chip, l.namespace(|| "init"))?;
            let msg: Vec<AssignedCell<F, F>> = cells.into_iter().map(|c| c.unwrap()).collect();
            outs.push(h.hash(l.namespace(|| "hash"), msg.try_into().unwrap())?);
        } else {
            let mut s: Sponge<F, _, S, Absorbing<PaddedWord<F>, RATE>, ConstantLength<L>, T, RATE> =
                Sponge::new(chip, l.namespace(|| "new"))?;
            for (c, (_, x)) in cells.into_iter().zip(self.words.iter()) {
                let w = match c {
                    Some(c) => PaddedWord::Message(c),
                    None => PaddedWord::Padding(*x),
                };
                s.absorb(l.namespace(|| "absorb"), w)?;
            }
            let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
            for _ in 0..self.squeeze {
                outs.push(s.squeeze(l.namespace(|| "squeeze"))?);
            }
        }
        l.assign_region(
            || "out",
            |mut region| {
                for (i, c) in outs.iter().enumerate() {
                    c.copy_advice(|| "out", &mut region, co, i)?;
                }
                Ok(())
            },
        )
    }
}

#[allow(clippy::too_many_arguments)]
fn event<F: FJ, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(
    o: &mut Out,
    pr: usize,
    hash: bool,
    words: Vec<(bool, F)>,
    squeeze: usize,
) {
    let outs = if hash { 1 } else { squeeze };
    let c = Gad::<F, S, T, RATE, L> { hash, words: words.clone(), squeeze, known: true, _p: PhantomData };
    let mut res = Err("too large".to_string());
    for k in 3..14 {
        res = match guarded(|| record(k, &c, vec![])) {
            None => Err("panic".into()),
            Some(Err(e)) => Err(format!("{e:?}")),
            Some(Ok((cs, _, rec))) => Ok((cs, rec)),
        };
        match &res {
            Err(e) if e.contains("NotEnoughRows") => continue,
            _ => break,
        }
    }
    let ws: Vec<String> = words
        .iter()
        .enumerate()
        .map(|(i, (m, x))| format!("{{\"m\":{m},\"r\":{i},\"v\":{}}}", x.j()))
        .collect();
    let p = format!(
        "\"prop\":{{\"k\":\"sponge\",\"hash\":{hash},\"L\":{L},\"pr\":{pr},\"t\":{T},\"words\":[{}],\"outs\":[{}]}}",
        ws.join(","),
        (0..outs).map(|i| format!("[1,{i}]")).collect::<Vec<_>>().join(",")
    );
    match res {
        Err(e) => o.ev(&format!("{{\"refused\":{e:?},{p}}}")),
        Ok((cs, rec)) => o.ev(&circuit(&cs, &rec, |_| format!(",\"refused\":\"\",{p}"))),
    }
}
fn hash<F: FJ, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(o: &mut Out, pr: usize, r: &mut Rng, n: usize) {
    for i in 0..n {
        let w = (0..L).map(|_| (true, if i == 0 && n > 1 { F::ZERO } else { F::pick(r) })).collect();
        event::<F, S, T, RATE, L>(o, pr, true, w, 0);
    }
}
/// absorb whole blocks made of message and fixed words, squeeze some words
fn sponge<F: FJ, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(
    o: &mut Out,
    pr: usize,
    r: &mut Rng,
    blocks: usize,
    squeeze: usize,
) {
    let w = (0..blocks * RATE).map(|_| (r.below(3) > 0, F::pick(r))).collect();
    event::<F, S, T, RATE, L>(o, pr, false, w, squeeze);
}
/// all message words are message cells (for the search)
fn open<F: FJ, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(o: &mut Out, pr: usize, r: &mut Rng, hashes: bool, words: usize, squeeze: usize) {
    let w = (0..words).map(|_| (true, F::pick(r))).collect();
    event::<F, S, T, RATE, L>(o, pr, hashes, w, squeeze);
}

macro_rules! lens {
    ($o:expr, $r:expr, $pr:expr, $n:expr, $f:ty, $s:ty, $t:literal, $rate:literal, [$($l:literal),*]) => {
        $(hash::<$f, $s, $t, $rate, $l>($o, $pr, $r, $n);)*
    };
}

pub fn honest(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC17);
    let n = if deep { 12 } else { 3 };
    type T7 = Toy<7, 0, 0>;
    type T13 = Toy<13, 0, 0>;
    let a = ts_params::<T7, 3, 2, 8, 4, 1>(o);
    lens!(o, r, a, n, T7, TS<8, 4, 1>, 3, 2, [1, 2, 3, 4, 5, 6, 7, 8, 9]);
    let b = ts_params::<T13, 3, 2, 8, 57, 2>(o);
    lens!(o, r, b, n, T13, TS<8, 57, 2>, 3, 2, [1, 2, 3, 4, 5]);
    let c = ts_params::<T7, 5, 4, 4, 3, 3>(o);
    lens!(o, r, c, n, T7, TS<4, 3, 3>, 5, 4, [1, 2, 3, 4, 5, 7, 8, 9]);
    let d = ts_params::<T13, 2, 1, 6, 5, 4>(o);
    lens!(o, r, d, n, T13, TS<6, 5, 4>, 2, 1, [1, 2, 3]);
    let e = ts_params::<T13, 4, 3, 4, 0, 5>(o);
    lens!(o, r, e, n, T13, TS<4, 0, 5>, 4, 3, [1, 2, 3, 4, 5, 6, 7]);
    lens!(o, r, 1001, n, Fr, HashSpec<Fr>, 3, 2, [1, 2, 3, 4, 5]);
    #[cfg(feature = "pallas")]
    lens!(o, r, 1002, 2, halo2curves::pasta::Fp, HashSpec<halo2curves::pasta::Fp>, 3, 2, [1, 2, 3]);
    let f = ts_params::<Fr, 5, 4, 8, 6, 6>(o);
    lens!(o, r, f, 2, Fr, TS<8, 6, 6>, 5, 4, [1, 3, 4, 5]);
    for blocks in 1..=4 {
        for sq in [0, 1, 2, 3, 5] {
            sponge::<T7, TS<8, 4, 1>, 3, 2, 3>(o, a, r, blocks, sq);
            sponge::<T7, TS<4, 3, 3>, 5, 4, 2>(o, c, r, blocks, sq);
            sponge::<T13, TS<6, 5, 4>, 2, 1, 2>(o, d, r, blocks, sq);
        }
        sponge::<Fr, HashSpec<Fr>, 3, 2, 6>(o, 1001, r, blocks, 3);
    }
}

pub fn search(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0x5C17);
    type T7 = Toy<7, 0, 0>;
    let a = ts_params::<T7, 3, 2, 8, 4, 1>(o);
    open::<T7, TS<8, 4, 1>, 3, 2, 1>(o, a, r, true, 1, 0);
    open::<T7, TS<8, 4, 1>, 3, 2, 2>(o, a, r, true, 2, 0);
    open::<T7, TS<8, 4, 1>, 3, 2, 3>(o, a, r, true, 3, 0);
    let b = ts_params::<T7, 3, 2, 4, 3, 7>(o);
    open::<T7, TS<4, 3, 7>, 3, 2, 4>(o, b, r, true, 4, 0);
    open::<T7, TS<4, 3, 7>, 3, 2, 5>(o, b, r, true, 5, 0);
    open::<T7, TS<4, 3, 7>, 3, 2, 2>(o, b, r, false, 2, 4);
    event::<T7, TS<4, 3, 7>, 3, 2, 2>(o, b, false, vec![(true, T7::from(1)), (false, T7::from(5)), (false, T7::from(3)), (true, T7::from(2))], 3);
    let c = ts_params::<T7, 2, 1, 4, 2, 8>(o);
    open::<T7, TS<4, 2, 8>, 2, 1, 3>(o, c, r, true, 3, 0);
    let d = ts_params::<Toy<3, 0, 0>, 5, 4, 4, 2, 9>(o);
    open::<Toy<3, 0, 0>, TS<4, 2, 9>, 5, 4, 3>(o, d, r, true, 3, 0);
    open::<Toy<3, 0, 0>, TS<4, 2, 9>, 5, 4, 5>(o, d, r, true, 5, 0);
    if deep {
        open::<T7, TS<4, 3, 7>, 3, 2, 6>(o, b, r, true, 6, 0);
        open::<T7, TS<4, 3, 7>, 3, 2, 7>(o, b, r, true, 7, 0);
        let e = ts_params::<T7, 3, 2, 8, 57, 7>(o);
        open::<T7, TS<8, 57, 7>, 3, 2, 3>(o, e, r, true, 3, 0);
        let g = ts_params::<Toy<13, 0, 0>, 3, 2, 4, 3, 7>(o);
        open::<Toy<13, 0, 0>, TS<4, 3, 7>, 3, 2, 3>(o, g, r, true, 3, 0);
    }
}

/// long messages of given words
pub fn local(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0x10C17);
    type T7 = Toy<7, 0, 0>;
    let b = ts_params::<T7, 3, 2, 4, 3, 7>(o);
    open::<T7, TS<4, 3, 7>, 3, 2, 9>(o, b, r, true, 9, 0);
    open::<T7, TS<4, 3, 7>, 3, 2, 16>(o, b, r, true, 16, 0);
    open::<T7, TS<4, 3, 7>, 3, 2, 21>(o, b, r, true, 21, 0);
    open::<T7, TS<4, 3, 7>, 3, 2, 2>(o, b, r, false, 10, 9);
    let a = ts_params::<T7, 3, 2, 8, 57, 1>(o);
    open::<T7, TS<8, 57, 1>, 3, 2, 7>(o, a, r, true, 7, 0);
    let c = ts_params::<T7, 2, 1, 4, 2, 8>(o);
    open::<T7, TS<4, 2, 8>, 2, 1, 7>(o, c, r, true, 7, 0);
    type T3 = Toy<3, 0, 0>;
    let d = ts_params::<T3, 5, 4, 4, 2, 9>(o);
    open::<T3, TS<4, 2, 9>, 5, 4, 9>(o, d, r, true, 9, 0);
    open::<T3, TS<4, 2, 9>, 5, 4, 3>(o, d, r, false, 12, 6);
    if deep {
        open::<T7, TS<4, 3, 7>, 3, 2, 40>(o, b, r, true, 40, 0);
        open::<T7, TS<8, 57, 1>, 3, 2, 17>(o, a, r, true, 17, 0);
        open::<T3, TS<4, 2, 9>, 5, 4, 33>(o, d, r, true, 33, 0);
    }
}
