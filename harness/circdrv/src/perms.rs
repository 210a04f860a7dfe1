//! Permutation sub-circuits on their own: input words in their own columns, one or several permutations, outputs
//! copied into their own columns.
use crate::dump::circuit;
use crate::specs::HF;
use crate::table::{mode, Kind};
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::{record, Recorder};
use halo2_proofs::plonk::{Advice, Circuit, Column, ConstraintSystem, Error};
use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, SeptidonChip, StateWord};
use std::marker::PhantomData;
use vcommon::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Via {
    Each,
    Batch,
    /// the output of one is the input of the next
    Chain,
}

pub struct Perm<F, PC> {
    pub states: Vec<[F; 3]>,
    pub via: Via,
    /// false: the input words are unknown
    pub known: bool,
    pub _p: PhantomData<PC>,
}
impl<F: FJ + Hashable, PC: PermuteChip<F, F::SpecType, 3, 2, Word = StateWord<F>>> Circuit<F> for Perm<F, PC> {
    type Config = ([Column<Advice>; 3], [Column<Advice>; 3], PC::Config);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Perm { states: self.states.clone(), via: self.via, known: false, _p: PhantomData }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let i = [0; 3].map(|_| meta.advice_column());
        let o = [0; 3].map(|_| meta.advice_column());
        for c in i.iter().chain(o.iter()) {
            meta.enable_equality(*c);
        }
        (i, o, PC::configure(meta))
    }
    fn synthesize(&self, (ci, co, cfg): Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let k = if self.via == Via::Chain { 1 } else { self.states.len() };
        let ins: Vec<[StateWord<F>; 3]> = l.assign_region(
            || "in",
            |mut region| {
                let mut v = vec![];
                for (r, s) in self.states.iter().take(k).enumerate() {
                    let mut w = vec![];
                    for j in 0..3 {
                        w.push(StateWord(region.assign_advice(|| "in", ci[j], r, || if self.known { Value::known(s[j]) } else { Value::unknown() })?));
                    }
                    v.push(<[StateWord<F>; 3]>::try_from(w).unwrap());
                }
                Ok(v)
            },
        )?;
        let chip = PC::construct(cfg.clone());
        let outs: Vec<[StateWord<F>; 3]> = match self.via {
            Via::Batch => chip.permute_batch(&mut l, &ins)?,
            Via::Each => {
                let mut v = vec![];
                for s in &ins {
                    let chip = PC::construct(cfg.clone());
                    v.push(chip.permute(&mut l, s)?);
                }
                v
            }
            Via::Chain => {
                let mut v = vec![];
                let mut s = ins[0].clone();
                for _ in 0..self.states.len() {
                    s = chip.permute(&mut l, &s)?;
                    v.push(s.clone());
                }
                v
            }
        };
        l.assign_region(
            || "out",
            |mut region| {
                for (r, s) in outs.iter().enumerate() {
                    for j in 0..3 {
                        s[j].0.copy_advice(|| "out", &mut region, co[j], r)?;
                    }
                }
                Ok(())
            },
        )
    }
}

fn build<F: HF, PC: PermuteChip<F, F::SpecType, 3, 2, Word = StateWord<F>>>(
    states: &[[F; 3]],
    via: Via,
) -> Result<(ConstraintSystem<F>, Recorder<F>), String> {
    mode(via == Via::Batch);
    let c = Perm::<F, PC> { states: states.to_vec(), via, known: true, _p: PhantomData };
    for k in 3..16 {
        match guarded(|| record(k, &c, vec![])) {
            None => return Err("panic".into()),
            Some(Err(e)) => {
                let e = format!("{e:?}");
                if !e.contains("NotEnoughRows") {
                    return Err(e);
                }
            }
            Some(Ok((cs, _, rec))) => return Ok((cs, rec)),
        }
    }
    Err("too large".into())
}

pub fn event<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2, Word = StateWord<F>>>(o: &mut Out, states: &[[F; 3]], via: Via) {
    let pr = F::pr(o);
    let name = match via {
        Via::Each => "each",
        Via::Batch => "batch",
        Via::Chain => "chain",
    };
    match build::<F, PC>(states, via) {
        Err(e) => o.ev(&format!(
            "{{\"refused\":{:?},\"prop\":{{\"k\":\"perm\",\"chip\":\"{}\",\"via\":\"{name}\",\"n\":{},\"field\":\"{}\"}}}}",
            e,
            PC::NAME,
            states.len(),
            F::NAME
        )),
        Ok((cs, rec)) => {
            let n = states.len();
            let ins: Vec<String> = (0..if via == Via::Chain { 1 } else { n })
                .map(|r| format!("[[0,{r}],[1,{r}],[2,{r}]]"))
                .collect();
            let outs: Vec<String> = (0..n).map(|r| format!("[[3,{r}],[4,{r}],[5,{r}]]")).collect();
            let st: Vec<String> = states.iter().map(|s| ja(s)).collect();
            o.ev(&circuit(&cs, &rec, |_| {
                format!(
                    ",\"refused\":\"\",\"prop\":{{\"k\":\"perm\",\"chip\":\"{}\",\"via\":\"{name}\",\"field\":\"{}\",\"n\":{n},\"pr\":{pr},\"chain\":{},\"ins\":[{}],\"outs\":[{}],\"given\":[{}]}}",
                    PC::NAME,
                    F::NAME,
                    via == Via::Chain,
                    ins.join(","),
                    outs.join(","),
                    st.join(",")
                )
            }));
        }
    }
}

fn every<F: HF>(p: u64) -> Vec<[F; 3]> {
    (0..p * p * p).map(|n| [F::from(n % p), F::from(n / p % p), F::from(n / p / p)]).collect()
}
fn some<F: HF>(r: &mut Rng, n: usize) -> Vec<[F; 3]> {
    (0..n)
        .map(|i| match i {
            0 => [F::ZERO; 3],
            _ => core::array::from_fn(|_| F::pick(r)),
        })
        .collect()
}

fn kinds<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2, Word = StateWord<F>>>(o: &mut Out, states: Vec<[F; 3]>, chunk: usize) {
    for (i, s) in states.chunks(chunk).enumerate() {
        event::<F, PC>(o, s, [Via::Each, Via::Batch][i % 2]);
    }
}

pub fn honest(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC15);
    type P7 = Pow5Chip<Toy<7, 57, 0>, 3, 2>;
    // every state of the toy field
    kinds::<Toy<7, 57, 0>, SeptidonChip>(o, every(7), 16);
    kinds::<Toy<7, 57, 0>, P7>(o, every(7), 16);
    kinds::<Toy<7, 4, 1>, Pow5Chip<Toy<7, 4, 1>, 3, 2>>(o, every(7), 40);
    kinds::<Toy<13, 57, 2>, SeptidonChip>(o, some(r, if deep { 2000 } else { 60 }), 20);
    kinds::<Toy<7, 0, 0>, Pow5Chip<Toy<7, 0, 0>, 3, 2>>(o, some(r, 30), 15);
    kinds::<Toy<7, 1, 0>, Pow5Chip<Toy<7, 1, 0>, 3, 2>>(o, some(r, 30), 15);
    // batches of every small size, chains
    for n in 1..=(if deep { 40 } else { 20 }) {
        event::<Toy<7, 57, 1>, SeptidonChip>(o, &some(r, n), Via::Batch);
        if n <= 6 {
            event::<Toy<7, 57, 1>, SeptidonChip>(o, &some(r, n), Via::Chain);
            event::<Toy<7, 57, 1>, SeptidonChip>(o, &some(r, n), Via::Each);
            event::<Toy<7, 4, 1>, Pow5Chip<Toy<7, 4, 1>, 3, 2>>(o, &some(r, n), Via::Batch);
            event::<Toy<7, 4, 1>, Pow5Chip<Toy<7, 4, 1>, 3, 2>>(o, &some(r, n), Via::Chain);
        }
    }
    event::<Toy<7, 57, 1>, SeptidonChip>(o, &[], Via::Batch);
    // the production field
    let m = if deep { 12 } else { 3 };
    for via in [Via::Each, Via::Batch, Via::Chain] {
        for _ in 0..m {
            event::<Fr, SeptidonChip>(o, &some(r, 6), via);
            event::<Fr, Pow5Chip<Fr, 3, 2>>(o, &some(r, 4), via);
        }
    }
    let e = Fr::edges();
    let st: Vec<[Fr; 3]> = (0..e.len()).map(|i| [e[i], e[(i + 3) % e.len()], e[(i * 5 + 1) % e.len()]]).collect();
    kinds::<Fr, SeptidonChip>(o, st.clone(), 12);
    kinds::<Fr, Pow5Chip<Fr, 3, 2>>(o, st, 12);
}

pub fn search(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC16);
    event::<Toy<7, 57, 0>, SeptidonChip>(o, &some(r, 1), Via::Each);
    event::<Toy<7, 57, 1>, SeptidonChip>(o, &some(r, 1), Via::Batch);
    event::<Toy<7, 57, 2>, SeptidonChip>(o, &some(r, 2), Via::Each);
    event::<Toy<7, 57, 3>, SeptidonChip>(o, &some(r, 2), Via::Batch);
    event::<Toy<7, 57, 0>, SeptidonChip>(o, &some(r, 2), Via::Chain);
    event::<Toy<7, 4, 0>, Pow5Chip<Toy<7, 4, 0>, 3, 2>>(o, &some(r, 1), Via::Each);
    event::<Toy<7, 5, 0>, Pow5Chip<Toy<7, 5, 0>, 3, 2>>(o, &some(r, 1), Via::Each);
    event::<Toy<7, 4, 1>, Pow5Chip<Toy<7, 4, 1>, 3, 2>>(o, &some(r, 2), Via::Each);
    event::<Toy<7, 3, 1>, Pow5Chip<Toy<7, 3, 1>, 3, 2>>(o, &some(r, 2), Via::Batch);
    event::<Toy<7, 57, 1>, Pow5Chip<Toy<7, 57, 1>, 3, 2>>(o, &some(r, 1), Via::Each);
    if deep {
        event::<Toy<13, 57, 0>, SeptidonChip>(o, &some(r, 1), Via::Each);
        event::<Toy<7, 57, 4>, SeptidonChip>(o, &some(r, 3), Via::Batch);
        event::<Toy<13, 4, 0>, Pow5Chip<Toy<13, 4, 0>, 3, 2>>(o, &some(r, 1), Via::Each);
    }
}

/// more permutations, on given inputs
pub fn local(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0x10C16);
    event::<Toy<7, 57, 1>, SeptidonChip>(o, &some(r, 5), Via::Each);
    event::<Toy<7, 57, 1>, SeptidonChip>(o, &some(r, 10), Via::Batch);
    event::<Toy<7, 57, 2>, SeptidonChip>(o, &some(r, 4), Via::Chain);
    event::<Toy<7, 4, 1>, Pow5Chip<Toy<7, 4, 1>, 3, 2>>(o, &some(r, 5), Via::Each);
    event::<Toy<7, 4, 1>, Pow5Chip<Toy<7, 4, 1>, 3, 2>>(o, &some(r, 10), Via::Batch);
    event::<Toy<7, 57, 1>, Pow5Chip<Toy<7, 57, 1>, 3, 2>>(o, &some(r, 4), Via::Chain);
    if deep {
        event::<Toy<7, 57, 1>, SeptidonChip>(o, &some(r, 21), Via::Batch);
        event::<Toy<7, 3, 1>, Pow5Chip<Toy<7, 3, 1>, 3, 2>>(o, &some(r, 30), Via::Batch);
    }
}

/// rows that n permutations on their own occupy
pub fn rows(o: &mut Out, seed: u64) {
    fn one<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2, Word = StateWord<F>>>(o: &mut Out, r: &mut Rng, p: u64) {
        for n in 1..5 {
            for via in [Via::Each, Via::Batch, Via::Chain] {
                let b = build::<F, PC>(&some(r, n), via);
                let used = b.as_ref().map_or(0, |(_, rec)| used_rows(rec));
                o.ev(&format!(
                    "{{\"k\":\"rows\",\"chip\":\"{}\",\"field\":\"{}\",\"p\":{p},\"rp\":{},\"ok\":{},\"n\":{n},\"used\":{used}}}",
                    PC::NAME,
                    F::NAME,
                    <F::SpecType as poseidon_base::primitives::Spec<F, 3, 2>>::partial_rounds(),
                    b.is_ok()
                ));
            }
        }
    }
    let r = &mut Rng(seed ^ 0xC19);
    one::<Fr, SeptidonChip>(o, r, 0);
    one::<Toy<31, 57, 0>, SeptidonChip>(o, r, 31);
    one::<Fr, Pow5Chip<Fr, 3, 2>>(o, r, 0);
    macro_rules! toys {
        ($($rp:literal)*) => { $(one::<Toy<31, $rp, 0>, Pow5Chip<Toy<31, $rp, 0>, 3, 2>>(o, r, 31);)* };
    }
    toys!(0 1 2 3 4 5 8 21 56 57);
}

/// rows from the top of the circuit to the last one that any witness cell, selector or equality constraint occupies
pub fn used_rows<F: halo2curves::ff::Field>(rec: &Recorder<F>) -> usize {
    rec.advice
        .keys()
        .map(|k| k.1)
        .chain(rec.selectors.iter().map(|k| k.1))
        .chain(rec.copies.iter().flat_map(|(a, b)| [a.2, b.2]))
        .max()
        .map_or(0, |x| x + 1)
}
