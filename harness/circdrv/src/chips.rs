//! An ideal permutation sub-circuit: three input cells and three output cells per permutation and no constraint of
//! its own; the checker treats each such row as one call of the permutation.
use halo2_proofs::circuit::{AssignedCell, Chip, Layouter, Value};
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Error};
use poseidon_base::primitives::{permute, Spec, State};
use poseidon_circuit::poseidon::{PermuteChip, PoseidonInstructions, StateWord};
use std::cell::RefCell;
use vcommon::FJ;

#[derive(Clone, Debug)]
pub struct IdealConfig {
    pub cols_in: [Column<Advice>; 3],
    pub cols_out: [Column<Advice>; 3],
}
#[derive(Clone, Debug)]
pub struct Ideal(IdealConfig);

thread_local! {
    /// columns of the last configured ideal chip
    pub static LAST: RefCell<Option<IdealConfig>> = const { RefCell::new(None) };
}

impl<F: FJ> Chip<F> for Ideal {
    type Config = IdealConfig;
    type Loaded = ();
    fn config(&self) -> &IdealConfig {
        &self.0
    }
    fn loaded(&self) -> &() {
        &()
    }
}
impl<F: FJ, S: Spec<F, 3, 2>> PermuteChip<F, S, 3, 2> for Ideal {
    fn configure(meta: &mut ConstraintSystem<F>) -> IdealConfig {
        let c = IdealConfig { cols_in: [0; 3].map(|_| meta.advice_column()), cols_out: [0; 3].map(|_| meta.advice_column()) };
        for x in c.cols_in.iter().chain(c.cols_out.iter()) {
            meta.enable_equality(*x);
        }
        LAST.with(|l| *l.borrow_mut() = Some(c.clone()));
        c
    }
    fn construct(config: IdealConfig) -> Self {
        Ideal(config)
    }
}
impl<F: FJ, S: Spec<F, 3, 2>> PoseidonInstructions<F, S, 3, 2> for Ideal {
    type Word = StateWord<F>;
    fn permute(&self, layouter: &mut impl Layouter<F>, initial: &State<StateWord<F>, 3>) -> Result<State<StateWord<F>, 3>, Error> {
        layouter.assign_region(
            || "ideal permutation",
            |mut region| {
                let mut st: [Value<F>; 3] = [Value::unknown(); 3];
                for i in 0..3 {
                    let c = initial[i].0.copy_advice(|| "in", &mut region, self.0.cols_in[i], 0)?;
                    st[i] = c.value().copied();
                }
                let all = st[0].zip(st[1]).zip(st[2]).map(|((a, b), c)| {
                    let mut s = [a, b, c];
                    let (rc, m, _) = S::constants();
                    permute::<F, S, 3, 2>(&mut s, &m, &rc);
                    s
                });
                let out: Vec<AssignedCell<F, F>> = (0..3)
                    .map(|i| region.assign_advice(|| "out", self.0.cols_out[i], 0, || all.map(|s| s[i])))
                    .collect::<Result<_, _>>()?;
                let mut it = out.into_iter().map(StateWord);
                Ok([it.next().unwrap(), it.next().unwrap(), it.next().unwrap()])
            },
        )
    }
}
