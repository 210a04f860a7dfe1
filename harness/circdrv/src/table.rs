//! Hash-table circuits.
use crate::chips::Ideal;
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner};
use halo2_proofs::dev::{record, Recorder};
use halo2_proofs::plonk::{Circuit, ConstraintSystem, Error};
use poseidon_circuit::hash::{Hashable, PoseidonHashTable, SpongeChip, SpongeConfig};
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, SeptidonChip};
use std::marker::PhantomData;
use vcommon::*;

#[derive(Clone)]
pub struct Tab<F, PC, const STEP: usize> {
    pub table: PoseidonHashTable<F>,
    pub calcs: usize,
    pub _p: PhantomData<PC>,
}
impl<F: FJ + Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize> Circuit<F> for Tab<F, PC, STEP>
where
    PC::Config: Sync,
{
    type Config = SpongeConfig<F, PC>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Tab { table: PoseidonHashTable::default(), calcs: self.calcs, _p: PhantomData }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let q_enable = meta.fixed_column();
        let cols = [0; 6].map(|_| meta.advice_column());
        SpongeConfig::configure_sub(meta, (q_enable, cols), STEP)
    }
    fn synthesize(&self, config: Self::Config, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        SpongeChip::<F, STEP, PC>::construct(config, &self.table, self.calcs).load(&mut layouter)
    }
}

/// what the caller of the builder or of the table's fields means
#[derive(Clone, Debug)]
pub struct Row<F> {
    pub w: [F; 2],
    pub ctrl: u64,
    pub dom: Option<F>,
    pub check: Option<F>,
}

/// short vectors are allowed: the loader treats missing controls as 0 and missing domains as none
pub fn raw_table<F: FJ>(rows: &[Row<F>], trim: bool) -> PoseidonHashTable<F> {
    let mut t = PoseidonHashTable::<F> {
        inputs: rows.iter().map(|r| r.w).collect(),
        controls: rows.iter().map(|r| r.ctrl).collect(),
        domain: rows.iter().map(|r| r.dom).collect(),
        checks: rows.iter().map(|r| r.check).collect(),
    };
    if trim {
        while t.controls.last() == Some(&0) {
            t.controls.pop();
        }
        while matches!(t.domain.last(), Some(None)) {
            t.domain.pop();
        }
        while matches!(t.checks.last(), Some(None)) {
            t.checks.pop();
        }
    }
    t
}

pub fn mode(parallel: bool) {
    std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", if parallel { "parallel" } else { "serial" });
}

pub type Built<F> = (ConstraintSystem<F>, [usize; 6], [usize; 6], Recorder<F>);

/// None: loading was refused (error or panic)
pub fn build_k<F, PC, const STEP: usize>(k: u32, table: &PoseidonHashTable<F>, calcs: usize, parallel: bool) -> Result<Built<F>, String>
where
    F: FJ + Hashable,
    PC: PermuteChip<F, F::SpecType, 3, 2>,
    PC::Config: Sync,
{
    mode(parallel);
    let c = Tab::<F, PC, STEP> { table: table.clone(), calcs, _p: PhantomData };
    match guarded(|| record(k, &c, vec![])) {
        None => Err("panic".into()),
        Some(Err(e)) => Err(format!("{e:?}")),
        Some(Ok((cs, config, rec))) => Ok((cs, config.commitment_index(), config.hash_tbl_cols().map(|c| c.index()), rec)),
    }
}
/// smallest k with enough rows
pub fn build<F, PC, const STEP: usize>(table: &PoseidonHashTable<F>, calcs: usize, parallel: bool) -> Result<Built<F>, String>
where
    F: FJ + Hashable,
    PC: PermuteChip<F, F::SpecType, 3, 2>,
    PC::Config: Sync,
{
    let mut last = String::new();
    for k in 3..12 {
        match build_k::<F, PC, STEP>(k, table, calcs, parallel) {
            Err(e) if e.contains("NotEnoughRows") => last = e,
            r => return r,
        }
    }
    Err(last)
}

/// names of the sub-circuits
pub trait Kind {
    const NAME: &'static str;
}
impl Kind for Ideal {
    const NAME: &'static str = "ideal";
}
impl Kind for SeptidonChip {
    const NAME: &'static str = "septidon";
}
impl<F: FJ> Kind for Pow5Chip<F, 3, 2> {
    const NAME: &'static str = "pow5";
}

/// rows of one well-formed message
pub fn message<F: FJ>(r: &mut Rng, step: usize, rows: usize) -> Vec<Row<F>> {
    let pick = |r: &mut Rng| -> [F; 2] { [F::pick(r), F::pick(r)] };
    if rows == 0 {
        // fixed input
        let dom = match r.below(3) {
            0 => None,
            1 => Some(F::pick(r)),
            _ => Some(F::from(256)),
        };
        return vec![Row { w: pick(r), ctrl: 0, dom, check: None }];
    }
    let last = match r.below(4) {
        0 => step as u64,
        1 => 1,
        _ => 1 + r.below(step) as u64,
    };
    (0..rows)
        .map(|i| Row { w: pick(r), ctrl: last + (step * (rows - 1 - i)) as u64, dom: None, check: None })
        .collect()
}
/// a random well-formed table with at most `max` rows
pub fn random_rows<F: FJ>(r: &mut Rng, step: usize, max: usize) -> Vec<Row<F>> {
    let mut rows = vec![];
    let target = r.below(max + 1);
    while rows.len() < target {
        let left = target - rows.len();
        let n = match r.below(3) {
            0 => 0,
            _ => 1 + r.below(left),
        };
        let mut m = message(r, step, n.min(left));
        // the first row of a stream may carry a domain
        if r.below(4) == 0 {
            m[0].dom = Some(F::pick(r));
        }
        rows.extend(m);
    }
    rows
}
pub fn rows_json<F: FJ>(rows: &[Row<F>]) -> String {
    let v: Vec<String> = rows
        .iter()
        .map(|r| {
            format!(
                "{{\"w\":[{},{}],\"c\":{},\"d\":{},\"hc\":{},\"ck\":{}}}",
                r.w[0].j(),
                r.w[1].j(),
                r.ctrl,
                r.dom.unwrap_or(F::ZERO).j(),
                r.check.is_some(),
                r.check.unwrap_or(F::ZERO).j()
            )
        })
        .collect();
    format!("[{}]", v.join(","))
}
