//! Recording a circuit and checking a witness.
use crate::circuit::Value;
use crate::plonk::*;
use ff::Field;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

pub fn unwrap_value<T: std::fmt::Debug>(v: Value<T>) -> T {
    v.into_option().expect("value is unknown")
}

pub type Pos = (usize, usize);

/// everything a synthesis wrote
#[derive(Clone, Debug)]
pub struct Recorder<F: Field> {
    pub k: u32,
    pub n: usize,
    pub usable: usize,
    pub range: Option<Range<usize>>,
    pub equality: Vec<Column<Any>>,
    pub advice: BTreeMap<Pos, Option<F>>,
    pub fixed: BTreeMap<Pos, F>,
    pub selectors: BTreeSet<Pos>,
    /// (kind, column, row) pairs; kind 0 advice, 1 fixed, 2 instance
    pub copies: Vec<((u8, usize, usize), (u8, usize, usize))>,
    pub instance: Vec<Vec<F>>,
    pub regions: Vec<String>,
    /// advice cells in the order of their first assignment
    pub order: Vec<Pos>,
    /// times a cell was assigned two different values
    pub clashes: usize,
    /// false: keys are generated, no advice value is computed
    pub witness: bool,
}
fn kind(c: &Column<Any>) -> u8 {
    match c.column_type() {
        Any::Advice(_) => 0,
        Any::Fixed => 1,
        Any::Instance => 2,
    }
}
impl<F: Field> Recorder<F> {
    fn check(&self, row: usize) -> Result<(), Error> {
        if let Some(r) = &self.range {
            if !r.contains(&row) {
                return Err(Error::AssignOutOfRange(row));
            }
        }
        if row >= self.usable {
            return Err(Error::not_enough_rows_available(self.k));
        }
        Ok(())
    }
}
impl<F: Field> Assignment<F> for Recorder<F> {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.regions.push(n().into());
    }
    fn exit_region(&mut self) {}
    fn witness(&self) -> bool {
        self.witness
    }
    fn enable_selector(&mut self, s: &Selector, row: usize) -> Result<(), Error> {
        self.check(row)?;
        self.selectors.insert((s.index(), row));
        Ok(())
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        Ok(Value::known(self.instance.get(c.index()).and_then(|v| v.get(row)).copied().unwrap_or(F::ZERO)))
    }
    fn query_advice(&self, c: Column<Advice>, row: usize) -> Result<F, Error> {
        if !self.witness {
            return Ok(F::ZERO);
        }
        self.advice.get(&(c.index(), row)).copied().flatten().ok_or(Error::Synthesis)
    }
    fn query_fixed(&self, c: Column<Fixed>, row: usize) -> Result<F, Error> {
        self.fixed.get(&(c.index(), row)).copied().ok_or(Error::Synthesis)
    }
    fn assign_advice(&mut self, c: Column<Advice>, row: usize, to: Value<F>) -> Result<(), Error> {
        self.check(row)?;
        let v = to.into_option();
        match self.advice.insert((c.index(), row), v) {
            None => self.order.push((c.index(), row)),
            Some(old) if old != v => self.clashes += 1,
            _ => {}
        }
        Ok(())
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, row: usize, to: Value<F>) -> Result<(), Error> {
        self.check(row)?;
        self.fixed.insert((c.index(), row), to.assign()?);
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        for (c, r) in [(lc, lr), (rc, rr)] {
            if r >= self.usable {
                return Err(Error::not_enough_rows_available(self.k));
            }
            if !self.equality.contains(&c) {
                return Err(Error::ColumnNotInPermutation(c));
            }
        }
        self.copies.push(((kind(&lc), lc.index(), lr), (kind(&rc), rc.index(), rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<F>) -> Result<(), Error> {
        let v = to.assign()?;
        for r in row..self.usable {
            self.fixed.insert((c.index(), r), v);
        }
        Ok(())
    }
    fn fork(&self, range: Range<usize>) -> Self {
        Recorder {
            k: self.k,
            n: self.n,
            usable: self.usable,
            range: Some(range),
            equality: self.equality.clone(),
            advice: BTreeMap::new(),
            fixed: BTreeMap::new(),
            selectors: BTreeSet::new(),
            copies: vec![],
            instance: self.instance.clone(),
            regions: vec![],
            order: vec![],
            clashes: 0,
            witness: self.witness,
        }
    }
    fn merge(&mut self, sub: Vec<Self>) -> Result<(), Error> {
        for s in sub {
            for p in s.order {
                if !self.advice.contains_key(&p) {
                    self.order.push(p);
                }
            }
            self.clashes += s.clashes;
            self.advice.extend(s.advice);
            self.fixed.extend(s.fixed);
            self.selectors.extend(s.selectors);
            self.copies.extend(s.copies);
        }
        Ok(())
    }
}

/// configures and synthesizes a circuit with 2^k rows
pub fn record<F: Field, C: Circuit<F>>(k: u32, circuit: &C, instance: Vec<Vec<F>>) -> Result<(ConstraintSystem<F>, C::Config, Recorder<F>), Error> {
    record_as(k, circuit, instance, true)
}
/// as record; without `witness` as when keys are generated
pub fn record_as<F: Field, C: Circuit<F>>(
    k: u32,
    circuit: &C,
    instance: Vec<Vec<F>>,
    witness: bool,
) -> Result<(ConstraintSystem<F>, C::Config, Recorder<F>), Error> {
    let mut cs = ConstraintSystem::default();
    let config = C::configure(&mut cs);
    let n = 1usize << k;
    if n < cs.minimum_rows() {
        return Err(Error::not_enough_rows_available(k));
    }
    let mut rec = Recorder {
        k,
        n,
        usable: n - (cs.blinding_factors() + 1),
        range: None,
        equality: cs.equality.clone(),
        advice: BTreeMap::new(),
        fixed: BTreeMap::new(),
        selectors: BTreeSet::new(),
        copies: vec![],
        instance,
        regions: vec![],
        order: vec![],
        clashes: 0,
        witness,
    };
    C::FloorPlanner::synthesize(&mut rec, circuit, config.clone(), cs.constants.clone())?;
    Ok((cs, config, rec))
}

/// a reason why a witness is refused
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum VerifyFailure {
    ConstraintNotSatisfied { gate: String, poly: usize, row: usize },
    Lookup { name: String, row: usize },
    Permutation { left: (u8, usize, usize), right: (u8, usize, usize) },
}
#[derive(Debug)]
pub struct MockProver<F: Field> {
    cs: ConstraintSystem<F>,
    rec: Recorder<F>,
}
impl<F: Field + Ord> MockProver<F> {
    pub fn run<C: Circuit<F>>(k: u32, circuit: &C, instance: Vec<Vec<F>>) -> Result<Self, Error> {
        let (cs, _, rec) = record(k, circuit, instance)?;
        Ok(MockProver { cs, rec })
    }
    fn eval(&self, e: &Expression<F>, row: usize) -> F {
        let at = |r: i32| (row as i64 + r as i64).rem_euclid(self.rec.n as i64) as usize;
        e.evaluate(
            &|c| c,
            &|s| if self.rec.selectors.contains(&(s.index(), row)) { F::ONE } else { F::ZERO },
            &|q| self.rec.fixed.get(&(q.column_index, at(q.rotation.0))).copied().unwrap_or(F::ZERO),
            &|q| self.rec.advice.get(&(q.column_index, at(q.rotation.0))).copied().flatten().unwrap_or(F::ZERO),
            &|q| self.rec.instance.get(q.column_index).and_then(|v| v.get(at(q.rotation.0))).copied().unwrap_or(F::ZERO),
            &|a| -a,
            &|a, b| a + b,
            &|a, b| a * b,
            &|a, c| a * c,
        )
    }
    pub fn verify(&self) -> Result<(), Vec<VerifyFailure>> {
        let mut bad = vec![];
        for row in 0..self.rec.usable {
            for g in &self.cs.gates {
                for (i, p) in g.polys.iter().enumerate() {
                    if self.eval(p, row) != F::ZERO {
                        bad.push(VerifyFailure::ConstraintNotSatisfied { gate: g.name.clone(), poly: i, row });
                    }
                }
            }
        }
        for l in &self.cs.lookups {
            let table: BTreeSet<Vec<F>> = (0..self.rec.usable).map(|r| l.table.iter().map(|e| self.eval(e, r)).collect()).collect();
            for row in 0..self.rec.usable {
                if !table.contains(&l.input.iter().map(|e| self.eval(e, row)).collect::<Vec<_>>()) {
                    bad.push(VerifyFailure::Lookup { name: l.name.clone(), row });
                }
            }
        }
        let val = |(k, c, r): (u8, usize, usize)| match k {
            0 => self.rec.advice.get(&(c, r)).copied().flatten().unwrap_or(F::ZERO),
            1 => self.rec.fixed.get(&(c, r)).copied().unwrap_or(F::ZERO),
            _ => self.rec.instance.get(c).and_then(|v| v.get(r)).copied().unwrap_or(F::ZERO),
        };
        for (a, b) in &self.rec.copies {
            if val(*a) != val(*b) {
                bad.push(VerifyFailure::Permutation { left: *a, right: *b });
            }
        }
        if bad.is_empty() {
            Ok(())
        } else {
            Err(bad)
        }
    }
    pub fn assert_satisfied(&self) {
        if let Err(e) = self.verify() {
            panic!("circuit was not satisfied: {e:?}");
        }
    }
    pub fn recorder(&self) -> &Recorder<F> {
        &self.rec
    }
    pub fn recorder_mut(&mut self) -> &mut Recorder<F> {
        &mut self.rec
    }
    pub fn cs(&self) -> &ConstraintSystem<F> {
        &self.cs
    }
}
