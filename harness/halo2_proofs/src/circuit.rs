//! Regions, layouters and the simple floor planner.
use crate::plonk::{
    Advice, Any, Assigned, Assignment, Circuit, Column, Error, Fixed, FloorPlanner, Instance, Selector, TableColumn,
    TableError,
};
use ff::Field;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::marker::PhantomData;

mod value;
pub use value::Value;

pub trait Chip<F: Field>: Sized {
    type Config: fmt::Debug + Clone;
    type Loaded: fmt::Debug + Clone;
    fn config(&self) -> &Self::Config;
    fn loaded(&self) -> &Self::Loaded;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RegionIndex(usize);
impl std::ops::Deref for RegionIndex {
    type Target = usize;
    fn deref(&self) -> &usize {
        &self.0
    }
}
impl From<usize> for RegionIndex {
    fn from(i: usize) -> Self {
        RegionIndex(i)
    }
}

/// a cell, relative to its region
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cell {
    pub region_index: RegionIndex,
    pub row_offset: usize,
    pub column: Column<Any>,
}

#[derive(Clone, Debug)]
pub struct AssignedCell<V, F: Field> {
    value: Value<V>,
    cell: Cell,
    _marker: PhantomData<F>,
}
impl<V, F: Field> AssignedCell<V, F> {
    pub fn value(&self) -> Value<&V> {
        self.value.as_ref()
    }
    pub fn cell(&self) -> Cell {
        self.cell
    }
}
impl<V, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn value_field(&self) -> Value<Assigned<F>> {
        self.value.to_field()
    }
}
impl<F: Field> AssignedCell<Assigned<F>, F> {
    pub fn evaluate(self) -> AssignedCell<F, F> {
        AssignedCell { value: self.value.map(|v| v.evaluate()), cell: self.cell, _marker: PhantomData }
    }
}
impl<V: Clone, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn copy_advice<A, AR>(&self, annotation: A, region: &mut Region<'_, F>, column: Column<Advice>, offset: usize) -> Result<Self, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let c = region.assign_advice(annotation, column, offset, || self.value.clone())?;
        region.constrain_equal(c.cell, self.cell)?;
        Ok(c)
    }
}

/// what a region talks to
pub trait RegionLayouter<F: Field>: fmt::Debug {
    fn enable_selector(&mut self, selector: &Selector, offset: usize) -> Result<(), Error>;
    fn assign_advice(&mut self, column: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error>;
    fn assign_advice_from_constant(&mut self, column: Column<Advice>, offset: usize, constant: Assigned<F>) -> Result<Cell, Error>;
    fn assign_advice_from_instance(&mut self, instance: Column<Instance>, row: usize, advice: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error>;
    fn instance_value(&mut self, instance: Column<Instance>, row: usize) -> Result<Value<F>, Error>;
    fn assign_fixed(&mut self, column: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error>;
    fn constrain_constant(&mut self, cell: Cell, constant: Assigned<F>) -> Result<(), Error>;
    fn constrain_equal(&mut self, left: Cell, right: Cell) -> Result<(), Error>;
    fn query_advice(&self, column: Column<Advice>, offset: usize) -> Result<F, Error>;
    fn query_fixed(&self, column: Column<Fixed>, offset: usize) -> Result<F, Error>;
    fn global_offset(&self, offset: usize) -> usize;
}

#[derive(Debug)]
pub struct Region<'r, F: Field> {
    region: &'r mut dyn RegionLayouter<F>,
}
impl<'r, F: Field> From<&'r mut dyn RegionLayouter<F>> for Region<'r, F> {
    fn from(region: &'r mut dyn RegionLayouter<F>) -> Self {
        Region { region }
    }
}
impl<'r, F: Field> Region<'r, F> {
    pub(crate) fn enable_selector<A: Fn() -> AR, AR: Into<String>>(&mut self, _a: A, selector: &Selector, offset: usize) -> Result<(), Error> {
        self.region.enable_selector(selector, offset)
    }
    pub fn name_column<A: Fn() -> AR, AR: Into<String>, T: Into<Column<Any>>>(&mut self, _a: A, _c: T) {}
    pub fn assign_advice<'v, V, VR, A, AR>(&'v mut self, _annotation: A, column: Column<Advice>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let mut value = Value::unknown();
        let cell = self.region.assign_advice(column, offset, &mut || {
            let v = to();
            let f = v.to_field();
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn assign_advice_from_constant<VR, A, AR>(&mut self, _annotation: A, column: Column<Advice>, offset: usize, constant: VR) -> Result<AssignedCell<VR, F>, Error>
    where
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let cell = self.region.assign_advice_from_constant(column, offset, (&constant).into())?;
        Ok(AssignedCell { value: Value::known(constant), cell, _marker: PhantomData })
    }
    pub fn assign_advice_from_instance<A, AR>(&mut self, _a: A, instance: Column<Instance>, row: usize, advice: Column<Advice>, offset: usize) -> Result<AssignedCell<F, F>, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let (cell, value) = self.region.assign_advice_from_instance(instance, row, advice, offset)?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn instance_value(&mut self, instance: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.region.instance_value(instance, row)
    }
    pub fn assign_fixed<'v, V, VR, A, AR>(&'v mut self, _annotation: A, column: Column<Fixed>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let mut value = Value::unknown();
        let cell = self.region.assign_fixed(column, offset, &mut || {
            let v = to();
            let f = v.to_field();
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn constrain_constant<VR>(&mut self, cell: Cell, constant: VR) -> Result<(), Error>
    where
        VR: Into<Assigned<F>>,
    {
        self.region.constrain_constant(cell, constant.into())
    }
    pub fn constrain_equal(&mut self, left: Cell, right: Cell) -> Result<(), Error> {
        self.region.constrain_equal(left, right)
    }
    pub fn query_advice(&self, column: Column<Advice>, offset: usize) -> Result<F, Error> {
        self.region.query_advice(column, offset)
    }
    pub fn query_fixed(&self, column: Column<Fixed>, offset: usize) -> Result<F, Error> {
        self.region.query_fixed(column, offset)
    }
    pub fn global_offset(&self, offset: usize) -> usize {
        self.region.global_offset(offset)
    }
}

pub trait TableLayouter<F: Field>: fmt::Debug {
    fn assign_cell(&mut self, column: TableColumn, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error>;
}
#[derive(Debug)]
pub struct Table<'r, F: Field> {
    table: &'r mut dyn TableLayouter<F>,
}
impl<'r, F: Field> Table<'r, F> {
    pub fn assign_cell<'v, V, VR, A, AR>(&'v mut self, _annotation: A, column: TableColumn, offset: usize, mut to: V) -> Result<(), Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        VR: Into<Assigned<F>>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        self.table.assign_cell(column, offset, &mut || to().into_field())
    }
}

pub trait Layouter<F: Field> {
    type Root: Layouter<F>;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error>;
    fn get_root(&mut self) -> &mut Self::Root;
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR;
    fn pop_namespace(&mut self, gadget_name: Option<String>);
    fn namespace<NR, N>(&mut self, name_fn: N) -> NamespacedLayouter<'_, F, Self::Root>
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.get_root().push_namespace(name_fn);
        NamespacedLayouter(self.get_root(), PhantomData)
    }
}

#[derive(Debug)]
pub struct NamespacedLayouter<'a, F: Field, L: Layouter<F> + 'a>(&'a mut L, PhantomData<F>);
impl<'a, F: Field, L: Layouter<F> + 'a> Layouter<F> for NamespacedLayouter<'a, F, L> {
    type Root = L::Root;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_region(name, assignment)
    }
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_regions(name, assignments)
    }
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_table(name, assignment)
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        self.0.constrain_instance(cell, column, row)
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self.0.get_root()
    }
    fn push_namespace<NR, N>(&mut self, _name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        panic!("Only the root's push_namespace should be called")
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        panic!("Only the root's pop_namespace should be called")
    }
}
impl<'a, F: Field, L: Layouter<F> + 'a> Drop for NamespacedLayouter<'a, F, L> {
    fn drop(&mut self) {
        self.get_root().pop_namespace(None);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum RCol {
    Col(u8, usize),
    Sel(usize),
}
fn rcol(c: Column<Any>) -> RCol {
    match c.column_type() {
        Any::Advice(_) => RCol::Col(0, c.index()),
        Any::Fixed => RCol::Col(1, c.index()),
        Any::Instance => RCol::Col(2, c.index()),
    }
}

/// measures a region
#[derive(Debug)]
struct Shape {
    index: RegionIndex,
    columns: BTreeSet<RCol>,
    rows: usize,
}
impl Shape {
    fn touch(&mut self, c: RCol, offset: usize) {
        self.columns.insert(c);
        self.rows = self.rows.max(offset + 1);
    }
    fn cell(&self, column: Column<Any>, row_offset: usize) -> Cell {
        Cell { region_index: self.index, row_offset, column }
    }
}
impl<F: Field> RegionLayouter<F> for Shape {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        self.touch(RCol::Sel(s.index()), offset);
        Ok(())
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, _to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        self.touch(rcol(c.into()), offset);
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, _k: Assigned<F>) -> Result<Cell, Error> {
        self.touch(rcol(c.into()), offset);
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_instance(&mut self, _i: Column<Instance>, _row: usize, c: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error> {
        self.touch(rcol(c.into()), offset);
        Ok((self.cell(c.into(), offset), Value::unknown()))
    }
    fn instance_value(&mut self, _i: Column<Instance>, _row: usize) -> Result<Value<F>, Error> {
        Ok(Value::unknown())
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, _to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        self.touch(rcol(c.into()), offset);
        Ok(self.cell(c.into(), offset))
    }
    fn constrain_constant(&mut self, _c: Cell, _k: Assigned<F>) -> Result<(), Error> {
        Ok(())
    }
    fn constrain_equal(&mut self, _l: Cell, _r: Cell) -> Result<(), Error> {
        Ok(())
    }
    fn query_advice(&self, _c: Column<Advice>, _o: usize) -> Result<F, Error> {
        Ok(F::ZERO)
    }
    fn query_fixed(&self, _c: Column<Fixed>, _o: usize) -> Result<F, Error> {
        Ok(F::ZERO)
    }
    fn global_offset(&self, offset: usize) -> usize {
        offset
    }
}

/// writes a region into the backend
struct Writer<'c, F: Field, CS: Assignment<F>> {
    cs: &'c mut CS,
    starts: &'c [usize],
    index: RegionIndex,
    constants: Vec<(Assigned<F>, Cell)>,
}
impl<F: Field, CS: Assignment<F>> fmt::Debug for Writer<'_, F, CS> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Writer({:?})", self.index)
    }
}
impl<F: Field, CS: Assignment<F>> Writer<'_, F, CS> {
    fn row(&self, offset: usize) -> usize {
        self.starts[*self.index] + offset
    }
    fn cell(&self, column: Column<Any>, row_offset: usize) -> Cell {
        Cell { region_index: self.index, row_offset, column }
    }
}
impl<F: Field, CS: Assignment<F>> RegionLayouter<F> for Writer<'_, F, CS> {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        let r = self.row(offset);
        self.cs.enable_selector(s, r)
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        let r = self.row(offset);
        let v = if self.cs.witness() { to().map(|x| x.evaluate()) } else { Value::unknown() };
        self.cs.assign_advice(c, r, v)?;
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, k: Assigned<F>) -> Result<Cell, Error> {
        let cell = self.assign_advice(c, offset, &mut || Value::known(k))?;
        self.constrain_constant(cell, k)?;
        Ok(cell)
    }
    fn assign_advice_from_instance(&mut self, i: Column<Instance>, row: usize, c: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error> {
        let v = self.cs.query_instance(i, row)?;
        let cell = self.assign_advice(c, offset, &mut || v.to_field())?;
        let r = self.row(offset);
        self.cs.copy(c.into(), r, i.into(), row)?;
        Ok((cell, v))
    }
    fn instance_value(&mut self, i: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.cs.query_instance(i, row)
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        let r = self.row(offset);
        self.cs.assign_fixed(c, r, to().map(|x| x.evaluate()))?;
        Ok(self.cell(c.into(), offset))
    }
    fn constrain_constant(&mut self, c: Cell, k: Assigned<F>) -> Result<(), Error> {
        self.constants.push((k, c));
        Ok(())
    }
    fn constrain_equal(&mut self, l: Cell, r: Cell) -> Result<(), Error> {
        self.cs.copy(
            l.column,
            self.starts[*l.region_index] + l.row_offset,
            r.column,
            self.starts[*r.region_index] + r.row_offset,
        )
    }
    fn query_advice(&self, c: Column<Advice>, o: usize) -> Result<F, Error> {
        self.cs.query_advice(c, self.row(o))
    }
    fn query_fixed(&self, c: Column<Fixed>, o: usize) -> Result<F, Error> {
        self.cs.query_fixed(c, self.row(o))
    }
    fn global_offset(&self, offset: usize) -> usize {
        self.row(offset)
    }
}

#[derive(Debug)]
struct SimpleTable<F: Field> {
    cells: BTreeMap<TableColumn, BTreeMap<usize, Value<Assigned<F>>>>,
    used: Vec<TableColumn>,
}
impl<F: Field> TableLayouter<F> for SimpleTable<F> {
    fn assign_cell(&mut self, c: TableColumn, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error> {
        if self.used.contains(&c) {
            return Err(TableError::UsedColumn(c).into());
        }
        let e = self.cells.entry(c).or_default();
        if offset == 0 && e.contains_key(&0) {
            return Err(TableError::OverwriteDefault(c, String::new(), String::new()).into());
        }
        e.insert(offset, to());
        Ok(())
    }
}

/// places every region below what its columns already hold
pub struct SingleChipLayouter<'a, F: Field, CS: Assignment<F>> {
    cs: &'a mut CS,
    constants: Vec<Column<Fixed>>,
    starts: Vec<usize>,
    columns: BTreeMap<RCol, usize>,
    table_columns: Vec<TableColumn>,
    _m: PhantomData<F>,
}
impl<F: Field, CS: Assignment<F>> fmt::Debug for SingleChipLayouter<'_, F, CS> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SingleChipLayouter({:?})", self.starts)
    }
}
impl<'a, F: Field, CS: Assignment<F>> SingleChipLayouter<'a, F, CS> {
    pub fn new(cs: &'a mut CS, constants: Vec<Column<Fixed>>) -> Result<Self, Error> {
        Ok(SingleChipLayouter { cs, constants, starts: vec![], columns: BTreeMap::new(), table_columns: vec![], _m: PhantomData })
    }
    /// measures the region, reserves its rows, returns their number
    fn place<A, AR>(&mut self, assignment: &mut A) -> Result<usize, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
    {
        let index = self.starts.len();
        let mut shape = Shape { index: index.into(), columns: BTreeSet::new(), rows: 0 };
        {
            let r: &mut dyn RegionLayouter<F> = &mut shape;
            assignment(r.into())?;
        }
        let start = shape.columns.iter().map(|c| self.columns.get(c).copied().unwrap_or(0)).max().unwrap_or(0);
        self.starts.push(start);
        for c in shape.columns {
            self.columns.insert(c, start + shape.rows);
        }
        Ok(shape.rows)
    }
    fn put_constants(&mut self, constants: Vec<(Assigned<F>, Cell)>) -> Result<(), Error> {
        if self.constants.is_empty() {
            if !constants.is_empty() {
                return Err(Error::NotEnoughColumnsForConstants);
            }
            return Ok(());
        }
        let col = self.constants[0];
        let key = rcol(col.into());
        for (k, cell) in constants {
            let row = self.columns.get(&key).copied().unwrap_or(0);
            self.cs.assign_fixed(col, row, Value::known(k.evaluate()))?;
            self.cs.copy(col.into(), row, cell.column, self.starts[*cell.region_index] + cell.row_offset)?;
            self.columns.insert(key, row + 1);
        }
        Ok(())
    }
}
impl<'a, F: Field, CS: Assignment<F>> Layouter<F> for SingleChipLayouter<'a, F, CS> {
    type Root = Self;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, mut assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.place(&mut assignment)?;
        self.cs.enter_region(name);
        let index = (self.starts.len() - 1).into();
        let mut w = Writer { cs: &mut *self.cs, starts: &self.starts, index, constants: vec![] };
        let res = {
            let r: &mut dyn RegionLayouter<F> = &mut w;
            assignment(r.into())?
        };
        let k = std::mem::take(&mut w.constants);
        self.cs.exit_region();
        self.put_constants(k)?;
        Ok(res)
    }
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, mut assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let first = self.starts.len();
        let mut ranges = vec![];
        for a in assignments.iter_mut() {
            let rows = self.place(a)?;
            let start = *self.starts.last().unwrap();
            ranges.push(start..start + rows);
        }
        let title: String = name().into();
        self.cs.enter_region(|| title.clone());
        self.cs.exit_region();
        let starts = &self.starts;
        let mut subs: Vec<CS> = ranges.iter().map(|r| self.cs.fork(r.clone())).collect();
        let results: Vec<Result<(AR, Vec<(Assigned<F>, Cell)>), Error>> = std::thread::scope(|s| {
            let hs: Vec<_> = assignments
                .iter_mut()
                .zip(subs.iter_mut())
                .enumerate()
                .map(|(i, (a, cs))| {
                    s.spawn(move || {
                        let mut w = Writer { cs, starts, index: (first + i).into(), constants: vec![] };
                        let res = {
                            let r: &mut dyn RegionLayouter<F> = &mut w;
                            a(r.into())?
                        };
                        Ok((res, std::mem::take(&mut w.constants)))
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
                .collect()
        });
        self.cs.merge(subs)?;
        let (mut out, mut ks) = (vec![], vec![]);
        for r in results {
            let (x, k) = r?;
            out.push(x);
            ks.extend(k);
        }
        self.put_constants(ks)?;
        Ok(out)
    }
    fn assign_table<A, N, NR>(&mut self, name: N, mut assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.cs.enter_region(name);
        let mut t = SimpleTable { cells: BTreeMap::new(), used: self.table_columns.clone() };
        assignment(Table { table: &mut t })?;
        self.cs.exit_region();
        let mut len: Option<(TableColumn, usize)> = None;
        for (c, cells) in &t.cells {
            let n = cells.len();
            if cells.is_empty() || *cells.keys().last().unwrap() != n - 1 {
                return Err(TableError::ColumnNotAssigned(*c).into());
            }
            match len {
                None => len = Some((*c, n)),
                Some((d, m)) if m != n => return Err(TableError::UnevenColumnLengths((d, m), (*c, n)).into()),
                _ => {}
            }
        }
        for (c, cells) in t.cells {
            let n = cells.len();
            for (row, v) in &cells {
                self.cs.assign_fixed(c.inner(), *row, v.map(|x| x.evaluate()))?;
            }
            self.cs.fill_from_row(c.inner(), n, cells[&0].map(|x| x.evaluate()))?;
            self.table_columns.push(c);
        }
        Ok(())
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        self.cs.copy(cell.column, self.starts[*cell.region_index] + cell.row_offset, column.into(), row)
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
    fn push_namespace<NR, N>(&mut self, _n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _g: Option<String>) {}
}

pub struct SimpleFloorPlanner;
impl FloorPlanner for SimpleFloorPlanner {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(cs: &mut CS, circuit: &C, config: C::Config, constants: Vec<Column<Fixed>>) -> Result<(), Error> {
        let layouter = SingleChipLayouter::new(cs, constants)?;
        circuit.synthesize(config, layouter)
    }
}
