//! Constraint systems.
use crate::circuit::{Layouter, Region, Value};
use crate::poly::Rotation;
use ff::Field;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{self, Debug};
use std::iter::{Product as IterProduct, Sum as IterSum};
use std::ops::{Add, Mul, Neg, Sub};

mod assigned;
pub use assigned::Assigned;

pub trait ColumnType: 'static + Sized + Copy + Debug + PartialEq + Eq + Into<Any> + std::hash::Hash + Default {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Advice;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Fixed;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Instance;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Any {
    Advice(Advice),
    Fixed,
    Instance,
}
impl Default for Any {
    fn default() -> Any {
        Any::Advice(Advice)
    }
}
impl Any {
    pub fn advice() -> Any {
        Any::Advice(Advice)
    }
}
impl From<Advice> for Any {
    fn from(_: Advice) -> Any {
        Any::Advice(Advice)
    }
}
impl From<Fixed> for Any {
    fn from(_: Fixed) -> Any {
        Any::Fixed
    }
}
impl From<Instance> for Any {
    fn from(_: Instance) -> Any {
        Any::Instance
    }
}
impl ColumnType for Advice {}
impl ColumnType for Fixed {}
impl ColumnType for Instance {}
impl ColumnType for Any {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Column<C: ColumnType> {
    pub(crate) index: usize,
    pub(crate) column_type: C,
}
impl<C: ColumnType> Column<C> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn column_type(&self) -> &C {
        &self.column_type
    }
}
impl<C: ColumnType + Ord> Ord for Column<C> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.column_type.cmp(&o.column_type).then(self.index.cmp(&o.index))
    }
}
impl<C: ColumnType + Ord> PartialOrd for Column<C> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! toany {
    ($t:ty, $e:expr) => {
        impl From<Column<$t>> for Column<Any> {
            fn from(c: Column<$t>) -> Column<Any> {
                Column { index: c.index, column_type: $e }
            }
        }
        impl TryFrom<Column<Any>> for Column<$t> {
            type Error = &'static str;
            fn try_from(c: Column<Any>) -> Result<Self, &'static str> {
                if c.column_type == $e {
                    Ok(Column { index: c.index, column_type: Default::default() })
                } else {
                    Err("wrong column type")
                }
            }
        }
    };
}
toany!(Advice, Any::Advice(Advice));
toany!(Fixed, Any::Fixed);
toany!(Instance, Any::Instance);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TableColumn {
    pub(crate) inner: Column<Fixed>,
}
impl TableColumn {
    pub fn inner(&self) -> Column<Fixed> {
        self.inner
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Selector(pub usize, pub(crate) bool);
impl Selector {
    pub fn enable<F: Field>(&self, region: &mut Region<F>, offset: usize) -> Result<(), Error> {
        region.enable_selector(|| "", self, offset)
    }
    pub fn is_simple(&self) -> bool {
        self.1
    }
    pub fn index(&self) -> usize {
        self.0
    }
}

pub trait Phase {}
#[derive(Clone, Copy, Debug)]
pub struct FirstPhase;
#[derive(Clone, Copy, Debug)]
pub struct SecondPhase;
#[derive(Clone, Copy, Debug)]
pub struct ThirdPhase;
impl Phase for FirstPhase {}
impl Phase for SecondPhase {}
impl Phase for ThirdPhase {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Challenge {
    pub(crate) index: usize,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct FixedQuery {
    pub(crate) column_index: usize,
    pub(crate) rotation: Rotation,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct AdviceQuery {
    pub(crate) column_index: usize,
    pub(crate) rotation: Rotation,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct InstanceQuery {
    pub(crate) column_index: usize,
    pub(crate) rotation: Rotation,
}
macro_rules! q {
    ($t:ty) => {
        impl $t {
            pub fn column_index(&self) -> usize {
                self.column_index
            }
            pub fn rotation(&self) -> Rotation {
                self.rotation
            }
        }
    };
}
q!(FixedQuery);
q!(AdviceQuery);
q!(InstanceQuery);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Expression<F> {
    Constant(F),
    Selector(Selector),
    Fixed(FixedQuery),
    Advice(AdviceQuery),
    Instance(InstanceQuery),
    Negated(Box<Expression<F>>),
    Sum(Box<Expression<F>>, Box<Expression<F>>),
    Product(Box<Expression<F>>, Box<Expression<F>>),
    Scaled(Box<Expression<F>>, F),
}
impl<F: Field> Expression<F> {
    pub fn evaluate<T>(
        &self,
        constant: &impl Fn(F) -> T,
        selector: &impl Fn(Selector) -> T,
        fixed: &impl Fn(FixedQuery) -> T,
        advice: &impl Fn(AdviceQuery) -> T,
        instance: &impl Fn(InstanceQuery) -> T,
        negated: &impl Fn(T) -> T,
        sum: &impl Fn(T, T) -> T,
        product: &impl Fn(T, T) -> T,
        scaled: &impl Fn(T, F) -> T,
    ) -> T {
        let go = |e: &Expression<F>| e.evaluate(constant, selector, fixed, advice, instance, negated, sum, product, scaled);
        match self {
            Expression::Constant(c) => constant(*c),
            Expression::Selector(s) => selector(*s),
            Expression::Fixed(q) => fixed(*q),
            Expression::Advice(q) => advice(*q),
            Expression::Instance(q) => instance(*q),
            Expression::Negated(a) => negated(go(a)),
            Expression::Sum(a, b) => {
                let a = go(a);
                sum(a, go(b))
            }
            Expression::Product(a, b) => {
                let a = go(a);
                product(a, go(b))
            }
            Expression::Scaled(a, f) => scaled(go(a), *f),
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Expression::Constant(_) => 0,
            Expression::Selector(_) | Expression::Fixed(_) | Expression::Advice(_) | Expression::Instance(_) => 1,
            Expression::Negated(a) | Expression::Scaled(a, _) => a.degree(),
            Expression::Sum(a, b) => a.degree().max(b.degree()),
            Expression::Product(a, b) => a.degree() + b.degree(),
        }
    }
    pub fn square(self) -> Self {
        self.clone() * self
    }
    fn contains_simple_selector(&self) -> bool {
        self.evaluate(&|_| false, &|s| s.is_simple(), &|_| false, &|_| false, &|_| false, &|a| a, &|a, b| a || b, &|a, b| a || b, &|a, _| a)
    }
}
impl<F: Field> Neg for Expression<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Expression::Negated(Box::new(self))
    }
}
impl<F: Field> Add for Expression<F> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.contains_simple_selector() || o.contains_simple_selector() {
            panic!("attempted to use a simple selector in an addition");
        }
        Expression::Sum(Box::new(self), Box::new(o))
    }
}
impl<F: Field> Sub for Expression<F> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        if self.contains_simple_selector() || o.contains_simple_selector() {
            panic!("attempted to use a simple selector in a subtraction");
        }
        Expression::Sum(Box::new(self), Box::new(-o))
    }
}
impl<F: Field> Mul for Expression<F> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        if self.contains_simple_selector() && o.contains_simple_selector() {
            panic!("attempted to multiply two expressions containing simple selectors");
        }
        Expression::Product(Box::new(self), Box::new(o))
    }
}
impl<F: Field> Mul<F> for Expression<F> {
    type Output = Self;
    fn mul(self, o: F) -> Self {
        Expression::Scaled(Box::new(self), o)
    }
}
impl<F: Field> IterSum<Self> for Expression<F> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.reduce(|a, x| a + x).unwrap_or(Expression::Constant(F::ZERO))
    }
}
impl<F: Field> IterProduct<Self> for Expression<F> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.reduce(|a, x| a * x).unwrap_or(Expression::Constant(F::ONE))
    }
}

/// an individual polynomial constraint
#[derive(Clone, Debug)]
pub struct Constraint<F: Field> {
    pub(crate) name: String,
    pub(crate) poly: Expression<F>,
}
impl<F: Field> From<Expression<F>> for Constraint<F> {
    fn from(poly: Expression<F>) -> Self {
        Constraint { name: String::new(), poly }
    }
}
impl<F: Field, S: AsRef<str>> From<(S, Expression<F>)> for Constraint<F> {
    fn from((name, poly): (S, Expression<F>)) -> Self {
        Constraint { name: name.as_ref().to_string(), poly }
    }
}
impl<F: Field> From<Expression<F>> for Vec<Constraint<F>> {
    fn from(poly: Expression<F>) -> Self {
        vec![poly.into()]
    }
}

/// constraints with a common selector
#[derive(Clone, Debug)]
pub struct Constraints<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> {
    selector: Expression<F>,
    constraints: Iter,
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> Constraints<F, C, Iter> {
    pub fn with_selector(selector: Expression<F>, constraints: Iter) -> Self {
        Constraints { selector, constraints }
    }
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> IntoIterator for Constraints<F, C, Iter> {
    type Item = Constraint<F>;
    type IntoIter = std::vec::IntoIter<Constraint<F>>;
    fn into_iter(self) -> Self::IntoIter {
        let s = self.selector;
        self.constraints
            .into_iter()
            .map(|c| {
                let c: Constraint<F> = c.into();
                Constraint { name: c.name, poly: s.clone() * c.poly }
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

#[derive(Clone, Debug)]
pub struct Gate<F: Field> {
    pub(crate) name: String,
    pub(crate) polys: Vec<Expression<F>>,
}
impl<F: Field> Gate<F> {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn polynomials(&self) -> &[Expression<F>] {
        &self.polys
    }
}

#[derive(Clone, Debug)]
pub struct Lookup<F: Field> {
    pub name: String,
    pub input: Vec<Expression<F>>,
    pub table: Vec<Expression<F>>,
}

#[derive(Clone, Debug)]
pub struct ConstraintSystem<F: Field> {
    pub(crate) num_fixed_columns: usize,
    pub(crate) num_advice_columns: usize,
    pub(crate) num_instance_columns: usize,
    pub(crate) num_selectors: usize,
    pub(crate) num_challenges: usize,
    pub(crate) gates: Vec<Gate<F>>,
    pub(crate) lookups: Vec<Lookup<F>>,
    pub(crate) equality: Vec<Column<Any>>,
    pub(crate) constants: Vec<Column<Fixed>>,
    pub(crate) advice_queries: Vec<(usize, Rotation)>,
    pub(crate) minimum_degree: Option<usize>,
    pub(crate) annotations: BTreeMap<String, String>,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        ConstraintSystem {
            num_fixed_columns: 0,
            num_advice_columns: 0,
            num_instance_columns: 0,
            num_selectors: 0,
            num_challenges: 0,
            gates: vec![],
            lookups: vec![],
            equality: vec![],
            constants: vec![],
            advice_queries: vec![],
            minimum_degree: None,
            annotations: BTreeMap::new(),
        }
    }
}
impl<F: Field> ConstraintSystem<F> {
    pub fn advice_column(&mut self) -> Column<Advice> {
        self.num_advice_columns += 1;
        Column { index: self.num_advice_columns - 1, column_type: Advice }
    }
    pub fn advice_column_in<P: Phase>(&mut self, _phase: P) -> Column<Advice> {
        self.advice_column()
    }
    pub fn fixed_column(&mut self) -> Column<Fixed> {
        self.num_fixed_columns += 1;
        Column { index: self.num_fixed_columns - 1, column_type: Fixed }
    }
    pub fn instance_column(&mut self) -> Column<Instance> {
        self.num_instance_columns += 1;
        Column { index: self.num_instance_columns - 1, column_type: Instance }
    }
    pub fn lookup_table_column(&mut self) -> TableColumn {
        TableColumn { inner: self.fixed_column() }
    }
    pub fn selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, true)
    }
    pub fn complex_selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, false)
    }
    pub fn challenge_usable_after<P: Phase>(&mut self, _p: P) -> Challenge {
        self.num_challenges += 1;
        Challenge { index: self.num_challenges - 1 }
    }
    pub fn enable_equality<C: Into<Column<Any>>>(&mut self, column: C) {
        let c = column.into();
        if !self.equality.contains(&c) {
            self.equality.push(c);
        }
    }
    pub fn enable_constant(&mut self, column: Column<Fixed>) {
        if !self.constants.contains(&column) {
            self.constants.push(column);
            self.enable_equality(column);
        }
    }
    pub fn create_gate<C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>, S: AsRef<str>>(
        &mut self,
        name: S,
        constraints: impl FnOnce(&mut VirtualCells<'_, F>) -> Iter,
    ) {
        let mut cells = VirtualCells { meta: self };
        let polys: Vec<Expression<F>> = constraints(&mut cells).into_iter().map(|c| c.into().poly).collect();
        assert!(!polys.is_empty(), "Gates must contain at least one constraint.");
        self.gates.push(Gate { name: name.as_ref().to_string(), polys });
    }
    pub fn lookup<S: AsRef<str>>(
        &mut self,
        name: S,
        table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, TableColumn)>,
    ) -> usize {
        let mut cells = VirtualCells { meta: self };
        let m = table_map(&mut cells);
        let (mut input, mut table) = (vec![], vec![]);
        for (i, t) in m {
            if i.contains_simple_selector() {
                panic!("expression containing simple selector supplied to lookup argument");
            }
            input.push(i);
            table.push(Expression::Fixed(FixedQuery { column_index: t.inner.index, rotation: Rotation(0) }));
        }
        self.lookups.push(Lookup { name: name.as_ref().to_string(), input, table });
        self.lookups.len() - 1
    }
    pub fn lookup_any<S: AsRef<str>>(
        &mut self,
        name: S,
        table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, Expression<F>)>,
    ) -> usize {
        let mut cells = VirtualCells { meta: self };
        let (input, table) = table_map(&mut cells).into_iter().unzip();
        self.lookups.push(Lookup { name: name.as_ref().to_string(), input, table });
        self.lookups.len() - 1
    }
    pub fn set_minimum_degree(&mut self, d: usize) {
        self.minimum_degree = Some(d);
    }
    pub fn annotate_lookup_column<A: Fn() -> AR, AR: Into<String>>(&mut self, _c: TableColumn, _a: A) {}
    pub fn annotate_lookup_any_column<A: Fn() -> AR, AR: Into<String>, T>(&mut self, _c: T, _a: A) {}
    pub fn gates(&self) -> &[Gate<F>] {
        &self.gates
    }
    pub fn lookups(&self) -> &[Lookup<F>] {
        &self.lookups
    }
    pub fn num_advice_columns(&self) -> usize {
        self.num_advice_columns
    }
    pub fn num_fixed_columns(&self) -> usize {
        self.num_fixed_columns
    }
    pub fn num_instance_columns(&self) -> usize {
        self.num_instance_columns
    }
    pub fn num_selectors(&self) -> usize {
        self.num_selectors
    }
    pub fn constants(&self) -> &Vec<Column<Fixed>> {
        &self.constants
    }
    pub fn equality_columns(&self) -> &[Column<Any>] {
        &self.equality
    }
    pub fn degree(&self) -> usize {
        let mut d = 3.max(self.minimum_degree.unwrap_or(1));
        for g in &self.gates {
            for p in &g.polys {
                d = d.max(p.degree());
            }
        }
        for l in &self.lookups {
            let i = l.input.iter().map(|e| e.degree()).max().unwrap_or(1).max(1);
            let t = l.table.iter().map(|e| e.degree()).max().unwrap_or(1).max(1);
            d = d.max(4.max(2 + i + t));
        }
        d
    }
    /// as in halo2: the most queries of one advice column (at least 3), plus two
    pub fn blinding_factors(&self) -> usize {
        let mut per = vec![0usize; self.num_advice_columns];
        for (c, _) in &self.advice_queries {
            per[*c] += 1;
        }
        3.max(per.into_iter().max().unwrap_or(1)) + 2
    }
    pub fn minimum_rows(&self) -> usize {
        self.blinding_factors() + 3
    }
    fn query_adv(&mut self, c: usize, r: Rotation) {
        if !self.advice_queries.contains(&(c, r)) {
            self.advice_queries.push((c, r));
        }
    }
}

#[derive(Debug)]
pub struct VirtualCells<'a, F: Field> {
    meta: &'a mut ConstraintSystem<F>,
}
impl<'a, F: Field> VirtualCells<'a, F> {
    pub fn query_selector(&mut self, s: Selector) -> Expression<F> {
        Expression::Selector(s)
    }
    pub fn query_fixed(&mut self, column: Column<Fixed>, at: Rotation) -> Expression<F> {
        Expression::Fixed(FixedQuery { column_index: column.index, rotation: at })
    }
    pub fn query_advice(&mut self, column: Column<Advice>, at: Rotation) -> Expression<F> {
        self.meta.query_adv(column.index, at);
        Expression::Advice(AdviceQuery { column_index: column.index, rotation: at })
    }
    pub fn query_instance(&mut self, column: Column<Instance>, at: Rotation) -> Expression<F> {
        Expression::Instance(InstanceQuery { column_index: column.index, rotation: at })
    }
    pub fn query_any<C: Into<Column<Any>>>(&mut self, column: C, at: Rotation) -> Expression<F> {
        let c = column.into();
        match c.column_type {
            Any::Advice(_) => self.query_advice(Column { index: c.index, column_type: Advice }, at),
            Any::Fixed => self.query_fixed(Column { index: c.index, column_type: Fixed }, at),
            Any::Instance => self.query_instance(Column { index: c.index, column_type: Instance }, at),
        }
    }
}

#[derive(Debug)]
pub enum Error {
    Synthesis,
    InvalidInstances,
    ConstraintSystemFailure,
    BoundsFailure,
    Opening,
    Transcript(std::io::Error),
    NotEnoughRowsAvailable { current_k: u32 },
    InstanceTooLarge,
    NotEnoughColumnsForConstants,
    ColumnNotInPermutation(Column<Any>),
    TableError(TableError),
    /// assignment outside of the rows reserved for a parallel sub-region
    AssignOutOfRange(usize),
}
#[derive(Debug)]
pub enum TableError {
    ColumnNotAssigned(TableColumn),
    UnevenColumnLengths((TableColumn, usize), (TableColumn, usize)),
    UsedColumn(TableColumn),
    OverwriteDefault(TableColumn, String, String),
}
impl From<TableError> for Error {
    fn from(e: TableError) -> Error {
        Error::TableError(e)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn not_enough_rows_available(current_k: u32) -> Self {
        Error::NotEnoughRowsAvailable { current_k }
    }
}

/// backend of a layouter
pub trait Assignment<F: Field>: Sized + Send {
    /// false while keys are generated: the closures that compute advice values are not run
    fn witness(&self) -> bool {
        true
    }
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, name_fn: N);
    fn exit_region(&mut self);
    fn enable_selector(&mut self, selector: &Selector, row: usize) -> Result<(), Error>;
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error>;
    fn query_advice(&self, column: Column<Advice>, row: usize) -> Result<F, Error>;
    fn query_fixed(&self, column: Column<Fixed>, row: usize) -> Result<F, Error>;
    fn assign_advice(&mut self, column: Column<Advice>, row: usize, to: Value<F>) -> Result<(), Error>;
    fn assign_fixed(&mut self, column: Column<Fixed>, row: usize, to: Value<F>) -> Result<(), Error>;
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error>;
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<F>) -> Result<(), Error>;
    /// an empty backend for the given rows, to be merged later
    fn fork(&self, range: std::ops::Range<usize>) -> Self;
    fn merge(&mut self, sub: Vec<Self>) -> Result<(), Error>;
}

pub trait FloorPlanner {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(
        cs: &mut CS,
        circuit: &C,
        config: C::Config,
        constants: Vec<Column<Fixed>>,
    ) -> Result<(), Error>;
}

pub trait Circuit<F: Field> {
    type Config: Clone;
    type FloorPlanner: FloorPlanner;
    fn without_witnesses(&self) -> Self;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn synthesize(&self, config: Self::Config, layouter: impl Layouter<F>) -> Result<(), Error>;
}
