//! Writes a recorded circuit as JSON: the constraint system as an expression DAG, the fixed part, the witness.
use halo2_proofs::dev::Recorder;
use halo2_proofs::plonk::{ConstraintSystem, Expression};
use std::collections::HashMap;
use vcommon::FJ;

/// interned field values; index 1 is zero (indices are 1-based, as TLA+ sequences are)
pub struct Vals {
    map: HashMap<String, usize>,
    list: Vec<String>,
}
impl Vals {
    pub fn new<F: FJ>() -> Self {
        let mut v = Vals { map: HashMap::new(), list: vec![] };
        v.id(&F::ZERO);
        v
    }
    pub fn id<F: FJ>(&mut self, x: &F) -> usize {
        let s = x.j();
        if let Some(i) = self.map.get(&s) {
            return *i;
        }
        self.list.push(s.clone());
        self.map.insert(s, self.list.len());
        self.list.len()
    }
    pub fn json(&self) -> String {
        format!("[{}]", self.list.join(","))
    }
}

struct Nodes {
    map: HashMap<String, usize>,
    list: Vec<String>,
}
impl Nodes {
    fn put(&mut self, s: String) -> usize {
        if let Some(i) = self.map.get(&s) {
            return *i;
        }
        self.list.push(s.clone());
        self.map.insert(s, self.list.len());
        self.list.len()
    }
    fn expr<F: FJ>(&mut self, e: &Expression<F>, v: &mut Vals) -> usize {
        let s = match e {
            Expression::Constant(c) => format!("{{\"t\":\"c\",\"v\":{}}}", v.id(c)),
            Expression::Selector(s) => format!("{{\"t\":\"s\",\"c\":{}}}", s.index()),
            Expression::Fixed(q) => format!("{{\"t\":\"f\",\"c\":{},\"r\":{}}}", q.column_index(), q.rotation().0),
            Expression::Advice(q) => format!("{{\"t\":\"a\",\"c\":{},\"r\":{}}}", q.column_index(), q.rotation().0),
            Expression::Instance(_) => panic!("no instance columns here"),
            Expression::Negated(a) => format!("{{\"t\":\"n\",\"a\":{}}}", self.expr(a, v)),
            Expression::Sum(a, b) => {
                let a = self.expr(a, v);
                format!("{{\"t\":\"+\",\"a\":{a},\"b\":{}}}", self.expr(b, v))
            }
            Expression::Product(a, b) => {
                let a = self.expr(a, v);
                format!("{{\"t\":\"*\",\"a\":{a},\"b\":{}}}", self.expr(b, v))
            }
            Expression::Scaled(a, k) => {
                let a = self.expr(a, v);
                format!("{{\"t\":\"k\",\"a\":{a},\"v\":{}}}", v.id(k))
            }
        };
        self.put(s)
    }
}

pub fn grid<T: Fn(usize, usize) -> usize>(cols: usize, rows: usize, f: T) -> String {
    let c: Vec<String> = (0..cols)
        .map(|c| format!("[{}]", (0..rows).map(|r| f(c, r).to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    format!("[{}]", c.join(","))
}

/// `extra` is put into the object verbatim (must be empty or start with a comma)
pub fn circuit<F: FJ>(cs: &ConstraintSystem<F>, rec: &Recorder<F>, extra: impl FnOnce(&mut Vals) -> String) -> String {
    let mut v = Vals::new::<F>();
    let mut n = Nodes { map: HashMap::new(), list: vec![] };
    let mut polys = vec![];
    for g in cs.gates() {
        for p in g.polynomials() {
            let e = n.expr(p, &mut v);
            polys.push(format!("{{\"g\":{:?},\"e\":{e}}}", g.name()));
        }
    }
    let mut lks = vec![];
    for l in cs.lookups() {
        let i: Vec<String> = l.input.iter().map(|e| n.expr(e, &mut v).to_string()).collect();
        let t: Vec<String> = l.table.iter().map(|e| n.expr(e, &mut v).to_string()).collect();
        lks.push(format!("{{\"g\":{:?},\"in\":[{}],\"tab\":[{}]}}", l.name, i.join(","), t.join(",")));
    }
    let mut fx = HashMap::new();
    for (k, x) in &rec.fixed {
        fx.insert(*k, v.id(x));
    }
    let mut ad = HashMap::new();
    for (k, x) in &rec.advice {
        ad.insert(*k, v.id(&x.unwrap_or(F::ZERO)));
    }
    let fixed = grid(cs.num_fixed_columns(), rec.n, |c, r| fx.get(&(c, r)).copied().unwrap_or(1));
    let adv = grid(cs.num_advice_columns(), rec.n, |c, r| ad.get(&(c, r)).copied().unwrap_or(1));
    let sel = grid(cs.num_selectors(), rec.n, |c, r| rec.selectors.contains(&(c, r)) as usize);
    let copies: Vec<String> = rec
        .copies
        .iter()
        .map(|(a, b)| format!("[{},{},{},{},{},{}]", a.0, a.1, a.2, b.0, b.1, b.2))
        .collect();
    let order: Vec<String> = rec.order.iter().map(|(c, r)| format!("[{c},{r}]")).collect();
    let ex = extra(&mut v);
    format!(
        "{{\"f\":{},\"n\":{},\"usable\":{},\"nodes\":[{}],\"polys\":[{}],\"lks\":[{}],\"fixed\":{fixed},\"sel\":{sel},\"adv\":{adv},\"copies\":[{}],\"order\":[{}],\"vals\":{}{ex}}}",
        F::desc(),
        rec.n,
        rec.usable,
        n.list.join(","),
        polys.join(","),
        lks.join(","),
        copies.join(","),
        order.join(","),
        v.json()
    )
}
