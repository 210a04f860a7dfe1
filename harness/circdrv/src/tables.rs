//! Hash-table circuits: honest ones, ones for the search, pairs of loading modes, declared digests, row budgets.
use crate::chips::{Ideal, LAST};
use crate::dump::circuit;
use crate::specs::HF;
use crate::table::*;
use halo2_proofs::dev::Recorder;
use halo2curves::bn256::Fr;
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, SeptidonChip};
use vcommon::*;

/// the remaining-length flag is multiplied by 2^SHIFT
const SHIFT: u32 = if cfg!(feature = "legacy") { 0 } else { 64 };

fn rows_full<F: FJ>(rows: &[Row<F>], step: usize) -> String {
    let v: Vec<String> = rows
        .iter()
        .map(|r| {
            format!(
                "{{\"w\":[{},{}],\"c\":{},\"last\":{},\"zero\":{},\"d\":{},\"hc\":{},\"ck\":{}}}",
                r.w[0].j(),
                r.w[1].j(),
                jcap((r.ctrl as u128) << SHIFT),
                r.ctrl <= step as u64,
                r.ctrl == 0,
                r.dom.unwrap_or(F::ZERO).j(),
                r.check.is_some(),
                r.check.unwrap_or(F::ZERO).j()
            )
        })
        .collect();
    format!("[{}]", v.join(","))
}

fn event<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, rows: &[Row<F>], calcs: usize, parallel: bool, trim: bool)
where
    PC::Config: Sync,
{
    let pr = F::pr(o);
    let t = raw_table(rows, trim);
    LAST.with(|l| *l.borrow_mut() = None);
    let b = build::<F, PC, STEP>(&t, calcs, parallel);
    let oracle = LAST.with(|l| {
        l.borrow().as_ref().map(|c| {
            let f = |x: &[halo2_proofs::plonk::Column<halo2_proofs::plonk::Advice>; 3]| {
                x.iter().map(|c| c.index().to_string()).collect::<Vec<_>>().join(",")
            };
            format!("\"oracle\":{{\"in\":[{}],\"out\":[{}]}},", f(&c.cols_in), f(&c.cols_out))
        })
    });
    let p = |cols: String| {
        format!(
            "\"prop\":{{\"k\":\"table\",\"field\":\"{}\",\"chip\":\"{}\",\"step\":{STEP},\"calcs\":{calcs},\"par\":{parallel},\"legacy\":{},\"pr\":{pr},{}{cols}\"qcol\":0,\"rows\":{}}}",
            F::NAME,
            PC::NAME,
            cfg!(feature = "legacy"),
            oracle.clone().unwrap_or_default(),
            rows_full(rows, STEP)
        )
    };
    match b {
        Err(e) => o.ev(&format!("{{\"refused\":{e:?},{}}}", p(String::new()))),
        Ok((cs, commit, cols, rec)) => {
            let s = circuit(&cs, &rec, |_| {
                format!(",\"refused\":\"\",{}", p(format!("\"cols\":{cols:?},\"commit\":{commit:?},")))
            });
            o.ev(&s)
        }
    }
}

fn mixed<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, r: &mut Rng, n: usize, max: usize)
where
    PC::Config: Sync,
{
    for i in 0..n {
        let rows = random_rows::<F>(r, STEP, max);
        // at least one spare row
        let calcs = rows.len() + 1 + r.below(3);
        event::<F, PC, STEP>(o, &rows, calcs, i % 2 == 1, r.below(3) == 0);
    }
}
/// tables with particular shapes
fn shapes<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, r: &mut Rng)
where
    PC::Config: Sync,
{
    let fix = |r: &mut Rng| message::<F>(r, STEP, 0);
    let mut zero = fix(r);
    zero[0].w = [F::ZERO; 2];
    zero[0].dom = None;
    let list: Vec<Vec<Row<F>>> = vec![
        vec![],
        fix(r),
        zero.clone(),
        message(r, STEP, 1),
        message(r, STEP, 2),
        message(r, STEP, 5),
        [message(r, STEP, 3), fix(r), message(r, STEP, 1), message(r, STEP, 2)].concat(),
        [fix(r), fix(r), message(r, STEP, 4)].concat(),
        [message(r, STEP, 2), zero, fix(r)].concat(),
    ];
    for (i, rows) in list.iter().enumerate() {
        event::<F, PC, STEP>(o, rows, rows.len() + 1, i % 2 == 0, false);
        if i < 2 {
            event::<F, PC, STEP>(o, rows, rows.len() + 4, i % 2 == 1, true);
        }
    }
    // flags: a last row with exactly the step and with the smallest flag, very long declared lengths
    for last in [1u64, STEP as u64, STEP as u64 - 1] {
        if last == 0 {
            continue;
        }
        let mut m = message::<F>(r, STEP, 3);
        for (i, x) in m.iter_mut().enumerate() {
            x.ctrl = last + (STEP * (2 - i)) as u64;
        }
        event::<F, PC, STEP>(o, &m, 4, last % 2 == 0, false);
    }
}

pub fn honest(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC11);
    let k = if deep { 8 } else { 1 };
    shapes::<Fr, SeptidonChip, 32>(o, r);
    shapes::<Fr, Pow5Chip<Fr, 3, 2>, 62>(o, r);
    shapes::<Toy<13, 57, 0>, SeptidonChip, 2>(o, r);
    shapes::<Toy<13, 4, 0>, Ideal, 1>(o, r);
    mixed::<Fr, SeptidonChip, 32>(o, r, 4 * k, 12);
    mixed::<Fr, SeptidonChip, 1>(o, r, 2 * k, 8);
    mixed::<Fr, Pow5Chip<Fr, 3, 2>, 32>(o, r, 3 * k, 6);
    mixed::<Fr, Ideal, 32>(o, r, 4 * k, 20);
    mixed::<Toy<31, 57, 1>, SeptidonChip, 2>(o, r, 8 * k, 10);
    mixed::<Toy<31, 57, 1>, Pow5Chip<Toy<31, 57, 1>, 3, 2>, 3>(o, r, 6 * k, 6);
    mixed::<Toy<10007, 4, 1>, Ideal, 31>(o, r, 20 * k, 24);
    mixed::<Toy<10007, 4, 2>, Ideal, 1>(o, r, 10 * k, 24);
    mixed::<Toy<10007, 3, 3>, Ideal, 64>(o, r, 10 * k, 16);
    if deep {
        mixed::<Fr, SeptidonChip, 62>(o, r, 6, 40);
    }
}

/// circuits whose witness cells the checker leaves open; the rows only matter for the fixed part
pub fn search(o: &mut Out, _seed: u64, deep: bool) {
    event::<Toy<7, 2, 0>, Ideal, 1>(o, &[], 3, false, false);
    event::<Toy<7, 2, 0>, Ideal, 1>(o, &[], 3, true, false);
    event::<Toy<13, 2, 0>, Ideal, 2>(o, &[], 3, false, false);
    if deep {
        event::<Toy<7, 2, 0>, Ideal, 1>(o, &[], 4, false, false);
        event::<Toy<17, 2, 0>, Ideal, 2>(o, &[], 3, true, false);
        event::<Toy<7, 57, 0>, SeptidonChip, 1>(o, &[], 2, false, false);
        event::<Toy<7, 4, 0>, Pow5Chip<Toy<7, 4, 0>, 3, 2>, 1>(o, &[], 2, false, false);
    }
}

/// larger circuits, of which the checker leaves open one neighbourhood after the other
pub fn local(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0x10C);
    fn one<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, r: &mut Rng, n: usize, spare: usize, parallel: bool)
    where
        PC::Config: Sync,
    {
        let mut rows = vec![];
        while rows.len() < n {
            let k = r.below(6).min(n - rows.len());
            rows.extend(message::<F>(r, STEP, k));
        }
        event::<F, PC, STEP>(o, &rows, n + spare, parallel, false);
    }
    // remaining lengths stay below the size of the field
    one::<Toy<7, 2, 0>, Ideal, 1>(o, r, 16, 3, false);
    one::<Toy<7, 2, 0>, Ideal, 1>(o, r, 18, 4, true);
    one::<Toy<13, 2, 0>, Ideal, 2>(o, r, 9, 2, true);
    if deep {
        one::<Toy<7, 2, 0>, Ideal, 1>(o, r, 36, 4, false);
        one::<Toy<7, 2, 0>, Ideal, 1>(o, r, 40, 9, true);
        one::<Toy<13, 2, 0>, Ideal, 2>(o, r, 30, 3, true);
    }
}

/// canonical texts of what a synthesis produced
pub struct Parts {
    pub fixed: String,
    pub sel: String,
    pub copies: String,
    pub advice: String,
}
fn parts<F: FJ>(r: &Recorder<F>) -> Parts {
    let j = |v: Vec<String>| v.join(";");
    let mut cp: Vec<_> = r.copies.iter().map(|(a, b)| if a <= b { (*a, *b) } else { (*b, *a) }).collect();
    cp.sort();
    cp.dedup();
    Parts {
        fixed: j(r.fixed.iter().map(|((c, w), v)| format!("{c},{w}={v:?}")).collect()),
        sel: j(r.selectors.iter().map(|(c, w)| format!("{c},{w}")).collect()),
        copies: j(cp.iter().map(|(a, b)| format!("{a:?}{b:?}")).collect()),
        advice: j(r.advice.iter().map(|((c, w), v)| format!("{c},{w}={:?}", v.unwrap_or(F::ZERO))).collect()),
    }
}
fn side<F: FJ>(b: &Result<Built<F>, String>) -> String {
    side_of(b.as_ref().map(|b| &b.3).ok())
}
pub fn side_of<F: FJ>(b: Option<&Recorder<F>>) -> String {
    match b {
        None => "{\"ok\":false,\"fixed\":\"\",\"sel\":\"\",\"copies\":\"\",\"advice\":\"\",\"clash\":0}".into(),
        Some(rec) => {
            let p = parts(rec);
            format!(
                "{{\"ok\":true,\"fixed\":\"{}\",\"sel\":\"{}\",\"copies\":\"{}\",\"advice\":\"{}\",\"clash\":{}}}",
                p.fixed, p.sel, p.copies, p.advice, rec.clashes
            )
        }
    }
}
pub fn cpus() -> usize {
    std::thread::available_parallelism().map(|e| e.get()).unwrap_or(0)
}

fn pair<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, rows: &[Row<F>], calcs: usize)
where
    PC::Config: Sync,
{
    let t = raw_table(rows, calcs % 2 == 0);
    let s = build::<F, PC, STEP>(&t, calcs, false);
    let p = build::<F, PC, STEP>(&t, calcs, true);
    o.ev(&format!(
        "{{\"k\":\"pair\",\"chip\":\"{}\",\"field\":\"{}\",\"step\":{STEP},\"calcs\":{calcs},\"n\":{},\"wrong\":{},\"cpus\":{},\"ctrl\":{:?},\"serial\":{},\"parallel\":{}}}",
        PC::NAME,
        F::NAME,
        rows.len(),
        rows.iter().any(|r| r.check.is_some()),
        cpus(),
        rows.iter().map(|r| r.ctrl).collect::<Vec<_>>(),
        side(&s),
        side(&p)
    ));
}
fn pairs<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, r: &mut Rng, n: usize, max: usize)
where
    PC::Config: Sync,
{
    for i in 0..n {
        let mut rows = if i % 5 == 4 {
            // one message over the whole table
            let k = 1 + r.below(max);
            message::<F>(r, STEP, k)
        } else {
            random_rows::<F>(r, STEP, max)
        };
        // also tables that end in the middle of a message, tables without a spare row, wrong declared digests
        match r.below(8) {
            0 => {
                rows.pop();
            }
            1 => {
                if let Some(x) = rows.last_mut() {
                    x.check = Some(F::rnd(r));
                }
            }
            _ => {}
        }
        let mut calcs = rows.len() + r.below(6);
        if r.below(20) == 0 && calcs > 1 && !rows.is_empty() {
            calcs = rows.len() - 1; // reserved too little: refused
        }
        pair::<F, PC, STEP>(o, &rows, calcs.max(1));
    }
    pair::<F, PC, STEP>(o, &[], 1);
    pair::<F, PC, STEP>(o, &[], 0);
}
pub fn parallel(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC13);
    let k = if deep { 6 } else { 1 };
    pairs::<Toy<31, 57, 0>, SeptidonChip, 2>(o, r, 12 * k, 24);
    pairs::<Toy<31, 4, 0>, Pow5Chip<Toy<31, 4, 0>, 3, 2>, 1>(o, r, 6 * k, 10);
    pairs::<Toy<10007, 2, 0>, Ideal, 3>(o, r, 16 * k, 60);
    pairs::<Fr, SeptidonChip, 32>(o, r, 3 * k, 12);
    pairs::<Fr, Pow5Chip<Fr, 3, 2>, 32>(o, r, k, 4);
    // few hashes on many workers and the other way round
    for n in 0..=9 {
        let rows: Vec<Row<Toy<31, 57, 0>>> = (0..n).flat_map(|_| message(r, 2, 0)).collect();
        pair::<Toy<31, 57, 0>, SeptidonChip, 2>(o, &rows, n + 1);
    }
}

pub fn fixedpart(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC14);
    fn same<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, r: &mut Rng, calcs: usize, n: usize)
    where
        PC::Config: Sync,
    {
        for i in 0..n {
            let rows = match i {
                0 => vec![],
                1 => message::<F>(r, STEP, calcs - 1),
                // sizes up to the reserved number, well-formed or not
                _ => {
                    let mut v = random_rows::<F>(r, STEP, calcs);
                    if r.below(3) == 0 && v.len() > 1 {
                        v.remove(0);
                    }
                    v
                }
            };
            let b = build_k::<F, PC, STEP>(10, &raw_table(&rows, r.below(2) == 0), calcs, i % 2 == 1);
            o.ev(&format!(
                "{{\"k\":\"fixed\",\"key\":\"{} {} step {STEP} calcs {calcs}\",\"par\":{},\"cpus\":{},\"n\":{},\"side\":{}}}",
                PC::NAME,
                F::NAME,
                i % 2 == 1,
                cpus(),
                rows.len(),
                side(&b)
            ));
        }
    }
    let n = if deep { 40 } else { 10 };
    for calcs in [1, 2, 3, 7, 16, 33] {
        same::<Toy<31, 57, 0>, SeptidonChip, 2>(o, r, calcs, n);
        same::<Toy<10007, 2, 0>, Ideal, 5>(o, r, calcs, n);
    }
    for calcs in [1, 4, 9] {
        same::<Toy<31, 4, 0>, Pow5Chip<Toy<31, 4, 0>, 3, 2>, 1>(o, r, calcs, n);
        same::<Fr, SeptidonChip, 32>(o, r, calcs, n);
    }
    same::<Fr, Pow5Chip<Fr, 3, 2>, 32>(o, r, 3, n.min(6));
}

/// declared digests: right ones, wrong ones, on any row
pub fn checks(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC18);
    fn native<F: HF>(rows: &[Row<F>], step: usize) -> Vec<F> {
        let (rc, m, _) = <F::SpecType as poseidon_base::primitives::Spec<F, 3, 2>>::constants();
        let mut st = [F::ZERO; 3];
        let mut fresh = true;
        rows.iter()
            .map(|x| {
                if fresh {
                    st = [F::from_u128((x.ctrl as u128) << SHIFT) + x.dom.unwrap_or(F::ZERO), F::ZERO, F::ZERO];
                }
                st[1] += x.w[0];
                st[2] += x.w[1];
                poseidon_base::primitives::permute::<F, F::SpecType, 3, 2>(&mut st, &m, &rc);
                fresh = x.ctrl <= step as u64;
                st[0]
            })
            .collect()
    }
    fn some<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, r: &mut Rng, n: usize, max: usize)
    where
        PC::Config: Sync,
    {
        for i in 0..n {
            let mut rows = random_rows::<F>(r, STEP, max);
            while rows.is_empty() {
                rows = random_rows::<F>(r, STEP, max);
            }
            // unused rows may declare a digest too
            let spare = r.below(4);
            let used = rows.len();
            for _ in 0..spare {
                rows.push(Row { w: [F::ZERO; 2], ctrl: 0, dom: None, check: None });
            }
            let d = native(&rows, STEP);
            for (k, x) in rows.iter_mut().enumerate() {
                if r.below(2) == 0 {
                    x.check = Some(d[k]);
                }
            }
            // at most one wrong one, anywhere
            let w = r.below(rows.len());
            match i % 6 {
                0 | 1 => {}
                2 => rows[w].check = Some(d[w] + F::ONE),
                3 => rows[w].check = Some(F::ZERO),
                // the digest of another row: right for neither a prefix nor an extension of the message
                4 => rows[w].check = Some(d[r.below(d.len())]),
                _ => {
                    let k = rows.len() - 1;
                    rows[k].check = Some(F::rnd(r));
                }
            }
            let calcs = rows.len() + r.below(3);
            let par = r.below(2) == 0;
            let mut t = raw_table(&rows, r.below(2) == 0);
            t.inputs.truncate(used);
            t.controls.truncate(used);
            t.domain.truncate(used);
            let b = build::<F, PC, STEP>(&t, calcs, par);
            let pr = F::pr(o);
            o.ev(&format!(
                "{{\"k\":\"check\",\"pr\":{pr},\"chip\":\"{}\",\"par\":{par},\"cpus\":{},\"calcs\":{calcs},\"ok\":{},\"rows\":{}}}",
                PC::NAME,
                cpus(),
                b.is_ok(),
                rows_full(&rows, STEP)
            ));
        }
    }
    let k = if deep { 6 } else { 1 };
    some::<Fr, Ideal, 32>(o, r, 60 * k, 12);
    some::<Fr, SeptidonChip, 32>(o, r, 24 * k, 6);
    some::<Toy<10007, 4, 0>, Ideal, 2>(o, r, 240 * k, 30);
    some::<Toy<10007, 57, 0>, SeptidonChip, 5>(o, r, 60 * k, 12);
    some::<Toy<10007, 3, 0>, Pow5Chip<Toy<10007, 3, 0>, 3, 2>, 1>(o, r, 30 * k, 8);
}

/// advertised rows against occupied rows; `build` is the sub-circuit PoseidonHashChip of this build uses
pub fn budget(o: &mut Out, seed: u64, deep: bool) {
    let r = &mut Rng(seed ^ 0xC19);
    fn one<F: HF, PC: Kind + PermuteChip<F, F::SpecType, 3, 2>, const STEP: usize>(o: &mut Out, t: &PoseidonHashTable<F>, calcs: usize, par: bool)
    where
        PC::Config: Sync,
    {
        let b = build::<F, PC, STEP>(t, calcs, par);
        let (ok, used) = match &b {
            Err(_) => (false, 0),
            Ok((_, _, _, rec)) => (true, crate::perms::used_rows(rec)),
        };
        o.ev(&format!(
            "{{\"k\":\"budget\",\"chip\":\"{}\",\"field\":\"{}\",\"rp\":{},\"par\":{par},\"cpus\":{},\"ok\":{ok},\"n\":{},\"calcs\":{calcs},\"block\":{},\"min\":{},\"size\":{},\"used\":{used}}}",
            PC::NAME,
            F::NAME,
            <F::SpecType as poseidon_base::primitives::Spec<F, 3, 2>>::partial_rounds(),
            cpus(),
            t.inputs.len(),
            <F as poseidon_base::hash::Hashable>::hash_block_size(),
            t.minimum_row_require(),
            t.table_size()
        ));
    }
    for n in [0usize, 1, 2, 3, 5, 8, 13, 20] {
        for par in [false, true] {
            for (i, extra) in [1usize, 2, 7].into_iter().enumerate() {
                let rows = if r.below(2) == 0 { message::<Fr>(r, 32, n) } else { (0..n).flat_map(|_| message::<Fr>(r, 32, 0)).collect() };
                one::<Fr, BuildChip<Fr>, 32>(o, &raw_table(&rows, i == 2), rows.len() + extra, par);
                let rows = (0..n).flat_map(|_| message::<Toy<31, 57, 0>>(r, 2, 0)).collect::<Vec<_>>();
                one::<Toy<31, 57, 0>, BuildChip<Toy<31, 57, 0>>, 2>(o, &raw_table(&rows, i == 1), rows.len() + extra, par);
            }
        }
    }
    // tables made with the builder; constant inputs leave the other vectors short
    for i in 0..(if deep { 300 } else { 40 }) {
        let mut t = PoseidonHashTable::<Toy<31, 57, 0>>::default();
        let mut w = |n: usize| -> Vec<[Toy<31, 57, 0>; 2]> { (0..n).map(|_| [FJ::rnd(r), FJ::rnd(r)]).collect() };
        let mut code = i;
        for _ in 0..4 {
            #[allow(deprecated)]
            match code % 4 {
                0 => t.constant_inputs(&w(2)),
                1 => t.fixed_inputs(&w(1).into_iter().map(|x| (x, x[0], None)).collect::<Vec<_>>()),
                2 => t.stream_inputs(&w(3), 5, 2),
                _ => t.stream_inputs(&w(1), 2, 2),
            }
            code /= 4;
        }
        let calcs = t.inputs.len() + 1 + i % 3;
        one::<Toy<31, 57, 0>, BuildChip<Toy<31, 57, 0>>, 2>(o, &t, calcs, i % 2 == 0);
    }
}
#[cfg(feature = "short")]
type BuildChip<F> = Second<F>;
#[cfg(not(feature = "short"))]
type BuildChip<F> = Pow5Chip<F, 3, 2>;
#[cfg(feature = "short")]
type Second<F> = <(F, SeptidonChip) as Snd>::T;
pub trait Snd {
    type T;
}
impl<A, B> Snd for (A, B) {
    type T = B;
}
