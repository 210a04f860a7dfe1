//! Call histories of the table builder.  A history is a list of calls, taken from a file (written by the model
//! checker) or drawn at random; the public fields are logged after each call.
use halo2curves::bn256::Fr;
use poseidon_circuit::hash::PoseidonHashTable;
use vcommon::*;

#[derive(Clone, Debug)]
enum Call {
    Fixed(Vec<(usize, bool)>),
    Stream(usize, u64, usize, bool, bool),
    Const(usize),
    ConstCheck(usize),
}

fn opt<F: FJ>(x: Option<&Option<F>>) -> String {
    match x {
        Some(Some(v)) => format!("[{}]", v.j()),
        _ => "[]".into(),
    }
}
fn fields<F: FJ>(t: &PoseidonHashTable<F>) -> String {
    let w: Vec<String> = t.inputs.iter().map(|x| format!("[{},{}]", x[0].j(), x[1].j())).collect();
    let n = t.inputs.len();
    let c: Vec<String> = (0..n.max(t.controls.len())).map(|i| jcap(t.controls.get(i).copied().unwrap_or(0) as u128)).collect();
    let d: Vec<String> = (0..n.max(t.domain.len())).map(|i| opt(t.domain.get(i))).collect();
    let k: Vec<String> = (0..n.max(t.checks.len())).map(|i| opt(t.checks.get(i))).collect();
    format!(
        "\"size\":{},\"w\":[{}],\"c\":[{}],\"d\":[{}],\"ck\":[{}]",
        t.table_size(),
        w.join(","),
        c.join(","),
        d.join(","),
        k.join(",")
    )
}

fn run<F: FJ>(o: &mut Out, r: &mut Rng, hist: usize, calls: &[Call]) {
    let mut t = PoseidonHashTable::<F>::default();
    let mut fresh = 0u64;
    let mut word = |r: &mut Rng| {
        fresh += 1;
        if F::NUM_BITS < 30 || r.below(2) == 0 {
            F::from(fresh)
        } else {
            F::pick(r)
        }
    };
    for c in calls {
        let before = t.clone();
        let (desc, res);
        match c {
            Call::Fixed(v) => {
                let src: Vec<([F; 2], F, Option<F>)> =
                    v.iter().map(|(d, ck)| ([word(r), word(r)], F::from(*d as u64), if *ck { Some(word(r)) } else { None })).collect();
                let rows: Vec<String> = src
                    .iter()
                    .map(|(w, d, ck)| format!("{{\"w\":[{},{}],\"d\":[{}],\"ck\":{}}}", w[0].j(), w[1].j(), d.j(), opt(Some(ck))))
                    .collect();
                desc = format!("\"op\":\"fixed\",\"rows\":[{}],\"start\":{},\"step\":{},\"last\":[]", rows.join(","), jcap(0), jcap(0));
                res = guarded(|| t.fixed_inputs(&src));
            }
            Call::Stream(n, start, step, ck, with) => {
                let src: Vec<[F; 2]> = (0..*n).map(|_| [word(r), word(r)]).collect();
                let check = if *ck && *with { Some(word(r)) } else { None };
                let rows: Vec<String> =
                    src.iter().map(|w| format!("{{\"w\":[{},{}],\"d\":[],\"ck\":[]}}", w[0].j(), w[1].j())).collect();
                desc = format!(
                    "\"op\":\"stream\",\"rows\":[{}],\"start\":{},\"step\":{},\"last\":{}",
                    rows.join(","),
                    jcap(*start as u128),
                    jcap(*step as u128),
                    opt(Some(&check))
                );
                res = guarded(|| {
                    if *with {
                        t.stream_inputs_with_check(&src, check, *start, *step)
                    } else {
                        t.stream_inputs(&src, *start, *step)
                    }
                });
            }
            Call::Const(n) => {
                let src: Vec<[F; 2]> = (0..*n).map(|_| [word(r), word(r)]).collect();
                let rows: Vec<String> =
                    src.iter().map(|w| format!("{{\"w\":[{},{}],\"d\":[],\"ck\":[]}}", w[0].j(), w[1].j())).collect();
                desc = format!("\"op\":\"const\",\"rows\":[{}],\"start\":{},\"step\":{},\"last\":[]", rows.join(","), jcap(0), jcap(0));
                #[allow(deprecated)]
                {
                    res = guarded(|| t.constant_inputs(&src));
                }
            }
            Call::ConstCheck(n) => {
                let src: Vec<(F, F, F)> = (0..*n).map(|_| (word(r), word(r), word(r))).collect();
                let rows: Vec<String> =
                    src.iter().map(|w| format!("{{\"w\":[{},{}],\"d\":[],\"ck\":[{}]}}", w.0.j(), w.1.j(), w.2.j())).collect();
                desc = format!("\"op\":\"const\",\"rows\":[{}],\"start\":{},\"step\":{},\"last\":[]", rows.join(","), jcap(0), jcap(0));
                #[allow(deprecated)]
                {
                    res = guarded(|| t.constant_inputs_with_check(&src));
                }
            }
        }
        let ok = res.is_some();
        o.ev(&format!("{{\"hist\":{hist},{desc},\"ok\":{ok},{}}}", fields(&t)));
        if !ok {
            // a refused call ends the history of this table; go on with the table as it was
            t = before;
            o.ev(&format!("{{\"hist\":{hist},\"op\":\"undo\",\"rows\":[],\"start\":{},\"step\":{},\"last\":[],\"ok\":true,{}}}", jcap(0), jcap(0), fields(&t)));
        }
    }
}

/// the alphabet of Builder.tla
fn call(op: usize) -> Call {
    match op {
        1 => Call::Fixed(vec![(0, false)]),
        2 => Call::Fixed(vec![(3, true), (0, false)]),
        3 => Call::Fixed(vec![]),
        4 => Call::Stream(1, 1, 2, false, false),
        5 => Call::Stream(2, 4, 2, true, true),
        6 => Call::Stream(3, 5, 2, false, true),
        7 => Call::Stream(2, 2, 2, true, true),
        8 => Call::Stream(1, 9, 2, true, true),
        9 => Call::Const(1),
        10 => Call::ConstCheck(1),
        11 => Call::Stream(0, 3, 2, false, false),
        12 => Call::Const(2),
        _ => panic!("no such call"),
    }
}

pub fn replay(o: &mut Out, seed: u64, deep: bool, file: Option<&str>) {
    let r = &mut Rng(seed ^ 0xC10);
    let mut hist = 0;
    if let Some(f) = file {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let calls: Vec<Call> = line.split_whitespace().map(|x| call(x.parse().unwrap())).collect();
            hist += 1;
            run::<Toy<10007, 0, 0>>(o, r, hist, &calls);
        }
    }
    for i in 0..(if deep { 2000 } else { 300 }) {
        let calls: Vec<Call> = (0..2 + r.below(8))
            .map(|_| match r.below(5) {
                0 => Call::Fixed((0..r.below(4)).map(|_| (r.below(300), r.below(2) == 0)).collect()),
                1 => Call::Const(r.below(4)),
                2 => Call::ConstCheck(r.below(3)),
                _ => {
                    let step = [1usize, 2, 31, 32, 62, 1 << 20, 1 << 40][r.below(7)];
                    let n = r.below(6);
                    let (edge, last) = match r.below(6) {
                        0 => (0u64, step as u64),
                        1 => (1, 1),
                        2 => (0, 0),
                        3 => (0, r.next() >> 20),
                        _ => (0, 1 + r.below(step.min(1 << 20)) as u64),
                    };
                    let start = last.wrapping_add(edge * 0).wrapping_add(step as u64 * n.saturating_sub(1) as u64);
                    let start = match r.below(8) {
                        0 => start.saturating_sub(step as u64),
                        1 => start + step as u64 * 2,
                        2 => u64::MAX - r.below(3) as u64,
                        _ => start,
                    };
                    Call::Stream(n, start, step, r.below(2) == 0, r.below(2) == 0)
                }
            })
            .collect();
        hist += 1;
        if i % 2 == 0 {
            run::<Fr>(o, r, hist, &calls);
        } else {
            run::<Toy<10007, 0, 0>>(o, r, hist, &calls);
        }
    }
}
