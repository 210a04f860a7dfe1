//! C05: the same calls in many histories, clones and threads
#![allow(deprecated)]
use crate::gens::GS;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_base::hash::{HashSpec, Hashable, MessageHashable};
use poseidon_base::primitives::*;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Barrier};
use vcommon::*;

type H2 = Hash<Fr, HashSpec<Fr>, <Fr as Hashable>::DomainType, 3, 2>;
type HM = Hash<Fr, HashSpec<Fr>, <Fr as MessageHashable>::DomainType, 3, 2>;
/// hashers that live as long as the history
struct Held {
    h2: H2,
    hm: HM,
}
impl Held {
    fn new() -> Held {
        Held { h2: <Fr as Hashable>::hasher(), hm: <Fr as MessageHashable>::msg_hasher() }
    }
}
type Call = Box<dyn Fn(&Held) -> String + Send + Sync>;

/// the calls of a history and its groups of related calls
struct Calls {
    js: Vec<String>,
    cs: Vec<Call>,
    /// the calls of the first kind: every ordered pair of them is tried
    core: usize,
    groups: Vec<Vec<usize>>,
}

/// `wide`: with families of calls whose arguments agree in most of their bits
fn calls(seed: u64, o: &mut Out, wide: bool) -> Calls {
    let r = &mut Rng(seed ^ 0xC05);
    let mut js: Vec<String> = vec![];
    let mut cs: Vec<Call> = vec![];
    let mut add = |j: String, c: Call| {
        js.push(j);
        cs.push(c);
    };
    // closely related arguments: same words under different capacities/domains/lengths
    let w: Vec<Fr> = vec![Fr::ZERO, Fr::ONE, Fr::from(77), -Fr::ONE];
    let (x, y) = (Fr::rnd(r), Fr::rnd(r));
    let msgs: Vec<Vec<Fr>> = vec![
        vec![w[0]], vec![w[1]], vec![w[0], w[0]], vec![w[1], w[0]], vec![w[0], w[1]], vec![x, y], vec![y, x],
        vec![x, y, w[0]], vec![x, y, w[0], w[0]], vec![x, y, x], vec![x, y, x, y], vec![w[2], w[3], x, y, w[1]], vec![x; 9],
    ];
    let jvar = |m: &[Fr], c: u128| format!("{{\"k\":\"var\",\"pr\":1001,\"msg\":{},\"cap\":{}}}", ja(m), jcap(c));
    for m in &msgs {
        for c in [0u128, 1, 2 << 64, m.len() as u128, 5 << 64 | 9] {
            let (mm, hm) = (m.clone(), m.clone());
            add(jvar(m, c), Box::new(move |_| <Fr as MessageHashable>::hash_msg(&mm, Some(c)).j()));
            if c == 1 {
                add(jvar(m, c), Box::new(move |h| h.hm.clone().hash_with_cap(&hm, c).j()));
            }
        }
        let mm = m.clone();
        add(
            format!("{{\"k\":\"vardef\",\"pr\":1001,\"legacy\":{},\"msg\":{}}}", cfg!(feature = "legacy"), ja(m)),
            Box::new(move |_| <Fr as MessageHashable>::hash_msg(&mm, None).j()),
        );
        let hm = m.clone();
        let c = 3u128 << 64;
        add(jvar(m, c), Box::new(move |h| {
            let k = h.hm.clone();
            let mut junk = [Fr::ONE; 3];
            k.permute(&mut junk);
            k.clone().hash_with_cap(&hm, c).j()
        }));
    }
    let jid = |m: &[Fr; 2], d: Fr| format!("{{\"k\":\"iden3\",\"pr\":1001,\"msg\":{},\"dom\":{}}}", ja(m), d.j());
    for m in [[w[0], w[0]], [w[0], w[1]], [w[1], w[0]], [x, y], [y, x], [x, x]] {
        for d in [Fr::ZERO, Fr::ONE, Fr::from(3), y] {
            add(jid(&m, d), Box::new(move |_| <Fr as Hashable>::hash_with_domain(m, d).j()));
            add(jid(&m, d), Box::new(move |h| h.h2.clone().hash(m, d).j()));
        }
        add(jid(&m, Fr::ZERO), Box::new(move |_| <Fr as Hashable>::hash(m).j()));
    }
    let jp = |pr: usize, s: String| format!("{{\"k\":\"permute\",\"pr\":{pr},\"in\":{s}}}");
    for st in [[w[0]; 3], [x, y, w[1]], [w[1], x, y]] {
        add(jp(1001, ja(&st)), Box::new(move |h| {
            let mut s = st;
            h.h2.permute(&mut s);
            ja(&s)
        }));
        add(jp(1001, ja(&st)), Box::new(move |_| {
            let mut s = st;
            <Fr as MessageHashable>::msg_hasher().permute(&mut s);
            ja(&s)
        }));
    }
    macro_rules! plain {
        ($F:ty, $S:ty, $T:literal, $RATE:literal, $L:literal, $pr:expr) => {{
            let m: [$F; $L] = core::array::from_fn(|_| <$F>::pick(r));
            add(
                format!("{{\"k\":\"plain\",\"pr\":{},\"msg\":{}}}", $pr, ja(&m)),
                Box::new(move |_| Hash::<$F, $S, ConstantLength<$L>, $T, $RATE>::init().hash(m).j()),
            );
            let d = <$F>::pick(r);
            add(
                format!("{{\"k\":\"iden3\",\"pr\":{},\"msg\":{},\"dom\":{}}}", $pr, ja(&m), d.j()),
                Box::new(move |_| {
                    let h = Hash::<$F, $S, ConstantLengthIden3<$L>, $T, $RATE>::init();
                    let g = h.clone();
                    let mut junk = [<$F>::ONE; $T];
                    h.permute(&mut junk);
                    let _ = h.hash(core::array::from_fn(|_| <$F>::ONE), <$F>::ONE);
                    g.hash(m, d).j()
                }),
            );
        }};
    }
    plain!(Fr, HashSpec<Fr>, 3, 2, 1, 1001);
    plain!(Fr, HashSpec<Fr>, 3, 2, 2, 1001);
    plain!(Fr, HashSpec<Fr>, 3, 2, 5, 1001);
    type T5 = Toy<46337, 0, 0>;
    type S5 = GS<5, 4, 3, 5>;
    let (rc, mds, _) = <S5 as Spec<T5, 5, 4>>::constants();
    let pr = o.params(pr_json::<T5, 5>(4, 4, 3, 5, &rc, &mds));
    plain!(T5, S5, 5, 4, 3, pr);
    plain!(T5, S5, 5, 4, 4, pr);
    plain!(T5, S5, 5, 4, 9, pr);
    #[cfg(feature = "pallas")]
    {
        use halo2curves::pasta::Fp;
        plain!(Fp, HashSpec<Fp>, 3, 2, 2, 1002);
        plain!(Fp, HashSpec<Fp>, 3, 2, 3, 1002);
    }
    drop(add);
    let core = cs.len();
    let mut groups: Vec<Vec<usize>> = vec![];
    let mut add = |j: String, c: Call| {
        js.push(j);
        cs.push(c);
        cs.len() - 1
    };
    if wide {
        // differences that vanish in some truncation of the value or of its internal (Montgomery) representation
        let two = Fr::from(2);
        let inv = two.invert().unwrap();
        let mut deltas: Vec<Fr> = [0u64, 8, 16, 32, 63, 64, 127, 128, 192, 248].iter().map(|k| two.pow_vartime([*k])).collect();
        deltas.extend([8u64, 64, 128, 192, 256].iter().map(|k| inv.pow_vartime([*k])));
        let mut two_word = |m: [Fr; 2], d: Fr, held: bool| {
            if held {
                add(jid(&m, d), Box::new(move |h| h.h2.clone().hash(m, d).j()))
            } else {
                add(jid(&m, d), Box::new(move |_| <Fr as Hashable>::hash_with_domain(m, d).j()))
            }
        };
        for base in 0..2 {
            let (x, y, d) = if base == 0 { (Fr::rnd(r), Fr::rnd(r), Fr::rnd(r)) } else { (Fr::from(5), Fr::from(6), Fr::ZERO) };
            let mut g = vec![two_word([x, y], d, false)];
            for e in &deltas {
                g.push(two_word([x + e, y], d, false));
                g.push(two_word([x, y + e], d, false));
                g.push(two_word([x, y], d + e, false));
                g.push(two_word([x + e, y - e], d, false));
            }
            for p in [[x, d, y], [y, x, d], [d, y, x], [y, d, x], [d, x, y]] {
                g.push(two_word([p[0], p[1]], p[2], false));
            }
            groups.push(g);
        }
        let (x, y, d) = (Fr::rnd(r), Fr::rnd(r), Fr::rnd(r));
        for held in [false, true] {
            groups.push(vec![two_word([x, y], d, held), two_word([y, x], d, held), two_word([x, y], -d, held)]);
        }
        let mut message = |m: Vec<Fr>, c: Option<u128>| {
            let j = match c {
                Some(c) => jvar(&m, c),
                None => format!("{{\"k\":\"vardef\",\"pr\":1001,\"legacy\":{},\"msg\":{}}}", cfg!(feature = "legacy"), ja(&m)),
            };
            add(j, Box::new(move |_| <Fr as MessageHashable>::hash_msg(&m, c).j()))
        };
        for base in 0..2 {
            let n = if base == 0 { 3 } else { 6 };
            let m: Vec<Fr> = (0..n).map(|_| Fr::rnd(r)).collect();
            let c = 3u128 << 64 | 11;
            let mut g = vec![message(m.clone(), Some(c)), message(m.clone(), None)];
            for (i, e) in deltas.iter().enumerate() {
                let mut k = m.clone();
                k[i % n] += e;
                g.push(message(k.clone(), Some(c)));
                g.push(message(k, None));
            }
            for b in [1u32, 31, 32, 63, 64, 66, 95, 96, 127] {
                g.push(message(m.clone(), Some(c ^ (1 << b))));
            }
            for i in 1..n {
                g.push(message(m[..i].to_vec(), Some(c)));
                g.push(message(m[i..].to_vec(), Some(c)));
                let mut k = m.clone();
                k.rotate_left(i);
                g.push(message(k, Some(c)));
            }
            for z in 1..4 {
                let mut k = m.clone();
                k.extend(vec![Fr::ZERO; z]);
                g.push(message(k, Some(c)));
            }
            groups.push(g);
        }
        let m: Vec<Fr> = (0..4).map(|_| Fr::rnd(r)).collect();
        groups.push(vec![message(m.clone(), None), message(m[..3].to_vec(), None), message(m.clone(), Some(9))]);
        groups.push(vec![message(m[..2].to_vec(), Some(1)), message(m[..2].to_vec(), Some(2))]);
        // more distinct calls than any small table of recent ones holds
        let mut g = vec![];
        for i in 0..300u64 {
            let (m, d) = ([Fr::from(i), Fr::from(i / 7)], Fr::from(i % 5));
            g.push(add(jid(&m, d), Box::new(move |_| <Fr as Hashable>::hash_with_domain(m, d).j())));
        }
        groups.push(g);
        // related calls of the first kind
        for _ in 0..12 {
            groups.push((0..2 + r.below(4)).map(|_| r.below(core)).collect());
        }
    }
    Calls { js, cs, core, groups }
}

#[derive(Default)]
struct Results {
    ids: HashMap<String, usize>,
    all: Vec<String>,
}
impl Results {
    fn id(&mut self, s: Option<String>) -> usize {
        let Some(s) = s else { return 0 };
        if let Some(i) = self.ids.get(&s) {
            return *i;
        }
        self.all.push(s.clone());
        self.ids.insert(s, self.all.len());
        self.all.len()
    }
}
fn write(o: &mut Out, js: &[String], hist: Vec<(usize, Vec<(usize, Option<String>)>)>) {
    let mut res = Results::default();
    for (th, h) in hist {
        for (a, r) in h {
            let r = res.id(r);
            o.ev(&format!("{{\"th\":{th},\"a\":{},\"r\":{r}}}", a + 1));
        }
    }
    o.file("args.json", &format!("[{}]", js.join(",\n")));
    o.file("results.json", &format!("[{}]", res.all.join(",\n")));
}

/// a call that the code refuses by panicking; it must not disturb the others
fn refused() {
    let _ = guarded(|| <Fr as MessageHashable>::hash_msg(&[], Some(1)));
    let _ = guarded(|| Hash::<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>::init().hash_with_cap(&[], 0));
}

pub fn history(o: &mut Out, seed: u64, deep: bool) {
    let Calls { js, cs, core, groups } = calls(seed, o, true);
    let n = cs.len();
    let (cs, groups) = (Arc::new(cs), Arc::new(groups));
    let held = Arc::new(Held::new());
    let r = &mut Rng(seed ^ 0x55);
    // every ordered pair of consecutive calls of the first kind: an Eulerian circuit of the complete digraph
    let mut perm: Vec<usize> = (0..core).collect();
    for i in 0..core {
        perm.swap(i, r.below(core));
    }
    let mut order = vec![];
    for i in 0..core {
        order.push(perm[i]);
        order.push(perm[i]);
        for j in i + 1..core {
            order.push(perm[j]);
            if j + 1 < core {
                order.push(perm[i]);
            }
        }
    }
    // the groups forward, backward and against their first member
    for g in groups.iter() {
        order.extend(g);
        order.extend(g.iter().rev());
        for a in g {
            order.extend([g[0], *a]);
        }
    }
    let mut hist = vec![];
    let mut h = vec![];
    for (i, a) in order.into_iter().enumerate() {
        if i % 501 == 500 {
            refused();
        }
        h.push((a, guarded(|| cs[a](&held))));
    }
    hist.push((0, h));
    let threads = 8;
    let len = if deep { 20_000 } else { 2_500 };
    let rounds = if deep { 20 } else { 3 };
    let hammer = if deep { 60_000 } else { 6_000 };
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (cs, groups, held, bar) = (cs.clone(), groups.clone(), held.clone(), bar.clone());
            let mut r = Rng(seed ^ 0x77 ^ ((t as u64) << 32));
            std::thread::spawn(move || {
                let mut h = vec![];
                // all threads in the same group of calls
                for _ in 0..rounds {
                    for g in groups.iter() {
                        bar.wait();
                        for _ in 0..(if g.len() < 6 { 260 } else { 120 }) {
                            let a = g[r.below(g.len())];
                            h.push((a, guarded(|| cs[a](&held))));
                        }
                        refused();
                    }
                }
                // the same few calls over and over: only what is new to this thread is written down
                for g in groups.iter() {
                    let g = &g[..g.len().min(4)];
                    let mut seen: HashSet<(usize, Option<String>)> = HashSet::new();
                    bar.wait();
                    for _ in 0..hammer {
                        let a = g[r.below(g.len())];
                        let x = (a, guarded(|| cs[a](&held)));
                        if !seen.contains(&x) {
                            seen.insert(x.clone());
                            h.push(x);
                        }
                    }
                }
                // bursts of neighbouring calls and jumps
                bar.wait();
                let mut a = 0;
                for _ in 0..len {
                    a = if r.below(3) == 0 { r.below(n) } else { (a + r.below(3)) % n };
                    h.push((a, guarded(|| cs[a](&held))));
                }
                h
            })
        })
        .collect();
    for (t, h) in hs.into_iter().enumerate() {
        hist.push((t + 1, h.join().unwrap()));
    }
    write(o, &js, hist);
}

/// the very first calls of a process, racing
pub fn race(o: &mut Out, seed: u64) {
    let Calls { js, cs, .. } = calls(7, o, false);
    let n = cs.len();
    let cs = Arc::new(cs);
    let threads = 16;
    let bar = Arc::new(Barrier::new(threads));
    let same = seed % 3 == 0;
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (cs, bar) = (cs.clone(), bar.clone());
            let mut r = Rng(seed ^ if same { 0 } else { (t as u64) << 32 });
            std::thread::spawn(move || {
                bar.wait();
                let held = Held::new();
                let mut h = vec![];
                for _ in 0..12 {
                    let a = r.below(n);
                    h.push((a, guarded(|| cs[a](&held))));
                }
                h
            })
        })
        .collect();
    let mut hist = vec![];
    for (t, h) in hs.into_iter().enumerate() {
        hist.push((t + 1, h.join().unwrap()));
    }
    write(o, &js, hist);
}
