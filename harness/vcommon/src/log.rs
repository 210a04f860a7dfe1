//! Event logging: one JSON object per line.
use crate::{Rng, Toy};
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use std::io::Write;

pub const NL: usize = 17;

/// fields that can be written to a trace
pub trait FJ: PrimeField + FromUniformBytes<64> + Ord + 'static {
    /// JSON of the field descriptor
    fn desc() -> String;
    fn j(&self) -> String;
    /// values that implementations tend to treat specially
    fn edges() -> Vec<Self> {
        let mut v = vec![Self::ZERO, Self::ONE, -Self::ONE, Self::from(2), -Self::from(2), Self::TWO_INV];
        for k in [31u32, 32, 63, 64, 65, 127, 128] {
            let p = Self::from(2).pow_vartime([k as u64]);
            v.push(p);
            v.push(p - Self::ONE);
            v.push(p + Self::ONE);
        }
        v.push(Self::MULTIPLICATIVE_GENERATOR);
        let mut o: Vec<Self> = vec![];
        for x in v {
            if !o.contains(&x) {
                o.push(x);
            }
        }
        o
    }
    fn rnd(r: &mut Rng) -> Self {
        let mut b = [0u8; 64];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&r.next().to_le_bytes());
        }
        Self::from_uniform_bytes(&b)
    }
    /// half of the time an edge value
    fn pick(r: &mut Rng) -> Self {
        if r.below(2) == 0 {
            let e = Self::edges();
            e[r.below(e.len())]
        } else {
            Self::rnd(r)
        }
    }
}

pub fn limbs(le: &[u8], n: usize) -> String {
    let mut out = vec![];
    let (mut acc, mut bits, mut pos) = (0u64, 0, 0);
    for _ in 0..n {
        while bits < 15 {
            if pos < le.len() {
                acc |= (le[pos] as u64) << bits;
                pos += 1;
            }
            bits += 8;
        }
        out.push((acc & 0x7fff).to_string());
        acc >>= 15;
        bits -= 15;
    }
    format!("[{}]", out.join(","))
}

macro_rules! bigfj {
    ($t:ty) => {
        impl FJ for $t {
            fn desc() -> String {
                let mut m = (-<$t>::ONE).to_repr().as_ref().to_vec();
                // p - 1 is even
                m[0] += 1;
                format!("{{\"big\":true,\"p\":{}}}", limbs(&m, NL))
            }
            fn j(&self) -> String {
                limbs(self.to_repr().as_ref(), NL)
            }
        }
    };
}
bigfj!(halo2curves::bn256::Fr);
bigfj!(halo2curves::bn256::Fq);
bigfj!(halo2curves::pasta::Fp);
bigfj!(halo2curves::pasta::Fq);

impl<const P: u32, const RP: usize, const SD: u32> FJ for Toy<P, RP, SD> {
    fn desc() -> String {
        format!("{{\"big\":false,\"p\":{P}}}")
    }
    fn j(&self) -> String {
        self.0.to_string()
    }
}

pub fn ja<F: FJ>(v: &[F]) -> String {
    format!("[{}]", v.iter().map(|x| x.j()).collect::<Vec<_>>().join(","))
}
pub fn jm<F: FJ, const T: usize>(v: &[[F; T]]) -> String {
    format!("[{}]", v.iter().map(|x| ja(x)).collect::<Vec<_>>().join(","))
}
/// a u128 as nine base-2^15 digits
pub fn jcap(c: u128) -> String {
    limbs(&c.to_le_bytes(), 9)
}

/// one output directory: events (trace.ndjson), parameter sets (params.json), the call being executed (current)
pub struct Out {
    dir: String,
    ev: std::io::BufWriter<std::fs::File>,
    prs: Vec<String>,
    pub n: usize,
}
impl Out {
    pub fn new(dir: &str) -> Out {
        std::fs::create_dir_all(dir).unwrap();
        let ev = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/trace.ndjson")).unwrap());
        Out { dir: dir.into(), ev, prs: vec![], n: 0 }
    }
    pub fn ev(&mut self, s: &str) {
        writeln!(self.ev, "{s}").unwrap();
        self.n += 1;
    }
    /// registers a parameter set; returns its 1-based index
    pub fn params(&mut self, s: String) -> usize {
        if let Some(i) = self.prs.iter().position(|x| *x == s) {
            return i + 1;
        }
        self.prs.push(s);
        self.prs.len()
    }
    pub fn file(&self, name: &str, s: &str) {
        std::fs::write(format!("{}/{name}", self.dir), s).unwrap();
    }
    pub fn finish(mut self) {
        self.ev.flush().unwrap();
        std::fs::write(format!("{}/params.json", self.dir), format!("[{}]", self.prs.join(",\n"))).unwrap();
    }
}

/// runs a call into the code under test; a panic is an observable outcome
pub fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
pub fn quiet_panics() {
    if std::env::var("VERIF_SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

#[allow(clippy::too_many_arguments)]
pub fn pr_json<F: FJ, const T: usize>(rate: usize, rf: usize, rp: usize, alpha: u64, rc: &[[F; T]], mds: &[[F; T]; T]) -> String {
    format!(
        "{{\"f\":{},\"t\":{T},\"rate\":{rate},\"rf\":{rf},\"rp\":{rp},\"alpha\":{alpha},\"rc\":{},\"mds\":{}}}",
        F::desc(),
        jm(rc),
        jm(mds)
    )
}
