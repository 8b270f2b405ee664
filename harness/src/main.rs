//! Drivers that exercise the real sci-rs code and record what it did.
//!
//!   conformance PROPERTY OUT [CASES] | conformance history OUT PROPERTY,PROPERTY...      (VERIF_SEED, VERIF_TIER from the environment)
mod configs;
mod design;
mod fl;
mod heap;
mod ints;
mod j;
mod mem;
mod out;
#[cfg(feature = "full")]
mod plot;
#[cfg(feature = "full")]
mod pure;
mod rng;
mod savgol;
mod sos;
mod special;
mod stats;
mod steady;
mod stream;
mod wave;

#[global_allocator]
static HEAP: heap::Books = heap::Books;

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    cases: Option<String>,
}
impl Cfg {
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Behaviours exported by the specification for replay.
    pub fn cases(&self) -> Vec<serde_json::Value> {
        let p = self.cases.as_ref().expect("this driver replays specification cases");
        std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "full")]
    if a[1] == "plot-one" {
        return plot::one(&a[2]);
    }
    #[cfg(feature = "full")]
    if a[1] == "pure-one" {
        return pure::one(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), a[2].parse().unwrap());
    }
    let mut cfg = Cfg {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        cases: a.get(3).cloned(),
    };
    let mut out = out::Out::create(&a[2]);
    if a[1] == "history" {
        // the same calls three times within one process, among others and in another order
        let names: Vec<&str> = a[3].split(',').collect();
        cfg.cases = Some("/dev/null".into());
        let seed = cfg.seed;
        for (pass, seed) in [(0, seed.wrapping_add(1000)), (1, seed), (2, seed)] {
            cfg.seed = seed;
            let order: Vec<&str> = if pass == 2 { names.iter().rev().copied().collect() } else { names.clone() };
            for d in order {
                out.mark(d, pass);
                drive(d, &mut out, &cfg);
            }
        }
    } else {
        drive(&a[1], &mut out, &cfg);
    }
    out.finish();
}

fn drive(driver: &str, out: &mut out::Out, cfg: &Cfg) {
    match driver {
        "C01" => sos::c01(out, cfg),
        "C02" => sos::c02(out, cfg),
        "C03" => steady::c03(out, cfg),
        "C04" => steady::c04(out, cfg),
        "C05" => steady::c05(out, cfg),
        "C06" => design::c06(out, cfg),
        "C07" => design::magnitude(out, cfg, "butter", 7),
        "C08" => design::magnitude(out, cfg, "cheby1", 8),
        "C09" => design::magnitude(out, cfg, "cheby2", 9),
        "C10" => design::c10(out, cfg),
        "C11" => design::c11(out, cfg),
        "C12" => design::c12(out, cfg),
        "C13" => design::c13(out, cfg),
        "C14" => design::c14(out, cfg),
        "C31" => design::c31(out, cfg),
        "C32" => design::c32(out, cfg),
        "C33" => mem::c33(out, cfg),
        "C34" => stream::c34(out, cfg),
        "C22" => ints::c22(out, cfg),
        "C23" => ints::c23(out, cfg),
        "C19" => stats::c19(out, cfg),
        "C20" => stats::c20(out, cfg),
        "C21" => stats::c21(out, cfg),
        #[cfg(feature = "full")]
        "C15" => wave::fft::c15(out, cfg),
        #[cfg(feature = "full")]
        "C16" => wave::fft::c16(out, cfg),
        "C25" => wave::c25(out, cfg),
        "C17" => savgol::c17(out, cfg),
        "C18" => savgol::c18(out, cfg),
        "C24" => special::c24(out, cfg),
        "C26" => special::c26(out, cfg),
        "C29" => sos::c29(out, cfg),
        "C27" => configs::c27(out, cfg),
        #[cfg(feature = "full")]
        "C28" => plot::c28(out, cfg),
        #[cfg(feature = "full")]
        "C30" => pure::c30(out, cfg),
        p => panic!("no driver for {p}"),
    }
}
