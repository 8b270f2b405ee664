//! The same calls in the std and in the default (no_std, alloc) configuration of the library.
use crate::fl::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::sos::{build, cascade, delays};
use crate::stats::shape;
use crate::Cfg;
use sci_rs::linalg::companion_dyn;
use sci_rs::na::DMatrix;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats::*;

struct B<'a> {
    out: &'a mut Out,
    n: usize,
}
impl B<'_> {
    fn go<F: Fl>(&mut self, op: &str, f: impl FnOnce() -> Vec<Vec<F>>) {
        self.n += 1;
        self.out.call(op, |o| { o.put("ty", F::TY); }, f);
    }
}
fn flat<F: Fl>(d: DigitalFilter<F>) -> Vec<Vec<F>> {
    match d {
        DigitalFilter::Ba(f) => vec![f.b, f.a],
        // and sections multiplied out, so that neither does their order
        DigitalFilter::Sos(s) => {
            let mul = |f: &dyn Fn(&Sos<F>) -> [F; 3]| {
                s.sos.iter().fold(vec![F::of(1.0)], |acc, x| {
                    let c = f(x);
                    (0..acc.len() + 2).map(|k| (0..3).filter(|j| *j <= k && k - j < acc.len()).fold(F::of(0.0), |t, j| t + c[j] * acc[k - j])).collect()
                })
            };
            vec![vec![F::of(s.sos.len() as f64)], mul(&|x| x.b), mul(&|x| x.a)]
        }
        // roots as polynomials, so that their order does not matter
        DigitalFilter::Zpk(f) => {
            let t = zpk2tf_dyn(f.p.len().max(f.z.len()), &f.z, &f.p, f.k);
            vec![vec![F::of(f.z.len() as f64), F::of(f.p.len() as f64), f.k], t.b, t.a]
        }
    }
}

fn battery<F: Fl + Bessel>(b: &mut B, r: &mut Rng, c: &Cfg) {
    let reps = c.pick(25, 250);
    for _ in 0..reps {
        // filters
        let k = r.us(1, 7);
        let cs = cascade(r, k, false);
        let n = r.us(0, 40);
        let x = vof::<F>(&shape(r, n));
        b.go::<F>("sosfilt", || {
            let mut s = build::<F>(&cs);
            let y = sosfilt_dyn(x.iter(), &mut s);
            let y2: Vec<F> = sosfilt_st(x.iter(), &mut s).collect();
            let y3 = vec![sosfilt_item(F::of(0.5), &mut s)];
            let z: Vec<F> = delays(&s).into_iter().flatten().collect();
            vec![y, y2, y3, z]
        });
        b.go::<F>("sosfilt_zi", || {
            let mut s = build::<F>(&cs);
            sosfilt_zi_dyn::<_, _, Sos<F>>(s.iter_mut());
            delays(&s).iter().map(|d| d.to_vec()).collect()
        });
        let long = vof::<F>(&shape(r, 6 * k + 4 + n));
        b.go::<F>("sosfiltfilt", || vec![sosfiltfilt_dyn(long.iter(), &build::<F>(&cs))]);
        let (w, p) = (2 * r.us(1, 6) + 1, r.us(0, 2));
        let d = r.us(0, 2);
        b.go::<F>("savgol", || {
            vec![savgol_coeffs_dyn(w, p.min(w - 1), Some(d), None), savgol_filter_dyn(x.iter(), w, p.min(w - 2), Some(d), None)]
        });
        let m = DMatrix::from_fn(k + 2, 3, |i, j| F::of((i * 3 + j) as f64 * 0.37 - 1.0));
        b.go::<F>("odd_ext", || {
            let e = odd_ext_dyn(m.clone(), k, 0);
            vec![e.iter().copied().collect()]
        });
        b.go::<F>("lfilter_zi", || {
            let s = &cs[0];
            vec![lfilter_zi_dyn(&vof::<F>(&s.0), &vof::<F>(&s.1))]
        });
        b.go::<F>("companion", || {
            let a = [F::of(2.0), F::of(0.3), F::of(-1.0), F::of(cs[0].0[0])];
            let e = companion_dyn(a.iter(), 4);
            vec![e.iter().copied().collect()]
        });
        // statistics
        let y = vof::<F>(&shape(r, n));
        b.go::<F>("stats", || {
            let c = |p: (F, usize)| vec![p.0, F::of(p.1 as f64)];
            vec![c(median(y.iter())), c(median_abs_deviation(y.iter())), c(mean(y.iter())), c(variance(y.iter())), c(stdev(y.iter()))]
        });
        b.go::<F>("series", || {
            vec![
                lag_diff(y.iter()).collect(),
                if y.len() > 1 { vec![rmssd(y.iter())] } else { vec![] },
                zscore(y.iter()).collect(),
                mod_zscore(y.iter()).collect(),
                if y.len() > 3 { vec![autocorr(y.iter(), 2)] } else { vec![] },
            ]
        });
        let v = F::of(r.range(-40.0, 40.0));
        b.go::<F>("bessel", || vec![vec![v.i0e()], vec![v.i0()]]);
    }
    for n in 1..=c.pick(6usize, 8) {
        for (bt, name) in [
            (FilterBandType::Lowpass, "lowpass"),
            (FilterBandType::Highpass, "highpass"),
            (FilterBandType::Bandpass, "bandpass"),
            (FilterBandType::Bandstop, "bandstop"),
        ] {
            for form in [FilterOutputType::Ba, FilterOutputType::Zpk, FilterOutputType::Sos] {
                if F::TY == "f32" && n > 4 {
                    continue;
                }
                for fam in (0..3).chain(0..c.pick(1, 3)) {
                    let two = name == "bandpass" || name == "bandstop";
                    let lo = r.range(0.1, 0.35);
                    let w = if two { vec![F::of(lo), F::of(lo + r.range(0.12, 0.3))] } else { vec![F::of(lo)] };
                    let an = r.bool();
                    let (rp, rs) = (F::of(r.range(0.2, 3.0)), F::of(r.range(15.0, 50.0)));
                    let fs = if !an && r.bool() { Some(F::of(3.0)) } else { None };
                    b.go::<F>("design", || {
                        flat(match fam {
                            0 => butter_dyn(n, w, Some(bt), Some(an), Some(form), fs),
                            1 => cheby1_dyn(n, rp, w, Some(bt), Some(an), Some(form), fs),
                            _ => cheby2_dyn(n, rs, w, Some(bt), Some(an), Some(form), fs),
                        })
                    });
                }
            }
        }
        b.go::<F>("prototypes", || {
            let a = cheb1ap_dyn(n, F::of(1.5));
            let t = zpk2tf_dyn(n, &a.z, &a.p, a.k);
            let a2 = cheb2ap_dyn(n, F::of(21.5));
            let t2 = zpk2tf_dyn(n, &a2.z, &a2.p, a2.k);
            vec![t.b, t.a, t2.b, t2.a]
        });
    }
}
pub fn c27(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 27);
    let b = &mut B { out, n: 0 };
    battery::<f64>(b, r, c);
    battery::<f32>(b, r, c);
    // the fast paths
    for k in 1..=9usize {
        let cs = cascade(r, k, false);
        let n = r.us(1, 70);
        let x = vof::<f32>(&shape(r, n));
        b.go::<f32>("fast32", || {
            let mut s = build::<f32>(&cs);
            let mut z = vec![0.0; x.len()];
            sosfilt_fast32_st(&x, &mut s, &mut z);
            let i: Vec<i16> = x.iter().map(|v| (*v * 100.0) as i16).collect();
            let mut z2 = vec![0.0; x.len()];
            sosfilt_ifast32_st(&i, &mut s, &mut z2);
            vec![z, z2]
        });
        b.go::<f32>("stats32", || {
            let mut y = [0f32; 41];
            y.iter_mut().zip(&x).for_each(|(a, b)| *a = *b);
            let rms = rms_fast32(&y);
            let mut ac = [0f32; 10];
            let v = autocorr_fast32::<41, 10, 2>(&mut y, &mut ac);
            vec![vec![rms], vec![v], ac.to_vec(), y.to_vec()]
        });
    }
    for n in 0..20u64 {
        b.go::<f64>("ints", || {
            let f = |v: u64| v as f64;
            vec![vec![f(n.factorial())], vec![f(n.factorial2())], vec![f(n.factorialk(3))], vec![f((n + 9).comb(n)), f((n + 4).comb_rep(n))], vec![f(n.perm(n / 2)), f(n.stirling2(n / 2))]]
        });
    }
    for d in [0.0, 0.3, 0.5, 1.0] {
        b.go::<f64>("square", || {
            let t = ndarray::Array1::from_iter((0..200).map(|i| i as f64 * 0.1 - 7.03));
            vec![sci_rs::signal::wave::square(&t, d).to_vec()]
        });
    }
}
