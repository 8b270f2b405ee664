//! The library as a function: a pool of calls that resemble one another, made alone in a fresh process and then
//! after every other call of their family, at random among all of them, over and over, and from many threads.
use crate::fl::*;
use crate::out::{tick, Out};
use crate::rng::Rng;
use crate::sos::{build, delays, Sec};
use crate::Cfg;
use ndarray::Array1;
use sci_rs::linalg::companion_dyn;
use sci_rs::na::{Complex, DMatrix};
use sci_rs::signal::convolve::*;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::signal::resample::resample;
use sci_rs::signal::wave::square;
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats::*;
use std::cell::RefCell;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

struct Job {
    fam: String,
    what: String,
    run: Box<dyn Fn() -> Vec<u64> + Send + Sync>,
}

/// Every bit of an answer, all NaNs alike.
trait Bits {
    fn bits(&self, o: &mut Vec<u64>);
}
impl Bits for f64 {
    fn bits(&self, o: &mut Vec<u64>) {
        o.push(if self.is_nan() { u64::MAX } else { self.to_bits() })
    }
}
impl Bits for f32 {
    fn bits(&self, o: &mut Vec<u64>) {
        o.push(if self.is_nan() { u64::MAX } else { self.to_bits() as u64 })
    }
}
macro_rules! bits_int {
    ($($t:ty)*) => {$(impl Bits for $t { fn bits(&self, o: &mut Vec<u64>) { o.push(*self as u64); o.push((*self as i128 >> 64) as u64); } })*}
}
bits_int! {u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize}
impl<T: Bits> Bits for Vec<T> {
    fn bits(&self, o: &mut Vec<u64>) {
        o.push(self.len() as u64);
        self.iter().for_each(|v| v.bits(o));
    }
}
impl<T: Bits, const N: usize> Bits for [T; N] {
    fn bits(&self, o: &mut Vec<u64>) {
        self.iter().for_each(|v| v.bits(o));
    }
}
impl<T: Bits> Bits for Complex<T> {
    fn bits(&self, o: &mut Vec<u64>) {
        self.re.bits(o);
        self.im.bits(o);
    }
}
impl<A: Bits, B: Bits> Bits for (A, B) {
    fn bits(&self, o: &mut Vec<u64>) {
        self.0.bits(o);
        self.1.bits(o);
    }
}
impl<T: Bits> Bits for DMatrix<T> {
    fn bits(&self, o: &mut Vec<u64>) {
        o.push(self.nrows() as u64);
        o.push(self.ncols() as u64);
        self.iter().for_each(|v| v.bits(o));
    }
}
impl<F: Fl + Bits> Bits for ZpkFormatFilter<F> {
    fn bits(&self, o: &mut Vec<u64>) {
        self.z.bits(o);
        self.p.bits(o);
        self.k.bits(o);
    }
}
impl<F: Fl + Bits> Bits for Sos<F> {
    fn bits(&self, o: &mut Vec<u64>) {
        self.b.bits(o);
        self.a.bits(o);
        self.zi0.bits(o);
        self.zi1.bits(o);
    }
}
impl<F: Fl + Bits> Bits for DigitalFilter<F> {
    fn bits(&self, o: &mut Vec<u64>) {
        match self {
            DigitalFilter::Ba(f) => (f.b.clone(), f.a.clone()).bits(o),
            DigitalFilter::Zpk(f) => f.bits(o),
            DigitalFilter::Sos(f) => f.sos.bits(o),
        }
    }
}

// Slices come from one place per thread: the same address, other contents.
thread_local! {
    static PLACE: RefCell<Vec<u64>> = RefCell::new(vec![0; 4096]);
}
fn at<F: Fl, R>(v: &[F], f: impl FnOnce(&[F]) -> R) -> R {
    PLACE.with(|p| {
        let mut p = p.borrow_mut();
        assert!(v.len() <= 4096 && std::mem::size_of::<F>() <= 8);
        let s = unsafe { std::slice::from_raw_parts_mut(p.as_mut_ptr() as *mut F, v.len()) };
        s.copy_from_slice(v);
        f(s)
    })
}

struct Pool {
    jobs: Vec<Job>,
    fam: &'static str,
}
impl Pool {
    fn add<B: Bits>(&mut self, what: impl Into<String>, f: impl Fn() -> B + Send + Sync + 'static) {
        self.jobs.push(Job {
            fam: self.fam.into(),
            what: what.into(),
            run: Box::new(move || {
                let mut o = vec![];
                f().bits(&mut o);
                o
            }),
        })
    }
}

/// Signals that agree in length, ends, sum, magnitude, prefix ... but are not the same.
fn signals(r: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let s: Vec<f64> = (0..n).map(|_| r.int(-4000, 4000) as f64 / 1024.0).collect();
    let mut one = s.clone();
    one[n / 2] += 0.125;
    let mut perm = s.clone();
    perm[1..n - 1].reverse();
    let neg: Vec<f64> = s.iter().map(|v| -v).collect();
    let short = s[..n - 1].to_vec();
    let mut long = s.clone();
    long.push(s[0]);
    let mut last = s.clone();
    last[n - 1] -= 2.0;
    vec![s, one, perm, neg, short, long, last, vec![1.5; n], vec![0.0; n]]
}
fn cascades(r: &mut Rng) -> Vec<Vec<Sec>> {
    let base = |r: &mut Rng, k: usize| crate::sos::cascade(r, k, false);
    let mut v = vec![];
    for k in [1usize, 2, 4, 5] {
        let c = base(r, k);
        let mut d = c.clone();
        d[k - 1].0[1] += 0.25;
        let mut e = c.clone();
        e[0].1[2] += 0.0625;
        let mut f = c.clone();
        f.reverse();
        v.extend([c, d, e]);
        if k > 1 {
            v.push(f);
        }
    }
    v
}

fn floats<F: Fl + Bits + Bessel + Wave>(p: &mut Pool, seed: u64) {
    let ty = F::TY;
    let r = &mut Rng::new(seed, 30);
    let sigs: Vec<Vec<F>> = signals(r, 13).iter().map(|s| vof::<F>(s)).collect();
    let casc = cascades(r);
    macro_rules! each_signal {
        ($fam:literal, $y:ident => $e:expr) => {
            p.fam = $fam;
            for (i, s) in sigs.iter().enumerate() {
                let s = s.clone();
                p.add(format!("{} {ty} signal {i}", $fam), move || at(&s, |$y: &[F]| $e));
            }
        };
    }
    each_signal!("median", y => median::<_, F>(y.iter()));
    each_signal!("mad", y => median_abs_deviation::<_, F>(y.iter()));
    each_signal!("mean", y => mean::<_, F>(y.iter()));
    each_signal!("variance", y => variance::<_, F>(y.iter()));
    each_signal!("stdev", y => stdev::<_, F>(y.iter()));
    each_signal!("rmssd", y => rmssd::<_, F>(y.iter()));
    each_signal!("lag_diff", y => lag_diff(y.iter()).collect::<Vec<F>>());
    each_signal!("zscore", y => zscore(y.iter()).collect::<Vec<F>>());
    each_signal!("mod_zscore", y => mod_zscore(y.iter()).collect::<Vec<F>>());
    each_signal!("autocorr", y => autocorr::<_, F>(y.iter(), 1));
    each_signal!("autocorr", y => autocorr::<_, F>(y.iter(), 3));
    p.fam = "median";
    p.add(format!("median {ty} empty"), || median::<_, F>([].iter()));

    p.fam = "sosfilt";
    for (i, c) in casc.iter().enumerate() {
        for j in [0usize, 1, 4] {
            let (c, x) = (c.clone(), sigs[j].clone());
            p.add(format!("sosfilt {ty} cascade {i} signal {j}"), move || {
                let mut s = build::<F>(&c);
                if j == 1 {
                    s[0].zi0 = F::of(0.75);
                }
                at(&x, |x| (sosfilt_dyn(x.iter(), &mut s), s.clone()))
            });
            if j == 0 {
                let (c, x) = (casc[i].clone(), sigs[0].clone());
                p.add(format!("sosfilt_st/item {ty} cascade {i}"), move || {
                    let mut s = build::<F>(&c);
                    let y: Vec<F> = at(&x, |x| sosfilt_st(x.iter(), &mut s).take(9).collect());
                    (y, (vec![sosfilt_item(F::of(0.5), &mut s)], s))
                });
            }
        }
    }
    p.fam = "steady";
    for (i, c) in casc.iter().enumerate() {
        let c = c.clone();
        let c2 = c.clone();
        p.add(format!("sosfilt_zi {ty} cascade {i}"), move || {
            let mut s = build::<F>(&c);
            sosfilt_zi_dyn::<_, _, Sos<F>>(s.iter_mut());
            delays(&s)
        });
        p.add(format!("lfilter_zi {ty} section {i}"), move || lfilter_zi_dyn(&vof::<F>(&c2[0].0), &vof::<F>(&c2[0].1)));
    }
    p.fam = "sosfiltfilt";
    let wide: Vec<Vec<F>> = signals(r, 60).iter().map(|s| vof::<F>(s)).collect();
    for (i, c) in casc.iter().enumerate() {
        for j in [0usize, 2, 4] {
            let (c, x) = (c.clone(), wide[j].clone());
            p.add(format!("sosfiltfilt {ty} cascade {i} signal {j}"), move || at(&x, |x| sosfiltfilt_dyn(x.iter(), &build::<F>(&c))));
        }
    }
    p.fam = "savgol";
    for (w, q, d, dl) in [
        (7usize, 2usize, None, None),
        (7, 2, Some(1usize), None),
        (7, 2, Some(1), Some(0.5)),
        (7, 2, Some(2), Some(0.5)),
        (7, 3, None, None),
        (5, 2, None, None),
        (9, 2, Some(1), None),
        (7, 2, None, Some(0.5)),
        (5, 4, Some(3), Some(0.25)),
        (6, 2, None, None),
        (5, 7, None, None),
    ] {
        let dl = dl.map(F::of);
        p.add(format!("savgol_coeffs {ty} {w} {q} {d:?} {dl:?}"), move || savgol_coeffs_dyn::<F>(w, q, d, dl));
        for j in [0usize, 1, 4, 8] {
            let x = sigs[j].clone();
            p.add(format!("savgol_filter {ty} {w} {q} {d:?} {dl:?} signal {j}"), move || at(&x, |x| savgol_filter_dyn(x.iter(), w, q, d, dl)));
        }
    }
    p.fam = "pad";
    for (i, j) in [(0usize, 1usize), (1, 0), (2, 5)] {
        let x = wide[0].clone();
        let m = DMatrix::from_fn(5 + i, 6, |a, b| x[a * 6 + b]);
        for axis in 0..2usize {
            for n in [1usize, 3, 4] {
                let m = m.clone();
                p.add(format!("odd_ext {ty} {i} {j} {n} {axis}"), move || odd_ext_dyn(m.clone(), n, axis));
            }
            for n in [None, Some(3usize)] {
                let m = m.clone();
                p.add(format!("pad {ty} {i} {n:?} {axis}"), move || pad(Pad::Odd, n, m.clone(), axis, 1));
            }
        }
    }
    p.fam = "companion";
    for (i, s) in sigs.iter().enumerate() {
        for m in [4usize, 5, 2] {
            let s = s.clone();
            p.add(format!("companion {ty} signal {i} {m}"), move || at(&s[..m], |s| companion_dyn::<F, _, _>(s.iter(), m)));
        }
    }

    // designs: one request and those that differ from it in a single respect
    for fam in 0..3usize {
        p.fam = ["butter", "cheby1", "cheby2"][fam];
        for n in [3usize, 4] {
            for band in 0..4usize {
                let q = Rq { n, lo: 0.25, hi: 0.5, band, form: 2, analog: false, fs: None, dbs: if fam == 1 { 1.0 } else { 30.0 } };
                let mut all = vec![q, Rq { form: 1, ..q }];
                if n == 3 || band == 2 {
                    all.extend([
                        Rq { n: 5, ..q },
                        Rq { lo: 0.2500001, ..q },
                        Rq { hi: 0.75, ..q },
                        Rq { form: 0, ..q },
                        Rq { analog: true, ..q },
                        Rq { fs: Some(4.0), ..q },
                        Rq { dbs: q.dbs * 1.0000002, ..q },
                        Rq { dbs: q.dbs / 2.0, ..q },
                    ]);
                }
                if n == 4 && band == 0 {
                    all.extend([Rq { lo: 1.5, ..q }, Rq { fs: Some(0.25), ..q }, Rq { dbs: -1.0, ..q }]);
                }
                for q in all {
                    p.add(format!("{} {ty} {q:?}", p.fam), move || design::<F>(fam, &q));
                }
            }
        }
    }
    p.fam = "prototypes";
    for n in 0..6usize {
        for db in [0.5, 0.50000006, 1.0, 3.0, 20.0, 40.0] {
            p.add(format!("cheb1ap {ty} {n} {db}"), move || cheb1ap_dyn(n, F::of(db)));
            p.add(format!("cheb2ap {ty} {n} {db}"), move || cheb2ap_dyn(n, F::of(db)));
        }
    }
    let c = |re: f64, im: f64| Complex::new(F::of(re), F::of(im));
    let plants: Vec<Plant<F>> = vec![
        (vec![], vec![c(-1., 0.), c(-0.5, 0.75), c(-0.5, -0.75)], F::of(1.0)),
        (vec![c(0., 2.), c(0., -2.)], vec![c(-1., 0.), c(-0.5, 0.75), c(-0.5, -0.75)], F::of(1.0)),
        (vec![c(0., 2.), c(0., -2.)], vec![c(-1., 0.), c(-0.5, 0.75), c(-0.5, -0.75)], F::of(1.5)),
        (vec![c(0., 2.), c(0., -2.)], vec![c(-1., 0.), c(-0.5, 0.8125), c(-0.5, -0.8125)], F::of(1.0)),
        (vec![c(-3., 0.)], vec![c(-2., 0.), c(-0.5, 0.75), c(-0.5, -0.75)], F::of(1.0)),
        (vec![], vec![c(-1., 0.)], F::of(1.0)),
    ];
    let zpk = |f: &Plant<F>| f.clone();
    for (i, f) in plants.iter().enumerate() {
        for (wo, bw) in [(None, None), (Some(0.5), None), (None, Some(0.5)), (Some(0.5), Some(0.25)), (Some(0.25), Some(0.5)), (Some(2.0), Some(0.5))] {
            let (o, b) = (wo.map(F::of), bw.map(F::of));
            p.fam = "lp2lp/hp";
            let g = zpk(f);
            p.add(format!("lp2lp {ty} {i} {wo:?}"), move || lp2lp_zpk_dyn(filter(&g), o));
            let g = zpk(f);
            p.add(format!("lp2hp {ty} {i} {wo:?}"), move || lp2hp_zpk_dyn(filter(&g), o));
            p.fam = "lp2bp/bs";
            let g = zpk(f);
            p.add(format!("lp2bp {ty} {i} {wo:?} {bw:?}"), move || lp2bp_zpk_dyn(filter(&g), o, b));
            let g = zpk(f);
            p.add(format!("lp2bs {ty} {i} {wo:?} {bw:?}"), move || lp2bs_zpk_dyn(filter(&g), o, b));
        }
        p.fam = "bilinear";
        for fs in [2.0, 4.0, 2.0000005, 1.0] {
            let g = zpk(f);
            p.add(format!("bilinear {ty} {i} {fs}"), move || bilinear_zpk_dyn(filter(&g), F::of(fs)));
        }
        p.fam = "conversions";
        let g = f.clone();
        p.add(format!("zpk2tf {ty} {i}"), move || {
            let t = zpk2tf_dyn(g.0.len().max(g.1.len()), &g.0, &g.1, g.2);
            (t.b, t.a)
        });
        let g = f.clone();
        p.add(format!("poly {ty} {i}"), move || poly_dyn(&g.1));
        let g = f.clone();
        p.add(format!("poly real {ty} {i}"), move || poly_dyn(&g.1.iter().map(|v| v.re).collect::<Vec<_>>()));
        let half = |v: &[Complex<F>]| v.iter().map(|x| x / F::of(4.0)).collect::<Vec<_>>();
        for k in 0..2 {
            let g = (half(&f.0), half(&f.1), f.2);
            p.add(format!("zpk2sos {ty} {i} {k}"), move || {
                let order = g.1.len().max(g.0.len());
                zpk2sos_dyn(order, filter(&g), Some(if k == 0 { ZpkPairing::Nearest } else { ZpkPairing::Minimal }), Some(false)).sos
            });
        }
    }
    p.fam = "from_scipy";
    for (i, x) in wide.iter().enumerate() {
        for order in [1usize, 2, 3] {
            let v = x[..6 * order].to_vec();
            p.add(format!("from_scipy {ty} {i} {order}"), move || Sos::from_scipy_dyn(order, v.clone()));
        }
    }
    p.fam = "bessel";
    for x in [0.0, 0.5, -0.5, 0.50000006, 1.0, 7.999999, 8.0, 8.000001, 20.0, -20.0, 60.0] {
        p.add(format!("i0 {ty} {x}"), move || F::of(x).i0());
        p.add(format!("i0e {ty} {x}"), move || F::of(x).i0e());
    }
    p.fam = "convolve";
    for m in 0..3usize {
        for (i, j) in [(0usize, 1usize), (1, 0), (0, 2), (4, 0), (0, 4), (5, 1), (8, 0)] {
            let (a, b) = (sigs[i].clone(), sigs[j][..sigs[j].len().min(7 + i)].to_vec());
            let mode = move || match m {
                0 => ConvolveMode::Full,
                1 => ConvolveMode::Same,
                _ => ConvolveMode::Valid,
            };
            F::wave(p, format!("{ty} {m} {i} {j}"), a, b, mode);
        }
    }
    p.fam = "resample";
    for (i, x) in sigs.iter().enumerate() {
        for n in [12usize, 13, 14, 26, 5, 0] {
            F::resampled(p, format!("resample {ty} signal {i} to {n}"), x.clone(), n);
        }
    }
    // signals long enough for paths that small ones never take
    p.fam = "long";
    let long: Vec<Vec<F>> = signals(r, 1500).iter().map(|s| vof::<F>(s)).collect();
    for j in [0usize, 1, 4] {
        let x = || long[j].clone();
        let (a, b, c2, d, e) = (x(), x(), x(), x(), x());
        let (k1, k2) = (casc[j].clone(), casc[j].clone());
        p.add(format!("median {ty} long {j}"), move || at(&a, |x| median::<_, F>(x.iter())));
        p.add(format!("variance {ty} long {j}"), move || at(&b, |x| variance::<_, F>(x.iter())));
        p.add(format!("sosfilt {ty} long {j}"), move || at(&c2, |x| sosfilt_dyn(x.iter(), &mut build::<F>(&k1))));
        p.add(format!("sosfiltfilt {ty} long {j}"), move || at(&d, |x| sosfiltfilt_dyn(x.iter(), &build::<F>(&k2))));
        p.add(format!("savgol {ty} long {j}"), move || at(&e, |x| savgol_filter_dyn(x.iter(), 9, 2, None, None::<F>)));
        F::wave(p, format!("{ty} long {j}"), x(), long[0][..300 + j].to_vec(), || ConvolveMode::Same);
        F::resampled(p, format!("resample {ty} long {j}"), x(), 1400);
    }
    p.fam = "square";
    for (i, x) in sigs.iter().enumerate() {
        for duty in [0.5, 0.25, 0.50000006, 0.0, 1.5] {
            let x = x.clone();
            p.add(format!("square {ty} signal {i} duty {duty}"), move || square(&Array1::from(x.clone()), F::of(duty)).to_vec());
        }
    }
}

type Plant<F> = (Vec<Complex<F>>, Vec<Complex<F>>, F);
fn filter<F: Fl>(f: &Plant<F>) -> ZpkFormatFilter<F> {
    ZpkFormatFilter::new(f.0.clone(), f.1.clone(), f.2)
}
#[derive(Clone, Copy, Debug)]
struct Rq {
    n: usize,
    lo: f64,
    hi: f64,
    band: usize,
    form: usize,
    analog: bool,
    fs: Option<f64>,
    dbs: f64,
}
fn design<F: Fl>(fam: usize, q: &Rq) -> DigitalFilter<F> {
    let b = match q.band {
        0 => FilterBandType::Lowpass,
        1 => FilterBandType::Highpass,
        2 => FilterBandType::Bandpass,
        _ => FilterBandType::Bandstop,
    };
    let o = match q.form {
        0 => FilterOutputType::Ba,
        1 => FilterOutputType::Zpk,
        _ => FilterOutputType::Sos,
    };
    let w: Vec<F> = if q.band < 2 { vec![F::of(q.lo)] } else { vec![F::of(q.lo), F::of(q.hi)] };
    match fam {
        0 => butter_dyn(q.n, w, Some(b), Some(q.analog), Some(o), q.fs.map(F::of)),
        1 => cheby1_dyn(q.n, F::of(q.dbs), w, Some(b), Some(q.analog), Some(o), q.fs.map(F::of)),
        _ => cheby2_dyn(q.n, F::of(q.dbs), w, Some(b), Some(q.analog), Some(o), q.fs.map(F::of)),
    }
}

/// the transforms ask for a concrete type
trait Wave: Fl {
    fn wave(p: &mut Pool, what: String, a: Vec<Self>, b: Vec<Self>, m: impl Fn() -> ConvolveMode + Copy + Send + Sync + 'static);
    fn resampled(p: &mut Pool, what: String, x: Vec<Self>, n: usize);
}
macro_rules! wave_impl {
    ($($t:ty)*) => {$(impl Wave for $t {
        fn wave(p: &mut Pool, what: String, a: Vec<$t>, b: Vec<$t>, m: impl Fn() -> ConvolveMode + Copy + Send + Sync + 'static) {
            let (a2, b2, a3, b3) = (a.clone(), b.clone(), a.clone(), b.clone());
            p.add(format!("convolve {what}"), move || at(&a, |a| convolve(a, &b, m())));
            p.add(format!("correlate {what}"), move || at(&a2, |a| correlate(a, &b2, m())));
            p.add(format!("fftconvolve {what}"), move || at(&a3, |a| fftconvolve(a, &b3, m())));
        }
        fn resampled(p: &mut Pool, what: String, x: Vec<$t>, n: usize) {
            p.add(what, move || at(&x, |x| resample(x, n)));
        }
    })*}
}
wave_impl! {f32 f64}

macro_rules! ints {
    ($p:ident: $($t:ident)*) => {$(
        let ty = stringify!($t);
        for n in [0 as $t, 1, 2, 5, 7, 8, 40] {
            $p.fam = "factorial";
            $p.add(format!("factorial {ty} {n}"), move || n.factorial());
            $p.add(format!("factorial2 {ty} {n}"), move || n.factorial2());
            for k in [0 as $t, 1, 3] {
                $p.add(format!("factorialk {ty} {n} {k}"), move || n.factorialk(k));
            }
        }
        for (n, k) in [(0 as $t, 0 as $t), (5, 2), (2, 5), (5, 3), (6, 2), (6, 3), (7, 2), (7, 4), (40, 3), (8, 8), (8, 0), (9, 4)] {
            $p.fam = "comb";
            $p.add(format!("comb {ty} {n} {k}"), move || n.comb(k));
            $p.add(format!("comb_rep {ty} {n} {k}"), move || n.comb_rep(k));
            $p.fam = "perm/stirling";
            $p.add(format!("perm {ty} {n} {k}"), move || n.perm(k));
            $p.add(format!("stirling2 {ty} {n} {k}"), move || n.stirling2(k));
        }
    )*};
}

fn pool(seed: u64) -> Vec<Job> {
    let p = &mut Pool { jobs: vec![], fam: "" };
    floats::<f64>(p, seed);
    floats::<f32>(p, seed);
    ints!(p: u8 u64 i32 i128);
    let r = &mut Rng::new(seed, 31);
    let sigs = signals(r, 16);
    for (i, s) in sigs.iter().enumerate() {
        if s.len() < 16 {
            continue;
        }
        let x: [f32; 16] = std::array::from_fn(|k| s[k] as f32);
        p.fam = "rms_fast32";
        p.add(format!("rms_fast32 16 signal {i}"), move || rms_fast32(&x));
        p.add(format!("rms_fast32 13 signal {i}"), move || rms_fast32::<13>(&std::array::from_fn(|k| x[k])));
        p.fam = "autocorr_fast32";
        p.add(format!("autocorr_fast32 16 4 1 signal {i}"), move || {
            let (mut y, mut a) = (x, [0f32; 4]);
            (autocorr_fast32::<16, 4, 1>(&mut y, &mut a), (a, y))
        });
        p.add(format!("autocorr_fast32 16 6 2 signal {i}"), move || {
            let (mut y, mut a) = (x, [0f32; 6]);
            (autocorr_fast32::<16, 6, 2>(&mut y, &mut a), (a, y))
        });
    }
    p.fam = "fast32";
    for (i, c) in cascades(r).into_iter().enumerate() {
        for j in [0usize, 1, 2, 4] {
            let (x, c, c2) = (vof::<f32>(&sigs[j]), c.clone(), c.clone());
            let y: Vec<i16> = x.iter().map(|v| (*v * 100.0) as i16).collect();
            p.add(format!("sosfilt_fast32 cascade {i} signal {j}"), move || {
                let (mut s, mut z) = (build::<f32>(&c), vec![0f32; x.len()]);
                at(&x, |x| sosfilt_fast32_st(x, &mut s, &mut z));
                (z, s)
            });
            if j < 2 {
                p.add(format!("sosfilt_ifast32 cascade {i} signal {j}"), move || {
                    let (mut s, mut z) = (build::<f32>(&c2), vec![0f32; y.len()]);
                    sosfilt_ifast32_st(&y, &mut s, &mut z);
                    (z, s)
                });
            }
        }
    }
    p.fam = "median";
    for (i, s) in sigs.iter().enumerate() {
        let y: Vec<i32> = s.iter().map(|v| *v as i32).collect();
        p.add(format!("median i32 signal {i}"), move || median::<_, i32>(y.iter()));
    }
    let p = std::mem::take(&mut p.jobs);
    // members of a family need not have been listed together
    let mut fams: Vec<String> = vec![];
    p.iter().for_each(|j| {
        if !fams.contains(&j.fam) {
            fams.push(j.fam.clone())
        }
    });
    let mut p: Vec<Job> = p;
    p.sort_by_key(|j| fams.iter().position(|f| *f == j.fam));
    p
}

fn answer(j: &Job) -> String {
    match Out::observe(|| (j.run)()) {
        Ok(v) => {
            let mut h = [0xcbf29ce484222325u64, 0x9e3779b97f4a7c15];
            for w in &v {
                for b in w.to_le_bytes() {
                    h[0] = (h[0] ^ b as u64).wrapping_mul(0x100000001b3);
                }
                h[1] = (h[1] ^ w).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29);
            }
            format!("{:016x}{:08x}", h[0], h[1] >> 32)
        }
        Err(_) => "refused".into(),
    }
}

/// The process in which a call is the only one.
pub fn one(seed: u64, i: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    print!("{}", answer(&pool(seed)[i]));
}

/// Every ordered pair of 0..n next to each other exactly once (an Eulerian tour of the complete digraph with loops).
fn tour(n: usize) -> Vec<usize> {
    // Hierholzer: leave each vertex towards the lowest successor not yet taken
    let (mut next, mut stack, mut out) = (vec![0usize; n], vec![0usize], vec![]);
    while let Some(&v) = stack.last() {
        if next[v] < n {
            next[v] += 1;
            stack.push(next[v] - 1);
        } else {
            out.push(stack.pop().unwrap());
        }
    }
    out.reverse();
    out
}

pub fn c30(out: &mut Out, c: &Cfg) {
    let jobs = &pool(c.seed);
    let n = jobs.len();
    let seen: Vec<Mutex<Vec<(&'static str, String)>>> = jobs.iter().map(|_| Mutex::new(vec![])).collect();
    let see = |i: usize, how: &'static str, a: String| {
        seen[i].lock().unwrap().push((how, a));
    };
    out.session("histories", |o| {
        let exe = std::env::current_exe().unwrap();
        // each call alone
        let at = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = at.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = Command::new(&exe).args(["pure-one", &i.to_string()]).output().expect("run a call alone");
                    tick();
                    see(i, "alone", if r.status.success() { String::from_utf8(r.stdout).unwrap() } else { "ended the process".into() });
                });
            }
        });
        o.put("jobs", &n);
    });
    // after every other call of its family
    let mut from = 0;
    while from < n {
        let to = (from..n).find(|i| jobs[*i].fam != jobs[from].fam).unwrap_or(n);
        let k = to - from;
        let t = tour(k);
        out.session("tour", |o| {
            o.put("fam", &jobs[from].fam).put("size", &k).put("calls", &t.len());
            for i in &t {
                tick();
                see(from + i, "tour", answer(&jobs[from + i]));
            }
        });
        from = to;
    }
    // among all others
    let r = &mut Rng::new(c.seed, 32);
    out.session("walk", |o| {
        let calls = c.pick(12_000, 150_000);
        o.put("calls", &calls);
        for _ in 0..calls {
            let i = r.us(0, n - 1);
            for _ in 0..if r.us(0, 9) == 0 { r.us(2, 5) } else { 1 } {
                tick();
                see(i, "walk", answer(&jobs[i]));
            }
        }
    });
    // over and over
    out.session("repeat", |o| {
        let (times, which) = (c.pick(300, 1100), c.pick(40, 200));
        o.put("calls", &(times * which));
        for _ in 0..which {
            let i = r.us(0, n - 1);
            for _ in 0..times {
                tick();
                see(i, "repeat", answer(&jobs[i]));
            }
        }
    });
    // from many threads at once
    out.session("threads", |o| {
        let (calls, threads, rounds) = (c.pick(1500usize, 12_000), 8u64, c.pick(2u64, 6));
        o.put("calls", &(calls * threads as usize * rounds as usize));
        for round in 0..rounds {
            let gate = Barrier::new(threads as usize);
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (gate, see) = (&gate, &see);
                    s.spawn(move || {
                        let mut r = Rng::new(c.seed, 3000 + 100 * round + t);
                        gate.wait();
                        let mut i = r.us(0, n - 1);
                        for _ in 0..calls {
                            // now a neighbour, now anything
                            i = if r.us(0, 3) > 0 { (i + r.us(0, 6) + n - 3) % n } else { r.us(0, n - 1) };
                            tick();
                            see(i, "threads", answer(&jobs[i]));
                        }
                    });
                }
            });
        }
    });
    for (i, j) in jobs.iter().enumerate() {
        let s = seen[i].lock().unwrap();
        let answers: Vec<&String> = s.iter().map(|p| &p.1).collect();
        out.session("call", |o| {
            o.put("fam", &j.fam).put("what", &j.what).put("seen", &answers);
            // where another answer first came up
            o.put("odd", &s.iter().position(|p| p.1 != s[0].1).map_or("nowhere", |k| s[k].0));
        });
    }
}
