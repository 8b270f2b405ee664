//! What every operation takes from the heap, and what it writes beside its arguments (C33).
use crate::fl::*;
use crate::heap::{measure, Account};
use crate::j::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::sos::*;
use crate::Cfg;
use sci_rs::linalg::companion_dyn;
use sci_rs::na::{Complex, DMatrix};
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::*;
use sci_rs::special::{Bessel, Combinatoric, Factorial};
use sci_rs::stats::*;
use std::collections::HashMap;
use std::hint::black_box;

struct Bench<'a> {
    out: &'a mut Out,
    seen: HashMap<String, usize>,
}
fn put(o: &mut Obj, a: &Account, log: bool) {
    o.put("n", &a.n).put("peak", &a.peak).put("net", &(a.net as i32)).put("whole", &a.whole);
    if log {
        o.put("log", &a.log.iter().map(|l| (if l[0] == 1 { "take" } else { "give" }, l[1], l[2])).collect::<Vec<_>>());
    }
}
impl Bench<'_> {
    /// `f` gives back what is to be dropped, after saying how large the answer is
    fn go<R>(&mut self, op: &str, ty: &str, given: usize, work: usize, mut f: impl FnMut() -> (R, usize)) {
        let nth = self.seen.entry(format!("{op} {ty}")).or_insert(0);
        *nth += 1;
        let nth = *nth;
        self.out.session(op, |o| {
            let mut once = || {
                let mut held = 0;
                let (r, a) = measure(|| {
                    // an answer, or the end of a refusal: either way it is gone when the region ends
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let (r, s) = f();
                        drop(black_box(r));
                        s
                    }))
                    .map_err(drop)
                });
                if let Ok(s) = r {
                    held = s;
                }
                (r.is_ok(), held, a)
            };
            let (ok, got, a) = once();
            let (ok2, _, b) = once();
            o.put("ty", ty).put("nth", &nth).put("given", &given).put("got", &got).put("work", &work).put("st", if ok && ok2 { "ok" } else { "panic" });
            o.put("first", &obj(|o| put(o, &a, false)));
            o.put("again", &obj(|o| put(o, &b, true)));
        });
    }
    fn guard(&mut self, op: &str, ok: bool, len: usize) {
        self.out.session("beside", |o| {
            o.put("what", op).put("len", &len).put("st", if ok { "ok" } else { "written" });
        });
    }
}

fn bytes<T>(n: usize) -> usize {
    n * std::mem::size_of::<T>()
}

fn signal<F: Fl>(r: &mut Rng, n: usize) -> Vec<F> {
    (0..n).map(|_| F::of(r.range(-4., 4.))).collect()
}

fn floats<F: Eps + Bessel>(b: &mut Bench, r: &mut Rng, c: &Cfg, n: usize) {
    let ty = F::TY;
    let x: Vec<F> = signal(r, n);
    let given = bytes::<F>(n);
    let nsec = *r.pick(&[0usize, 1, 2, 3, 4, 6, 8, 10, 12, 13, 20]);
    let cs = cascade(r, nsec, false);
    let mut s = build::<F>(&cs);
    let sg = bytes::<Sos<F>>(nsec);
    let h = r.us(0, HINTS);
    let vec_ = |v: &Vec<F>| v.len() * std::mem::size_of::<F>();

    // the ones that promise to take nothing
    b.go("sosfilt_st", ty, given, 0, || (black_box(sosfilt_st(x.iter(), &mut s).fold(F::of(0.0), |a, v| a + v)), 0));
    b.go("sosfilt_st", ty, given, 0, || (black_box(sosfilt_st(hinted(x.iter().copied(), h), &mut s).take(n / 2).count()), 0));
    b.go("sosfilt_item", ty, given, 0, || {
        for v in &x {
            black_box(sosfilt_item(v, &mut s));
        }
        ((), 0)
    });
    b.go("mean", ty, given, 0, || (mean::<_, F>(x.iter()), 0));
    b.go("variance", ty, given, 0, || (variance::<_, F>(x.iter()), 0));
    b.go("stdev", ty, given, 0, || (stdev::<_, F>(x.iter()), 0));
    b.go("autocorr", ty, given, 0, || (autocorr::<_, F>(x.iter(), n / 3), 0));
    b.go("rmssd", ty, given, 0, || (rmssd::<_, F>(x.iter()), 0));
    b.go("lag_diff", ty, given, 0, || (black_box(lag_diff(x.iter()).fold(F::of(0.0), |a, v: F| a + v)), 0));
    b.go("zscore", ty, given, 0, || (black_box(zscore(x.iter()).fold(F::of(0.0), |a, v: F| a + v)), 0));
    b.go("i0", ty, given, 0, || (x.iter().map(|v| v.i0() + v.i0e()).fold(F::of(0.0), |a, v| a + v), 0));
    b.go("steady", ty, sg, nsec, || {
        sosfilt_zi_dyn::<F, _, Sos<F>>(s.iter_mut());
        ((), sg)
    });

    // the ones that may take what their data take
    b.go("median", ty, given, 0, || (median::<_, F>(hinted(x.iter(), h)), 0));
    b.go("median_abs_deviation", ty, given, 0, || (median_abs_deviation::<_, F>(x.iter()), 0));
    b.go("mod_zscore", ty, given, 0, || (black_box(mod_zscore(x.iter()).fold(F::of(0.0), |a, v: F| a + v)), 0));
    b.go("sosfilt_dyn", ty, given, 0, || {
        let y = sosfilt_dyn(hinted(x.iter(), h), &mut s);
        let g = vec_(&y);
        (y, g)
    });
    b.go("sosfiltfilt_dyn", ty, given + sg, 3 * (2 * nsec + 1), || {
        let y = sosfiltfilt_dyn(hinted(x.iter(), h), &s);
        let g = vec_(&y);
        (y, g)
    });
    // the caller's own sequence gives up in the middle
    let stop = r.us(0, n);
    let boom = || x.iter().enumerate().map(move |(i, v)| if i == stop { panic!("the sequence gives up") } else { v });
    if n > 0 && stop < n {
        b.go("median", ty, given, 0, || (median::<_, F>(boom()), 0));
        b.go("mean", ty, given, 0, || (mean::<_, F>(boom()), 0));
        b.go("sosfilt_st", ty, given, 0, || (sosfilt_st(boom(), &mut s).count(), 0));
        b.go("sosfilt_dyn", ty, given, 0, || (sosfilt_dyn(boom(), &mut s), 0));
        b.go("sosfiltfilt_dyn", ty, given + sg, 3 * (2 * nsec + 1), || (sosfiltfilt_dyn(boom(), &s), 0));
        b.go("savgol_filter_dyn", ty, given, 99, || (savgol_filter_dyn(boom(), 7, 2, None, None::<F>), 0));
        b.go("median_abs_deviation", ty, given, 0, || (median_abs_deviation::<_, F>(boom()), 0));
        b.go("companion_dyn", ty, given, n.min(90) * n.min(90), || (companion_dyn::<F, _, _>(boom().take(90).copied(), n.min(90)), 0));
    }
    let (w, q) = *r.pick(&[(5usize, 2usize), (7, 3), (11, 2), (21, 4), (51, 5), (8, 3)]);
    let d = if r.bool() { Some(r.us(0, 2)) } else { None };
    b.go("savgol_coeffs_dyn", ty, bytes::<F>(w), w * (q + 1), || {
        let y = savgol_coeffs_dyn::<F>(w, q, d, None);
        (y, bytes::<F>(w))
    });
    b.go("savgol_filter_dyn", ty, given, w * (q + 1), || {
        let y = savgol_filter_dyn(hinted(x.iter(), h), w, q, d, None::<F>);
        let g = vec_(&y);
        (y, g)
    });
    if n >= 6 && n <= 20_000 {
        let rows = 2 + n % 3;
        let m = DMatrix::from_fn(rows, n / rows, |i, j| x[i * (n / rows) + j]);
        b.go("odd_ext_dyn", ty, given, 0, || {
            let y = odd_ext_dyn(m.clone(), n / rows - 1, 1);
            let g = bytes::<F>(y.len());
            (y, g)
        });
        b.go("pad", ty, given, 0, || {
            let y = pad(Pad::Odd, Some((n / rows - 1) / 2), m.clone(), 1, 5).1;
            let g = bytes::<F>(y.len());
            (y, g)
        });
    }
    let m = 2 + n % c.pick(60, 150);
    let t: Vec<F> = (0..m).map(|i| F::of(if i == 0 { 2.0 } else { r.range(-1., 1.) })).collect();
    b.go("companion_dyn", ty, bytes::<F>(m), m * m, || {
        let y = companion_dyn::<F, _, _>(t.iter(), m);
        let g = bytes::<F>(y.len());
        (y, g)
    });
    b.go("lfilter_zi_dyn", ty, 2 * bytes::<F>(m), m * m, || {
        let y = lfilter_zi_dyn(&t, &t);
        let g = vec_(&y);
        (y, g)
    });
    let rows = n / 6;
    b.go("from_scipy_dyn", ty, bytes::<F>(rows * 6), 0, || {
        let y = Sos::from_scipy_dyn(rows, x[..rows * 6].to_vec());
        let g = bytes::<Sos<F>>(y.len());
        (y, g)
    });
    b.go("sos_new", ty, 0, 0, || (Sos::<F>::new([F::of(1.0); 3], [F::of(1.0); 3]), 0));
}

fn designs<F: Eps>(b: &mut Bench, r: &mut Rng, n: usize) {
    let ty = F::TY;
    let c = |re: f64, im: f64| Complex::new(F::of(re), F::of(im));
    let mut p: Vec<Complex<F>> = vec![];
    for i in 0..n / 2 {
        let t = 0.3 + 2.5 * (i as f64 + r.range(0.1, 0.9)) / n as f64;
        p.push(c(-t.sin() * 0.7, t.cos() * 0.7));
        p.push(c(-t.sin() * 0.7, -t.cos() * 0.7));
    }
    if n % 2 == 1 {
        p.push(c(-0.5, 0.0));
    }
    let rb = bytes::<Complex<F>>(n);
    let zpk = |f: ZpkFormatFilter<F>| {
        let g = bytes::<Complex<F>>(f.z.len() + f.p.len());
        (f, g)
    };
    let f = || ZpkFormatFilter::new(vec![], p.clone(), F::of(1.0));
    b.go("lp2lp_zpk_dyn", ty, rb, n, || zpk(lp2lp_zpk_dyn(f(), Some(F::of(0.5)))));
    b.go("lp2hp_zpk_dyn", ty, rb, n, || zpk(lp2hp_zpk_dyn(f(), Some(F::of(0.5)))));
    b.go("lp2bp_zpk_dyn", ty, rb, n, || zpk(lp2bp_zpk_dyn(f(), Some(F::of(0.5)), Some(F::of(0.25)))));
    b.go("lp2bs_zpk_dyn", ty, rb, n, || zpk(lp2bs_zpk_dyn(f(), Some(F::of(0.5)), Some(F::of(0.25)))));
    b.go("bilinear_zpk_dyn", ty, rb, n, || zpk(bilinear_zpk_dyn(f(), F::of(2.0))));
    b.go("cheb1ap_dyn", ty, 0, n, || zpk(cheb1ap_dyn(n, F::of(1.0))));
    b.go("cheb2ap_dyn", ty, 0, n, || zpk(cheb2ap_dyn(n, F::of(30.0))));
    b.go("zpk2tf_dyn", ty, rb, n, || {
        let t = zpk2tf_dyn(n, &vec![], &p, F::of(1.0));
        let g = bytes::<F>(t.a.len() + t.b.len());
        (t, g)
    });
    b.go("poly_dyn", ty, rb, n, || {
        let t = poly_dyn(&p);
        let g = bytes::<Complex<F>>(t.len());
        (t, g)
    });
    b.go("zpk2sos_dyn", ty, rb, n, || {
        let t = zpk2sos_dyn(n, f(), Some(ZpkPairing::Nearest), Some(false));
        let g = bytes::<Sos<F>>(t.sos.len());
        (t, g)
    });
    for fam in 0..3 {
        for band in 0..4 {
            for form in 0..3 {
                let n = n.min(if form == 1 { 60 } else { 12 });
                let bad = r.us(0, 9) == 0;
                let w = if bad { vec![F::of(1.5)] } else if band < 2 { vec![F::of(0.25)] } else { vec![F::of(0.25), F::of(0.5)] };
                let op = ["butter_dyn", "cheby1_dyn", "cheby2_dyn"][fam];
                b.go(op, ty, bytes::<F>(w.len()), n, || {
                    let t = match band {
                        0 => FilterBandType::Lowpass,
                        1 => FilterBandType::Highpass,
                        2 => FilterBandType::Bandpass,
                        _ => FilterBandType::Bandstop,
                    };
                    let o = match form {
                        0 => FilterOutputType::Ba,
                        1 => FilterOutputType::Zpk,
                        _ => FilterOutputType::Sos,
                    };
                    let d = match fam {
                        0 => butter_dyn(n, w.clone(), Some(t), Some(false), Some(o), None),
                        1 => cheby1_dyn(n, F::of(1.0), w.clone(), Some(t), Some(false), Some(o), None),
                        _ => cheby2_dyn(n, F::of(30.0), w.clone(), Some(t), Some(false), Some(o), None),
                    };
                    let g = match &d {
                        DigitalFilter::Ba(f) => bytes::<F>(f.b.len() + f.a.len()),
                        DigitalFilter::Zpk(f) => bytes::<Complex<F>>(f.z.len() + f.p.len()),
                        DigitalFilter::Sos(f) => bytes::<Sos<F>>(f.sos.len()),
                    };
                    (d, g)
                });
            }
        }
    }
}

/// The 32-bit paths: nothing from the heap, and nothing written beside the slices they were handed.
fn fast32(b: &mut Bench, r: &mut Rng, n: usize, nsec: usize) {
    let lead = r.us(0, 5);
    let x: Vec<f32> = signal(r, n + 2 * lead);
    let xi: Vec<i16> = x.iter().map(|v| (*v * 1000.0) as i16).collect();
    let cs = cascade(r, nsec + 2, false);
    let mut s = build::<f32>(&cs);
    s.iter_mut().for_each(|s| (s.zi0, s.zi1) = (0.5, -0.25));
    let before = s.clone();
    let mut z = vec![77.5f32; n + 2 * lead];
    let same = |a: &Sos<f32>, b: &Sos<f32>| a.zi0.same(b.zi0) && a.zi1.same(b.zi1) && (0..3).all(|i| a.a[i].same(b.a[i]) && a.b[i].same(b.b[i]));
    for kind in 0..2 {
        let op = ["sosfilt_fast32_st", "sosfilt_ifast32_st"][kind];
        b.go(op, "f32", 4 * n, 0, || {
            if kind == 0 {
                sosfilt_fast32_st(&x[lead..lead + n], &mut s[1..1 + nsec], &mut z[lead..lead + n])
            } else {
                sosfilt_ifast32_st(&xi[lead..lead + n], &mut s[1..1 + nsec], &mut z[lead..lead + n])
            }
            ((), 0)
        });
        let ok = z[..lead].iter().chain(&z[lead + n..]).all(|v| *v == 77.5) && same(&s[0], &before[0]) && same(&s[nsec + 1], &before[nsec + 1]);
        b.guard(op, ok, n);
        // an answer slice that does not fit
        b.go(op, "f32", 4 * n, 0, || {
            if kind == 0 {
                sosfilt_fast32_st(&x[lead..lead + n], &mut s[1..1 + nsec], &mut z[..n + lead + 1])
            } else {
                sosfilt_ifast32_st(&xi[lead..lead + n], &mut s[1..1 + nsec], &mut z[..(n + lead).saturating_sub(lead + 1)])
            }
            ((), 0)
        });
    }
}
fn arrays<const N: usize>(b: &mut Bench, r: &mut Rng) {
    let x: [f32; N] = std::array::from_fn(|_| r.range(-4., 4.) as f32);
    b.go("rms_fast32", "f32", 4 * N, 0, || (rms_fast32::<N>(&x), 0));
    let mut y = ([77.5f32; 8], x, [77.5f32; 8]);
    let mut a = ([77.5f32; 8], [0f32; 4], [77.5f32; 8]);
    b.go("autocorr_fast32", "f32", 4 * N, 0, || {
        black_box(autocorr_fast32::<N, 4, 1>(&mut y.1, &mut a.1));
        ((), 0)
    });
    b.guard("autocorr_fast32", y.0.iter().chain(&y.2).chain(&a.0).chain(&a.2).all(|v| *v == 77.5), N);
}

macro_rules! ints {
    ($b:ident: $($t:ident)*) => {$(
        for (n, k) in [(5 as $t, 2 as $t), (0, 0), (7, 3), (12, 5), (3, 5), (120, 0)] {
            let ty = stringify!($t);
            $b.go("factorial", ty, 0, 0, || (n.min(5).factorial(), 0));
            $b.go("factorial2", ty, 0, 0, || (n.min(7).factorial2(), 0));
            $b.go("factorialk", ty, 0, 0, || (n.min(7).factorialk(k.max(1)), 0));
            $b.go("comb", ty, 0, 0, || (n.min(7).comb(k), 0));
            $b.go("comb_rep", ty, 0, 0, || (n.min(6).comb_rep(k.min(3)), 0));
            $b.go("perm", ty, 0, 0, || (n.min(6).perm(k.min(3)), 0));
            $b.go("stirling2", ty, 0, k as usize, || (n.min(6).stirling2(k), 0));
        }
    )*};
}

#[cfg(feature = "full")]
macro_rules! waves {
    ($b:ident, $r:ident, $n:ident, $m:ident: $($t:ident)*) => {$({
        use sci_rs::signal::{convolve::*, resample::resample, wave::square};
        let (x, y): (Vec<$t>, Vec<$t>) = (signal($r, $n), signal($r, $m));
        let ty = <$t as Fl>::TY;
        let g = bytes::<$t>($n + $m);
        let len = |v: Vec<$t>| { let g = bytes::<$t>(v.len()); (v, g) };
        for mode in 0..3 {
            let mode = || match mode { 0 => ConvolveMode::Full, 1 => ConvolveMode::Same, _ => ConvolveMode::Valid };
            $b.go("convolve", ty, g, 0, || len(convolve(&x, &y, mode())));
            $b.go("correlate", ty, g, 0, || len(correlate(&x, &y, mode())));
            $b.go("fftconvolve", ty, g, 0, || len(fftconvolve(&x, &y, mode())));
        }
        $b.go("resample", ty, bytes::<$t>($n), 0, || len(resample(&x, $m)));
        let t = ndarray::Array1::from(x.clone());
        $b.go("square", ty, bytes::<$t>($n), 0, || { let y = square(&t, 0.25); let g = bytes::<$t>(y.len()); (y, g) });
        let d = t.clone().into_dyn();
        $b.go("i0_vector", ty, bytes::<$t>($n), 0, || {
            let v = (x.i0(), d.i0e());
            let g = bytes::<$t>(v.0.len() + v.1.len());
            (v, g)
        });
    })*};
}

pub fn c33(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 33);
    let b = &mut Bench { out, seen: HashMap::new() };
    let mut sizes = vec![0usize, 1, 2, 3, 5, 8, 17, 64, 65, 100, 257, 1000, 1024, 5000];
    for _ in 0..c.pick(6, 60) {
        sizes.push(r.us(2, 3000));
    }
    sizes.extend(c.pick(vec![20_000, 65_537], vec![20_000, 65_537, 150_001]));
    for &n in &sizes {
        floats::<f64>(b, r, c, n);
        floats::<f32>(b, r, c, n);
        for nsec in (0..=24usize).chain([31, 40, 65]) {
            if n < 3000 || nsec % 4 == 1 {
                fast32(b, r, n, nsec);
            }
        }
    }
    for n in (0..c.pick(20, 40)).chain([50, 64, 100]) {
        designs::<f64>(b, r, n);
        designs::<f32>(b, r, n);
    }
    arrays::<5>(b, r);
    arrays::<8>(b, r);
    arrays::<13>(b, r);
    arrays::<64>(b, r);
    arrays::<1000>(b, r);
    ints!(b: u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
    #[cfg(feature = "full")]
    for &n in &sizes {
        if n == 0 {
            continue;
        }
        let m = *r.pick(&[1usize, 2, n, n / 2 + 1, 2 * n, 33]);
        if n <= 20_000 {
            waves!(b, r, n, m: f32 f64);
        }
    }
}
