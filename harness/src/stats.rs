//! Descriptive statistics.
use crate::fl::*;
use crate::j::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::Cfg;
use sci_rs::stats::*;

/// every sequence over `vals` of length n
fn all_seqs(vals: &[i32], n: usize, mut f: impl FnMut(&[i32])) {
    let mut idx = vec![0usize; n];
    loop {
        let s: Vec<i32> = idx.iter().map(|i| vals[*i]).collect();
        f(&s);
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            idx[i] += 1;
            if idx[i] < vals.len() {
                break;
            }
            idx[i] = 0;
            i += 1;
        }
    }
}

macro_rules! med_int {
    ($($name:ident $t:ty;)*) => {$(
    fn $name(out: &mut Out, y: &[$t]) {
        let big: Vec<Big> = y.iter().map(|v| Big(*v as i128 != 0 && (*v as i128) < 0, (*v as i128).unsigned_abs())).collect();
        for by_ref in [true, false] {
            let h = y.len() / 3;
            out.call_then(
                "median",
                |o| { o.put("ty", stringify!($t)).put("y", &big); },
                || if by_ref { median::<_, $t>(y.iter()) } else { median::<_, $t>(hinted(y.iter().copied(), h)) },
                |o, (v, n)| { o.put("res", &(Big((v as i128) < 0, (v as i128).unsigned_abs()), n)); },
            );
        }
    })*}
}
med_int! {med_i32 i32; med_i64 i64; med_u8 u8; med_i8 i8; med_u32 u32; med_usize usize;}

fn med<F: Fl>(out: &mut Out, y: &[F]) {
    let h = out.n;
    out.call(
        "median",
        |o| {
            o.put("ty", F::TY).put("y", y);
        },
        || median::<_, F>(hinted(y.iter(), h)),
    );
    out.call(
        "mad",
        |o| {
            o.put("ty", F::TY).put("y", y);
        },
        || median_abs_deviation::<_, F>(hinted(y.iter(), h / 2)),
    );
}

/// signals of many shapes: ties, sorted, reversed, organ pipe, plateaus, offsets
pub fn shape(r: &mut Rng, n: usize) -> Vec<f64> {
    let kind = r.us(0, 13);
    let spread = *r.pick(&[1.0, 1.0, 0.25, 100.0, 1e-3, 1e-8, 1e-13, 1e5, 1e9]);
    let off = *r.pick(&[0.0, 0.0, 0.0, 1.0, -30.0]);
    (0..n)
        .map(|i| {
            let v = match kind {
                0 => r.range(-1., 1.),
                1 => i as f64,
                2 => -(i as f64),
                3 => (i.min(n - 1 - i)) as f64,
                4 => r.int(-2, 2) as f64,
                5 => (i / 7) as f64,
                6 => {
                    if i % 2 == 0 {
                        i as f64
                    } else {
                        -(i as f64)
                    }
                }
                7 => (i as f64 * 0.3).sin(),
                8 => {
                    if r.us(0, 9) == 0 {
                        50.0
                    } else {
                        r.range(-1., 1.)
                    }
                }
                9 => 3.0,
                10 => {
                    if i == n / 2 {
                        -2.0
                    } else {
                        3.0
                    }
                }
                11 => r.range(-1., 1.) * 10f64.powi(-(r.int(0, 8) as i32)),
                12 => {
                    if i < n / 2 {
                        1.0
                    } else {
                        -1.0
                    }
                }
                _ => ((i * 7919) % 101) as f64,
            };
            v * spread + off * spread
        })
        .collect()
}

/// a length: mostly short, now and then long
fn length(r: &mut Rng, usual: usize, long: usize) -> usize {
    if r.us(0, 24) == 0 {
        r.us(usual, long)
    } else {
        r.us(1, usual)
    }
}

/// Long samples by rule (spec/stats/Recipes.tla knows their statistics).
fn recipe<T>(kind: &str, n: usize, of: impl Fn(i64) -> T) -> Vec<T> {
    let v = |i: usize| match kind {
        "ramp" => i as i64,
        "fall" => (n - 1 - i) as i64,
        "peak" => i.min(n - 1 - i) as i64,
        "valley" => i.max(n - 1 - i) as i64,
        "step" => if i < n / 3 { 0 } else { 5 },
        _ => if i % 2 == 0 { 1 } else { -1 },
    };
    (0..n).map(|i| of(v(i))).collect()
}
fn runs<F: Fl>(v: &[F]) -> Vec<(F, usize)> {
    let mut out: Vec<(F, usize)> = vec![];
    for x in v {
        match out.last_mut() {
            Some((y, n)) if *y == *x => *n += 1,
            _ => out.push((*x, 1)),
        }
    }
    out
}
fn big<F: Fl, R: ToJ>(out: &mut Out, stat: &str, kind: &str, n: usize, k: usize, f: impl FnOnce() -> R) {
    out.call(
        "big",
        |o| {
            o.put("ty", F::TY).put("stat", stat).put("kind", kind).put("n", &n).put("k", &k);
        },
        f,
    );
}
fn sizes(c: &Cfg) -> Vec<usize> {
    c.pick(vec![32_768, 65_535, 65_536, 65_537, 70_002, 150_001, 262_150], vec![32_767, 32_768, 65_535, 65_536, 65_537, 65_541, 70_002, 131_071, 150_001, 262_150, 1_048_580, 1_500_000])
}
fn big_median<F: Fl>(out: &mut Out, n: usize) {
    for kind in ["ramp", "fall", "peak", "valley", "step", "alt"] {
        let y = recipe(kind, n, |v| F::of(v as f64));
        big::<F, _>(out, "median", kind, n, 0, || median::<_, F>(y.iter()));
        if kind == "ramp" || kind == "fall" {
            big::<F, _>(out, "mad", kind, n, 0, || median_abs_deviation::<_, F>(y.iter()));
        }
    }
}
fn big_moments<F: Fl>(out: &mut Out, n: usize) {
    for kind in ["ramp", "fall", "step"] {
        let y = recipe(kind, n, |v| F::of(v as f64));
        big::<F, _>(out, "mean", kind, n, 0, || mean::<_, F>(y.iter()));
        big::<F, _>(out, "variance", kind, n, 0, || variance::<_, F>(y.iter()));
        big::<F, _>(out, "stdev", kind, n, 0, || stdev::<_, F>(y.iter()));
        big::<F, _>(out, "rmssd", kind, n, 0, || rmssd::<_, F>(y.iter()));
        big::<F, _>(out, "lag_diff", kind, n, 0, || runs(&lag_diff::<_, F>(y.iter()).collect::<Vec<F>>()));
        if kind == "step" {
            big::<F, _>(out, "zscore", kind, n, 0, || runs(&zscore::<_, F>(y.iter()).collect::<Vec<F>>()));
        }
    }
}
fn big_fast<const N: usize, const M: usize, const S: usize>(out: &mut Out) {
    let mut y: Box<[f32; N]> = recipe("alt", N, |v| v as f32).into_boxed_slice().try_into().unwrap();
    big::<f32, _>(out, "rms_fast32", "alt", N, 0, || rms_fast32(&*y));
    let mut x = [9f32; M];
    out.call_then(
        "big",
        |o| {
            o.put("ty", "f32").put("stat", "autocorr_fast32").put("kind", "alt").put("n", &N).put("skip", &S);
        },
        || (autocorr_fast32::<N, M, S>(&mut y, &mut x), y, x),
        |o, (var, y, x)| {
            let mut y = y.to_vec();
            // in place and in order: taking every other sample leaves two runs
            y = y.iter().step_by(2).chain(y.iter().skip(1).step_by(2)).copied().collect();
            o.put("res", &var).put("after", &runs(&y)).put("x", &x.to_vec());
        },
    );
}

pub fn c19(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 19);
    for n in sizes(c) {
        big_median::<f64>(out, n);
        big_median::<f32>(out, n);
    }
    for n in 0..=c.pick(5usize, 6) {
        all_seqs(&[-3, 0, 1, 6], n, |s| {
            med::<f64>(out, &s.iter().map(|v| *v as f64).collect::<Vec<_>>());
            med_i32(out, s);
        });
    }
    for n in c.pick(6usize, 7)..=c.pick(7usize, 9) {
        all_seqs(&[0, 1, 5], n, |s| med::<f32>(out, &s.iter().map(|v| *v as f32).collect::<Vec<_>>()));
    }
    for i in 0..c.pick(300usize, 1200) {
        let n = if i < 60 { i } else { length(r, c.pick(250, 300), c.pick(1500, 4000)) };
        let s = shape(r, n);
        med::<f64>(out, &s);
        med::<f32>(out, &vof::<f32>(&s));
        let wide = r.bool();
        let z: Vec<i64> = s.iter().map(|v| if wide { (*v * 1e6) as i64 } else { *v as i64 }).collect();
        med_i64(out, &z);
        // halves of the range, so that the sum of the two middle values is representable
        med_u8(out, &(0..n).map(|_| r.us(0, 127) as u8).collect::<Vec<_>>());
        med_i8(out, &(0..n).map(|_| r.int(-64, 63) as i8).collect::<Vec<_>>());
        med_u32(out, &(0..n).map(|_| (r.next() >> 33) as u32).collect::<Vec<_>>());
        med_usize(out, &(0..n).map(|_| r.us(0, 5)).collect::<Vec<_>>());
    }
}

fn ints(out: &mut Out, y: &[i32]) {
    let big = |v: i64| Big(v < 0, v.unsigned_abs() as u128);
    let yb: Vec<Big> = y.iter().map(|v| big(*v as i64)).collect();
    out.call_then(
        "mean",
        |o| {
            o.put("ty", "i32").put("y", &yb);
        },
        || mean::<_, i32>(y.iter()),
        |o, (v, n)| {
            o.put("res", &(big(v as i64), n));
        },
    );
    let z: Vec<i64> = y.iter().map(|v| *v as i64).collect();
    out.call_then(
        "mean",
        |o| {
            o.put("ty", "i64").put("y", &yb);
        },
        || mean::<_, i64>(z.into_iter()),
        |o, (v, n)| {
            o.put("res", &(big(v), n));
        },
    );
}

fn descr<F: Fl>(out: &mut Out, y: &[F], by_ref: bool) {
    let h = out.n;
    macro_rules! ev {
        ($op:expr, $f:expr, $g:expr) => {
            out.call(
                $op,
                |o| {
                    o.put("ty", F::TY).put("y", y);
                },
                || if by_ref { $f(y.iter()) } else { $g(hinted(y.iter().copied(), h)) },
            )
        };
    }
    ev!("mean", mean::<_, F>, mean::<_, F>);
    ev!("variance", variance::<_, F>, variance::<_, F>);
    ev!("stdev", stdev::<_, F>, stdev::<_, F>);
    ev!("rmssd", rmssd::<_, F>, rmssd::<_, F>);
    ev!("lag_diff", |i| lag_diff::<_, F>(i).collect::<Vec<F>>(), |i| lag_diff::<_, F>(i).collect::<Vec<F>>());
    ev!("zscore", |i| zscore::<_, F>(i).collect::<Vec<F>>(), |i| zscore::<_, F>(i).collect::<Vec<F>>());
    ev!("mod_zscore", |i| mod_zscore::<_, F>(i).collect::<Vec<F>>(), |i| mod_zscore::<_, F>(i).collect::<Vec<F>>());
}

pub fn c20(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 20);
    for n in sizes(c) {
        big_moments::<f64>(out, n);
        if n < 140_000 {
            big_moments::<f32>(out, n);
        }
    }
    for n in 0..=c.pick(4usize, 5) {
        all_seqs(&[-3, 0, 1, 6], n, |s| {
            descr::<f64>(out, &s.iter().map(|v| *v as f64).collect::<Vec<_>>(), n % 2 == 0);
            ints(out, s);
        });
    }
    for i in 0..c.pick(300usize, 900) {
        let n = if i < 80 { i } else { length(r, c.pick(200, 250), c.pick(2500, 4000)) };
        let mut s = shape(r, n);
        if r.us(0, 3) == 0 {
            // a large offset: the spread survives only if deviations are taken from the mean
            let size = s.iter().fold(0f64, |m, v| m.max(v.abs()));
            let off = *r.pick(&[1000.0, -300.0, 5000.0]) * if r.bool() { size } else { 1.0 };
            s.iter_mut().for_each(|v| *v += off);
        }
        let b = r.bool();
        descr::<f64>(out, &s, b);
        descr::<f32>(out, &vof::<f32>(&s), !b);
        if n < 3000 {
            let size = s.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
            ints(out, &s.iter().map(|v| (*v / size * 7e5) as i32).collect::<Vec<_>>());
        }
    }
}

fn auto<F: Fl>(out: &mut Out, y: &[F], k: usize, by_ref: bool) {
    let h = out.n;
    out.call(
        "autocorr",
        |o| {
            o.put("ty", F::TY).put("y", y).put("k", &cap(k));
        },
        || {
            if by_ref {
                autocorr::<_, F>(y.iter(), k)
            } else {
                autocorr::<_, F>(hinted(y.iter().copied(), h), k)
            }
        },
    );
}

fn fast<const N: usize, const M: usize, const S: usize>(out: &mut Out, r: &mut Rng) {
    let v = shape(r, N);
    let peak = v.iter().fold(1e-30f64, |m, v| m.max(v.abs()));
    let amp = *r.pick(&[peak, peak, 1e-12, 1e12, 1e16, 1e17]);
    let v = vof::<f32>(&v.iter().map(|v| v / peak * amp).collect::<Vec<_>>());
    let mut y = [0f32; N];
    y.copy_from_slice(&v);
    // stale output must be overwritten
    let mut x = [r.range(-9., 9.) as f32; M];
    out.call_then(
        "autocorr_fast32",
        |o| {
            o.put("ty", "f32").put("y", &v).put("m", &M).put("skip", &cap(S));
        },
        || {
            let var = autocorr_fast32::<N, M, S>(&mut y, &mut x);
            (var, y, x)
        },
        |o, (var, y, x)| {
            o.put("res", &var).put("after", &y).put("x", &x);
        },
    );
    // as loud as its square sum allows
    let peak = v.iter().fold(1e-30f32, |m, v| m.max(v.abs()));
    let v: Vec<f32> = if N < 32 && r.us(0, 2) == 0 { v.iter().map(|v| v / peak * 3e18).collect() } else { v };
    let mut y = [0f32; N];
    y.copy_from_slice(&v);
    out.call(
        "rms_fast32",
        |o| {
            o.put("ty", "f32").put("y", &v);
        },
        || rms_fast32(&y),
    );
}

macro_rules! fasts { ($out:expr, $r:expr; $(($n:literal, $m:literal, $s:literal))*) => { $( fast::<$n, $m, $s>($out, $r); )* } }

pub fn c21(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 21);
    for n in sizes(c) {
        let n = n - n % 2;
        let y = recipe("alt", n, |v| v as f64);
        for k in [0, 1, 2, 255, 256, 1024, 32_768, 65_535, 65_536, n - 1, n, n + 7] {
            big::<f64, _>(out, "autocorr", "alt", n, k, || autocorr::<_, f64>(y.iter(), k));
        }
    }
    big_fast::<4096, 5, 0>(out);
    big_fast::<40000, 3, 39997>(out);
    big_fast::<65536, 4, 9>(out);
    big_fast::<65542, 3, 65530>(out);
    big_fast::<100002, 6, 256>(out);
    for n in 1..=c.pick(4usize, 5) {
        all_seqs(&[-3, 0, 1, 6], n, |s| {
            for k in 0..=n + 1 {
                auto::<f64>(out, &s.iter().map(|v| *v as f64).collect::<Vec<_>>(), k, k % 2 == 0);
            }
        });
    }
    for _ in 0..c.pick(400, 6000) {
        let n = length(r, c.pick(120, 400), c.pick(1100, 4000));
        let mut s = shape(r, n);
        if r.us(0, 3) == 0 {
            s.iter_mut().for_each(|v| *v += 20.0);
        }
        let k = match r.us(0, 4) {
            0 => r.us(0, 2),
            1 => n - 1,
            2 => *r.pick(&[n, n + 1, n + 2, n + 3, usize::MAX, usize::MAX - n, usize::MAX / 2 + 1]),
            _ => r.us(0, n),
        };
        let b = r.bool();
        auto::<f64>(out, &s, k, b);
        auto::<f32>(out, &vof::<f32>(&s), k, !b);
    }
    for _ in 0..c.pick(6, 60) {
        fasts!(out, r;
            (1,1,0) (2,2,0) (2,1,1) (3,3,0) (3,2,1) (4,4,0) (4,3,1) (5,5,0) (5,2,3) (5,1,0) (6,6,0) (6,4,2) (7,7,0) (7,3,4)
            (8,8,0) (8,4,1) (9,9,0) (9,5,4) (10,10,0) (11,11,0) (11,6,5) (12,12,0) (12,4,4) (13,13,0) (13,8,1) (15,15,0)
            (16,16,0) (16,8,8) (17,17,0) (19,10,3) (20,16,4) (23,23,0) (25,7,2) (31,31,0) (32,32,0) (33,33,0) (40,11,7)
            (63,40,5) (64,64,0) (65,20,1) (100,100,0) (101,50,51) (127,30,2) (128,64,64) (256,40,10) (257,12,245) (511,8,0) (512,16,3) (1000,9,0) (1023,7,100) (4,0,0) (7,0,7)
            (4,4,1) (3,4,0) (8,4,5) (8,8,1) (2,0,3)
            (6,2,0xffff_ffff_ffff_ffff) (6,2,0xffff_ffff_ffff_fffe) (9,5,0xffff_ffff_ffff_fffc) (6,0,0xffff_ffff_ffff_ffff) (3,7,0xffff_ffff_ffff_fffc));
    }
}
