//! Steady-state initial conditions, zero-phase filtering, extension.
use crate::fl::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::sos::*;
use crate::Cfg;
use sci_rs::na::{DMatrix, DVector, Dyn, OMatrix, RowDVector, SMatrix};
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

fn same_coefs<F: Fl>(a: &[Sos<F>], b: &[Sos<F>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (0..3).all(|i| a.b[i].same(b.b[i]) && a.a[i].same(b.a[i])))
}

fn sos_zi<F: Eps>(out: &mut Out, r: &mut Rng, c: &[Sec]) {
    let s = build::<F>(c);
    let co = coefs(&s);
    // stale delays must be overwritten
    let mut t = s.clone();
    for x in t.iter_mut() {
        x.zi0 = F::of(r.range(-5., 5.));
        x.zi1 = F::of(r.range(-5., 5.));
    }
    let stale = t.clone();
    out.call_then(
        "sosfilt_zi",
        |o| {
            o.put("ty", F::TY).put("coef", &co);
        },
        move || {
            sosfilt_zi_dyn::<F, _, Sos<F>>(t.iter_mut());
            t
        },
        |o, t| {
            o.put("res", &delays(&t)).put("same", &same_coefs(&t, &s));
        },
    );
    let level = F::of(*r.pick(&[1.0, -2.5, 100.0, 0.01, 7.0, 1e-15, 1e8]));
    let n = if r.us(0, 30) == 0 { r.us(50, 300) } else { r.us(1, 12) };
    let (co, mut t) = (coefs(&stale), stale);
    let fast = r.bool();
    out.call(
        "const_run",
        |o| {
            o.put("ty", F::TY).put("coef", &co).put("level", &level).put("n", &n);
        },
        move || {
            sosfilt_zi_dyn::<F, _, Sos<F>>(t.iter_mut());
            for s in t.iter_mut() {
                s.zi0 = s.zi0 * level;
                s.zi1 = s.zi1 * level;
            }
            if fast {
                sosfilt_dyn(vec![level; n], &mut t)
            } else {
                sosfilt_st(vec![level; n], &mut t).collect()
            }
        },
    );
}

fn lf_zi<F: Fl>(out: &mut Out, b: &[f64], a: &[f64]) {
    let (b, a) = (vof::<F>(b), vof::<F>(a));
    out.call(
        "lfilter_zi",
        |o| {
            o.put("ty", F::TY).put("b", &b).put("a", &a);
        },
        || lfilter_zi_dyn(&b, &a),
    );
}

pub fn c03(out: &mut Out, c: &Cfg) {
    let mut r = Rng::new(c.seed, 3);
    for i in 0..c.pick(900, 6000) {
        let n = i % 17;
        let cs: Vec<Sec> = (0..n)
            .map(|_| loop {
                let s = match r.us(0, 7) {
                    0 | 1 => int_section(&mut r),
                    2 => special_section(&mut r),
                    _ => stable_section(&mut r),
                };
                if r.us(0, 9) == 0 {
                    // slow
                    let (p, q) = (1.0 - *r.pick(&[1e-2, 1e-3, 1e-4]) * r.range(0.5, 2.0), *r.pick(&[0.0, 0.5, -0.5]));
                    let b = *r.pick(&[[1., 0., 0.], [0.5, 0.5, 0.], [0.25, 0.5, 0.25]]);
                    break (b.map(|v: f64| v * (1. - p) * (1. - q)), [1., -(p + q), p * q]);
                }
                let sum: f64 = s.1.iter().sum();
                if sum.abs() > 0.05 {
                    break s;
                }
            })
            .collect();
        if i % 2 == 0 {
            sos_zi::<f64>(out, &mut r, &cs)
        } else {
            sos_zi::<f32>(out, &mut r, &cs)
        }
    }
    // every small integer transfer function of order 1..3 with a non-zero denominator sum
    let vals = [-1.0, 0.0, 2.0];
    for m in 2..=3usize {
        let total = 3usize.pow(2 * m as u32);
        for code in 0..total {
            let mut k = code;
            let mut v: Vec<f64> = Vec::new();
            for _ in 0..2 * m {
                v.push(vals[k % 3]);
                k /= 3;
            }
            let (b, a) = v.split_at(m);
            if a.iter().all(|x| *x == 0.0) || a.iter().sum::<f64>() != 0.0 {
                lf_zi::<f64>(out, b, a);
            }
        }
    }
    for i in 0..c.pick(1200, 8000) {
        let m = if i % 16 == 5 { r.us(9, 26) } else { r.us(2, c.pick(9, 16)) };
        let lead = if r.us(0, 5) == 0 { r.us(1, m - 1) } else { 0 };
        let mut a: Vec<f64> = (0..m).map(|k| if k < lead { 0.0 } else { r.range(-2., 2.) }).collect();
        let mut b: Vec<f64> = (0..m).map(|_| if r.us(0, 5) == 0 { 0.0 } else { r.range(-2., 2.) }).collect();
        // the same filter in other units, and numerators much smaller or larger than denominators
        let (u, g) = (*r.pick(&[1.0, 1.0, 1e-6, 1e6]), *r.pick(&[1.0, 1.0, 1e-9, 1e9]));
        a.iter_mut().for_each(|v| *v *= u);
        b.iter_mut().for_each(|v| *v *= u * g);
        if r.bool() && lead == 0 && u == 1.0 {
            // monic, or a hair away from it
            a[0] = if r.bool() { 1.0 } else { 1.0 + *r.pick(&[1e-2, -1e-3, 1e-4, -1e-5, 1e-6, -1e-7, 1e-9, -1e-11]) };
        }
        let (s, t): (f64, f64) = (a.iter().sum(), a.iter().map(|x| x.abs()).sum());
        if s.abs() < 0.05 * t || a[lead].abs() < 0.1 * u {
            continue;
        }
        if i % 2 == 0 {
            lf_zi::<f64>(out, &b, &a)
        } else {
            lf_zi::<f32>(out, &b, &a)
        }
    }
    for m in 1..5 {
        lf_zi::<f64>(out, &vec![1.0; m], &vec![0.0; m]);
        lf_zi::<f64>(out, &vec![1.0; m], &vec![1.0; m + 1]);
        lf_zi::<f32>(out, &vec![1.0; m + 1], &vec![1.0; m]);
    }
}

fn filtfilt<F: Eps>(out: &mut Out, r: &mut Rng, c: &[Sec], x: &[f64]) {
    let mut s = build::<F>(c);
    // delays left over from earlier use have no influence
    if r.bool() {
        for t in s.iter_mut() {
            t.zi0 = F::of(r.range(-50., 50.));
            t.zi1 = F::of(r.range(-50., 50.));
        }
    }
    let x = vof::<F>(x);
    let (by_val, h) = (r.bool(), r.us(0, HINTS));
    out.call(
        "sosfiltfilt",
        |o| {
            o.put("ty", F::TY).put("coef", &coefs(&s)).put("x", &x);
        },
        || {
            if by_val {
                sosfiltfilt_dyn(hinted(x.iter().copied(), h), &s)
            } else {
                sosfiltfilt_dyn(x.iter(), &s)
            }
        },
    );
}

pub fn c04(out: &mut Out, c: &Cfg) {
    let mut r = Rng::new(c.seed, 4);
    let sig = |r: &mut Rng, n: usize| -> Vec<f64> {
        let (mode, f) = (r.us(0, 5), r.range(0.05, 1.5));
        let amp = *r.pick(&[1.0, 1.0, 1.0, 1e-9, 1e-20, 1e6, 1e12]);
        (0..n)
            .map(|i| match mode {
                0 => r.range(-10., 10.),
                1 => 5.0 + (i as f64 * f).sin() * 3.0,
                2 => i as f64 * 0.5 - 3.0,
                3 => -7.5,
                // everything happens at the ends
                4 => if i < 2 || i + 2 > n { r.range(-10., 10.) } else { 1.0 },
                _ => r.int(-4, 4) as f64,
            })
            .map(|v| v * amp)
            .collect()
    };
    for (n, len) in [(1usize, 66_000usize), (1, 9001), (2, 5003), (3, 4097)] {
        let cs: Vec<Sec> = (0..n).map(|_| stable_section(&mut r)).collect();
        let x = sig(&mut r, len);
        filtfilt::<f32>(out, &mut r, &cs, &x);
        filtfilt::<f64>(out, &mut r, &cs, &x);
    }
    for n in 0..=c.pick(16, 24usize) {
        for rep in 0..c.pick(if n < 10 { 16 } else { 6 }, 60usize) {
            // shapes: generic; first-order sections (b2 = a2 = 0); only b2 = 0; only a2 = 0; mixtures
            let cs: Vec<Sec> = (0..n)
                .map(|_| {
                    let (mut b, mut a) = stable_section(&mut r);
                    let shape = if rep < 4 { rep } else { r.us(0, 8) };
                    if shape == 5 {
                        // blocks a constant
                        b = *r.pick(&[[1., -1., 0.], [0.5, 0., -0.5], [0.25, -0.5, 0.25], [0., 0., 0.], [-1., 0.5, 0.5]]);
                    }
                    if shape == 7 || rep == 5 {
                        // slow, passing constants whole: what happens in the extension is still felt in the signal
                        let (p, q) = (r.range(0.85, 0.97), *r.pick(&[0.0, 0.3, -0.4]));
                        a = [1., -(p + q), p * q];
                        let g = a.iter().sum::<f64>();
                        b = r.pick(&[[1., 0., 0.], [0.5, 0.5, 0.], [0.25, 0.5, 0.25]]).map(|v| v * g);
                    }
                    if shape == 6 {
                        // no recursion
                        a = [1., 0., 0.];
                        b = *r.pick(&[[0.5, 0.25, 0.], [0.25, 0.5, 0.25], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0.5, -0.25, 0.125]]);
                    }
                    if shape == 8 || rep == 6 {
                        // a last tap that is next to nothing is a tap
                        let tiny = *r.pick(&[1e-300, 1e-30, 1e-17, 2e-16, 1e-12, 1e-9, 1e-6]) * *r.pick(&[1., -1.]);
                        let both = r.us(0, 3) > 0;
                        b[2] = tiny;
                        if both {
                            a = [1., a[1].clamp(-0.8, 0.8), tiny];
                        }
                    }
                    if shape == 1 || shape == 2 {
                        b[2] = 0.0;
                    }
                    if shape == 1 || shape == 3 {
                        a[2] = 0.0;
                        a[1] = a[1].clamp(-0.8, 0.8);
                    }
                    (b, a)
                })
                .collect();
            let bz = cs.iter().filter(|c| c.0[2] == 0.0).count();
            let az = cs.iter().filter(|c| c.1[2] == 0.0).count();
            let edge = 3 * (2 * n + 1 - bz.min(az));
            let mut lens = vec![edge, edge + 1, edge + 2, edge + r.us(3, 25)];
            if rep == 0 {
                lens.extend([0, 1, edge.saturating_sub(1)]);
            }
            if rep == 3 && n > 0 {
                lens.extend([edge - 1, edge / 2, 60.min(edge - 1)]);
            }
            if rep == 1 && n < 5 {
                lens.push(c.pick(700, 3000));
            }
            if rep == 2 {
                lens.push(2 * edge + 1);
                lens.push(4 * edge + 7);
            }
            // what is next to nothing may be nothing in single precision, where another length is padded
            let single = cs.iter().all(|c| (c.0[2] == 0.0 || c.0[2].abs() > 1e-40) && (c.1[2] == 0.0 || c.1[2].abs() > 1e-40));
            for len in lens {
                let x = sig(&mut r, len);
                if single && r.us(0, 2) == 0 {
                    filtfilt::<f32>(out, &mut r, &cs, &x)
                } else {
                    filtfilt::<f64>(out, &mut r, &cs, &x)
                }
            }
        }
    }
}

trait Elem: sci_rs::na::Scalar + Copy + num_traits::Zero + num_traits::One + std::ops::Sub<Output = Self> {
    const TY: &'static str;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
}
macro_rules! elem { ($($t:ty, $n:expr;)*) => {$(impl Elem for $t {
    const TY: &'static str = $n;
    fn of(v: f64) -> Self { v as $t }
    fn f(self) -> f64 { self as f64 }
})*} }
elem! {f64, "f64"; f32, "f32"; i32, "int"; i64, "int"; i16, "int";}

fn rows<T: Elem>(m: &OMatrix<T, Dyn, Dyn>) -> Vec<Vec<f64>> {
    (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m[(i, j)].f()).collect()).collect()
}

fn extent<T: Elem>(m: &DMatrix<T>, axis: usize) -> usize {
    if axis == 0 { m.nrows() } else { m.ncols() }
}

fn odd<T: Elem>(out: &mut Out, m: &DMatrix<T>, n: usize, axis: usize) {
    out.call(
        "odd_ext",
        |o| {
            o.put("ty", T::TY).put("x", &rows(m)).put("n", &cap(n)).put("axis", &axis).put("ext", &extent(m, axis));
        },
        || {
            // exercise the static shapes as well as the dynamic one
            match m.shape() {
                (_, 1) if n % 2 == 0 => rows(&odd_ext_dyn(DVector::from_iterator(m.nrows(), m.iter().cloned()), n, axis)),
                (1, _) if n % 2 == 0 => rows(&odd_ext_dyn(RowDVector::from_iterator(m.ncols(), m.iter().cloned()), n, axis)),
                (2, 3) => rows(&odd_ext_dyn(SMatrix::<T, 2, 3>::from_iterator(m.iter().cloned()), n, axis)),
                (4, 2) => rows(&odd_ext_dyn(SMatrix::<T, 4, 2>::from_iterator(m.iter().cloned()), n, axis)),
                _ => rows(&odd_ext_dyn(m.clone(), n, axis)),
            }
        },
    );
}

fn padded<T: Elem>(out: &mut Out, kind: &str, padlen: Option<usize>, m: &DMatrix<T>, axis: usize, ntaps: usize) {
    let p = match kind {
        "None" => Pad::None,
        "Odd" => Pad::Odd,
        "Even" => Pad::Even,
        _ => Pad::Constant,
    };
    out.call_then(
        "pad",
        |o| {
            o.put("ty", T::TY).put("pad", kind).put("padlen", &padlen.map_or(-1, |x| cap(x) as i32));
            o.put("x", &rows(m)).put("axis", &axis).put("ntaps", &cap(ntaps)).put("ext", &extent(m, axis));
        },
        || pad(p, padlen, m.clone(), axis, ntaps),
        |o, (e, m)| {
            o.put("edge", &e).put("res", &rows(&m));
        },
    );
}

pub fn c05(out: &mut Out, c: &Cfg) {
    let mut r = Rng::new(c.seed, 5);
    let big = c.pick(6, 8usize);
    fn mat<T: Elem>(r: &mut Rng, i: usize, j: usize) -> DMatrix<T> {
        let ints = T::TY == "int" || r.bool();
        let amp = *r.pick(&[1.0, 1e-12, 1e9]);
        DMatrix::from_fn(i, j, |_, _| T::of(if ints { r.int(-40, 40) as f64 } else { r.range(-40., 40.) * amp }))
    }
    for i in 0..=big {
        for j in 0..=big {
            for axis in 0..3 {
                for n in 0..=big {
                    match r.us(0, 4) {
                        0 => odd(out, &mat::<f64>(&mut r, i, j), n, axis),
                        1 => odd(out, &mat::<f32>(&mut r, i, j), n, axis),
                        2 => odd(out, &mat::<i32>(&mut r, i, j), n, axis),
                        3 => odd(out, &mat::<i16>(&mut r, i, j), n, axis),
                        _ => odd(out, &mat::<i64>(&mut r, i, j), n, axis),
                    }
                }
                for kind in ["None", "Odd", "Even", "Constant"] {
                    for (pl, taps) in [(None, 0), (None, 1), (None, 2), (Some(0), 5), (Some(1), 0), (Some(2), 1), (Some(3), 1), (Some(4), 2), (Some(6), 0)] {
                        if r.bool() {
                            padded(out, kind, pl, &mat::<f64>(&mut r, i, j), axis, taps)
                        } else {
                            padded(out, kind, pl, &mat::<i32>(&mut r, i, j), axis, taps)
                        }
                    }
                }
            }
        }
    }
    // lengths whose multiples wrap around
    for n in WRAPPING {
        for (i, j) in [(1usize, 1usize), (5, 4), (30, 2), (2, 30)] {
            for axis in 0..2 {
                odd(out, &mat::<f64>(&mut r, i, j), n, axis);
                padded(out, "Odd", None, &mat::<f64>(&mut r, i, j), axis, n);
                padded(out, "Odd", Some(n), &mat::<f64>(&mut r, i, j), axis, 1);
                padded(out, "None", None, &mat::<f64>(&mut r, i, j), axis, n);
            }
        }
    }
    for i in 0..c.pick(60, 300) {
        let n = match i {
            0 => 70_003,
            1 => 10_001,
            2 => 4097,
            _ => r.us(10, c.pick(300, 2000)),
        };
        let e = if i == 0 { 66_001 } else { *r.pick(&[n, n - 1, n - 1, n - 2, n / 3, n / 7, n / 2, 1]) };
        if r.bool() {
            odd(out, &mat::<f64>(&mut r, n, 1), e, 0);
            odd(out, &mat::<f32>(&mut r, 1, n), e, 1);
            if n < 400 {
                odd(out, &mat::<f64>(&mut r, n, 3), e, 0);
                odd(out, &mat::<i32>(&mut r, 3, n), e, 1);
            }
        } else {
            padded(out, "Odd", None, &mat::<f64>(&mut r, n, 2), 0, e / 4);
            padded(out, "Odd", Some(e), &mat::<i64>(&mut r, 2, n), 1, 1);
        }
    }
}
