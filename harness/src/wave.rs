//! Convolution, resampling, square wave.
use crate::fl::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::stats::shape;
use crate::Cfg;
use ndarray::{Array, ArrayD, Axis, IxDyn};
use sci_rs::signal::wave::square;

#[cfg(feature = "full")]
pub mod fft {
    use super::*;
    use num_traits::{FromPrimitive, Signed};
    use sci_rs::signal::convolve::*;
    use sci_rs::signal::resample::resample;

    const MODES: [&str; 3] = ["Full", "Same", "Valid"];
    fn mode(m: &str) -> ConvolveMode {
        match m {
            "Full" => ConvolveMode::Full,
            "Same" => ConvolveMode::Same,
            _ => ConvolveMode::Valid,
        }
    }

    pub fn conv_one<F: Fl + FromPrimitive + Signed>(out: &mut Out, op: &str, m: &str, a: &[F], b: &[F]) {
        out.call(
            op,
            |o| {
                o.put("ty", F::TY).put("mode", m).put("a", a).put("b", b);
            },
            || match op {
                "convolve" => convolve(a, b, mode(m)),
                "fftconvolve" => fftconvolve(a, b, mode(m)),
                _ => correlate(a, b, mode(m)),
            },
        );
    }
    fn conv_all(out: &mut Out, r: &mut Rng, a: &[f64], b: &[f64]) {
        for m in MODES {
            let single = r.us(0, 2) == 0;
            for op in ["convolve", "correlate", "fftconvolve"] {
                if op == "fftconvolve" && r.us(0, 3) != 0 {
                    continue;
                }
                if single {
                    conv_one::<f32>(out, op, m, &vof(a), &vof(b));
                } else {
                    conv_one::<f64>(out, op, m, a, b);
                }
            }
        }
    }

    pub fn c15(out: &mut Out, c: &Cfg) {
        let r = &mut Rng::new(c.seed, 15);
        // every pair of lengths
        let top = c.pick(14, 34);
        for n1 in 1..=top {
            for n2 in 1..=top {
                let (a, b): (Vec<f64>, Vec<f64>) = ((0..n1).map(|_| r.range(-3., 3.)).collect(), (0..n2).map(|_| r.range(-3., 3.)).collect());
                conv_all(out, r, &a, &b);
            }
        }
        // impulses at every position against a ramp: where each sample goes
        for n1 in 1..=c.pick(5, 9) {
            for p in 0..n1 {
                for n2 in 1..=c.pick(6, 9) {
                    let mut a = vec![0.0; n1];
                    a[p] = 1.0;
                    let b: Vec<f64> = (1..=n2).map(|i| i as f64).collect();
                    conv_all(out, r, &a, &b);
                }
            }
        }
        // neutral and absorbing kernels
        for n in (1..=c.pick(6, 12)).chain([33, 64]) {
            for k in [vec![1.0], vec![-1.0], vec![0.0], vec![2.0], vec![0.5], vec![1.0, 0.0], vec![0.0, 1.0], vec![-1.0, 0.0, 0.0], vec![0.0, 1.0, 0.0], vec![0.0; 3], vec![1.0; 2], vec![1.0; 4]] {
                let a: Vec<f64> = (0..n).map(|_| r.range(-3., 3.)).collect();
                conv_all(out, r, &a, &k);
                conv_all(out, r, &k, &a);
            }
        }
        // around powers of two, where the transform length changes
        let mut lens = vec![(15, 17), (16, 16), (16, 17), (17, 16), (31, 34), (33, 32), (64, 65), (65, 64), (1, 64), (64, 1), (1, 65), (2, 128), (100, 29), (29, 100), (128, 129)];
        lens.extend([(301, 301), (400, 400), (512, 512), (1000, 1000), (200, 313), (256, 257), (512, 1), (1, 700), (300, 213), (1000, 24), (24, 1000), (511, 514)]);
        lens.extend([(70_001, 2), (3, 66_000), (9000, 12), (5, 4097)]);
        if c.thorough {
            lens.extend([(256, 257), (255, 2), (500, 500), (1024, 1), (1, 1025), (700, 325), (513, 512), (1000, 24), (1000, 25), (1000, 26)]);
        }
        for (n1, n2) in lens {
            let (a, b) = (shape(r, n1), shape(r, n2));
            conv_all(out, r, &a, &b);
        }
        for _ in 0..c.pick(80, 600) {
            let (n1, n2) = (r.us(1, c.pick(120, 300)), r.us(1, c.pick(120, 300)));
            let (a, b) = (shape(r, n1), shape(r, n2));
            conv_all(out, r, &a, &b);
        }
    }

    fn res_one<F: Fl + FromPrimitive + Signed>(out: &mut Out, x: &[F], n: usize) {
        out.call(
            "resample",
            |o| {
                o.put("ty", F::TY).put("x", x).put("n", &n);
            },
            || resample(x, n),
        );
    }
    fn probe<F: Fl + FromPrimitive + Signed>(out: &mut Out, r: &mut Rng, len: usize, n: usize) {
        let h = len.min(n) / 2;
        if h < 2 {
            return;
        }
        let comps: Vec<(usize, f64, f64)> = (0..r.us(1, 3))
            .map(|i| {
                let k = match i {
                    0 => r.us(0, h - 1),
                    1 => h - 1,
                    _ => r.us(0, (h - 1).min(3)),
                };
                (k, r.int(-8, 8) as f64 / 4.0, r.int(-8, 8) as f64 / 4.0)
            })
            .collect();
        let x: Vec<F> = (0..len)
            .map(|j| {
                let v: f64 = comps
                    .iter()
                    .map(|(k, a, b)| {
                        let t = 2.0 * std::f64::consts::PI * ((k * j) % len) as f64 / len as f64;
                        a * t.cos() + b * t.sin()
                    })
                    .sum();
                F::of(v)
            })
            .collect();
        out.call(
            "probe",
            |o| {
                o.put("ty", F::TY).put("x", &x).put("n", &n).put("comps", &comps);
            },
            || resample(&x, n),
        );
    }

    pub fn c16(out: &mut Out, c: &Cfg) {
        let r = &mut Rng::new(c.seed, 16);
        let top = c.pick(20, 34);
        for len in 1..=top {
            for n in 1..=top {
                let x: Vec<f64> = if r.bool() { shape(r, len) } else { (0..len).map(|_| r.range(-3., 3.)).collect() };
                if (len + n) % 3 == 0 {
                    res_one::<f32>(out, &vof(&x), n)
                } else {
                    res_one::<f64>(out, &x, n)
                }
            }
        }
        for i in 0..c.pick(250, 1500) {
            let (len, n) = (r.us(1, c.pick(60, 90)), r.us(1, c.pick(60, 90)));
            let n = if i % 8 == 0 { len } else if i % 8 == 1 { 2 * len } else { n };
            if i % 3 == 0 {
                res_one::<f32>(out, &vof(&shape(r, len)), n);
            } else {
                res_one::<f64>(out, &shape(r, len), n);
            }
        }
        let mut pairs = vec![(100, 150), (150, 100), (128, 64), (64, 128), (127, 254), (255, 100), (360, 361), (1000, 10), (10, 1000), (97, 97), (96, 96), (512, 500), (333, 777), (600, 1200), (1001, 2002), (1200, 600), (1001, 1001), (2048, 2048), (700, 2100), (2100, 700), (1025, 4100), (5000, 4096), (8192, 5001), (70_001, 10), (12, 66_000)];
        for _ in 0..c.pick(60, 300) {
            pairs.push((r.us(4, c.pick(600, 2000)), r.us(4, c.pick(600, 2000))));
        }
        for (a, b) in pairs {
            probe::<f64>(out, r, a, b);
            probe::<f32>(out, r, a, b);
        }
    }
}

/// whole periods below t, as a hint the specification verifies
fn periods(t: f64) -> i32 {
    (t / (2.0 * std::f64::consts::PI)).floor().clamp(-2e9, 2e9) as i32
}

fn sq<F: Fl>(out: &mut Out, t: &[f64], dims: &[usize], duty: f64, view: usize) {
    let t: Vec<F> = vof(t);
    let duty = F::of(duty);
    let q: Vec<i32> = t.iter().map(|t| periods(t.f())).collect();
    let mut arr: ArrayD<F> = Array::from_shape_vec(IxDyn(dims), t.clone()).unwrap();
    // memory layouts: standard, reversed axis, permuted axes
    let (mut lt, mut lq) = (t, q);
    if view == 1 && !dims.is_empty() {
        arr.invert_axis(Axis(0));
    } else if view == 2 {
        arr = arr.reversed_axes();
    } else if view == 3 && !dims.is_empty() {
        // every other element of a larger block
        arr.slice_axis_inplace(Axis(dims.len() - 1), ndarray::Slice::new(0, None, 2));
    } else if view == 4 && dims.len() > 1 && dims[0] > 1 {
        arr.slice_axis_inplace(Axis(0), ndarray::Slice::new(1, None, 1));
    }
    if view > 0 {
        lt = arr.iter().copied().collect();
        lq = lt.iter().map(|t| periods(t.f())).collect();
    }
    let mut shape: Vec<usize> = arr.shape().to_vec();
    if view == 5 && dims.len() != 2 {
        shape.insert(0, 3);
        lt = lt.repeat(3);
        lq = lq.repeat(3);
    }
    // the type's own period, and the nearest whole number of them before each switching instant
    let period = F::two_pi();
    let k: Vec<i32> = lt
        .iter()
        .map(|t| {
            let a = t.f() / period.f();
            let b = if a == a.round() { a } else { (a - duty.f()).round() };
            b.clamp(-1e9, 1e9) as i32
        })
        .collect();
    out.call_then(
        "square",
        |o| {
            o.put("ty", F::TY).put("t", &lt).put("q", &lq).put("k", &k).put("period", &period).put("duty", &duty).put("shape", &shape);
        },
        || {
            if dims.len() == 1 && view == 0 {
                square(&arr.into_dimensionality::<ndarray::Ix1>().unwrap().view(), duty).into_dyn()
            } else if dims.len() == 2 {
                square(&arr.into_dimensionality::<ndarray::Ix2>().unwrap(), duty).into_dyn()
            } else if view == 5 {
                // one block seen as several rows
                square(&arr.view().broadcast(IxDyn(&shape)).unwrap(), duty)
            } else {
                square(&arr, duty)
            }
        },
        |o, a| {
            let v: Vec<F> = a.iter().copied().collect();
            o.put("res", &v).put("rshape", &a.shape().to_vec());
        },
    );
}

pub fn c25(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 25);
    let duties = [0.0, 1.0, 0.5, 0.25, 0.75, 0.125, 0.1, 0.9, 0.01, 0.99, 1e-6, 1e-30, 0.333];
    for i in 0..c.pick(900usize, 12000) {
        let dims: Vec<usize> = match i % 9 {
            0 => vec![],
            1 => vec![r.us(0, 40)],
            2 => vec![r.us(1, 6), r.us(1, 7)],
            3 => vec![r.us(1, 3), r.us(1, 3), r.us(1, 4)],
            4 => vec![2, r.us(0, 2), 2, 2],
            5 => vec![1, 2, 1, 2, 3],
            6 => vec![r.us(30, 120), 2],
            7 if i == 7 => vec![70_000],
            7 if i == 16 => vec![5000, 3],
            7 if i % 90 == 7 => vec![r.us(1000, 3000)],
            _ => vec![25],
        };
        let n: usize = dims.iter().product();
        let duty = if i < 52 { duties[i % 13] } else {
            match r.us(0, 5) {
                0 | 1 => *r.pick(&duties),
                // hardly less than the whole period, hardly more than nothing
                2 => 1.0 - 10f64.powf(r.range(-14.0, -2.0)),
                3 => 10f64.powf(r.range(-14.0, -2.0)),
                _ => r.unit(),
            }
        };
        let single = i % 2 == 1;
        let period = if single { std::f32::consts::TAU as f64 } else { std::f64::consts::TAU };
        let thr = if single { (std::f32::consts::TAU * duty as f32) as f64 } else { period * duty };
        let span = *r.pick(&[1e-6, 1.0, 7.0, 30.0, 1000.0, 1e5, 1e7, 1e9, 1e10]);
        let t: Vec<f64> = (0..n)
            .map(|_| match r.us(0, 18) {
                0 => 0.0,
                1 => -0.0,
                2 => r.int(-20, 20) as f64 * std::f64::consts::FRAC_PI_4 + r.range(-0.01, 0.01),
                3 => r.int(-20, 20) as f64 * std::f64::consts::FRAC_PI_2,
                4 => period * 2f64.powi(r.int(0, 28) as i32),
                5 => -period * 2f64.powi(r.int(0, 28) as i32),
                6 => thr,
                7 => thr - period,
                8 => thr + period * 2f64.powi(r.int(-2, 10) as i32),
                9 => r.range(0.0, 1.0) * 10f64.powi(-(r.int(0, 35) as i32)),
                10 => -r.range(0.0, 1.0) * 10f64.powi(-(r.int(0, 35) as i32)),
                11 => thr * (1.0 + r.range(-1.0, 1.0) * 10f64.powi(-(r.int(1, 14) as i32))),
                // either side of the switch, however narrow it is
                12 => r.range(0.0, thr),
                13 => thr + (period - thr) * r.unit(),
                14 => thr + (period - thr) * r.unit() - period,
                15 if r.us(0, 9) == 0 => r.range(1.0, 3.0) * if r.bool() { 1.0 } else { -1.0 } * 10f64.powi(r.int(17, if single { 38 } else { 300 }) as i32),
                _ => r.range(-span, span),
            })
            .collect();
        let view = r.us(0, 5);
        if single {
            sq::<f32>(out, &t, &dims, duty, view)
        } else {
            sq::<f64>(out, &t, &dims, duty, view)
        }
    }
    for duty in [1.0f64.next_up(), (-0.0f64).next_down(), -1e-300, -0.0, 1.0f32.next_up() as f64, -(f32::from_bits(1) as f64)] {
        sq::<f64>(out, &[0.5, 1.0], &[2], duty, 0);
        sq::<f32>(out, &[0.5, 1.0], &[2], duty, 0);
    }
    for duty in [-0.1, 1.1, -1e-9, 1.0 + 1e-9, 2.0, -5.0, f64::NAN, f64::INFINITY] {
        sq::<f64>(out, &[0.5, 1.0], &[2], duty, 0);
        sq::<f64>(out, &[], &[0], duty, 0);
        sq::<f32>(out, &[0.5, 1.0], &[2], duty, 0);
    }
}
