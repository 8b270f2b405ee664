//! Bessel functions, companion matrices.
use crate::fl::*;
use crate::j::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::Cfg;
use sci_rs::linalg::companion_dyn;
use sci_rs::special::Bessel;

fn one<F: Fl + Bessel>(out: &mut Out, x: f64) {
    let x = F::of(x);
    let lim = if F::TY == "f32" { 86.0 } else { 700.0 };
    if x.f().abs() <= lim {
        out.call(
            "i0",
            |o| {
                o.put("ty", F::TY).put("x", &x);
            },
            || x.i0(),
        );
    }
    out.call(
        "i0e",
        |o| {
            o.put("ty", F::TY).put("x", &x);
        },
        || x.i0e(),
    );
}

#[cfg(feature = "full")]
fn maps<F: Fl + Bessel>(out: &mut Out, r: &mut Rng, dims: &[usize]) {
    use ndarray::{Array, ArrayD, IxDyn};
    let n: usize = dims.iter().product();
    let v: Vec<F> = (0..n).map(|_| F::of(if r.us(0, 5) == 0 { 0.0 } else { r.range(-40., 40.) })).collect();
    for scaled in [false, true] {
        let f = |x: &F| if scaled { x.i0e() } else { x.i0() };
        let flat: Vec<F> = v.iter().map(f).collect();
        out.call_then(
            "map",
            |o| {
                o.put("ty", F::TY).put("shape", &[n]).put("scalars", &flat);
            },
            || if scaled { v.i0e() } else { v.i0() },
            |o, w| {
                o.put("res", &w).put("rshape", &[w.len()]);
            },
        );
        let mut a: ArrayD<F> = Array::from_shape_vec(IxDyn(dims), v.clone()).unwrap();
        match r.us(0, 4) {
            0 | 1 => a = a.reversed_axes(),
            2 if !dims.is_empty() => a.slice_axis_inplace(ndarray::Axis(dims.len() - 1), ndarray::Slice::new(0, None, 2)),
            3 if !dims.is_empty() => a.invert_axis(ndarray::Axis(0)),
            _ => (),
        }
        let order: Vec<F> = a.iter().map(f).collect();
        let shape = a.shape().to_vec();
        out.call_then(
            "map",
            |o| {
                o.put("ty", F::TY).put("shape", &shape).put("scalars", &order);
            },
            || if scaled { a.i0e() } else { a.i0() },
            |o, w| {
                o.put("res", &w.iter().copied().collect::<Vec<F>>()).put("rshape", &w.shape().to_vec());
            },
        );
    }
}

pub fn c24(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 24);
    for k in 0..=c.pick(320, 1200) {
        let x = k as f64 / c.pick(16.0, 32.0);
        one::<f64>(out, x);
        one::<f32>(out, x);
        one::<f64>(out, -x);
    }
    for x in [8.0f64, 8.0f64.next_up(), 8.0f64.next_down(), 7.999, 8.001, 0.0, -0.0, 1e-8, 1e-300, -1e-12, 700.0, -700.0, 86.0, 500.0, 501.0, 1e4, 1e6, 1e10, -1e5, 1e15] {
        one::<f64>(out, x);
        one::<f32>(out, x);
    }
    for _ in 0..c.pick(500, 5000) {
        one::<f64>(out, r.range(-8.0, 8.0));
        one::<f64>(out, r.range(8.0, 60.0) * if r.bool() { 1.0 } else { -1.0 });
        one::<f32>(out, r.range(-60.0, 60.0));
        // every decade, both signs
        let s = if r.bool() { 1.0 } else { -1.0 };
        one::<f64>(out, s * r.range(1.0, 10.0) * 10f64.powi(r.int(-20, 1) as i32));
        one::<f32>(out, s * r.range(1.0, 10.0) * 10f64.powi(r.int(-20, 1) as i32));
        if r.us(0, 4) == 0 {
            one::<f64>(out, s * r.range(60.0, 700.0));
            one::<f64>(out, s * r.range(500.0, 1e6));
            one::<f32>(out, s * r.range(60.0, 1e5));
            one::<f64>(out, s * r.range(1.0, 10.0) * 10f64.powi(r.int(3, 200) as i32));
            one::<f32>(out, s * r.range(1.0, 10.0) * 10f64.powi(r.int(3, 30) as i32));
        }
    }
    #[cfg(feature = "full")]
    for dims in [&[][..], &[0], &[1], &[7], &[2, 3], &[3, 0], &[2, 2, 3], &[1, 4, 1, 2], &[64], &[65], &[100], &[1000], &[33, 31], &[5, 7, 11], &[4100], &[70_000], &[300, 301]] {
        maps::<f64>(out, r, dims);
        maps::<f32>(out, r, dims);
    }
}

fn comp<T, B: std::borrow::Borrow<T>>(out: &mut Out, ty: &str, a: &Raw, m: usize, it: impl Iterator<Item = B>, enc: impl Fn(T) -> Raw)
where
    T: sci_rs::na::Scalar + num_traits::One + num_traits::Zero + std::ops::Div<Output = T> + std::ops::Neg<Output = T> + Copy,
{
    out.call_then(
        "companion",
        |o| {
            o.put("ty", ty).put("a", a).put("m", &m);
        },
        || companion_dyn::<T, B, _>(it, m),
        |o, w| {
            let rows: Vec<Vec<Raw>> = (0..w.nrows()).map(|i| (0..w.ncols()).map(|j| enc(w[(i, j)])).collect()).collect();
            o.put("res", &rows);
        },
    );
}
fn raw<T: ToJ + ?Sized>(v: &T) -> Raw {
    let mut s = String::new();
    v.j(&mut s);
    Raw(s)
}
fn comp_f<F: Fl>(out: &mut Out, a: &[f64], m: usize, by_ref: bool) {
    let a = vof::<F>(a);
    if by_ref {
        comp::<F, _>(out, F::TY, &raw(&a), m, a.iter(), |v| raw(&v));
    } else {
        comp::<F, _>(out, F::TY, &raw(&a), m, hinted(a.iter().copied(), m), |v| raw(&v));
    }
}

pub fn c26(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 26);
    for i in 0..c.pick(700usize, 6000) {
        let n = 2 + i % c.pick(24, 60);
        let lead = *r.pick(&[1.0, -1.0, 2.0, 0.5, 3.0, -0.125, 10.0, 1e-9, -1e9]);
        let mut a: Vec<f64> = (0..n).map(|_| if r.us(0, 4) == 0 { 0.0 } else { r.range(-20., 20.) }).collect();
        a[0] = lead;
        let b = r.bool();
        comp_f::<f64>(out, &a, n, b);
        comp_f::<f32>(out, &a, n, !b);
        let l = *r.pick(&[1i32, -1, 2, -3]);
        let z: Vec<i32> = (0..n).map(|k| if k == 0 { l } else { l * r.int(-9, 9) as i32 }).collect();
        let big = |v: i32| Big(v < 0, v.unsigned_abs() as u128);
        let zs: Vec<Big> = z.iter().map(|v| big(*v)).collect();
        comp::<i32, _>(out, "i32", &raw(&zs), n, z.iter(), |v| raw(&big(v)));
    }
    for n in [64usize, 65, 100, 129, c.pick(200, 400)] {
        let a: Vec<f64> = (0..n).map(|k| if k == 0 { -2.5 } else { r.range(-20., 20.) }).collect();
        comp_f::<f64>(out, &a, n, true);
        comp_f::<f32>(out, &a, n, false);
    }
    // lengths that do not fit
    for len in 0..7usize {
        for m in 0..7usize {
            comp_f::<f64>(out, &vec![2.0; len], m, true);
        }
    }
}
