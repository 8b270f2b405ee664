//! Savitzky-Golay.
use crate::fl::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::stats::shape;
use crate::Cfg;
use sci_rs::signal::filter::{savgol_coeffs_dyn, savgol_filter_dyn};

/// the largest condition for which an answer in this type means something
fn meaningful<F: Fl>(w: usize, p: usize) -> bool {
    let c = ((w / 2).max(1) as f64).powi(p as i32);
    if F::TY == "f32" {
        p <= 4 && c <= 1.0e3
    } else {
        p <= 6 && c <= 1.0e10 || p <= 13 && w <= 20
    }
}

fn args<F: Fl>(o: &mut crate::j::Obj, w: usize, p: usize, d: Option<usize>, dl: Option<F>) {
    o.put("ty", F::TY)
        .put("w", &w)
        .put("p", &cap(p))
        .put("deriv", &d.into_iter().map(cap).collect::<Vec<usize>>())
        .put("delta", &dl.into_iter().collect::<Vec<F>>());
}
fn coeffs<F: Fl>(out: &mut Out, w: usize, p: usize, d: Option<usize>, dl: Option<f64>) {
    if p < w && !meaningful::<F>(w, p) {
        return;
    }
    let dl = dl.map(F::of);
    out.call("coeffs", |o| args(o, w, p, d, dl), || savgol_coeffs_dyn::<F>(w, p, d, dl));
}
fn filter<F: Fl>(out: &mut Out, r: &mut Rng, y: &[f64], w: usize, p: usize, d: Option<usize>, dl: Option<f64>) {
    if p < w && !meaningful::<F>(w, p) {
        return;
    }
    let (dl, y, by_ref, h) = (dl.map(F::of), vof::<F>(y), r.bool(), r.us(0, HINTS));
    out.call(
        "filter",
        |o| {
            args(o, w, p, d, dl);
            o.put("y", &y);
        },
        || {
            if by_ref {
                savgol_filter_dyn(y.iter(), w, p, d, dl)
            } else {
                savgol_filter_dyn(hinted(y.iter().copied(), h), w, p, d, dl)
            }
        },
    );
}
fn opts(r: &mut Rng, p: usize) -> (Option<usize>, Option<f64>) {
    (if r.us(0, 3) == 0 { None } else { Some(r.us(0, p + 1)) }, *r.pick(&[None, Some(1.0), Some(0.5), Some(2.0), Some(0.1), Some(3.5), Some(0.01), Some(-0.5), Some(1e-4), Some(250.0)]))
}

pub fn c17(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 17);
    for w in 1..=c.pick(23usize, 37) {
        for p in 0..=(w + 1).min(c.pick(6, 9)) {
            coeffs::<f64>(out, w, p, None, None);
            coeffs::<f32>(out, w, p, None, None);
            for d in 0..=(p + 2).min(7) {
                let dl = opts(r, p).1;
                coeffs::<f64>(out, w, p, Some(d), dl);
                if d < 4 {
                    coeffs::<f32>(out, w, p, Some(d), dl);
                }
            }
        }
    }
    for i in 0..c.pick(160, 900) {
        let (w, p) = (if i % 8 == 0 { r.us(80, c.pick(160, 400)) } else { r.us(1, c.pick(80, 200)) }, r.us(0, 6));
        let (d, dl) = opts(r, p);
        coeffs::<f64>(out, w, p, d, dl);
        coeffs::<f32>(out, w, p.min(2), d, dl);
    }
    // high degrees and derivatives
    for p in 7..=13usize {
        for d in 0..=p + 1 {
            let (w, dl) = (r.us(p + 1, 20), opts(r, 0).1.filter(|v| (0.3..4.0).contains(v)));
            coeffs::<f64>(out, w, p, Some(d), dl);
        }
    }
    coeffs::<f64>(out, 0, 0, None, None);
    coeffs::<f64>(out, 3, 1000, None, None);
    for n in WRAPPING {
        coeffs::<f64>(out, 5, n, None, None);
        coeffs::<f64>(out, 5, 2, Some(n), None);
        coeffs::<f32>(out, 1, n, Some(n), Some(0.5));
        coeffs::<f32>(out, 4, 3, Some(n), Some(0.5));
    }
}

pub fn c18(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 18);
    for n in WRAPPING {
        filter::<f64>(out, r, &[1.0, 2.0, 5.0, -1.0], 3, n, None, None);
        filter::<f64>(out, r, &[1.0, 2.0, 5.0, -1.0], 1, n, None, Some(0.5));
        filter::<f32>(out, r, &[1.0, 2.0, 5.0, -1.0], 3, 1, Some(n), None);
    }
    // signals shorter and longer than the window
    for w in [1usize, 3, 5, 7, 9, 11, 15, 21] {
        for p in 0..=5usize {
            for n in [0usize, 1, 2, 3, w / 2, w - 1, w, w + 1, 2 * w + 3] {
                let (d, dl) = opts(r, p);
                let y = shape(r, n);
                filter::<f64>(out, r, &y, w, p, d, dl);
                filter::<f32>(out, r, &y, w, p, d, dl);
            }
        }
    }
    for w in 0..=8usize {
        for p in 0..=9usize {
            filter::<f64>(out, r, &[1.0, 2.0, 4.0, 1.0, 0.5, -1.0, 3.0, 3.0, 2.0, 1.0], w, p, None, None);
            filter::<f64>(out, r, &[], w, p, Some(1), None);
        }
    }
    for (w, p, n) in [(5usize, 2usize, 70_003usize), (7, 3, 5001), (3, 1, 4097), (11, 2, 8200)] {
        let y: Vec<f64> = (0..n).map(|_| r.range(-5., 5.)).collect();
        for _ in 0..2 {
            let (d, dl) = opts(r, p);
            filter::<f64>(out, r, &y, w, p, d, dl);
            filter::<f32>(out, r, &y, w, p, d, dl);
        }
    }
    // wide windows, and windows of even length, which are refused
    for w in [51usize, 76, 101, 151, 201, 255] {
        for p in 0..=3usize {
            let n = *r.pick(&[w / 3, w, w + 9, 2 * w]);
            let (y, (d, dl)) = (shape(r, n), opts(r, p));
            filter::<f64>(out, r, &y, w, p, d, dl);
            filter::<f32>(out, r, &y, w, p.min(1), d, dl);
        }
    }
    // a loud stretch is gone as soon as the window has passed it
    for w in [3usize, 5, 9, 17, 33] {
        for (loud, quiet) in [(1e12, 1.0), (1e30, 1e-3), (1.0, 1e-25)] {
            let (p, n) = (r.us(0, (w - 2).min(4)), 5 * w + r.us(0, 30));
            let at = r.us(0, n - 1);
            let y: Vec<f64> = (0..n).map(|i| r.range(-1.0, 1.0) * if i >= at && i < at + 3 { loud } else { quiet }).collect();
            let (d, dl) = opts(r, p);
            filter::<f64>(out, r, &y, w, p, d, dl);
            filter::<f32>(out, r, &y, w, p, d, dl);
        }
    }
    for _ in 0..c.pick(400, 3000) {
        let (w, p, n) = (2 * r.us(0, 25) + 1, r.us(0, 5), if r.us(0, 19) == 0 { r.us(300, 1200) } else { r.us(1, c.pick(90, 300)) });
        let (d, dl) = opts(r, p);
        let y = shape(r, n);
        if r.us(0, 2) == 0 {
            filter::<f32>(out, r, &y, w, p, d, dl)
        } else {
            filter::<f64>(out, r, &y, w, p, d, dl)
        }
    }
}
