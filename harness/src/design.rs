//! Filter design: requests, magnitude, shape, the three output forms, conversions, transformations.
use crate::fl::*;
use crate::j::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::Cfg;
use sci_rs::na::Complex;
use sci_rs::signal::filter::design::*;

#[derive(Clone)]
struct Req<F> {
    via: &'static str,
    fam: Option<&'static str>,
    n: usize,
    w: Vec<F>,
    fs: Option<F>,
    rp: Option<F>,
    rs: Option<F>,
    band: Option<&'static str>,
    analog: Option<bool>,
    out: Option<&'static str>,
}
fn band(b: &str) -> FilterBandType {
    match b {
        "lowpass" => FilterBandType::Lowpass,
        "highpass" => FilterBandType::Highpass,
        "bandpass" => FilterBandType::Bandpass,
        _ => FilterBandType::Bandstop,
    }
}
fn form(o: &str) -> FilterOutputType {
    match o {
        "zpk" => FilterOutputType::Zpk,
        "sos" => FilterOutputType::Sos,
        _ => FilterOutputType::Ba,
    }
}
fn l<T: Copy>(o: Option<T>) -> Vec<T> {
    o.into_iter().collect()
}
impl<F: Fl> Req<F> {
    fn put(&self, o: &mut Obj) {
        o.put("ty", F::TY)
            .put("via", self.via)
            .put("fam", &l(self.fam))
            .put("n", &self.n)
            .put("w", &self.w)
            .put("fs", &l(self.fs))
            .put("rp", &l(self.rp))
            .put("rs", &l(self.rs))
            .put("band", &l(self.band))
            .put("analog", &l(self.analog))
            .put("out", &l(self.out));
    }
    fn run(&self) -> DigitalFilter<F> {
        let (w, b, a, o, fs) = (self.w.clone(), self.band.map(band), self.analog, self.out.map(form), self.fs);
        match self.via {
            "butter" => butter_dyn(self.n, w, b, a, o, fs),
            "cheby1" => cheby1_dyn(self.n, self.rp.unwrap(), w, b, a, o, fs),
            "cheby2" => cheby2_dyn(self.n, self.rs.unwrap(), w, b, a, o, fs),
            _ => {
                let t = self.fam.map(|f| match f {
                    "butter" => FilterType::Butterworth,
                    "cheby1" => FilterType::ChebyshevI,
                    _ => FilterType::ChebyshevII,
                });
                iirfilter_dyn(self.n, w, self.rp, self.rs, b, t, a, o, fs)
            }
        }
    }
}

/// a design as its form and the numbers in it, in order
fn numbers<F: Fl>(d: DigitalFilter<F>) -> (&'static str, Vec<F>) {
    match d {
        DigitalFilter::Ba(f) => ("ba", f.b.into_iter().chain(f.a).collect()),
        DigitalFilter::Zpk(f) => ("zpk", f.z.iter().chain(f.p.iter()).flat_map(|c| [c.re, c.im]).chain([f.k]).collect()),
        DigitalFilter::Sos(f) => ("sos", f.sos.iter().flat_map(row).collect()),
    }
}
/// two spellings of one request
fn same<F: Fl>(out: &mut Out, a: Req<F>, b: Req<F>) {
    out.session("same", |o| {
        o.put("ty", F::TY);
        for (key, q) in [("one", a), ("two", b)] {
            let r = Out::observe(|| numbers(q.run()));
            o.put(
                key,
                &obj(|o| {
                    q.put(o);
                    match &r {
                        Ok((f, v)) => o.put("st", "ok").put("form", *f).put("v", v),
                        Err(_) => o.put("st", "panic").put("form", "none").put("v", &Vec::<F>::new()),
                    };
                }),
            );
        }
    });
}
fn spellings<F: Fl>(out: &mut Out, c: &Cfg, stream: u64) {
    let r = &mut Rng::new(c.seed, stream);
    for _ in 0..c.pick(600, 5000) {
        let fam = *r.pick(&["butter", "cheby1", "cheby2"]);
        let b = *r.pick(&["lowpass", "highpass", "bandpass", "bandstop"]);
        let analog = r.us(0, 3) == 0;
        let form = *r.pick(&["ba", "ba", "zpk", "sos"]);
        let w: Vec<f64> = if b.starts_with("band") { vec![r.range(0.1, 0.4), r.range(0.5, 0.9)] } else { vec![r.range(0.1, 0.9)] };
        let (rp, rs) = (r.range(0.2, 3.0), r.range(15.0, 50.0));
        let n = r.us(1, 5);
        let spell = |r: &mut Rng, plain: bool| -> Req<F> {
            let gen = plain || r.us(0, 2) == 0;
            let via = if gen { "iirfilter" } else { fam };
            let fs = if plain || analog || r.bool() { None } else { Some(*r.pick(&[2.0, 1.0, 8.0, 1024.0, 100.0, 44100.0, 0.5])) };
            let left_out = |r: &mut Rng| !plain && r.bool();
            Req {
                via,
                fam: if gen && fam == "butter" && left_out(r) { None } else { Some(fam) },
                n,
                w: w.iter().map(|w| F::of(w * fs.unwrap_or(2.0) / 2.0)).collect(),
                fs: fs.map(F::of),
                rp: if fam == "cheby1" || (gen && r.us(0, 3) == 0) { Some(F::of(rp)) } else { None },
                rs: if fam == "cheby2" || (gen && r.us(0, 3) == 0) { Some(F::of(rs)) } else { None },
                band: if b == (if gen { "bandpass" } else { "lowpass" }) && left_out(r) { None } else { Some(b) },
                analog: if !analog && left_out(r) { None } else { Some(analog) },
                out: if form == "ba" && left_out(r) { None } else { Some(form) },
            }
        };
        let (x, y) = (spell(r, true), spell(r, false));
        same(out, x, y);
    }
}

pub fn c06(out: &mut Out, c: &Cfg) {
    spellings::<f64>(out, c, 62);
    spellings::<f32>(out, c, 63);
    gate::<f64>(out, c, 6);
    gate::<f32>(out, c, 61);
}
fn gate<F: Fl>(out: &mut Out, c: &Cfg, stream: u64) {
    let r = &mut Rng::new(c.seed, stream);
    let mut emit = |q: Req<F>| {
        out.call_then(
            "gate",
            |o| q.put(o),
            || q.run(),
            |o, d| {
                o.put(
                    "res",
                    match d {
                        DigitalFilter::Ba(_) => "ba",
                        DigitalFilter::Zpk(_) => "zpk",
                        DigitalFilter::Sos(_) => "sos",
                    },
                );
            },
        )
    };
    let ws: &[&[f64]] = &[
        &[], &[0.25], &[0.0], &[-0.25], &[0.999], &[1.0], &[1.5], &[40.0], &[0.25, 0.5], &[0.5, 0.25], &[0.5, 0.5],
        &[0.0, 0.5], &[0.25, 1.0], &[0.25, 2.0], &[-0.5, 0.25], &[10.0, 40.0], &[50.0, 60.0], &[0.1, 0.2, 0.3], &[0.25, 0.5, 0.75, 0.8],
        &[50.0], &[49.5], &[1e-3], &[2.0, 0.5],
    ];
    let bands = [None, Some("lowpass"), Some("highpass"), Some("bandpass"), Some("bandstop")];
    let outs = [None, Some("zpk"), Some("ba"), Some("sos")];
    let fss = [None, Some(100.0), Some(2.0), Some(-2.0), Some(1.0)];
    let vias = ["butter", "cheby1", "cheby2", "iirfilter"];
    // every combination of frequencies, rate, band and analog; the rest cycles
    let mut i = 0usize;
    for w in ws {
        for fs in fss {
            for b in bands {
                for an in [None, Some(false), Some(true)] {
                    i += 1;
                    let via = vias[i % 4];
                    let k = r.us(0, 11);
                    let rp = match k {
                        0..=7 => Some(0.5),
                        8 => Some(-0.5),
                        _ => None,
                    };
                    let k = r.us(0, 11);
                    let rs = match k {
                        0..=7 => Some(30.0),
                        8 => Some(-1.0),
                        _ => None,
                    };
                    emit(Req {
                        via,
                        fam: if via == "iirfilter" { *r.pick(&[None, Some("butter"), Some("cheby1"), Some("cheby2")]) } else { Some(via) },
                        n: r.us(1, 5),
                        w: vof(w),
                        fs: fs.map(F::of),
                        rp: if via == "cheby1" { rp.or(Some(1.0)) } else if via == "iirfilter" { rp } else { None }.map(F::of),
                        rs: if via == "cheby2" { rs.or(Some(20.0)) } else if via == "iirfilter" { rs } else { None }.map(F::of),
                        band: b,
                        analog: an,
                        out: outs[r.us(0, 3)],
                    });
                }
            }
        }
    }
    // well-formed otherwise: each ripple argument missing, negative, present, for each family
    for fam in [None, Some("butter"), Some("cheby1"), Some("cheby2")] {
        for rp in [None, Some(-0.5), Some(0.5), Some(-1e-6)] {
            for rs in [None, Some(-3.0), Some(40.0)] {
                for b in bands {
                    for an in [false, true] {
                        for o in outs {
                            let two = matches!(b, None | Some("bandpass") | Some("bandstop"));
                            emit(Req {
                                via: "iirfilter",
                                fam,
                                n: r.us(1, 6),
                                w: vof(if two { &[0.2, 0.6] } else { &[0.3] }),
                                fs: None,
                                rp: rp.map(F::of),
                                rs: rs.map(F::of),
                                band: b,
                                analog: Some(an),
                                out: o,
                            });
                        }
                    }
                }
            }
        }
    }
    // just inside and just outside the edges of the admissible frequencies
    let e = if F::TY == "f32" { 2f64.powi(-20) } else { 2f64.powi(-40) };
    for fs in [None, Some(2.0), Some(1024.0), Some(0.5)] {
        let ny = fs.unwrap_or(2.0) / 2.0;
        for an in [false, true] {
            if an && fs.is_some() {
                continue;
            }
            for via in ["butter", "cheby1"] {
                for v in [ny, ny * (1.0 - e), ny * (1.0 + e), ny * e, -ny * e, ny * 0.5] {
                    for b in ["lowpass", "highpass"] {
                        emit(Req { via, fam: Some(via), n: r.us(1, 3), w: vec![F::of(v)], fs: fs.map(F::of), rp: Some(F::of(1.0)), rs: None, band: Some(b), analog: Some(an), out: Some("zpk") });
                    }
                    for b in ["bandpass", "bandstop"] {
                        for lo in [0.25 * ny, v] {
                            emit(Req { via, fam: Some(via), n: r.us(1, 3), w: vec![F::of(lo), F::of(v)], fs: fs.map(F::of), rp: Some(F::of(1.0)), rs: None, band: Some(b), analog: Some(an), out: Some("zpk") });
                        }
                    }
                }
            }
        }
    }
    for _ in 0..c.pick(600, 20000) {
        let via = *r.pick(&vias);
        let w: Vec<F> = (0..*r.pick(&[1usize, 1, 1, 2, 2, 2, 0, 3])).map(|_| F::of(*r.pick(&[0.125, 0.25, 0.5, 0.75, 1.0, 3.0, -1.0, 0.0, 0.0625, 0.375, 0.625]))).collect();
        emit(Req {
            via,
            fam: if via == "iirfilter" { *r.pick(&[None, Some("butter"), Some("cheby1"), Some("cheby2")]) } else { Some(via) },
            n: r.us(1, 6),
            w,
            fs: r.pick(&[None, None, Some(2.0), Some(4.0), Some(8.0)]).map(F::of),
            rp: if via == "butter" || via == "cheby2" { None } else if via == "cheby1" { Some(*r.pick(&[0.5, 3.0, -1.0])) } else { *r.pick(&[None, Some(0.5), Some(-1.0)]) }.map(F::of),
            rs: if via == "butter" || via == "cheby1" { None } else if via == "cheby2" { Some(*r.pick(&[20., 60., -1.0])) } else { *r.pick(&[None, Some(20.0), Some(-1.0)]) }.map(F::of),
            band: *r.pick(&bands),
            analog: *r.pick(&[None, None, Some(false), Some(true)]),
            out: *r.pick(&outs),
        });
    }
}

fn put_zpk<F: Fl>(o: &mut Obj, f: &ZpkFormatFilter<F>) {
    o.put("z", &f.z).put("p", &f.p).put("k", &f.k);
}
fn row<F: Fl>(s: &Sos<F>) -> Vec<F> {
    s.b.iter().chain(s.a.iter()).copied().collect()
}

/// the request in zpk form, and for "agree" in the other two as well
fn design<F: Fl>(out: &mut Out, op: &str, q: &Req<F>) {
    let mut q = q.clone();
    q.out = Some("zpk");
    let proto = if q.fam == Some("cheby2") { Out::observe(|| cheb2ap_dyn(q.n, q.rs.unwrap())).ok() } else { None };
    out.call_then(
        op,
        |o| {
            q.put(o);
            if let Some(f) = &proto {
                o.put("proto", &obj(|o| put_zpk(o, f)));
            }
        },
        || match q.run() {
            DigitalFilter::Zpk(f) => f,
            _ => panic!("not zpk"),
        },
        |o, f| {
            put_zpk(o, &f);
            let mut q = q.clone();
            if op == "agree" {
                let none: [usize; 0] = [];
                q.out = Some("ba");
                let ba = match Out::observe(|| q.run()) {
                    Ok(DigitalFilter::Ba(f)) => obj(|o| {
                        o.put("st", "ok").put("b", &f.b).put("a", &f.a);
                    }),
                    _ => obj(|o| {
                        o.put("st", "panic").put("b", &none).put("a", &none);
                    }),
                };
                q.out = Some("sos");
                let sos = match Out::observe(|| q.run()) {
                    Ok(DigitalFilter::Sos(f)) => obj(|o| {
                        o.put("st", "ok").put("s", &f.sos.iter().map(row).collect::<Vec<_>>());
                    }),
                    _ => obj(|o| {
                        o.put("st", "panic").put("s", &none);
                    }),
                };
                o.put("ba", &ba).put("sos", &sos);
            }
        },
    );
}

/// requests over families, orders, bands, analog and digital, with and without a sampling rate
fn requests<F: Fl>(r: &mut Rng, fams: &[&'static str], orders: impl Iterator<Item = usize> + Clone, per: usize, mut f: impl FnMut(&mut Rng, Req<F>)) {
    let single = F::TY == "f32";
    for fam in fams.iter().copied() {
        for n in orders.clone() {
            for b in ["lowpass", "highpass", "bandpass", "bandstop"] {
                for analog in [false, true] {
                    for i in 0..per {
                        let two = b.starts_with("band");
                        let fs = if analog || i % 2 == 0 { None } else { Some(*r.pick(&[2.0, 1.0, 100.0, 1666.0, 44100.0, 0.125, 1e-3, 192000.0, 1e7, 3.7])) };
                        let ny = fs.unwrap_or(2.0) / 2.0;
                        // now and then close to the ends of what is admissible
                        let wild = !single && r.us(0, 3) == 0;
                        let (lo, hi) = if single { (0.15, 0.8) } else if wild { (0.0005, 0.9995) } else { (0.02, 0.97) };
                        // and for low orders very close
                        let (lo, hi) = if wild && !two && n < 5 && r.bool() { *r.pick(&[(2e-5, 2e-4), (0.9991, 0.99995), (1e-7, 2e-5), (0.99999, 0.9999998)]) } else { (lo, hi) };
                        let mut w: Vec<f64> = if analog {
                            vec![*r.pick(if wild { &[1e-3, 1e4, 2e3, 1e-2] } else { &[1.0, 0.1, 10.0, 200.0] }) * r.range(0.5, 2.0)]
                        } else {
                            vec![ny * r.range(lo, if two { hi * 0.85 } else { hi })]
                        };
                        if two {
                            let v = w[0];
                            let x = match (analog, wild) {
                                (true, false) => v * r.range(1.2, 8.0),
                                (true, true) => v * *r.pick(&[1.0005, 1.005, 1.02, 1.1, 30.0, 100.0]),
                                (false, false) => v + (ny * hi - v) * r.range(0.25, 1.0),
                                (false, true) => v + (ny * hi - v) * *r.pick(&[0.0005, 0.004, 0.02, 0.1, 0.5, 0.99]),
                            };
                            w.push(x);
                        }
                        let via = if r.us(0, 2) == 0 { "iirfilter" } else { fam };
                        let rp = if fam == "cheby1" { Some(*r.pick(if wild { &[3e-6, 5e-5, 0.001, 0.02, 12.0, 30.0] } else { &[0.1, 0.5, 1.0, 3.0] }) * r.range(0.8, 1.2)) } else { None };
                        let rs = if fam == "cheby2" { Some((*r.pick(if wild { &[0.02, 0.5, 1.5, 100.0, 120.0] } else { &[3.0, 20.0, 40.0, 80.0] }) * r.range(0.8, 1.2)).min(25.0 * n as f64)) } else { None };
                        let q = Req {
                            via,
                            fam: Some(fam),
                            n,
                            w: vof(&w),
                            fs: fs.map(F::of),
                            rp: rp.map(F::of),
                            rs: rs.map(F::of),
                            band: if b == "lowpass" && via != "iirfilter" && r.bool() { None } else if b == "bandpass" && via == "iirfilter" && r.bool() { None } else { Some(b) },
                            analog: if analog { Some(true) } else { *r.pick(&[None, Some(false)]) },
                            out: None,
                        };
                        f(r, q);
                    }
                }
            }
        }
    }
}

pub fn magnitude(out: &mut Out, c: &Cfg, fam: &'static str, stream: u64) {
    let r = &mut Rng::new(c.seed, stream);
    requests::<f64>(r, &[fam], 1..=c.pick(10, 14), c.pick(14, 60), |_, q| design(out, "mag", &q));
    requests::<f32>(r, &[fam], 1..=4, c.pick(6, 30), |_, q| design(out, "mag", &q));
    requests::<f32>(r, &[fam], 5..=9, c.pick(3, 12), |_, q| {
        if q.w.len() < 2 || q.n < 6 {
            design(out, "mag", &q)
        }
    });
    requests::<f64>(r, &[fam], [11, 12, 13, 15, 16, 17, 20, 23, 24, 32, 33, 40, 48].into_iter().filter(|n| *n > c.pick(10, 14)), c.pick(2, 8), |_, q| design(out, "mag", &q));
    // the law holds in every output format
    requests::<f64>(r, &[fam], 1..=c.pick(7, 10), c.pick(3, 10), |_, q| design(out, "agree", &q));
    requests::<f32>(r, &[fam], 1..=4, c.pick(2, 8), |_, q| design(out, "agree", &q));
    if fam == "cheby1" {
        requests::<f64>(r, &[fam], 0..=0, 2, |_, q| design(out, "mag", &q));
    }
}
fn prototype<F: Fl>(out: &mut Out, fam: &'static str, n: usize, db: f64) {
    let db = F::of(db);
    out.call_then(
        "proto",
        |o| {
            o.put("ty", F::TY).put("fam", &l(Some(fam))).put("n", &n).put("db", &db);
        },
        || if fam == "cheby1" { cheb1ap_dyn(n, db) } else { cheb2ap_dyn(n, db) },
        |o, f| put_zpk(o, &f),
    );
}
pub fn c31(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 31);
    for n in (0..=c.pick(20, 40)).chain([31, 50]) {
        for i in 0..c.pick(14, 60) {
            let a = match i % 4 {
                0 => r.range(0.01, 3.0),
                1 => r.range(1.0, 20.0),
                2 => *r.pick(&[1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 8e-5, 4e-4, 200.0, 0.001, 0.01, 0.1, 0.5, 1.0, 3.0, 3.0103, 10.0, 20.0, 40.0, 60.0, 80.0, 100.0]),
                _ => r.range(20.0, 140.0),
            };
            for fam in ["cheby1", "cheby2"] {
                prototype::<f64>(out, fam, n, a);
                if (0.01..100.0).contains(&a) && n <= 12 {
                    prototype::<f32>(out, fam, n, a);
                }
            }
        }
    }
}
pub fn c10(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 10);
    requests::<f64>(r, &["butter", "cheby1", "cheby2"], 1..=c.pick(8, 10), c.pick(8, 30), |_, q| design(out, "agree", &q));
    requests::<f32>(r, &["butter", "cheby1", "cheby2"], 1..=4, c.pick(5, 15), |_, q| design(out, "agree", &q));
    requests::<f64>(r, &["butter", "cheby1"], 0..=0, 2, |_, q| design(out, "agree", &q));
}
pub fn c14(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 14);
    requests::<f64>(r, &["butter", "cheby1", "cheby2"], 1..=c.pick(13, 18), c.pick(12, 50), |_, q| design(out, "shape", &q));
    requests::<f32>(r, &["butter", "cheby1", "cheby2"], 1..=5, c.pick(8, 30), |_, q| design(out, "shape", &q));
}

/// roots closed under conjugation: `pairs` conjugate pairs and `reals` real ones
fn roots<F: Fl>(r: &mut Rng, pairs: usize, reals: usize, left: bool) -> Vec<Complex<F>> {
    let mut v: Vec<Complex<F>> = vec![];
    let kind = r.us(0, 5);
    let pick = |r: &mut Rng, re: bool| -> (f64, f64) {
        match kind {
            0 => (*r.pick(&[-0.5, 0.25, -0.75]), if re { 0.0 } else { *r.pick(&[0.5, 0.25, 0.75]) }),
            1 => (*r.pick(&[-0.5, -0.5, -1.0]), if re { 0.0 } else { r.range(0.1, 1.0) }),
            2 => {
                let a = r.range(0.05, 3.1);
                let m = *r.pick(&[1.0, 0.9, 0.99, 0.5]);
                if re {
                    (m * if a > 1.5 { -1.0 } else { 1.0 }, 0.0)
                } else {
                    (m * a.cos(), m * a.sin())
                }
            }
            _ => (r.range(-0.95, 0.95), if re { 0.0 } else { r.range(0.05, 0.9) }),
        }
    };
    let sgn = |x: f64| if left { -x.abs().max(0.01) } else { x };
    for _ in 0..pairs {
        let (a, b) = pick(r, false);
        v.push(Complex::new(F::of(sgn(a)), F::of(b)));
        v.push(Complex::new(F::of(sgn(a)), F::of(-b)));
    }
    for _ in 0..reals {
        let (a, _) = pick(r, true);
        let a = if r.us(0, 4) == 0 { *r.pick(&[0.0, 1.0, -1.0]) } else { a };
        v.push(Complex::new(F::of(if left { sgn(a) } else { a }), F::of(if r.bool() { 0.0 } else { -0.0 })));
    }
    // any order
    for i in (1..v.len()).rev() {
        let j = r.us(0, i);
        v.swap(i, j);
    }
    v
}
fn gain(r: &mut Rng) -> f64 {
    *r.pick(&[1.0, 0.5, -2.0, 1e-3, 37.0, -1e-6, 1e5]) * r.range(0.5, 1.5)
}
/// the same roots on another scale, exactly
fn scaled<F: Fl>(mut v: Vec<Complex<F>>, e: i64) -> Vec<Complex<F>> {
    let s = F::of(2f64.powi(e as i32));
    v.iter_mut().for_each(|c| *c = Complex::new(c.re * s, c.im * s));
    v
}

fn to_sos<F: Fl>(out: &mut Out, z: Vec<Complex<F>>, p: Vec<Complex<F>>, k: F, pairing: Option<&'static str>, analog: Option<bool>, closed: bool) {
    out.call_then(
        "zpk2sos",
        |o| {
            o.put("ty", F::TY).put("z", &z).put("p", &p).put("k", &k).put("pairing", &l(pairing)).put("analog", &l(analog)).put("closed", &closed);
        },
        || {
            zpk2sos_dyn(
                p.len(),
                ZpkFormatFilter::new(z.clone(), p.clone(), k),
                pairing.map(|s| if s == "minimal" { ZpkPairing::Minimal } else { ZpkPairing::Nearest }),
                analog,
            )
        },
        |o, s| {
            o.put("res", &s.sos.iter().map(row).collect::<Vec<_>>());
        },
    );
}

pub fn c11(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 11);
    let n = c.pick(4, 5);
    let modes: [(Option<&'static str>, Option<bool>); 6] =
        [(None, None), (Some("nearest"), Some(false)), (Some("minimal"), None), (None, Some(true)), (Some("minimal"), Some(true)), (Some("nearest"), Some(true))];
    // every number of pairs and reals, each with several placements
    for pc in 0..=n {
        for pr in 0..=n {
            for zc in 0..=n {
                for zr in 0..=n {
                    for m in 0..c.pick(2usize, 6) {
                        let i = if m == 0 { 0 } else { r.us(1, 5) };
                        let (pairing, analog) = modes[i];
                        let left = analog == Some(true);
                        let (p, z, k) = (roots::<f64>(r, pc, pr, left), roots::<f64>(r, zc, zr, false), gain(r));
                        to_sos(out, z, p, k, pairing, analog, true);
                    }
                }
            }
        }
    }
    for _ in 0..c.pick(2500, 20000) {
        let (pairing, analog) = *r.pick(&modes);
        let left = analog == Some(true);
        let (pc, pr, zc, zr) = (r.us(0, 5), r.us(0, 4), r.us(0, 5), r.us(0, 4));
        let (ep, ez) = if r.us(0, 2) > 0 { (0, 0) } else if left { (r.int(-10, 10), r.int(-10, 10)) } else { (r.int(-4, 2), r.int(-4, 2)) };
        let mut p = scaled(roots::<f64>(r, pc, pr, left), ep);
        let mut z = scaled(roots::<f64>(r, zc, zr, false), ez);
        if r.us(0, 4) == 0 {
            // the same roots several times over
            let m = r.us(1, 2);
            p = p.iter().cycle().take(p.len() * m).copied().collect();
            z = z.iter().cycle().take(z.len() * m).copied().collect();
        }
        let k = gain(r);
        match r.us(0, 9) {
            0 => {
                // a complex root without its partner
                {
                    let x = *r.pick(&[0.4, -0.4, 1e-6, -1e-9]);
                    z.push(Complex::new(0.3, x));
                }
                to_sos(out, z, p, k, pairing, analog, false);
            }
            1 => {
                // two that are not quite each other's
                let (a, b) = *r.pick(&[(0.0, 0.1), (0.1, 0.0), (1e-7, 0.0), (0.0, 1e-7), (0.0, 1e-10)]);
                p.push(Complex::new(-0.3, -0.4));
                p.push(Complex::new(-0.3 + a, 0.4 + b));
                to_sos(out, z, p, k, pairing, analog, false);
            }
            2 => {
                // real roots with the rounding noise a root finder leaves
                let f = |r: &mut Rng, v: &mut Vec<Complex<f64>>| v.iter_mut().filter(|c| c.im == 0.0).for_each(|c| c.im = c.re * 1e-17 * r.int(-3, 3) as f64);
                f(r, &mut p);
                f(r, &mut z);
                to_sos(out, z, p, k, pairing, analog, true);
            }
            4 | 5 => {
                // conjugates that agree up to rounding only, several on one vertical line
                let f = |r: &mut Rng, v: &mut Vec<Complex<f64>>| {
                    v.iter_mut().filter(|c| c.im != 0.0).for_each(|c| {
                        c.re *= 1.0 + f64::EPSILON * r.int(-2, 2) as f64;
                        c.im *= 1.0 + f64::EPSILON * r.int(-2, 2) as f64;
                    })
                };
                if r.bool() {
                    let a = *r.pick(&[-0.5, -0.25, -0.75]);
                    p.iter_mut().chain(z.iter_mut()).filter(|c| c.im != 0.0).for_each(|c| c.re = a);
                }
                f(r, &mut p);
                f(r, &mut z);
                to_sos(out, z, p, k, pairing, analog, true);
            }
            3 => {
                let (p, z) = (roots::<f32>(r, pc.min(2), pr.min(2), left), roots::<f32>(r, zc.min(2), zr.min(2), false));
                to_sos(out, z, p, k as f32, pairing, analog, true);
            }
            _ => to_sos(out, z, p, k, pairing, analog, true),
        }
    }
}

fn tf<F: Fl>(out: &mut Out, r: &mut Rng, pc: usize, pr: usize, zc: usize, zr: usize) {
    let (ep, ez) = if r.bool() || F::TY == "f32" { (0, 0) } else { (r.int(-12, 12), r.int(-12, 12)) };
    let (p, z, k) = (scaled(roots::<F>(r, pc, pr, false), ep), scaled(roots::<F>(r, zc, zr, false), ez), F::of(gain(r)));
    let order = p.len().max(z.len()) + r.us(0, 3);
    out.call_then(
        "zpk2tf",
        |o| {
            o.put("ty", F::TY).put("order", &order).put("z", &z).put("p", &p).put("k", &k);
        },
        || zpk2tf_dyn(order, &z, &p, k),
        |o, f| {
            o.put("res", &obj(|o| {
                o.put("b", &f.b).put("a", &f.a);
            }));
        },
    );
    out.call_then(
        "poly",
        |o| {
            o.put("ty", F::TY).put("z", &z).put("real", &true);
        },
        || poly_dyn(&z),
        |o, f| {
            o.put("res", &f);
        },
    );
    // real element type
    let x: Vec<F> = p.iter().map(|c| c.re).collect();
    out.call_then(
        "poly",
        |o| {
            o.put("ty", F::TY).put("z", &x.iter().map(|v| Complex::new(*v, F::of(0.0))).collect::<Vec<_>>()).put("real", &true);
        },
        || poly_dyn(&x),
        |o, f| {
            o.put("res", &f.iter().map(|v| Complex::new(*v, F::of(0.0))).collect::<Vec<_>>());
        },
    );
    // complex roots without their partners
    let y: Vec<Complex<F>> = (0..pc + zr).map(|_| Complex::new(F::of(r.range(-1., 1.)), F::of(r.range(-1., 1.)))).collect();
    // and only some of them without
    let mut w = z.clone();
    for _ in 0..r.us(1, 3) {
        let v = Complex::new(F::of(r.range(-1., 1.)), F::of(r.range(0.1, 1.) * if r.bool() { 1. } else { -1. }));
        let at = r.us(0, w.len());
        w.insert(at, v);
        if r.us(0, 3) == 0 {
            // the mirror image, not the partner
            let at = r.us(0, w.len());
            w.insert(at, Complex::new(-v.re, -v.im));
        }
    }
    // and almost all of them with: partners that miss by a little do not make the coefficients real
    let mut v = roots::<F>(r, pc.max(1), pr, false);
    let near = if F::TY == "f32" { *r.pick(&[1e-2, 1e-3, 1e-4]) } else { *r.pick(&[1e-3, 1e-5, 1e-7, 1e-9, 1e-11]) };
    for _ in 0..r.us(1, 2) {
        let i = r.us(0, v.len() - 1);
        let (m, sg) = (v[i].re.f().abs().max(v[i].im.f().abs()).max(0.1), if r.bool() { 1. } else { -1. });
        if r.bool() && v[i].im.f() != 0. {
            v[i].re = F::of(v[i].re.f() + sg * m * near);
        } else {
            v[i].im = F::of(v[i].im.f() + sg * m * near);
        }
    }
    for y in [y, w, v] {
        out.call_then(
            "poly",
            |o| {
                o.put("ty", F::TY).put("z", &y).put("real", &false);
            },
            || poly_dyn(&y),
            |o, f| {
                o.put("res", &f);
            },
        );
    }
}
pub fn c12(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 12);
    for pc in 0..=3 {
        for pr in 0..=3 {
            for zc in 0..=3 {
                for zr in 0..=3 {
                    tf::<f64>(out, r, pc, pr, zc, zr);
                }
            }
        }
    }
    for _ in 0..c.pick(300, 6000) {
        let t = *r.pick(&[3usize, 7, 7, 12]);
        let (a, b, d, e) = (r.us(0, t), r.us(0, t), r.us(0, t), r.us(0, t));
        tf::<f64>(out, r, a, b, d, e);
        tf::<f32>(out, r, a, b, d, e);
    }
}

fn transform<F: Fl>(out: &mut Out, r: &mut Rng, op: &'static str, pc: usize, pr: usize, zc: usize, zr: usize) {
    // scale 1, away from the origin (zeros at the origin have no lowpass-to-highpass image)
    let clean = |mut v: Vec<Complex<F>>, r: &mut Rng| -> Vec<Complex<F>> {
        v.iter_mut().for_each(|c| {
            if (op == "lp2hp" || op == "lp2bs") && c.im == F::of(0.0) && c.re.f().abs() < 0.05 {
                c.re = F::of(r.range(0.1, 0.9));
            }
        });
        v
    };
    let left = r.us(0, 3) > 0;
    let (p, z) = (roots::<F>(r, pc, pr, left), roots::<F>(r, zc, zr, false));
    let p = clean(p, r);
    let z = clean(z, r);
    let k = F::of(gain(r));
    let scale = *r.pick(if F::TY == "f32" { &[1.0, 0.1, 4.0, 30.0, 1e-3] } else { &[1.0, 0.1, 4.0, 30.0, 1e-4, 1e4, 1e-9, 1e8] });
    // sampled far faster than the filter moves
    let fine = op == "bilinear" && r.us(0, 3) == 0;
    let wo = if r.us(0, 5) == 0 { None } else { Some(F::of(scale * r.range(0.5, 2.0))) };
    let w = wo.map_or(1.0, |w| w.f());
    let (mut p, mut z) = (p, z);
    if fine {
        let f = F::of(w * *r.pick(if F::TY == "f32" { &[1e-4, 1e-3] } else { &[1e-11, 1e-9, 1e-5] }));
        p.iter_mut().chain(z.iter_mut()).for_each(|c| *c = Complex::new(c.re * f, c.im * f));
    }
    let mut bw = if r.us(0, 5) == 0 && w > 0.4 && w < 2.5 { None } else { Some(F::of(w * if r.us(0, 3) == 0 { *r.pick(&[0.01, 0.05, 20.0]) } else { r.range(0.25, 4.0) })) };
    // a double root of the transformed filter is ill-conditioned: keep away from it
    for _ in 0..20 {
        let b = bw.map_or(1.0, |b| b.f());
        let near = |c: &Complex<F>, inv: bool| {
            let (x, y) = (c.re.f(), c.im.f());
            let m = x * x + y * y;
            let (x, y) = if inv { (x / m * b / 2.0, -y / m * b / 2.0) } else { (x * b / 2.0, y * b / 2.0) };
            let (re, im) = (x * x - y * y - w * w, 2.0 * x * y);
            re.hypot(im) < 0.1 * (w * w).max(x * x + y * y)
        };
        let inv = op == "lp2bs";
        if (op == "lp2bp" || inv) && p.iter().chain(z.iter()).any(|c| near(c, inv)) {
            bw = Some(F::of(w * r.range(0.25, 4.0)));
        } else {
            break;
        }
    }
    // lp2bs of finite zeros takes roots of the real parts only
    out.call_then(
        op,
        |o| {
            o.put("ty", F::TY).put("z", &z).put("p", &p).put("k", &k);
            if op == "bilinear" {
                o.put("wo", &vec![wo.unwrap_or(F::of(1.0))]).put("bw", &Vec::<F>::new());
            } else {
                o.put("wo", &l(wo)).put("bw", &l(bw));
            }
        },
        || {
            let f = ZpkFormatFilter::new(z.clone(), p.clone(), k);
            match op {
                "lp2lp" => lp2lp_zpk_dyn(f, wo),
                "lp2hp" => lp2hp_zpk_dyn(f, wo),
                "lp2bp" => lp2bp_zpk_dyn(f, wo, bw),
                "lp2bs" => lp2bs_zpk_dyn(f, wo, bw),
                _ => bilinear_zpk_dyn(f, wo.unwrap_or(F::of(1.0))),
            }
        },
        |o, f| {
            o.put("res", &obj(|o| put_zpk(o, &f)));
        },
    );
}
pub fn c13(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 13);
    for op in ["lp2lp", "lp2hp", "lp2bp", "lp2bs", "bilinear"] {
        for pc in 0..=3 {
            for pr in 0..=3 {
                for zc in 0..=2 {
                    for zr in 0..=2 {
                        transform::<f64>(out, r, op, pc, pr, zc, zr);
                    }
                }
                for _ in 0..c.pick(3, 40) {
                    transform::<f64>(out, r, op, pc, pr, 0, 0);
                    transform::<f64>(out, r, op, pc + 1, pr, 1, 0);
                }
            }
        }
        for _ in 0..c.pick(150, 3000) {
            let (a, b, d, e) = (r.us(0, 6), r.us(0, 4), r.us(0, 3), r.us(0, 3));
            transform::<f64>(out, r, op, a, b, d, e);
            transform::<f32>(out, r, op, a.min(2), b.min(2), d.min(1), e.min(2));
        }
    }
}

/// From a request to a filtered signal (C32).
fn pipe<F: crate::sos::Eps>(out: &mut Out, q: Req<F>, x: &[f64], cut: usize) {
    use sci_rs::signal::filter::*;
    let x: Vec<F> = vof(x);
    out.session("pipe", |o| {
        q.put(o);
        o.put("x", &x);
        let sos = match Out::observe(|| q.run()) {
            Ok(DigitalFilter::Sos(s)) => s.sos,
            _ => {
                o.put("st", "panic").put("z", &Vec::<[F; 2]>::new()).put("runs", &Vec::<F>::new());
                return;
            }
        };
        o.put("st", "ok").put("z", &crate::sos::delays(&sos));
        let pad = 3 * (q.n * q.w.len() + 1);
        let mut runs = Vec::new();
        let mut record = |ep: &str, r: Result<Vec<F>, String>| {
            runs.push(obj(|j| {
                match r {
                    Ok(y) => j.put("ep", ep).put("st", "ok").put("y", &y),
                    Err(_) => j.put("ep", ep).put("st", "panic").put("y", &Vec::<F>::new()),
                };
            }))
        };
        record("dyn", Out::observe(|| sosfilt_dyn(x.iter(), &mut sos.clone())));
        record("st", Out::observe(|| sosfilt_st(x.to_vec(), &mut sos.clone()).collect()));
        record(
            "item",
            Out::observe(|| {
                let mut s = sos.clone();
                x.iter().map(|v| sosfilt_item(v, &mut s)).collect()
            }),
        );
        // in two pieces, the second by another entry point
        record(
            "pieces",
            Out::observe(|| {
                let mut s = sos.clone();
                let mut y = sosfilt_dyn(x[..cut].iter(), &mut s);
                y.extend(sosfilt_st(x[cut..].to_vec(), &mut s));
                y
            }),
        );
        // by way of the flat rows other programs exchange
        record(
            "rows",
            Out::observe(|| {
                let flat: Vec<F> = sos.iter().flat_map(row).collect();
                let mut s = Sos::from_scipy_dyn(sos.len(), flat);
                sosfilt_dyn(x.iter(), &mut s)
            }),
        );
        if F::TY == "f32" {
            record("fast32", Out::observe(|| F::special("fast32", &x, &mut sos.clone())));
        }
        if x.len() > pad {
            record("filtfilt", Out::observe(|| sosfiltfilt_dyn(x.iter(), &sos)));
        }
        o.put("runs", &runs);
    });
}
fn pipes<F: crate::sos::Eps>(out: &mut Out, c: &Cfg, stream: u64, most: usize) {
    let r = &mut Rng::new(c.seed, stream);
    let mut todo = Vec::new();
    for fam in ["butter", "cheby1", "cheby2"] {
        for b in ["lowpass", "highpass", "bandpass", "bandstop"] {
            for n in 1..=most {
                // known findings: these designs are not the textbook ones
                if fam == "cheby2" && n > 1 && (b == "highpass" || b == "bandstop") {
                    continue;
                }
                for _ in 0..c.pick(10, 40) {
                    todo.push((fam, b, n));
                }
            }
        }
    }
    for (k, (fam, b, n)) in todo.into_iter().enumerate() {
        let fs = if r.bool() { None } else { Some(*r.pick(&[2.0, 1.0, 8.0, 1024.0, 100.0, 44100.0, 0.5])) };
        // slow and narrow filters, as low as the precision of their sections carries
        let low: f64 = match (F::TY, n) {
            ("f64", 1) => 1e-4,
            ("f64", 2) => 5e-4,
            ("f64", 3) => 2e-3,
            ("f64", 4) => 1e-2,
            ("f32", 1) => 0.01,
            ("f32", 2) => 0.05,
            _ => 0.15,
        };
        let extreme = low < 0.15 && r.us(0, 2) == 0;
        let w: Vec<f64> = if b.starts_with("band") {
            if extreme {
                let a = r.range(0.15, 0.6);
                vec![a, a + (10.0 * low * r.range(1.0, 3.0)).min(0.3)]
            } else {
                let a = r.range(0.15, 0.45);
                vec![a, a + r.range(0.2, 0.4)]
            }
        } else if extreme {
            let l = low * r.range(1.0, 4.0);
            vec![if r.us(0, 3) == 0 { 1.0 - l } else { l }]
        } else {
            vec![r.range(0.15, 0.8)]
        };
        let general = r.bool();
        let q = Req {
            via: if general { "iirfilter" } else { fam },
            fam: Some(fam),
            n,
            w: w.iter().map(|w| F::of(w * fs.unwrap_or(2.0) / 2.0)).collect(),
            fs: fs.map(F::of),
            rp: (fam == "cheby1").then(|| F::of(r.range(0.3, 3.0))),
            rs: (fam == "cheby2").then(|| F::of(r.range(15.0, 45.0))),
            band: Some(b),
            analog: *r.pick(&[None, Some(false)]),
            out: Some("sos"),
        };
        let len = r.us(1, 60) + if k % 3 > 0 { 3 * (n * w.len() + 1) } else { 0 };
        let x: Vec<f64> = match r.us(0, 4) {
            0 => (0..len).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect(),
            1 => vec![r.range(-3.0, 3.0); len],
            2 => {
                let w = r.range(0.05, 3.0);
                (0..len).map(|i| (w * i as f64).sin()).collect()
            }
            _ => (0..len).map(|_| r.range(-2.0, 2.0)).collect(),
        };
        let cut = r.us(0, len);
        pipe::<F>(out, q, &x, cut);
    }
}
pub fn c32(out: &mut Out, c: &Cfg) {
    pipes::<f64>(out, c, 321, 8);
    pipes::<f32>(out, c, 322, 4);
}
