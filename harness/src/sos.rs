//! Sessions over second-order-section cascades.
use crate::fl::*;
use crate::j::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::Cfg;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;

pub type Sec = ([f64; 3], [f64; 3]);

/// Sections whose exact responses stay small: integer taps, all-pole parts that do not grow.
pub fn int_section(r: &mut Rng) -> Sec {
    let b = [r.int(-2, 2) as f64, r.int(-2, 2) as f64, r.int(-2, 2) as f64];
    let a = *r.pick(&[[1., 0., 0.], [1., -1., 0.], [1., 1., 0.], [1., 0., 1.], [1., 0., -1.], [1., 1., 1.], [1., -1., 1.], [1., 0.5, 0.25], [1., -0.75, 0.5]]);
    (b, a)
}
/// A stable section with pole radius at most 0.85 and gain of order one.
pub fn stable_section(r: &mut Rng) -> Sec {
    let kind = r.us(0, 5);
    let (a1, a2) = match kind {
        0 => (r.range(-0.8, 0.8), 0.0),
        1 => {
            let (p, q) = (r.range(-0.8, 0.8), r.range(-0.8, 0.8));
            (-(p + q), p * q)
        }
        _ => {
            let (m, t) = (r.range(0.05, 0.85), r.range(0.1, 3.0));
            (-2. * m * t.cos(), m * m)
        }
    };
    let mut b = [r.range(-1., 1.), r.range(-1., 1.), r.range(-1., 1.)];
    if kind == 0 {
        b[2] = 0.0;
    }
    let s: f64 = b.iter().map(|x| x.abs()).sum::<f64>().max(1e-3);
    let g = (1.0 + a1 + a2).abs().min((1.0 - a1 + a2).abs()).max(0.1) / s;
    b.iter_mut().for_each(|x| *x *= g * 1.7);
    (b, [1., a1, a2])
}
/// The sections a shortcut might single out: identities, shifts, silence, no recursion, first order, symmetric taps.
pub fn special_section(r: &mut Rng) -> Sec {
    let b = *r.pick(&[[1., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., 0., 0.], [-1., 0., 0.], [0.5, 0.5, 0.], [0.25, 0.5, 0.25], [0.25, -0.5, 0.25], [0.5, 0., -0.5]]);
    let a = *r.pick(&[[1., 0., 0.], [1., 0., 0.], [1., -0.5, 0.], [1., 0.5, 0.], [1., 0., 0.25], [1., 0., -0.25], [1., -0.5, 0.25]]);
    (b, a)
}
pub fn cascade(r: &mut Rng, n: usize, ints: bool) -> Vec<Sec> {
    (0..n)
        .map(|_| match r.us(0, 11) {
            0 => special_section(r),
            1..=3 if ints => int_section(r),
            _ => stable_section(r),
        })
        .collect()
}
pub fn build<F: Fl>(c: &[Sec]) -> Vec<Sos<F>> {
    c.iter().map(|(b, a)| Sos::new(b.map(F::of), a.map(F::of))).collect()
}
pub fn coefs<F: Fl>(s: &[Sos<F>]) -> Vec<Vec<F>> {
    s.iter().map(|s| s.b.iter().chain(s.a.iter()).copied().collect()).collect()
}
pub fn delays<F: Fl>(s: &[Sos<F>]) -> Vec<[F; 2]> {
    s.iter().map(|s| [s.zi0, s.zi1]).collect()
}

pub struct Step {
    pub ep: String,
    pub x: Vec<f64>,
    pub take: usize,
}

/// The entry points particular to 32-bit floats.
pub trait Eps: Fl {
    fn special(ep: &str, x: &[Self], s: &mut [Sos<Self>]) -> Vec<Self>;
}
impl Eps for f64 {
    fn special(_: &str, _: &[f64], _: &mut [Sos<f64>]) -> Vec<f64> {
        unreachable!()
    }
}
impl Eps for f32 {
    fn special(ep: &str, x: &[f32], s: &mut [Sos<f32>]) -> Vec<f32> {
        // stale contents: an entry the code fails to write must show
        let mut z = vec![77.5f32; x.len()];
        match ep {
            "fast32" => sosfilt_fast32_st(x, s, &mut z),
            "ifast32" | "ifast32_i16" => sosfilt_ifast32_st(&x.iter().map(|v| *v as i16).collect::<Vec<_>>(), s, &mut z),
            "ifast32_i8" => sosfilt_ifast32_st(&x.iter().map(|v| *v as i8).collect::<Vec<_>>(), s, &mut z),
            "ifast32_u8" => sosfilt_ifast32_st(&x.iter().map(|v| *v as u8).collect::<Vec<_>>(), s, &mut z),
            "ifast32_isize" => sosfilt_ifast32_st(&x.iter().map(|v| *v as isize).collect::<Vec<_>>(), s, &mut z),
            "mismatch" => {
                z.push(0.0);
                sosfilt_fast32_st(x, s, &mut z)
            }
            "short_mismatch" => {
                // an output slice that is too short (too long when there is no input)
                if z.pop().is_none() {
                    z.push(0.0);
                }
                sosfilt_fast32_st(x, s, &mut z)
            }
            "imismatch" => {
                z.push(0.0);
                sosfilt_ifast32_st(&x.iter().map(|v| *v as i16).collect::<Vec<_>>(), s, &mut z)
            }
            _ => unreachable!("{ep}"),
        }
        z
    }
}
fn apply<F: Eps>(ep: &str, take: usize, x: &[F], s: &mut [Sos<F>]) -> Vec<F> {
    match ep {
        "dyn_ref" => sosfilt_dyn(x.iter(), s),
        "dyn_val" if take % 2 == 1 => sosfilt_dyn(hinted(x.iter().copied(), take / 2), s),
        "dyn_val" => sosfilt_dyn(x.to_vec(), s),
        "dyn_slice" => sosfilt_dyn(x, s),
        "dyn_rev" => {
            let r: Vec<F> = x.iter().rev().copied().collect();
            sosfilt_dyn(r.iter().rev(), s)
        }
        "st_ref" => sosfilt_st(x.iter(), s).collect(),
        "st_val" if take % 2 == 1 => sosfilt_st(hinted(x.iter().copied(), take / 2), s).collect(),
        "st_val" => sosfilt_st(x.to_vec(), s).collect(),
        "st_take" => sosfilt_st(x.to_vec(), s).take(take).collect(),
        "item" => x.iter().map(|v| sosfilt_item(v, s)).collect(),
        "item_val" => x.iter().map(|v| sosfilt_item(*v, s)).collect(),
        _ => F::special(ep, x, s),
    }
}

pub fn session<F: Eps>(out: &mut Out, c: &[Sec], z: &[[f64; 2]], steps: &[Step]) {
    let mut s = build::<F>(c);
    for (s, z) in s.iter_mut().zip(z) {
        s.zi0 = F::of(z[0]);
        s.zi1 = F::of(z[1]);
    }
    let orig = s.clone();
    out.session("sos", |o| {
        o.put("ty", F::TY).put("coef", &coefs(&s)).put("z", &delays(&s));
        let mut js = Vec::new();
        for st in steps {
            let ints = st.ep.starts_with("ifast") || st.ep.starts_with("im");
            let x: Vec<F> = st.x.iter().map(|v| F::of(if ints { v.round() } else { *v })).collect();
            let ep = st.ep.as_str();
            let before = s.clone();
            let r = Out::observe(|| apply(ep, st.take, &x, &mut s));
            let kept = s.iter().zip(&before).all(|(a, b)| a.zi0.same(b.zi0) && a.zi1.same(b.zi1));
            let same = s.len() == orig.len()
                && s.iter().zip(&orig).all(|(a, b)| (0..3).all(|i| a.b[i].same(b.b[i]) && a.a[i].same(b.a[i])));
            let kind = if ep.ends_with("mismatch") { "mismatch" } else { ep };
            js.push(obj(|j| {
                j.put("ep", kind).put("take", &st.take.min(x.len())).put("x", &x);
                match &r {
                    Ok(y) => j.put("st", "ok").put("y", y),
                    Err(_) => j.put("st", "panic").put("y", &Vec::<f64>::new()),
                };
                j.put("z", &delays(&s)).put("same", &same).put("kept", &kept);
            }));
        }
        o.put("steps", &js);
    });
}

/// What a session is about: how loud it is, and whether a sample that is no number turns up.
#[derive(Clone, Copy)]
pub struct Kind {
    amp: f64,
    broken: bool,
}
fn kind(r: &mut Rng) -> Kind {
    let amp = match r.us(0, 9) {
        0 => 1e-30,
        1 => 1e-20,
        2 => 1e-11,
        3 => 1e-5,
        4 => 1e6,
        5 => *r.pick(&[1e9, 1e12, 1e16]),
        _ => 1.0,
    };
    Kind { amp, broken: r.us(0, 39) == 0 }
}
fn signal(r: &mut Rng, k: Kind, n: usize) -> Vec<f64> {
    let mode = r.us(0, 5);
    let mut x: Vec<f64> = (0..n)
        .map(|i| match mode {
            0 => r.range(-100., 100.),
            1 => r.int(-9, 9) as f64,
            2 => (i == n / 3) as u8 as f64 * 64.0,
            3 => 20.0 + r.range(-1., 1.),
            // silence, then something: what remains of the start must still be there
            4 => if i < 2 || i + 1 == n { 50.0 } else { 0.0 },
            _ => r.range(-1., 1.) * 2f64.powi(-(r.int(0, 40) as i32)),
        })
        .map(|v| v * k.amp)
        .collect();
    if k.broken && n > 0 {
        let i = r.us(0, n - 1);
        x[i] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    }
    x
}
fn init(r: &mut Rng, k: Kind, n: usize) -> Vec<[f64; 2]> {
    let rest = r.us(0, 2) == 0;
    (0..n).map(|_| if rest { [0., 0.] } else { [r.range(-3., 3.) * k.amp, r.range(-3., 3.) * k.amp] }).collect()
}

const EP64: [&str; 9] = ["dyn_ref", "dyn_val", "dyn_slice", "dyn_rev", "st_ref", "st_val", "item", "item_val", "st_take"];
const EP32: [&str; 15] = [
    "dyn_ref", "dyn_val", "dyn_slice", "st_ref", "st_val", "item", "st_take", "fast32", "fast32", "ifast32_i16", "ifast32_i8",
    "ifast32_u8", "ifast32_isize", "mismatch", "short_mismatch",
];

fn step(r: &mut Rng, k: Kind, ep: &str, n: usize) -> Step {
    let x = if ep.starts_with("ifast") {
        // the whole range of the integer type, its ends included
        let (lo, hi) = match ep {
            "ifast32_i8" => (-128, 127),
            "ifast32_u8" => (0, 255),
            "ifast32_isize" => *r.pick(&[(-9, 9), (-70_000, 70_000), (-(1 << 24), 1 << 24), (-(1 << 40), 1 << 40)]),
            _ => (-32768, 32767),
        };
        let small = r.us(0, 2) == 0;
        (0..n)
            .map(|_| match r.us(0, 9) {
                0 => lo as f64,
                1 => hi as f64,
                _ if small => r.int(lo.max(-9), 9) as f64,
                _ => r.int(lo, hi) as f64,
            })
            .collect()
    } else {
        signal(r, k, n)
    };
    Step { ep: ep.into(), take: r.us(0, n), x }
}

/// C01: every entry point, every section count, all length residues, long inputs.
pub fn c01(out: &mut Out, c: &Cfg) {
    let mut r = Rng::new(c.seed, 1);
    let reps = c.pick(1, 4);
    for nsec in (0..=24usize).chain([25, 26, 31, 32, 33, 34, 40, 48, 63, 64, 65, 70, 100]) {
        for rep in 0..reps {
            let mut lens: Vec<usize> = vec![4 * r.us(0, 3), 4 * r.us(1, 3) + 1, 4 * r.us(0, 3) + 2, 4 * r.us(0, 3) + 3];
            if nsec > 24 {
                lens = vec![r.us(5, 11), 4 * r.us(1, 3)];
            } else if rep == 0 {
                lens.extend([0, 1, 4]);
            }
            for &n in &lens {
                for ep in EP64 {
                    let k = kind(&mut r);
                    let (cs, z) = (cascade(&mut r, nsec, n <= 8 && nsec <= 4), init(&mut r, k, nsec));
                    let st = [step(&mut r, k, ep, n)];
                    session::<f64>(out, &cs, &z, &st);
                }
                for ep in EP32 {
                    let k = kind(&mut r);
                    let (cs, z) = (cascade(&mut r, nsec, n <= 8 && nsec <= 4), init(&mut r, k, nsec));
                    let st = [step(&mut r, k, ep, n)];
                    session::<f32>(out, &cs, &z, &st);
                }
            }
        }
    }
    // the integer path over the whole width of its type
    for nsec in 0..=12usize {
        for n in [4usize, 5, 8, 11] {
            for top in [40, 62] {
                let k = kind(&mut r);
                let (cs, z) = (cascade(&mut r, nsec, false), init(&mut r, k, nsec));
                let x = (0..n).map(|_| r.range(-1.0, 1.0) * 2f64.powi(r.int(20, top) as i32)).map(|v| v.round()).collect();
                session::<f32>(out, &cs, &z, &[Step { ep: "ifast32_isize".into(), take: n, x }]);
            }
        }
    }
    // hardly audible and deafening signals, towards the ends of the type's range
    for nsec in 0..=21usize {
        for amp in [1e-60, 1e-100, 1e-200, 1e-290, 1e-306, 1e60, 1e150, 1e290] {
            let k = Kind { amp, broken: false };
            let n = r.us(3, 14);
            let ep = *r.pick(&EP64);
            let (cs, z) = (cascade(&mut r, nsec, nsec <= 4), init(&mut r, k, nsec));
            let st = [step(&mut r, k, ep, n)];
            session::<f64>(out, &cs, &z, &st);
        }
        for amp in [1e-33, 1e-37, 1e-41, 1e20, 1e26, 1e33] {
            let k = Kind { amp, broken: false };
            let n = r.us(3, 14);
            let ep = *r.pick(&EP32[..9]);
            let (cs, z) = (cascade(&mut r, nsec, nsec <= 4), init(&mut r, k, nsec));
            let st = [step(&mut r, k, ep, n)];
            session::<f32>(out, &cs, &z, &st);
        }
    }
    // long runs: a defect that shows only late in a long input
    let long = c.pick(vec![(1, 70_001), (1, 1025), (2, 2000), (4, 513), (3, 4099), (5, 1100), (6, 520), (8, 1028), (10, 260), (12, 600), (14, 130), (16, 131), (18, 132), (20, 300)], vec![(1, 140_003), (4, 17_001), (2, 8193), (4, 4096), (3, 4099), (6, 5000), (8, 3001), (10, 2600), (12, 2049), (20, 1500)]);
    for (nsec, n) in long {
        for ep in ["dyn_ref", "st_val", "item"] {
            let k = kind(&mut r);
            let cs = cascade(&mut r, nsec, false);
            let z = init(&mut r, k, nsec);
            let st = [step(&mut r, k, ep, n)];
            session::<f64>(out, &cs, &z, &st);
        }
        for ep in ["fast32", "ifast32_i16", "dyn_val"] {
            let k = kind(&mut r);
            let cs = cascade(&mut r, nsec, false);
            let z = init(&mut r, k, nsec);
            let m = n - n % 4;
            let n = if r.bool() { m } else { n };
            let st = [step(&mut r, k, ep, n)];
            session::<f32>(out, &cs, &z, &st);
        }
    }
}

/// C02: scripts generated by the specification (GenSos), then random histories of chunks.
pub fn c02(out: &mut Out, c: &Cfg) {
    let mut r = Rng::new(c.seed, 2);
    for case in c.cases() {
        let f32_ = case["ty"] == "f32";
        let nsec = *r.pick(&[0, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 10, 12, 13]);
        let k = kind(&mut r);
        let cs = cascade(&mut r, nsec, nsec <= 3);
        let z = init(&mut r, k, nsec);
        let steps: Vec<Step> = case["script"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| {
                let n = s[1].as_u64().unwrap() as usize;
                step(&mut r, k, s[0].as_str().unwrap(), n)
            })
            .collect();
        if f32_ {
            session::<f32>(out, &cs, &z, &steps)
        } else {
            session::<f64>(out, &cs, &z, &steps)
        }
    }
    for i in 0..c.pick(400, 3000) {
        let nsec = if i % 28 < 26 { i % 28 } else { r.us(26, 70) };
        let k = kind(&mut r);
        let cs = cascade(&mut r, nsec, false);
        let z = init(&mut r, k, nsec);
        let len = r.us(3, c.pick(20, 60));
        let f32_ = r.bool();
        let steps: Vec<Step> = (0..len)
            .map(|_| {
                let ep = if f32_ { *r.pick(&EP32) } else { *r.pick(&EP64) };
                let n = *r.pick(&[0, 1, 1, 2, 3, 4, 4, 5, 7, 8, 8, 12, 16, 17, 23]);
                step(&mut r, k, ep, n)
            })
            .collect();
        if f32_ {
            session::<f32>(out, &cs, &z, &steps)
        } else {
            session::<f64>(out, &cs, &z, &steps)
        }
    }
}

fn import<F: Fl>(out: &mut Out, order: usize, flat: &[f64]) {
    let flat: Vec<F> = vof(flat);
    let given = flat.clone();
    out.call_then(
        "import",
        |o| {
            o.put("ty", F::TY).put("order", &cap(order)).put("flat", &given);
        },
        || Sos::from_scipy_dyn(order, flat),
        |o, s| {
            o.put("res", &coefs(&s)).put("delay", &delays(&s));
        },
    );
}

/// Coefficient lists of every length around the declared one.
pub fn c29(out: &mut Out, c: &Cfg) {
    let mut r = Rng::new(c.seed, 29);
    for order in 0..=c.pick(6usize, 12) {
        for len in 0..=c.pick(45usize, 80) {
            let flat: Vec<f64> = (0..len).map(|i| i as f64 + 0.5).collect();
            import::<f64>(out, order, &flat);
            import::<f32>(out, order, &flat);
        }
    }
    for order in WRAPPING {
        for len in (0..=13).chain([order.wrapping_mul(6) % 600]) {
            let flat: Vec<f64> = (0..len).map(|i| i as f64 + 0.5).collect();
            import::<f64>(out, order, &flat);
        }
    }
    for order in [63usize, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 2049] {
        for len in [order * 6, order * 6 + 1, order * 6 - 6] {
            let flat: Vec<f64> = (0..len).map(|i| i as f64 + 0.5).collect();
            import::<f32>(out, order, &flat);
        }
    }
    for _ in 0..c.pick(200, 3000) {
        let order = r.us(0, c.pick(20, 60));
        let odd = r.us(0, 2);
        let flat: Vec<f64> = (0..order * 6)
            .map(|_| match (odd, r.us(0, 9)) {
                (0, _) | (1, 3..) => r.range(-1e3, 1e3),
                _ => *r.pick(&[0.0, -0.0, 1.0, 1.0, -1.0, f64::NAN, f64::INFINITY, 1e-40, 1e-17, 3e30, 2.0]),
            })
            .collect();
        import::<f64>(out, order, &flat);
        import::<f32>(out, order, &flat);
    }
    for _ in 0..50 {
        let v: Vec<f64> = (0..6).map(|_| r.range(-9., 9.)).collect();
        let (b, a) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
        out.call_then(
            "new",
            |o| {
                o.put("ty", "f64").put("flat", &v);
            },
            || Sos::new(b, a),
            |o, s| {
                o.put("res", &coefs(&[s])).put("delay", &delays(&[s]));
            },
        );
    }
    out.call_then(
        "default",
        |o| {
            o.put("ty", "f64");
        },
        || Sos::<f64>::default(),
        |o, s| {
            o.put("res", &coefs(&[s])).put("delay", &delays(&[s]));
        },
    );
}
