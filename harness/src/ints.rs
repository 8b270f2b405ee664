//! Factorials and combinatorics on every primitive integer type.
use crate::j::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::Cfg;
use sci_rs::special::{Combinatoric, Factorial};

pub trait Prim: Copy + Factorial + Combinatoric + 'static {
    const TY: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    fn of(v: i128) -> Option<Self>;
    fn ofu(v: u128) -> Option<Self>;
    fn big(self) -> Big;
}
macro_rules! prim {
    ($($t:ident $s:expr;)*) => {$(impl Prim for $t {
        const TY: &'static str = stringify!($t);
        const BITS: u32 = $t::BITS;
        const SIGNED: bool = $s;
        fn of(v: i128) -> Option<Self> { $t::try_from(v).ok() }
        fn ofu(v: u128) -> Option<Self> { $t::try_from(v).ok() }
        #[allow(unused_comparisons)]
        fn big(self) -> Big { if self < 0 { Big(true, (self as i128).unsigned_abs()) } else { Big(false, self as u128) } }
    })*}
}
prim! {u8 false; u16 false; u32 false; u64 false; u128 false; usize false; i8 true; i16 true; i32 true; i64 true; i128 true; isize true;}

fn max<T: Prim>() -> u128 {
    let b = if T::SIGNED { T::BITS - 1 } else { T::BITS };
    if b == 128 {
        u128::MAX
    } else {
        (1u128 << b) - 1
    }
}

/// <<1, value>> or <<0>>
struct Ans<T>(Option<T>);
impl<T: Prim> ToJ for Ans<T> {
    fn j(&self, o: &mut String) {
        match self.0 {
            Some(v) => {
                o.push_str("[1,");
                v.big().j(o);
                o.push(']');
            }
            None => o.push_str("[0]"),
        }
    }
}

fn row<T: Prim>(out: &mut Out, op: &str, n: Option<T>, ks: &[T], f: impl Fn(T) -> T) {
    let bigs: Vec<Big> = ks.iter().map(|k| k.big()).collect();
    out.call(
        op,
        |o| {
            o.put("ty", T::TY).put("ks", &bigs);
            if let Some(n) = n {
                o.put("n", &n.big());
            }
        },
        || ks.iter().map(|k| Ans(if endless(op, n.map(|n| n.big()), k.big()) { None } else { Out::observe(|| f(*k)).ok() })).collect::<Vec<_>>(),
    );
}

/// far more factors than any type can hold: without overflow checks such a call only spins
fn endless(op: &str, n: Option<Big>, k: Big) -> bool {
    const LIM: u128 = 100_000;
    let n = match n {
        None => return !k.0 && k.1 > LIM,
        Some(n) => n,
    };
    if n.0 || k.0 || k.1 == 0 {
        return false;
    }
    match op {
        "factorialk" => n.1 / k.1 > LIM,
        "perm" => k.1 <= n.1 && k.1 > LIM,
        "comb" => k.1 <= n.1 && k.1.min(n.1 - k.1) > LIM,
        _ => n.1 > 0 && k.1.min(n.1 - 1) > LIM,
    }
}

/// interesting values of the type: all small ones, and those around powers of two and the limits
fn grid<T: Prim>(r: &mut Rng, small: i128, extra: usize) -> Vec<T> {
    let mut v: Vec<T> = (-3..=small).filter_map(T::of).collect();
    for b in [7u32, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127] {
        for d in -1i128..=1 {
            if b < 127 {
                v.extend(T::of((1i128 << b) + d));
            }
        }
    }
    for d in 0..3 {
        v.extend(T::ofu(max::<T>() - d));
    }
    if T::SIGNED {
        v.extend(T::of(-((max::<T>() / 2) as i128)));
        v.extend(T::of(-(max::<T>() as i128) - 1));
    }
    for _ in 0..extra {
        let bits = r.us(1, T::BITS as usize - 1) as u32;
        let x = ((r.next() as u128) << 64 | r.next() as u128) >> (128 - bits);
        v.extend(T::ofu(x));
    }
    v
}

fn fact<T: Prim>(out: &mut Out, r: &mut Rng, c: &Cfg) {
    let ns: Vec<T> = grid(r, 60, 4);
    row(out, "factorial", None, &ns, |n| n.factorial());
    row(out, "factorial2", None, &ns, |n| n.factorial2());
    if T::BITS == 8 {
        // the whole type
        let all: Vec<T> = (-128..256).filter_map(T::of).collect();
        row(out, "factorial", None, &all, |n| n.factorial());
        row(out, "factorial2", None, &all, |n| n.factorial2());
        for n in &all {
            let n = *n;
            row(out, "factorialk", Some(n), &all, |k| n.factorialk(k));
        }
    } else {
        for n in grid::<T>(r, c.pick(45, 120), c.pick(10, 200)) {
            // k large enough that the product has a bounded number of factors
            let mut ks: Vec<T> = grid(r, c.pick(50, 130), 6);
            let nb = n.big();
            if !nb.0 {
                for d in [1u128, 2, 3, 4, 5] {
                    for e in 0..3u128 {
                        ks.extend(T::ofu((nb.1 / d).saturating_sub(1).saturating_add(e)));
                    }
                }
            }
            ks.retain(|k| k.big().0 || k.big().1 == 0 || nb.0 || nb.1 / k.big().1 < 200 || k.big().1 > 1);
            row(out, "factorialk", Some(n), &ks, |k| n.factorialk(k));
        }
    }
}

fn comb<T: Prim>(out: &mut Out, r: &mut Rng, c: &Cfg) {
    let (ns, ks): (Vec<T>, Vec<T>) = if T::BITS == 8 {
        let all: Vec<T> = (-128..256).filter_map(T::of).collect();
        (all.clone(), all)
    } else {
        (grid(r, c.pick(72, 140), c.pick(8, 100)), grid(r, c.pick(74, 142), 0))
    };
    for n in ns {
        let mut ks = ks.clone();
        let nb = n.big();
        if !nb.0 && T::BITS > 8 {
            for d in 0..6u128 {
                ks.extend(nb.1.checked_sub(d).and_then(T::ofu));
            }
        }
        row(out, "comb", Some(n), &ks, |k| n.comb(k));
        row(out, "perm", Some(n), &ks, |k| n.perm(k));
        row(out, "comb_rep", Some(n), &ks, |k| n.comb_rep(k));
    }
    // Stirling numbers: the code recurses over the whole triangle, so n stays small unless k does
    let mut pairs: Vec<(i32, i32)> = Vec::new();
    for n in -2..=c.pick(15, 19) {
        for k in -2..=c.pick(17, 21) {
            pairs.push((n, k));
        }
    }
    for n in 16..(T::BITS as i32).min(100) {
        for k in [0, 1, 2, n - 1, n, n + 1, 127] {
            pairs.push((n, k));
        }
    }
    for n in 16..35 {
        pairs.push((n, 3));
        pairs.push((n, n - 2));
    }
    let mut by_n: std::collections::BTreeMap<i32, Vec<i32>> = Default::default();
    for (n, k) in pairs {
        if T::of(n as i128).is_some() && T::of(k as i128).is_some() {
            by_n.entry(n).or_default().push(k);
        }
    }
    for (n, ks) in by_n {
        let nn = T::of(n as i128).unwrap();
        out.call(
            "stirling2",
            |o| {
                let none: [usize; 0] = [];
                o.put("ty", T::TY).put("ni", &n).put("ki", &ks).put("ks", &vec![0usize; ks.len()]).put("none", &none);
            },
            || ks.iter().map(|k| Ans(Out::observe(|| nn.stirling2(T::of(*k as i128).unwrap())).ok())).collect::<Vec<_>>(),
        );
    }
}

macro_rules! all_types { ($f:ident, $($a:expr),*) => {
    $f::<u8>($($a),*); $f::<u16>($($a),*); $f::<u32>($($a),*); $f::<u64>($($a),*); $f::<u128>($($a),*); $f::<usize>($($a),*);
    $f::<i8>($($a),*); $f::<i16>($($a),*); $f::<i32>($($a),*); $f::<i64>($($a),*); $f::<i128>($($a),*); $f::<isize>($($a),*);
} }
pub fn c22(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 22);
    all_types!(fact, out, r, c);
}
pub fn c23(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 23);
    all_types!(comb, out, r, c);
}
