//! JSON encoding of values exchanged with the specification.
//!
//! Floats (and wide integers) are written as the exact base-2^15 numbers of `spec/lib/Dyadic.tla`:
//! `[s, q, l1, .., ln]` = s * sum l_i * 2^(15 (q + i - 1)); `[0,0]` is zero, `[2]` NaN or infinite.

use sci_rs::na::Complex;
use std::fmt::Write;

pub trait ToJ {
    fn j(&self, o: &mut String);
}

/// sign, magnitude m and binary exponent e: value = s * m * 2^e
fn put(o: &mut String, neg: bool, mut m: u128, mut e: i32) {
    if m == 0 {
        o.push_str("[0,0]");
        return;
    }
    let tz = m.trailing_zeros();
    m >>= tz;
    e += tz as i32;
    let q = e.div_euclid(15);
    let r = e.rem_euclid(15);
    write!(o, "[{},{}", if neg { -1 } else { 1 }, q).unwrap();
    // low limb first: m << r may exceed 128 bits, so peel the first limb by hand
    let first = ((m << r) & 32767) as u32;
    write!(o, ",{first}").unwrap();
    let mut rest = m >> (15 - r);
    while rest != 0 {
        write!(o, ",{}", rest & 32767).unwrap();
        rest >>= 15;
    }
    o.push(']');
}

pub fn put_f64(o: &mut String, v: f64) {
    if !v.is_finite() {
        o.push_str("[2]");
        return;
    }
    let bits = v.to_bits();
    let ex = ((bits >> 52) & 0x7ff) as i32;
    let fr = bits & ((1 << 52) - 1);
    let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    put(o, v < 0.0, m as u128, e);
}

impl ToJ for f64 {
    fn j(&self, o: &mut String) {
        put_f64(o, *self)
    }
}
impl ToJ for f32 {
    fn j(&self, o: &mut String) {
        put_f64(o, *self as f64)
    }
}
/// An integer of any width as an exact number of the specification.
pub struct Big(pub bool, pub u128);
impl ToJ for Big {
    fn j(&self, o: &mut String) {
        put(o, self.0, self.1, 0)
    }
}
macro_rules! small {
    ($($t:ty)*) => {$(impl ToJ for $t { fn j(&self, o: &mut String) { write!(o, "{}", self).unwrap(); } })*}
}
small! {usize i32 u32 u8 i8 u16 i16 bool}
impl ToJ for str {
    fn j(&self, o: &mut String) {
        o.push_str(&serde_json::to_string(self).unwrap());
    }
}
impl ToJ for String {
    fn j(&self, o: &mut String) {
        self.as_str().j(o)
    }
}
impl<T: ToJ> ToJ for [T] {
    fn j(&self, o: &mut String) {
        o.push('[');
        for (i, v) in self.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            v.j(o);
        }
        o.push(']');
    }
}
impl<T: ToJ> ToJ for Vec<T> {
    fn j(&self, o: &mut String) {
        self.as_slice().j(o)
    }
}
impl<T: ToJ, const N: usize> ToJ for [T; N] {
    fn j(&self, o: &mut String) {
        self.as_slice().j(o)
    }
}
impl<T: ToJ + ?Sized> ToJ for &T {
    fn j(&self, o: &mut String) {
        (*self).j(o)
    }
}
impl<T: ToJ> ToJ for Complex<T> {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.re.j(o);
        o.push(',');
        self.im.j(o);
        o.push(']');
    }
}
impl<A: ToJ, B: ToJ> ToJ for (A, B) {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.0.j(o);
        o.push(',');
        self.1.j(o);
        o.push(']');
    }
}
impl<A: ToJ, B: ToJ, C: ToJ> ToJ for (A, B, C) {
    fn j(&self, o: &mut String) {
        o.push('[');
        self.0.j(o);
        o.push(',');
        self.1.j(o);
        o.push(',');
        self.2.j(o);
        o.push(']');
    }
}
/// Already encoded.
pub struct Raw(pub String);
impl ToJ for Raw {
    fn j(&self, o: &mut String) {
        o.push_str(&self.0)
    }
}
/// A JSON object under construction.
pub struct Obj(pub String);
impl Obj {
    pub fn new() -> Self {
        Obj(String::from("{"))
    }
    pub fn put<T: ToJ + ?Sized>(&mut self, k: &str, v: &T) -> &mut Self {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        write!(self.0, "\"{k}\":").unwrap();
        v.j(&mut self.0);
        self
    }
    pub fn end(mut self) -> Raw {
        self.0.push('}');
        Raw(self.0)
    }
}
pub fn obj(f: impl FnOnce(&mut Obj)) -> Raw {
    let mut o = Obj::new();
    f(&mut o);
    o.end()
}
