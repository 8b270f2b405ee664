//! f32 / f64 with everything the library's bounds ask for.
use crate::j::ToJ;
use sci_rs::na::RealField;
use std::iter::Sum;

pub trait Fl: RealField + num_traits::Float + Copy + Sum + Default + ToJ + 'static {
    const TY: &'static str;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn same(self, o: Self) -> bool;
}
impl Fl for f64 {
    const TY: &'static str = "f64";
    fn of(v: f64) -> Self {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn same(self, o: Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Fl for f32 {
    const TY: &'static str = "f32";
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn same(self, o: Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
pub fn vof<F: Fl>(v: &[f64]) -> Vec<F> {
    v.iter().map(|x| F::of(*x)).collect()
}

/// A sequence that says little about its length: every hint is one the iterator contract allows.
#[derive(Clone)]
pub struct Hinted<I> {
    it: I,
    kind: usize,
}
pub const HINTS: usize = 7;
pub fn hinted<I: ExactSizeIterator + Clone>(it: I, kind: usize) -> Hinted<I> {
    Hinted { it, kind: kind % HINTS }
}
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (0, Some(usize::MAX)),
            4 => (n / 2, None),
            5 => (n, Some(2 * n + 9)),
            _ => (n.min(1), Some(n + 1)),
        }
    }
}

/// Numbers whose small multiples, or sums with small numbers, are small again when they wrap around.
pub const WRAPPING: [usize; 10] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX / 2 + 1,
    usize::MAX / 2 + 3,
    usize::MAX / 3 + 1,
    usize::MAX / 3 + 4,
    usize::MAX / 6 + 1,
    (usize::MAX / 3).div_ceil(2) + 1,
    1 << 63,
    1 << 32,
];
/// Numbers beyond this are all alike to the specification: larger than anything else in a call.
pub fn cap(n: usize) -> usize {
    n.min(10_000_000)
}
