//! Lazy operations between a recording source and every kind of consumer (C34).
use crate::fl::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::Cfg;
use sci_rs::signal::filter::design::Sos;
use sci_rs::signal::filter::*;
use sci_rs::stats::*;
use std::cell::{Cell, RefCell};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const FAR: usize = 536870912;
type Log = Rc<RefCell<Vec<(&'static str, i32, i32)>>>;

/// A source of samples that records who reads what, when.
struct Src<'a, F> {
    xs: &'a [F],
    n: Option<usize>,
    fault: usize,
    hint: usize,
    me: usize,
    at: usize,
    handles: Rc<Cell<usize>>,
    log: Log,
}
impl<'a, F> Src<'a, F> {
    fn new(xs: &'a [F], n: Option<usize>, fault: usize, hint: usize, log: &Log) -> Self {
        Src { xs, n, fault, hint, me: 1, at: 0, handles: Rc::new(Cell::new(1)), log: log.clone() }
    }
    fn say(&self, what: &'static str, v: usize) {
        self.log.borrow_mut().push((what, self.me as i32, v as i32));
    }
}
impl<F> Clone for Src<'_, F> {
    fn clone(&self) -> Self {
        let me = self.handles.get() + 1;
        self.handles.set(me);
        self.say("clone", me);
        Src { me, handles: self.handles.clone(), log: self.log.clone(), ..*self }
    }
}
impl<'a, F> Iterator for Src<'a, F> {
    type Item = &'a F;
    fn next(&mut self) -> Option<&'a F> {
        if self.n == Some(self.at) {
            self.say("end", 0);
            return None;
        }
        if self.at + 1 == self.fault {
            self.say("boom", self.fault);
            panic!("the source fails");
        }
        self.at += 1;
        self.say("pull", self.at);
        Some(&self.xs[(self.at - 1) % self.xs.len()])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.n {
            None => ([0, usize::MAX, 5][self.hint % 3], None),
            Some(n) => {
                let k = n - self.at;
                [(k, Some(k)), (0, None), (k, None), (0, Some(k)), (k / 2, Some(k + 3)), (0, Some(usize::MAX)), (k, Some(usize::MAX))][self.hint % 7]
            }
        }
    }
}

/// What the consumer does with the iterator; `token` names an answer.
fn consume<F: Fl>(r: &mut Rng, it: impl Iterator<Item = F>, endless: bool, log: &Log, token: impl Fn(usize, F) -> i32) {
    let mut it = it;
    let mut out = 0; // answers taken or skipped
    let say = |w: &'static str, a: i32| log.borrow_mut().push((w, a, 0));
    let cap = |v: usize| v.min(FAR) as i32;
    for _ in 0..r.us(0, 14) {
        if r.us(0, 2) > 0 {
            let (lo, hi) = it.size_hint();
            log.borrow_mut().push(("hint", cap(lo), hi.map_or(-1, cap)));
        }
        if !endless && r.us(0, 11) == 0 {
            say("rest", 0);
            for v in it.by_ref() {
                say("yield", token(out, v));
                out += 1;
            }
            say("over", 0);
            continue;
        }
        let j = *r.pick(&[0usize, 0, 0, 0, 0, 1, 2, 5, 17]);
        say("ask", j as i32);
        let v = if j == 0 && r.bool() { it.next() } else { it.nth(j) };
        match v {
            Some(v) => {
                say("yield", token(out + j, v));
                out += j + 1;
            }
            None => {
                say("none", 0);
                // nothing more is to come: the position no longer matters
                out = usize::MAX / 2;
            }
        }
    }
    if endless {
        return;
    }
    match r.us(0, 4) {
        0 => {
            say("rest", 0);
            it.for_each(|v| {
                say("yield", token(out, v));
                out += 1;
            });
            say("over", 0);
        }
        1 => {
            say("count", 0);
            let k = it.count();
            say("counted", cap(k));
        }
        2 => {
            say("count", 0);
            let mut k = 0;
            it.fold((), |_, v| {
                black_box(v);
                k += 1;
            });
            say("counted", k);
        }
        _ => {}
    }
}

fn int<F: Fl>(v: F) -> i32 {
    let v = v.f();
    if v == v.trunc() && v.abs() < FAR as f64 {
        v as i32
    } else {
        i32::MAX
    }
}

fn session<F: Fl>(out: &mut Out, r: &mut Rng) {
    let op = *r.pick(&["sosfilt_st", "sosfilt_st", "sosfilt_st", "lag_diff", "lag_diff", "zscore", "mod_zscore", "sosfilt_dyn"]);
    let kind = match op {
        "sosfilt_st" => "filter",
        "sosfilt_dyn" => "collected",
        "lag_diff" => "differences",
        _ => "scores",
    };
    let endless = matches!(kind, "filter" | "differences") && r.us(0, 4) == 0;
    let nsec = if matches!(kind, "filter" | "collected") { *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 20, 24]) } else { 0 };
    let n = match r.us(0, 9) {
        0 => r.us(0, 3),
        1 => r.us(25, 90),
        _ => r.us(1, 24),
    };
    // what integers of the sample type hold exactly: at most three sections do more than shift or flip
    let live: Vec<usize> = (0..3).map(|_| r.us(0, nsec.max(1))).collect();
    let recursive = n < 25;
    let secs: Vec<[i32; 7]> = (0..nsec)
        .map(|k| {
            let (b, a) = if live.contains(&k) {
                let b = [r.us(0, 2) as i32 - 1, r.us(0, 2) as i32 - 1, r.us(0, 2) as i32 - 1];
                (if b == [0; 3] { [1, 0, 0] } else { b }, if recursive { *r.pick(&[[0, 0], [-1, 0], [1, 0], [0, -1], [0, 1], [1, 1], [-1, 1]]) } else { [0, 0] })
            } else {
                (*r.pick(&[[1, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, 0, 1]]), [0, 0])
            };
            [b[0], b[1], b[2], a[0], a[1], r.us(0, 4) as i32 - 2, r.us(0, 4) as i32 - 2]
        })
        .collect();
    let mut sos: Vec<Sos<F>> = secs
        .iter()
        .map(|s| {
            let f = |i: usize| F::of(s[i] as f64);
            let mut q = Sos::new([f(0), f(1), f(2)], [F::of(1.0), f(3), f(4)]);
            (q.zi0, q.zi1) = (f(5), f(6));
            q
        })
        .collect();
    let flat = r.us(0, 12) == 0;
    let xs: Vec<i32> = (0..if endless { r.us(1, 9) } else { n }).map(|_| if flat { 2 } else { r.us(0, 8) as i32 - 4 }).collect();
    let data: Vec<F> = xs.iter().map(|v| F::of(*v as f64)).collect();
    let len = if endless { None } else { Some(n) };
    let fault = if r.us(0, 3) == 0 { r.us(1, n + 1) } else { 0 };
    let fault = if endless || fault <= n { fault } else { 0 };
    let (hint, by_val) = (r.us(0, 21), r.bool());
    let scores: Vec<F> = match op {
        "zscore" => zscore(data.iter()).collect(),
        "mod_zscore" => mod_zscore(data.iter()).collect(),
        _ => vec![],
    };
    let log: Log = Default::default();
    out.session(op, |o| {
        o.put("ty", F::TY).put("kind", kind).put("n", &len.map_or(-1, |n| n as i32)).put("fault", &fault).put("xs", &xs).put("secs", &secs).put("by", if by_val { "value" } else { "reference" }).put("hints", &hint);
        let src = Src::new(&data, len, fault, hint, &log);
        let value = |_: usize, v: F| int(v);
        let score = |k: usize, v: F| scores.get(k).is_some_and(|s| s.same(v)).then_some(k as i32 + 1).unwrap_or(-1);
        macro_rules! go {
            ($it:expr, $token:expr) => {{
                let it = $it;
                log.borrow_mut().push(("called", 0, 0));
                consume(r, it, endless, &log, $token)
            }};
        }
        let res = catch_unwind(AssertUnwindSafe(|| match op {
            "sosfilt_st" if by_val => go!(sosfilt_st(src.copied(), &mut sos), value),
            "sosfilt_st" => go!(sosfilt_st(src, &mut sos), value),
            "sosfilt_dyn" => {
                let y = if by_val { sosfilt_dyn(src.copied(), &mut sos) } else { sosfilt_dyn(src, &mut sos) };
                go!(y.into_iter(), value)
            }
            "lag_diff" if by_val => go!(lag_diff::<_, F>(src.copied()), value),
            "lag_diff" => go!(lag_diff::<_, F>(src), value),
            "zscore" if by_val => go!(zscore::<_, F>(src.copied()), score),
            "zscore" => go!(zscore::<_, F>(src), score),
            "mod_zscore" if by_val => go!(mod_zscore::<_, F>(src.copied()), score),
            _ => go!(mod_zscore::<_, F>(src), score),
        }));
        if res.is_err() {
            log.borrow_mut().push(("panic", 0, 0));
        }
        o.put("ev", &*log.borrow());
        o.put("mem", &sos.iter().map(|s| [int(s.zi0), int(s.zi1)]).collect::<Vec<_>>());
        o.put("st", if res.is_ok() { "ok" } else { "panic" });
    });
}

pub fn c34(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 34);
    for _ in 0..c.pick(6000, 20_000) {
        session::<f64>(out, r);
        session::<f32>(out, r);
    }
}
