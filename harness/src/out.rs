//! Recording: every call of the code under test becomes one line of the trace.

use crate::j::*;
use std::fs::File;
use std::io::{BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

static W: OnceLock<Mutex<BufWriter<File>>> = OnceLock::new();
static STARTED: AtomicU64 = AtomicU64::new(0); // ms since start, 0 = idle
static CURRENT: Mutex<String> = Mutex::new(String::new());
static T0: OnceLock<Instant> = OnceLock::new();
const LIMIT_MS: u64 = 40_000;

pub struct Out {
    cur: File,
    pub n: usize,
}

fn now() -> u64 {
    T0.get().unwrap().elapsed().as_millis() as u64 + 1
}

/// Within a session of many calls: another one begins.
pub fn tick() {
    STARTED.store(now(), Ordering::SeqCst);
}

impl Out {
    pub fn create(path: &str) -> Self {
        T0.set(Instant::now()).unwrap();
        W.set(Mutex::new(BufWriter::with_capacity(1 << 20, File::create(path).unwrap()))).ok().unwrap();
        std::panic::set_hook(Box::new(|_| {}));
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(250));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && now() > s + LIMIT_MS {
                // the call under test does not come back: that is an observation, not an error
                let mut c = CURRENT.lock().unwrap().clone();
                c.push_str(",\"st\":\"hang\",\"res\":[]}");
                let mut w = W.get().unwrap().lock().unwrap();
                writeln!(w, "{c}").unwrap();
                w.flush().unwrap();
                std::process::exit(0);
            }
        });
        Out { cur: File::create(format!("{path}.cur")).unwrap(), n: 0 }
    }

    /// Run `f`, observing a panic as an outcome.
    pub fn observe<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        })
    }

    /// One event: arguments, then status and result of the call.
    pub fn call<R: ToJ>(&mut self, op: &str, args: impl FnOnce(&mut Obj), f: impl FnOnce() -> R) {
        self.call_then(op, args, f, |o, r| {
            o.put("res", &r);
        })
    }

    pub fn call_then<R>(
        &mut self,
        op: &str,
        args: impl FnOnce(&mut Obj),
        f: impl FnOnce() -> R,
        res: impl FnOnce(&mut Obj, R),
    ) {
        let mut o = Obj::new();
        self.n += 1;
        o.put("id", &self.n).put("op", op);
        args(&mut o);
        self.begin(&o);
        let r = Self::observe(f);
        STARTED.store(0, Ordering::SeqCst);
        match r {
            Ok(r) => {
                o.put("st", "ok");
                res(&mut o, r);
            }
            Err(m) => {
                let none: [usize; 0] = [];
                o.put("st", "panic").put("res", &none).put("msg", &m);
            }
        }
        self.write(o);
    }

    fn begin(&mut self, o: &Obj) {
        *CURRENT.lock().unwrap() = o.0.clone();
        self.cur.seek(SeekFrom::Start(0)).unwrap();
        let head: String = o.0.chars().take(4000).collect();
        self.cur.write_all(format!("{} {}\n", self.n, head).as_bytes()).unwrap();
        STARTED.store(now(), Ordering::SeqCst);
    }

    /// A session: `f` fills the object itself (it observes panics per step).
    pub fn session(&mut self, op: &str, f: impl FnOnce(&mut Obj)) {
        let mut o = Obj::new();
        self.n += 1;
        o.put("id", &self.n).put("op", op);
        self.begin(&o);
        f(&mut o);
        STARTED.store(0, Ordering::SeqCst);
        self.write(o);
    }

    /// which driver's events follow
    pub fn mark(&mut self, driver: &str, pass: usize) {
        let mut o = Obj::new();
        o.put("mark", driver).put("pass", &pass);
        self.write(o);
    }

    fn write(&mut self, o: Obj) {
        let mut w = W.get().unwrap().lock().unwrap();
        writeln!(w, "{}", o.end().0).unwrap();
    }

    pub fn finish(self) {
        W.get().unwrap().lock().unwrap().flush().unwrap();
    }
}
