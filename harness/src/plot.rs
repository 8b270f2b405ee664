//! The plotting helper, run in a process of its own against stand-in interpreters.
use crate::j::*;
use crate::out::Out;
use crate::rng::Rng;
use crate::Cfg;
use std::fs;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const STANDIN: &str = include_str!("standin.py");

fn find(name: &str) -> PathBuf {
    std::env::split_paths(&std::env::var_os("PATH").unwrap()).map(|d| d.join(name)).find(|p| p.exists()).expect("python3 on PATH")
}
fn note(log: &Path, what: &str) {
    let mut f = fs::OpenOptions::new().append(true).create(true).open(log).unwrap();
    f.write_all(format!("{what}\n").as_bytes()).unwrap();
}

/// The process under observation: plot the signals of a file, and say when the helper came back.
pub fn one(dir: &str) {
    let dir = Path::new(dir);
    let text = fs::read_to_string(dir.join("xs")).unwrap();
    let xs: Vec<Vec<f32>> =
        text.lines().map(|l| l.split_whitespace().map(|w| f32::from_bits(w.parse().unwrap())).collect()).collect();
    let r = std::panic::catch_unwind(|| sci_rs::plot::python_plot(xs.iter().map(|x| x.as_slice()).collect()));
    note(&dir.join("log"), if r.is_ok() { "return" } else { "panic" });
}

struct P(Vec<Vec<Vec<f64>>>);
impl ToJ for P {
    fn j(&self, o: &mut String) {
        self.0.j(o)
    }
}

fn case(out: &mut Out, n: usize, policy: &str, patience: usize, xs: &[Vec<f32>]) {
    let dir = PathBuf::from(std::env::var("SCRATCH").unwrap()).join(format!("plot{n}"));
    let bin = dir.join("bin");
    fs::create_dir_all(&bin).unwrap();
    let dir = dir.canonicalize().unwrap();
    let text: String = xs.iter().map(|x| x.iter().map(|v| v.to_bits().to_string()).collect::<Vec<_>>().join(" ") + "\n").collect();
    fs::write(dir.join("xs"), text).unwrap();
    if policy != "absent" {
        let p = bin.join("python");
        let head = format!("#!{} -IS\nPOLICY = {policy:?}\nDIR = {dir:?}\nPATIENCE = {patience}\n", find("python3").display());
        fs::write(&p, head + STANDIN).unwrap();
        fs::set_permissions(&p, fs::Permissions::from_mode(if policy == "noexec" { 0o644 } else { 0o755 })).unwrap();
    }
    let mut st = "ok";
    let mut leaked = 0;
    let mut events: Vec<String> = vec![];
    out.session("plot", |o| {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["plot-one", dir.to_str().unwrap()])
            .env("PATH", &bin)
            .stdin(Stdio::null())
            .stdout(fs::File::create(dir.join("stdout")).unwrap())
            .stderr(fs::File::create(dir.join("stderr")).unwrap())
            .spawn()
            .unwrap();
        let t = Instant::now();
        let limit = Duration::from_secs(if policy == "window" { 90 } else { 40 });
        loop {
            match c.try_wait().unwrap() {
                Some(s) => {
                    if !s.success() {
                        st = "died";
                    }
                    break;
                }
                None if t.elapsed() > limit => {
                    st = "hang";
                    c.kill().unwrap();
                    c.wait().unwrap();
                    break;
                }
                None => {
                    crate::out::tick();
                    std::thread::sleep(Duration::from_millis(3))
                }
            }
        }
        let read = || -> Vec<String> { fs::read_to_string(dir.join("log")).unwrap_or_default().lines().map(|s| s.to_string()).collect() };
        // an interpreter the helper did not wait for still has something to say
        let talks = matches!(policy, "reader" | "fails" | "noisy" | "slow" | "deaf" | "window" | "sleepy" | "trickle" | "halfdeaf" | "huge");
        events = read();
        let t = Instant::now();
        while talks && !events.iter().any(|e| e == "bye") && t.elapsed() < Duration::from_secs(5) {
            std::thread::sleep(Duration::from_millis(20));
            events = read();
        }
        if events.iter().any(|e| e == "panic") && st == "ok" {
            st = "panic";
        }
        for f in ["stdout", "stderr"] {
            leaked += fs::read_to_string(dir.join(f)).map(|s| s.matches("chatter").count()).unwrap_or(1);
        }
        let mut plots: Vec<Vec<Vec<f64>>> = vec![];
        let mut shown = false;
        for l in fs::read_to_string(dir.join("plots")).unwrap_or_default().lines() {
            if l == "show" {
                shown = true;
                continue;
            }
            plots.push(l.split(';').map(|s| s.split_whitespace().map(|w| w.parse().unwrap_or(f64::NAN)).collect()).collect());
        }
        let judged = matches!(policy, "reader" | "slow" | "noisy" | "window" | "sleepy" | "trickle" | "huge");
        let small = judged || xs.iter().map(|x| x.len()).sum::<usize>() < 2000;
        let none: Vec<Vec<f32>> = vec![];
        o.put("policy", policy)
            .put("xs", if small { xs } else { &none })
            .put("log", &events)
            .put("plots", &P(plots))
            .put("shown", &shown)
            .put("judged", &judged)
            .put("leaked", &leaked)
            .put("st", st)
            .put("res", &Vec::<usize>::new());
    });
    let _ = fs::remove_dir_all(&dir);
}

fn signal(r: &mut Rng, n: usize) -> Vec<f32> {
    let s = *r.pick(&[1.0, 1.0, 1e-3, 1e6, 1e-30, 1e30]);
    (0..n).map(|_| ((r.range(-1.0, 1.0)) * s) as f32).collect()
}

pub fn c28(out: &mut Out, c: &Cfg) {
    let r = &mut Rng::new(c.seed, 28);
    let mut n = 0;
    let mut go = |out: &mut Out, policy: &str, xs: Vec<Vec<f32>>| {
        n += 1;
        case(out, n, policy, c.pick(7, 50), &xs)
    };
    go(out, "reader", vec![vec![1.0, -2.5, 0.1, 3.0]]);
    go(out, "reader", vec![vec![1.0], vec![f32::MIN_POSITIVE, f32::MAX, 1e-45], vec![0.0, 0.0, 0.0], vec![-0.0, 16777216.0, 0.3]]);
    go(out, "reader", vec![vec![1.0, f32::NAN, 2.0], vec![f32::INFINITY, 1.0, f32::NEG_INFINITY]]);
    go(out, "reader", vec![vec![3.0], vec![-0.25], vec![2.0, 2.0], vec![-1.0, 5.0], vec![0.0, 7.0]]);
    for policy in ["absent", "noexec", "fails", "noisy", "killed", "early", "deaf", "slow"] {
        let xs = vec![signal(r, 5), signal(r, 9)];
        go(out, policy, xs);
    }
    // a plot looked at for a while, an interpreter that is long in coming
    for policy in ["window", "sleepy", "halfdeaf"] {
        let xs = vec![signal(r, 12), signal(r, 3)];
        go(out, policy, xs);
    }
    go(out, "fails", vec![]);
    let xs = vec![signal(r, 400), signal(r, 300), signal(r, 256)];
    go(out, "trickle", xs);
    let xs = vec![signal(r, 3), signal(r, 150_000), signal(r, 2)];
    go(out, "huge", xs);
    // scripts larger than any pipe
    for policy in ["absent", "slow", "deaf", "early", "half", "halfdeaf", "killed"] {
        let xs = vec![signal(r, if policy == "slow" { 90 } else { 40_000 }); if policy == "slow" { 120 } else { 2 }];
        go(out, policy, xs);
    }
    for _ in 0..c.pick(8, 80) {
        let k = r.us(1, 5);
        let xs = (0..k)
            .map(|_| {
                let n = r.us(1, 60);
                signal(r, n)
            })
            .collect();
        let policy = *r.pick(&["reader", "reader", "noisy", "fails", "killed"]);
        go(out, policy, xs);
    }
}
