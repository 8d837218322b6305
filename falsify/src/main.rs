//! Replay layer: evaluates the contracts' postconditions on concrete executions of the real crates.
//!   falsify list
//!   falsify run PROP --seed S --secs T --out F --cur F [--scratch DIR]
//!   falsify case PROP UNIT SEED SIZE [--scratch DIR]      (exit 0 ok, 1 violated)
mod clock;
mod crash;
mod rng;
mod units;

use rng::{mix, Rng};
use std::{
    collections::HashSet,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    time::{Duration, Instant},
};

pub type R = Result<(), String>;

pub struct Ctx {
    pub r: Rng,
    pub size: usize,
    pub log: Vec<String>,
    pub dir: PathBuf,
    /// structural fingerprint of the case (for counting distinct cases)
    pub fp: u64,
    pub steps: usize,
}

impl Ctx {
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        for b in s.bytes() {
            self.fp = (self.fp ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.steps += 1;
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
    pub fn fresh_dir(&mut self) -> PathBuf {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = self.dir.join(format!("d{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}

pub struct Unit {
    pub name: &'static str,
    pub f: fn(&mut Ctx) -> R,
    /// relative share of the cases
    pub weight: usize,
    /// largest size the unit is run at
    pub max: usize,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

struct Outcome {
    err: Option<String>,
    log: Vec<String>,
    fp: u64,
    steps: usize,
}

fn run_case(u: &Unit, seed: u64, size: usize, dir: &PathBuf) -> Outcome {
    let mut ctx = Ctx { r: Rng::new(seed), size, log: vec![], dir: dir.clone(), fp: 0xcbf29ce484222325, steps: 0 };
    let res = catch_unwind(AssertUnwindSafe(|| (u.f)(&mut ctx)));
    let err = match res {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => Some(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    Outcome { err, log: ctx.log, fp: ctx.fp, steps: ctx.steps }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let args: Vec<String> = std::env::args().collect();
    let dir = PathBuf::from(arg(&args, "--scratch").unwrap_or_else(|| "/tmp/falsify-scratch".into()));
    let _ = std::fs::create_dir_all(&dir);
    for v in ["XDG_DATA_HOME", "STRONGHOLD", "TMPDIR", "HOME"] {
        std::env::set_var(v, &dir);
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (p, us) in units::all() {
                for u in us {
                    println!("{} {} w{} max{}", p, u.name, u.weight, u.max);
                }
            }
        }
        Some("known") => {
            if args[2] == "C15" {
                if let Some(s) = units::client::known_c15() {
                    println!("{}", s);
                }
            }
        }
        Some("case") => {
            let us = units::all().into_iter().find(|(p, _)| *p == args[2]).expect("property").1;
            let u = us.iter().find(|u| u.name == args[3]).expect("unit");
            let o = run_case(u, args[4].parse().unwrap(), args[5].parse().unwrap(), &dir);
            for l in &o.log {
                println!("  {}", l);
            }
            match o.err {
                Some(e) => {
                    println!("VIOLATED {} {}: {}", args[2], u.name, e);
                    std::process::exit(1)
                }
                None => println!("ok"),
            }
        }
        Some("harness") => {
            // a counterexample of the verifier, on the real code
            let h = &args[2];
            let v: Vec<u8> = (0..args[3].len() / 2).map(|i| u8::from_str_radix(&args[3][2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            match vxkani::native(h, v) {
                None => println!("no native form of {}", h),
                Some(None) => println!("ok"),
                Some(Some(_)) => {
                    println!("VIOLATED {}: {}", h, LAST_PANIC.with(|p| p.borrow().clone()));
                    std::process::exit(1)
                }
            }
        }
        Some("run") => {
            let prop = &args[2];
            let seed: u64 = arg(&args, "--seed").unwrap().parse().unwrap();
            let secs: f64 = arg(&args, "--secs").unwrap().parse().unwrap();
            let out = arg(&args, "--out").unwrap();
            let cur = arg(&args, "--cur").unwrap();
            let us = units::all().into_iter().find(|(p, _)| p == prop).expect("property").1;
            let mut sched: Vec<usize> = vec![];
            for (i, u) in us.iter().enumerate() {
                for _ in 0..u.weight {
                    sched.push(i);
                }
            }
            let start = Instant::now();
            let mut curf = std::fs::File::create(&cur).unwrap();
            let (mut evals, mut fps, mut samples) = (0u64, HashSet::new(), vec![]);
            let mut per: Vec<u64> = vec![0; us.len()];
            let mut viol = None;
            let mut i = 0u64;
            while start.elapsed() < Duration::from_secs_f64(secs) {
                let k = sched[(i as usize) % sched.len()];
                let round = i / sched.len() as u64;
                let u = &us[k];
                let cs = mix(mix(seed, k as u64 + 1), i);
                let size = 1 + ((round as usize) % u.max);
                {
                    use std::io::{Seek, SeekFrom};
                    let _ = curf.set_len(0);
                    let _ = curf.seek(SeekFrom::Start(0));
                    let _ = write!(curf, "{} {} {} {}", prop, u.name, cs, size);
                }
                let o = run_case(u, cs, size, &dir);
                evals += 1;
                per[k] += 1;
                if o.steps > 0 && fps.len() < 2_000_000 {
                    fps.insert(o.fp);
                }
                if samples.len() < 3 && o.steps > 1 && size > 3 {
                    samples.push(format!("{} seed={} size={}: {}", u.name, cs, size, o.log.join("; ").chars().take(600).collect::<String>()));
                }
                if let Some(e) = o.err {
                    // confirm, then shrink by size
                    let mut hits = 0;
                    for _ in 0..5 {
                        if run_case(u, cs, size, &dir).err.is_some() {
                            hits += 1;
                        }
                    }
                    if hits > 0 {
                        let (mut bs, mut best) = ((cs, size), (e, o.log));
                        let t = Instant::now();
                        'sh: for s in 1..size {
                            for j in 0..8 {
                                if t.elapsed() > Duration::from_secs(8) {
                                    break 'sh;
                                }
                                let c2 = if j == 0 { cs } else { mix(cs, j) };
                                let a = run_case(u, c2, s, &dir);
                                if let Some(e2) = a.err {
                                    if run_case(u, c2, s, &dir).err.is_some() {
                                        bs = (c2, s);
                                        best = (e2, a.log);
                                        break 'sh;
                                    }
                                }
                            }
                        }
                        viol = Some(serde_json::json!({"unit": u.name, "seed": bs.0.to_string(), "size": bs.1, "error": best.0, "log": best.1, "reproduced": format!("{}/5", hits)}));
                        break;
                    } else {
                        samples.push(format!("NOT-REPRODUCED {} seed={} size={}: {}", u.name, cs, size, e));
                    }
                }
                i += 1;
            }
            let per: serde_json::Map<String, serde_json::Value> =
                us.iter().zip(per).map(|(u, n)| (u.name.to_string(), n.into())).collect();
            let j = serde_json::json!({"property": prop, "seed": seed, "evaluations": evals, "distinct": fps.len(),
                "per_unit": per, "samples": samples, "violation": viol, "wall_s": start.elapsed().as_secs_f64()});
            std::fs::write(out, serde_json::to_string(&j).unwrap()).unwrap();
            std::process::exit(if viol.is_some() { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}
