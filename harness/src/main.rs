//! fem-monitor: runs the real fem_2d code under generated workloads while monitors watch for property violations.
#[macro_use]
mod util;
mod gen;
mod model;
mod props;
mod refmath;
mod structure;
mod vtk;

use json::{object, JsonValue};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

pub struct Kind {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// how many of them also run in the ThreadSanitizer build (quick tier)
    pub tsan: u64,
}

impl Kind {
    pub const fn new(name: &'static str, quick: u64, thorough: u64) -> Self {
        Self { name, quick, thorough, tsan: 0 }
    }
    pub const fn tsan(name: &'static str, quick: u64, thorough: u64, tsan: u64) -> Self {
        Self { name, quick, thorough, tsan }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub kinds: &'static [Kind],
    pub run: fn(&mut Ctx) -> Res,
    pub threads: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Ctx {
    pub kind: &'static str,
    pub idx: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub obs: Obs,
    pub scratch: PathBuf,
    pub sample: Option<String>,
    pub nontrivial: Option<u64>,
    /// violations that are listed as known findings elsewhere, but do not end the case
    pub side: Vec<Violation>,
}

impl Ctx {
    pub fn scratch_file(&self, name: &str) -> String {
        let d = &self.scratch;
        let t = std::thread::current().id();
        let t = format!("{:?}", t).replace("ThreadId(", "t").replace(')', "");
        d.join(format!("{}_{}_{}", t, self.idx, name)).to_str().unwrap().to_string()
    }
    pub fn report_side(&mut self, v: Violation) {
        if !self.side.iter().any(|s| s.sig == v.sig) {
            self.side.push(v);
        }
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

struct Found {
    case: String,
    v: Violation,
}

fn thread_cpu(tid: i64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

fn my_tid() -> i64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|s| s.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

#[derive(Clone)]
struct Running {
    case: String,
    start: Instant,
    tid: i64,
    cpu0: f64,
}

fn main() {
    // the stand-in for mpiexec used by C17 is this same program
    let argv0 = std::env::args().next().unwrap_or_default();
    if argv0.ends_with("mpiexec") {
        props::c17::fake_mpiexec();
    }
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--story") {
        props::c28::tell_one(args[2].parse().unwrap(), &args[3]);
    }
    if args.len() > 1 && args[1] == "--c17-child" {
        props::c17::child(&args[2..]);
    }
    if args.len() < 2 {
        eprintln!("usage: fem-monitor PROP --seed N --tier quick|thorough --out FILE --scratch DIR [--case kind:idx] [--budget SECS]");
        std::process::exit(2);
    }
    install_panic_hook();
    let prop = match props::all().into_iter().find(|p| p.id == args[1]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[1]);
            std::process::exit(2);
        }
    };
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&args, "--tier").map(|t| t == "thorough").unwrap_or(false);
    let out = arg(&args, "--out").expect("--out");
    let scratch = PathBuf::from(arg(&args, "--scratch").expect("--scratch"));
    std::fs::create_dir_all(&scratch).unwrap();
    let budget: f64 = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 240.0 });
    let only = arg(&args, "--case");
    let scale: f64 = arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let kind_filter = arg(&args, "--kind");
    let leg_tsan = arg(&args, "--leg").map(|l| l == "tsan").unwrap_or(false);
    let threads: usize = arg(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(prop.threads);

    // all cases, the kinds interleaved
    let mut cases: Vec<(&'static str, u64, f64)> = Vec::new();
    for k in prop.kinds {
        if let Some(f) = &kind_filter {
            if f != k.name {
                continue;
            }
        }
        let n = if thorough { k.thorough } else { k.quick };
        let n = if leg_tsan { n.min(if thorough { k.tsan * 20 } else { k.tsan }) } else { n };
        let n = if n == 0 { 0 } else { ((n as f64 * scale).ceil() as u64).max(1) };
        for i in 0..n {
            cases.push((k.name, i, (i as f64 + 0.5) / n as f64));
        }
    }
    cases.sort_by(|a, b| a.2.partial_cmp(&b.2).unwrap());
    if let Some(c) = &only {
        let (k, i) = c.rsplit_once(':').expect("case is kind:idx");
        let kind = prop.kinds.iter().find(|x| x.name == k).expect("unknown case kind");
        cases = vec![(kind.name, i.parse().unwrap(), 0.0)];
    }

    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done_workers = AtomicUsize::new(0);
    let found: Mutex<Vec<Found>> = Mutex::new(Vec::new());
    let side: Mutex<Vec<Found>> = Mutex::new(Vec::new());
    let errors: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let total: Mutex<Obs> = Mutex::new(Obs::default());
    let samples: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let evals = AtomicUsize::new(0);
    let nontrivial: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
    let per_kind: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let nw = threads.min(cases.len()).max(1);
    let running: Vec<Mutex<Option<Running>>> = (0..nw).map(|_| Mutex::new(None)).collect();
    let hung: Mutex<Option<Found>> = Mutex::new(None);

    let finish = |hang: Option<Found>| {
        let mut f = found.lock().unwrap();
        if let Some(h) = hang {
            f.push(h);
        }
        let s = side.lock().unwrap();
        let obs = total.lock().unwrap();
        let mut j = object! {
            "property": prop.id,
            "seed": seed,
            "tier": if thorough { "thorough" } else { "quick" },
            "cases_planned": cases.len(),
            "evaluations": evals.load(Ordering::SeqCst),
            "distinct_nontrivial": nontrivial.lock().unwrap().len(),
            "rule": prop.rule,
            "samples": samples.lock().unwrap().clone(),
            "observed": obs.to_json(),
            "per_kind": per_kind.lock().unwrap().iter().fold(object! {}, |mut a, (k, v)| { a[*k] = (*v).into(); a }),
            "assumptions": prop.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
            "wall_s": start.elapsed().as_secs_f64(),
            "errors": errors.lock().unwrap().clone(),
        };
        let tojson = |v: &Vec<Found>| -> JsonValue {
            v.iter()
                .map(|x| object! { "case": x.case.clone(), "sig": x.v.sig.clone(), "msg": x.v.msg.clone() })
                .collect::<Vec<_>>()
                .into()
        };
        j["violations"] = tojson(&f);
        j["side"] = tojson(&s);
        std::fs::write(&out, json::stringify_pretty(j, 1)).unwrap();
        let code = if !f.is_empty() {
            1
        } else if !errors.lock().unwrap().is_empty() {
            2
        } else {
            0
        };
        code
    };

    let code = std::thread::scope(|sc| {
        for w in 0..nw {
            let (next, stop, found, side, errors, total, samples, evals, nontrivial, per_kind, running, cases, done_workers, prop, scratch) = (
                &next, &stop, &found, &side, &errors, &total, &samples, &evals, &nontrivial, &per_kind, &running, &cases, &done_workers, &prop, &scratch,
            );
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let tid = my_tid();
                    let journal = scratch.join(format!("journal_{}", w));
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases.len() {
                            break;
                        }
                        if start.elapsed().as_secs_f64() > budget {
                            break;
                        }
                        let (kind, idx, _) = cases[i];
                        let case = format!("{}:{}", kind, idx);
                        let _ = std::fs::write(&journal, &case);
                        *running[w].lock().unwrap() =
                            Some(Running { case: case.clone(), start: Instant::now(), tid, cpu0: thread_cpu(tid).unwrap_or(0.0) });
                        let mut ctx = Ctx {
                            kind,
                            idx,
                            thorough,
                            rng: Rng::new(&[fnv(prop.id.as_bytes()), seed, fnv(kind.as_bytes()), idx]),
                            obs: Obs::default(),
                            scratch: scratch.clone(),
                            sample: None,
                            nontrivial: None,
                            side: Vec::new(),
                        };
                        let end = guard_case(|| (prop.run)(&mut ctx));
                        *running[w].lock().unwrap() = None;
                        evals.fetch_add(1, Ordering::SeqCst);
                        *per_kind.lock().unwrap().entry(kind).or_insert(0) += 1;
                        if let Some(h) = ctx.nontrivial {
                            nontrivial.lock().unwrap().insert(h);
                        }
                        if let Some(s) = ctx.sample.take() {
                            let mut g = samples.lock().unwrap();
                            if g.len() < 6 {
                                g.push(format!("[{}] {}", case, s));
                            }
                        }
                        total.lock().unwrap().merge(ctx.obs);
                        {
                            let mut g = side.lock().unwrap();
                            for v in ctx.side {
                                if g.iter().filter(|f| f.v.sig == v.sig).count() < 1 {
                                    g.push(Found { case: case.clone(), v });
                                }
                            }
                        }
                        match end {
                            CaseEnd::Ok => (),
                            CaseEnd::Violated(v) => {
                                let mut g = found.lock().unwrap();
                                if g.iter().filter(|f| f.v.sig == v.sig).count() < 2 {
                                    g.push(Found { case, v });
                                }
                                if g.len() >= 6 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                            CaseEnd::HarnessError(e) => {
                                errors.lock().unwrap().push(format!("{}: {}", case, e));
                            }
                        }
                    }
                    let _ = std::fs::remove_file(&journal);
                    done_workers.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog
        let mut idle_since = Instant::now();
        let mut last_cpu = cpu_time();
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if done_workers.load(Ordering::SeqCst) == nw {
                break;
            }
            let c = cpu_time();
            if c - last_cpu > 0.5 {
                last_cpu = c;
                idle_since = Instant::now();
            }
            for r in running.iter() {
                let r = r.lock().unwrap().clone();
                if let Some(r) = r {
                    let wall = r.start.elapsed().as_secs_f64();
                    let used = thread_cpu(r.tid).map(|t| t - r.cpu0).unwrap_or(0.0);
                    // an endless loop, or a deadlock: nothing in this process has used the CPU for a long time
                    let hang = (used > 150.0 && wall > 150.0) || (wall > 90.0 && idle_since.elapsed().as_secs_f64() > 90.0);
                    if hang {
                        *hung.lock().unwrap() = Some(Found {
                            case: r.case.clone(),
                            v: Violation {
                                sig: "hang".into(),
                                msg: format!("case did not finish: {:.0} s wall, {:.0} s CPU of its own", wall, used),
                            },
                        });
                        let h = hung.lock().unwrap().take();
                        let code = finish(h);
                        std::process::exit(code);
                    }
                }
            }
        }
        finish(None)
    });
    std::process::exit(code);
}
