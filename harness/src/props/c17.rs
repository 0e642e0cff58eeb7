//! The link to the external solver under every outcome of the solver and of the file system.
//!
//! A case sets up one or two solver directories, a plan for every call (what the solver will do) and runs a child
//! process, as an unprivileged user, that makes the calls. `mpiexec` is this program again: it records what it was
//! given and follows the plan. Afterwards the answers, the records and the directories are checked.
use super::c15::{full_bits, pattern, same_bits, value};
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_problem::linalg::GEP;
use fem_2d::prelude::*;
use json::{object, JsonValue};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Once;
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C17",
    kinds: &[Kind::new("enumerate", 66, 66), Kind::new("random", 1200, 12000), Kind::new("together", 360, 4000), Kind::new("places", 140, 2000), Kind::new("full", 40, 800)],
    run,
    threads: 8,
    rule: "calls to slepc_solve_gep in a child process with a stand-in for mpiexec that records arguments, working directory and matrix files and then does what the case planned: enumerate = every exit status 1..=255 with and without results, every fatal signal, every truncation length of both result files, wrong identifiers and lengths; random = sequences of 1..10 calls with any of these, with configuration changes in between; together = the same from several threads and processes at once; places = missing, unreadable, unwritable or otherwise unusable directories and solver commands; full = limits on the size of files while the matrices are written; every answer, every record and the directories before and after are compared; non-trivial = at least one call reached the stand-in, distinct by plan",
    assumptions: &["the solver binary is stood in for at the mpiexec command line; SLEPc itself is not run", "result files: PETSc vector (1211214, length, big-endian reals) and one big-endian real"],
};

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn raise(sig: i32) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, lim: *mut [u64; 2]) -> i32;
    fn getuid() -> u32;
}
const FSIZE: i32 = 1;
const CORE: i32 = 4;
const NOBODY: u32 = 65534;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn key_of(te: f64) -> String {
    format!("{:.10}", te)
}

// ---------------------------------------------------------------- the stand-in

/// Started as `mpiexec`: record what was given, then do what the plan says.
pub fn fake_mpiexec() -> ! {
    unsafe {
        let mut l = [0u64; 2];
        getrlimit(FSIZE, &mut l);
        l[0] = l[1];
        setrlimit(FSIZE, &l);
        setrlimit(CORE, &[0, 0]);
    }
    let args: Vec<String> = std::env::args_os().skip(1).map(|a| a.to_string_lossy().to_string()).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let (te, fp) = match (opt("-te"), opt("-fp")) {
        (Some(t), Some(f)) => (t, f),
        _ => std::process::exit(98),
    };
    let key = te.parse::<f64>().map(key_of).unwrap_or_default();
    let plan = match std::fs::read_to_string(format!("plan/{}.json", key)).ok().and_then(|s| json::parse(&s).ok()) {
        Some(p) => p,
        None => std::process::exit(97),
    };
    let read = |w: &str| std::fs::read(format!("tmp/{}_{}.dat", fp, w)).map(|b| hex(&b)).unwrap_or_else(|e| format!("!{}", e));
    let (a, b) = (read("a"), read("b"));
    if let Some(ms) = plan["delay_ms"].as_u64() {
        std::thread::sleep(Duration::from_millis(ms));
    }
    let (a2, b2) = (read("a"), read("b"));
    let log = object! {
        "args": args.clone(),
        "cwd": std::env::current_dir().map(|d| d.to_string_lossy().to_string()).unwrap_or_default(),
        "prefix": fp.clone(),
        "a": a.clone(), "b": b.clone(),
        "changed": a != a2 || b != b2,
    };
    // a new file for each start
    for n in 0.. {
        let p = format!("log/{}.{}", key, n);
        if std::fs::OpenOptions::new().write(true).create_new(true).open(&p).map(|mut f| std::io::Write::write_all(&mut f, log.dump().as_bytes()).unwrap()).is_ok() || n > 100 {
            break;
        }
    }
    for w in plan["write"].members() {
        let name = w["name"].as_str().unwrap().replace("{fp}", &fp);
        let p = format!("tmp/{}", name);
        std::fs::write(&p, unhex(w["hex"].as_str().unwrap())).unwrap();
        if let Some(m) = w["mode"].as_u32() {
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).unwrap();
        }
    }
    if plan["delete_inputs"] == true {
        let _ = std::fs::remove_file(format!("tmp/{}_a.dat", fp));
        let _ = std::fs::remove_file(format!("tmp/{}_b.dat", fp));
    }
    if plan["remove_tmp"] == true {
        let _ = std::fs::remove_dir_all("tmp");
    }
    if plan["lock_tmp"] == true {
        let _ = std::fs::set_permissions("tmp", std::fs::Permissions::from_mode(0o555));
    }
    if let Some(s) = plan["signal"].as_i32() {
        unsafe {
            signal(s, 0);
            raise(s);
        }
        std::thread::sleep(Duration::from_secs(5));
    }
    std::process::exit(plan["exit"].as_i32().unwrap_or(0))
}

// ---------------------------------------------------------------- the calling process

fn problem(seed: u64) -> GEP {
    let mut rng = Rng::new(&[seed, 17]);
    let dim = 1 + rng.below(9);
    let mut g = GEP::new(dim);
    for ix in pattern(&mut rng, dim) {
        g.a.insert(ix, value(&mut rng));
    }
    for ix in pattern(&mut rng, dim) {
        g.b.insert(ix, value(&mut rng));
    }
    g
}

/// for the cases that limit the size of files: `a` and `b` of the given dimensions' worth of entries
fn sized_problem(seed: u64, na: usize, nb: usize) -> GEP {
    let mut rng = Rng::new(&[seed, 18]);
    let dim = na.max(nb).max(1);
    let mut g = GEP::new(dim);
    for i in 0..na {
        g.a.insert([i, i], rng.gauss());
    }
    for i in 0..nb {
        g.b.insert([i, i], rng.gauss());
    }
    g
}

fn problem_of(c: &JsonValue) -> GEP {
    let seed = u64::from_str_radix(c["seed"].as_str().unwrap(), 16).unwrap();
    match (c["na"].as_usize(), c["nb"].as_usize()) {
        (Some(a), Some(b)) => sized_problem(seed, a, b),
        _ => problem(seed),
    }
}

fn set_dir(c: &JsonValue) {
    match c["dir"].as_str() {
        Some("") | None => std::env::remove_var("GEP_SOLVE_DIR"),
        Some(d) => std::env::set_var("GEP_SOLVE_DIR", std::ffi::OsStr::from_bytes(&unhex(d))),
    }
}

fn kind_of(e: &(dyn std::error::Error + 'static)) -> String {
    match e.downcast_ref::<SlepcGEPError>() {
        Some(k) => format!("{:?}", k),
        None if e.downcast_ref::<std::io::Error>().is_some() => "io".into(),
        None => "other".into(),
    }
}

fn one_call(i: usize, c: &JsonValue) -> String {
    let te = f64::from_bits(u64::from_str_radix(c["te"].as_str().unwrap(), 16).unwrap());
    let g = problem_of(c);
    let answer = match try_lib(|| slepc_solve_gep(g, te).map_err(|e| (kind_of(&*e), e.to_string()))) {
        Err(p) => object! { "panic": format!("{}: {}", p.loc, p.msg) },
        Ok(Err((k, m))) => object! { "err": k, "text": m },
        Ok(Ok(e)) => object! {
            "value": format!("{:016x}", e.value.to_bits()),
            "vector": e.vector.iter().map(|v| format!("{:016x}", v.to_bits())).collect::<Vec<_>>().join(" "),
        },
    };
    format!("@@{} {}", i, answer.dump())
}

pub fn child(args: &[String]) -> ! {
    install_panic_hook();
    let spec = json::parse(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    unsafe {
        setrlimit(CORE, &[0, 0]);
        if let Some(n) = spec["fsize"].as_u64() {
            signal(25, 1); // SIGXFSZ ignored: writing past the limit gives EFBIG
            let mut l = [0u64; 2];
            getrlimit(FSIZE, &mut l);
            l[0] = n;
            setrlimit(FSIZE, &l);
        }
    }
    let calls: Vec<JsonValue> = spec["calls"].members().cloned().collect();
    let threads = spec["threads"].as_usize().unwrap_or(1);
    let mut out = Vec::new();
    if threads <= 1 {
        for (i, c) in calls.iter().enumerate() {
            set_dir(c);
            out.push(one_call(i, c));
        }
    } else {
        set_dir(&calls[0]);
        let barrier = std::sync::Barrier::new(threads);
        let got = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for t in 0..threads {
                let (calls, barrier, got) = (&calls, &barrier, &got);
                s.spawn(move || {
                    barrier.wait();
                    for (i, c) in calls.iter().enumerate() {
                        if i % threads == t {
                            let r = one_call(i, c);
                            got.lock().unwrap().push(r);
                        }
                    }
                });
            }
        });
        out = got.into_inner().unwrap();
    }
    for l in out {
        println!("\n{}", l);
    }
    std::process::exit(0)
}

// ---------------------------------------------------------------- the case

#[derive(Clone, Debug)]
enum End {
    Exit(i32),
    Signal(i32),
}

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    /// exactly this value and vector
    Solution(u64, Vec<u64>),
    /// an error; of this kind, where the exit status has one of its own
    Error(Option<&'static str>),
}

#[derive(Clone, Debug)]
struct Plan {
    end: End,
    files: Vec<(String, Vec<u8>, Option<u32>)>,
    delay: u64,
    delete_inputs: bool,
    remove_tmp: bool,
    lock_tmp: bool,
    /// files of the solver that do not belong to the call
    other: Option<(String, Vec<u8>)>,
    expect: Expect,
    what: String,
}

#[derive(Clone, Debug)]
struct Call {
    te: f64,
    seed: u64,
    sizes: Option<(usize, usize)>,
    /// index of the directory, or what the variable is instead
    dir: Result<usize, &'static str>,
    plan: Plan,
    /// whether the stand-in is expected to be started
    reached: bool,
}

fn status_kind(code: i32) -> Option<&'static str> {
    match code {
        1 => Some("FailedToInitializeSlepc"),
        2 => Some("BadArguments"),
        3 => Some("FailedToInitializeMatrices"),
        4 | 5 | 6 => Some("FailedToInitializeEPS"),
        7 => Some("FailedToConverge"),
        8 => Some("FailedToReturnSolution"),
        _ => Some("UnknownError"),
    }
}

fn real(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::MIN_POSITIVE / 8.0,
        3 => 1e300 * rng.gauss(),
        4 => f64::INFINITY,
        _ => rng.gauss(),
    }
}

fn vec_bytes(class: i32, len: i32, vals: &[f64]) -> Vec<u8> {
    let mut b = class.to_be_bytes().to_vec();
    b.extend(len.to_be_bytes());
    for v in vals {
        b.extend(v.to_be_bytes());
    }
    b
}

/// a successful run with a valid solution of dimension `dim`
fn good(rng: &mut Rng, dim: usize) -> Plan {
    let v: Vec<f64> = (0..dim).map(|_| real(rng)).collect();
    let e = real(rng);
    Plan {
        end: End::Exit(0),
        files: vec![("{fp}_evec.dat".into(), vec_bytes(1211214, dim as i32, &v), None), ("{fp}_eval.dat".into(), e.to_be_bytes().to_vec(), None)],
        delay: 0,
        delete_inputs: false,
        remove_tmp: false,
        lock_tmp: false,
        other: None,
        expect: Expect::Solution(e.to_bits(), v.iter().map(|x| x.to_bits()).collect()),
        what: "good".into(),
    }
}

const SIGNALS: [i32; 22] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 26, 27, 29, 30, 31];

fn with_status(mut p: Plan, code: i32, files: bool) -> Plan {
    p.end = End::Exit(code);
    if !files {
        p.files.clear();
    }
    p.expect = Expect::Error(status_kind(code));
    p.what = format!("exit {}{}", code, if files { " with results" } else { "" });
    p
}
fn with_signal(mut p: Plan, sig: i32, files: bool) -> Plan {
    p.end = End::Signal(sig);
    if !files {
        p.files.clear();
    }
    p.expect = Expect::Error(Some("UnknownError"));
    p.what = format!("signal {}{}", sig, if files { " with results" } else { "" });
    p
}
fn cut(mut p: Plan, file: usize, len: usize) -> Plan {
    p.files[file].1.truncate(len);
    p.expect = Expect::Error(None);
    p.what = format!("{} cut to {} bytes", p.files[file].0, len);
    p
}
fn missing(mut p: Plan, which: usize) -> Plan {
    match which {
        0 => {
            p.files.remove(0);
        }
        1 => {
            p.files.remove(1);
        }
        _ => p.files.clear(),
    }
    p.expect = Expect::Error(None);
    p.what = format!("results missing ({})", which);
    p
}
fn bad_header(mut p: Plan, dim: usize, which: usize) -> Plan {
    let d = dim as i32;
    let (class, len) = [(1211216, d), (0, d), (-1211214, d), (1211215, d), (1211214, d - 1), (1211214, d + 1), (1211214, -d), (1211214, -1), (1211214, 0), (1211214, i32::MAX), (1211214, i32::MIN), (1211214, d + 256), (1211214i32.swap_bytes(), d.swap_bytes()), (1211214, d.swap_bytes())][which % 14];
    p.files[0].1[..4].copy_from_slice(&class.to_be_bytes());
    p.files[0].1[4..8].copy_from_slice(&len.to_be_bytes());
    p.expect = Expect::Error(None);
    p.what = format!("header {} {} for dimension {}", class, len, dim);
    p
}

fn rand_plan(rng: &mut Rng, dim: usize, deadly: bool) -> Plan {
    let g = good(rng, dim);
    let mut p = match rng.below(if deadly { 12 } else { 11 }) {
        0 | 1 | 2 => g,
        3 => with_status(g, 1 + rng.below(9) as i32, rng.chance(0.5)),
        4 => with_status(g, 1 + rng.below(255) as i32, rng.chance(0.5)),
        5 => {
            let s = *rng.pick(&SIGNALS);
            with_signal(g, s, rng.chance(0.5))
        }
        6 => missing(g, rng.below(3)),
        7 => {
            let f = rng.below(2);
            let n = rng.below(g.files[f].1.len());
            cut(g, f, n)
        }
        8 => bad_header(g, dim, rng.below(14)),
        9 => {
            // a result that cannot be read
            let mut p = g;
            let f = rng.below(2);
            p.files[f].2 = Some(0);
            p.expect = Expect::Error(None);
            p.what = format!("{} unreadable", p.files[f].0);
            p
        }
        10 => {
            let mut p = g;
            p.delete_inputs = true;
            p.what = "good, inputs removed by the solver".into();
            p
        }
        _ => {
            let mut p = g;
            p.remove_tmp = true;
            p.expect = Expect::Error(None);
            p.what = "scratch directory removed by the solver".into();
            p
        }
    };
    if rng.chance(0.3) {
        p.files.push(("{fp}_evec.dat.info".into(), b"-vecload_block_size 1\n".to_vec(), None));
    }
    if rng.chance(0.3) {
        p.files.push(("{fp}_log".into(), vec![7; rng.below(50)], None));
    }
    if rng.chance(0.3) {
        let name = rng.pick(&["other_evec.dat", "p_00000000000000000001_evec.dat", "eval.dat", "_evec.dat"]).to_string();
        p.other = Some((format!("{}{}", rng.below(1000), name), vec![1, 2, 3]));
    }
    if rng.chance(0.4) {
        p.delay = rng.below(8) as u64;
    }
    p
}

static BIN: Once = Once::new();

fn open_up(p: &Path, mode: u32) {
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
}

/// everything below a directory: kind, mode-independent content
fn listing(dir: &Path) -> BTreeMap<String, String> {
    fn walk(d: &Path, root: &Path, m: &mut BTreeMap<String, String>) {
        if let Ok(es) = std::fs::read_dir(d) {
            for e in es.flatten() {
                let p = e.path();
                let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                let t = std::fs::symlink_metadata(&p).unwrap();
                if t.file_type().is_symlink() {
                    m.insert(rel, format!("-> {:?}", std::fs::read_link(&p).unwrap()));
                } else if t.is_dir() {
                    m.insert(rel.clone(), "dir".into());
                    walk(&p, root, m);
                } else {
                    m.insert(rel, format!("{} {:o} {}", hex(&std::fs::read(&p).unwrap_or_default()), t.mode() & 0o777, t.ino()));
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, dir, &mut m);
    m.retain(|k, _| k != "log" && !k.starts_with("log/") && k != "plan" && !k.starts_with("plan/"));
    m
}

struct Setup {
    root: PathBuf,
    dirs: Vec<PathBuf>,
    path: String,
    root_user: bool,
}

fn chown(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
}

fn make_dir(rng: &mut Rng, d: &Path) {
    std::fs::create_dir_all(d).unwrap();
    for s in ["tmp", "plan", "log"] {
        std::fs::create_dir_all(d.join(s)).unwrap();
    }
    // files of somebody else
    let names = ["notes.txt", "_a.dat", "p_", "p_00000000000000000000_a.dat", "p_12345678901234567890_evec.dat", ".hidden", "p_00000000000000000000_eval.dat", "_evec.dat", "a.dat", "b.dat", "x y_b.dat", "naïve_eval.dat"];
    for n in names {
        if rng.chance(0.4) {
            std::fs::write(d.join("tmp").join(n), n.as_bytes()).unwrap();
        }
    }
    if rng.chance(0.4) {
        std::fs::create_dir_all(d.join("tmp/p_dir_evec.dat")).unwrap();
        std::fs::write(d.join("tmp/p_dir_evec.dat/keep"), b"keep").unwrap();
    }
    if rng.chance(0.2) {
        std::os::unix::fs::symlink("/nonexistent/target", d.join("tmp/dangling_a.dat")).unwrap();
    }
    if rng.chance(0.5) {
        std::fs::write(d.join("solve_gep"), b"#!/bin/sh\nexit 9\n").unwrap();
    }
    if rng.chance(0.3) {
        // the same names one level up, and in the solver's own directory
        std::fs::write(d.join("p_00000000000000000000_a.dat"), b"up").unwrap();
    }
}

fn own(d: &Path) {
    chown(d);
    if let Ok(es) = std::fs::read_dir(d) {
        for e in es.flatten() {
            let p = e.path();
            chown(&p);
            if std::fs::symlink_metadata(&p).map(|m| m.is_dir()).unwrap_or(false) {
                own(&p);
            }
        }
    }
}

fn call_json(c: &Call, s: &Setup) -> JsonValue {
    let mut j = object! {
        "te": format!("{:016x}", c.te.to_bits()),
        "seed": format!("{:x}", c.seed),
        "dir": match &c.dir {
            Ok(i) => hex(s.dirs[*i].as_os_str().as_bytes()),
            Err("unset") => String::new(),
            Err("notutf8") => hex(&[s.root.as_os_str().as_bytes(), b"/d\xff\xfe"].concat()),
            Err("empty") => hex(s.root.join("nothing/here").as_os_str().as_bytes()),
            Err(o) => hex(s.root.join(o).as_os_str().as_bytes()),
        },
    };
    if let Some((a, b)) = c.sizes {
        j["na"] = a.into();
        j["nb"] = b.into();
    }
    j
}

fn plan_json(p: &Plan) -> JsonValue {
    let mut files: Vec<JsonValue> = p
        .files
        .iter()
        .map(|(n, b, m)| {
            let mut o = object! { "name": n.clone(), "hex": hex(b) };
            if let Some(m) = m {
                o["mode"] = (*m).into();
            }
            o
        })
        .collect();
    if let Some((n, b)) = &p.other {
        files.push(object! { "name": n.clone(), "hex": hex(b) });
    }
    let mut j = object! { "write": files, "delay_ms": p.delay, "delete_inputs": p.delete_inputs, "remove_tmp": p.remove_tmp, "lock_tmp": p.lock_tmp };
    match p.end {
        End::Exit(c) => j["exit"] = c.into(),
        End::Signal(s) => j["signal"] = s.into(),
    }
    j
}

fn new_call(rng: &mut Rng, n: usize, plan: impl FnOnce(&mut Rng, usize) -> Plan) -> Call {
    let seed = rng.next();
    let dim = problem(seed).a.dimension;
    // targets differ from call to call
    let te = (n + 1) as f64 * if rng.chance(0.2) { -1.0 } else { 1.0 }
        + match rng.below(5) {
            0 => 0.0,
            1 => rng.f() * 0.9,
            2 => 1e-7 * rng.f(),
            3 => 4.0f64.powi(rng.below(12) as i32) * 64.0,
            _ => (rng.f() * 512.0).floor() / 1024.0,
        };
    Call { te, seed, sizes: None, dir: Ok(0), plan: plan(rng, dim), reached: true }
}

fn run(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let root = PathBuf::from(ctx.scratch_file("solver"));
    std::fs::create_dir_all(&root).unwrap();
    open_up(&ctx.scratch, 0o755);
    open_up(&root, 0o755);
    let bindir = ctx.scratch.join("c17bin");
    BIN.call_once(|| {
        std::fs::create_dir_all(&bindir).unwrap();
        std::fs::copy(std::env::current_exe().unwrap(), bindir.join("fem-monitor")).unwrap();
        std::os::unix::fs::symlink("fem-monitor", bindir.join("mpiexec")).unwrap();
        open_up(&bindir, 0o755);
        open_up(&bindir.join("fem-monitor"), 0o755);
    });
    let r = inner(ctx, &mut rng, &root, &bindir);
    // directories the case made unusable
    for d in ["a", "b", "a/tmp", "b/tmp"] {
        let p = root.join(d);
        if std::fs::symlink_metadata(&p).map(|m| m.is_dir()).unwrap_or(false) {
            open_up(&p, 0o755);
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    r
}

/// the table of single faults, 12 to a case
fn table(rng: &mut Rng) -> Vec<Box<dyn Fn(&mut Rng, usize) -> Plan>> {
    let _ = rng;
    let mut t: Vec<Box<dyn Fn(&mut Rng, usize) -> Plan>> = Vec::new();
    for code in 1..256 {
        for files in [false, true] {
            t.push(Box::new(move |r, d| with_status(good(r, d), code, files)));
        }
    }
    for s in SIGNALS {
        for files in [false, true] {
            t.push(Box::new(move |r, d| with_signal(good(r, d), s, files)));
        }
    }
    for w in 0..3 {
        t.push(Box::new(move |r, d| missing(good(r, d), w)));
    }
    for w in 0..14 {
        t.push(Box::new(move |r, d| bad_header(good(r, d), d, w)));
    }
    for n in 0..8 {
        t.push(Box::new(move |r, d| cut(good(r, d), 1, n)));
    }
    for n in 0..80 {
        // every length short of the whole file (dimensions go to 9)
        t.push(Box::new(move |r, d| cut(good(r, d), 0, n % (8 + 8 * d))));
    }
    for n in 0..9 {
        t.push(Box::new(move |r, d| cut(good(r, d), 0, (8 + 8 * d) - 1 - n % 8)));
    }
    for f in 0..2 {
        t.push(Box::new(move |r, d| {
            let mut p = good(r, d);
            p.files[f].2 = Some(0);
            p.expect = Expect::Error(None);
            p.what = format!("file {} unreadable", f);
            p
        }));
    }
    for _ in 0..40 {
        t.push(Box::new(|r, d| good(r, d)));
    }
    t
}

fn inner(ctx: &mut Ctx, rng: &mut Rng, root: &Path, bindir: &Path) -> Res {
    let root_user = unsafe { getuid() } == 0;
    let mut s = Setup { root: root.to_path_buf(), dirs: vec![root.join("a"), root.join("b")], path: bindir.to_str().unwrap().to_string(), root_user };
    if rng.chance(0.2) {
        s.dirs[0] = root.join("a/./");
    }
    make_dir(rng, &root.join("a"));
    make_dir(rng, &root.join("b"));
    let mut calls: Vec<Call> = Vec::new();
    let mut threads = 1;
    let mut processes = 1;
    let mut fsize: Option<u64> = None;
    let mut after: Vec<(PathBuf, u32)> = Vec::new(); // permissions to set before the calls
    let mut place = String::new();
    let mut leftovers_possible = false;
    match ctx.kind {
        "enumerate" => {
            let t = table(rng);
            let per = (t.len() + 65) / 66;
            let from = (ctx.idx as usize * per).min(t.len());
            for (n, f) in t[from..(from + per).min(t.len())].iter().enumerate() {
                calls.push(new_call(rng, n, |r, d| f(r, d)));
            }
            ctx.obs.add("single_faults", calls.len() as u64);
        }
        "random" => {
            let n = 1 + rng.below(10);
            for k in 0..n {
                let mut c = new_call(rng, k, |r, d| rand_plan(r, d, false));
                match rng.below(10) {
                    0 | 1 => c.dir = Ok(1),
                    2 => {
                        c.dir = Err(*rng.pick(&["unset", "notutf8", "empty"]));
                        c.reached = false;
                        c.plan.expect = Expect::Error(if c.dir == Err("unset") { Some("SolverNotFound") } else { None });
                    }
                    _ => (),
                }
                calls.push(c);
            }
            // the last one may take the scratch directory away
            if rng.chance(0.1) {
                calls.push(new_call(rng, n, |r, d| {
                    let mut p = good(r, d);
                    p.remove_tmp = true;
                    p.expect = Expect::Error(None);
                    p.what = "scratch directory removed by the solver".into();
                    p
                }));
            }
        }
        "together" => {
            threads = 2 + rng.below(7);
            processes = 1 + rng.below(3);
            let n = threads * (1 + rng.below(3));
            for k in 0..n * processes {
                let mut c = new_call(rng, k, |r, d| rand_plan(r, d, false));
                if rng.chance(0.5) {
                    c.plan.delay = rng.below(30) as u64;
                }
                if rng.chance(0.1) {
                    let (na, nb) = (rng.below(6000), rng.below(6000));
                    c.sizes = Some((na, nb));
                    c.plan = rand_plan(rng, na.max(nb).max(1), false);
                }
                calls.push(c);
            }
        }
        "full" => {
            // a matrix file holds 16 + 4 dim + 12 entries bytes
            let (na, nb) = (rng.below(300), rng.below(300));
            let dim = na.max(nb).max(1);
            let (la, lb) = ((16 + 4 * dim + 12 * na) as u64, (16 + 4 * dim + 12 * nb) as u64);
            let lim = match rng.below(6) {
                0 => la,
                1 => lb,
                2 => la.max(lb),
                3 => la.min(lb) - 1,
                4 => la.max(lb) - 1,
                _ => rng.below(la.max(lb) as usize + 40) as u64,
            };
            fsize = Some(lim);
            for k in 0..1 + rng.below(3) {
                let mut c = new_call(rng, k, |_, _| unreachable_plan());
                c.sizes = Some((na, nb));
                c.plan = good(rng, dim);
                if la > lim || lb > lim {
                    c.reached = false;
                    c.plan.expect = Expect::Error(None);
                }
                calls.push(c);
            }
            place = format!("file size limit {} for files of {} and {}", lim, la, lb);
        }
        _ => {
            let mut kind = Some(None);
            let a = root.join("a");
            let mut reached = false;
            let mut keep_ok = false;
            let which = rng.below(14);
            match which {
                0 => {
                    place = "no mpiexec".into();
                    s.path = root.join("b").to_str().unwrap().into();
                    kind = Some(Some("FailedToExecute"));
                }
                1 => {
                    place = "mpiexec not executable".into();
                    std::fs::write(root.join("mpiexec"), b"#!/bin/sh\nexit 0\n").unwrap();
                    open_up(&root.join("mpiexec"), 0o644);
                    s.path = root.to_str().unwrap().into();
                    kind = Some(Some("FailedToExecute"));
                }
                2 => {
                    place = "mpiexec is not a program".into();
                    std::fs::write(root.join("mpiexec"), b"\x7fELFgarbage").unwrap();
                    open_up(&root.join("mpiexec"), 0o755);
                    s.path = root.to_str().unwrap().into();
                }
                3 => {
                    place = "no scratch directory".into();
                    std::fs::remove_dir_all(a.join("tmp")).unwrap();
                }
                4 => {
                    place = "scratch directory is a file".into();
                    std::fs::remove_dir_all(a.join("tmp")).unwrap();
                    std::fs::write(a.join("tmp"), b"file").unwrap();
                }
                5 => {
                    place = "scratch directory not writable".into();
                    after.push((a.join("tmp"), 0o555));
                }
                6 => {
                    place = "scratch directory not accessible".into();
                    after.push((a.join("tmp"), 0o444));
                }
                7 => {
                    place = "solver directory not accessible".into();
                    after.push((a.clone(), 0o000));
                }
                8 => {
                    place = "solver directory is a file".into();
                    std::fs::remove_dir_all(&a).unwrap();
                    std::fs::write(&a, b"file").unwrap();
                }
                9 => {
                    place = "solver directory missing".into();
                    std::fs::remove_dir_all(&a).unwrap();
                }
                10 => {
                    place = "variable not set".into();
                    kind = Some(Some("SolverNotFound"));
                }
                11 => place = "variable not UTF-8".into(),
                12 => {
                    place = "scratch directory removed by the solver".into();
                    reached = true;
                }
                _ => {
                    place = "scratch directory locked by the solver".into();
                    reached = true;
                    keep_ok = true;
                }
            }
            let n = if reached { 1 } else { 1 + rng.below(3) };
            for k in 0..n {
                let mut c = new_call(rng, k, |r, d| good(r, d));
                c.reached = reached;
                c.plan.expect = Expect::Error(kind.unwrap());
                match which {
                    10 => c.dir = Err("unset"),
                    11 => c.dir = Err("notutf8"),
                    12 => c.plan.remove_tmp = true,
                    13 => c.plan.lock_tmp = true,
                    _ => (),
                }
                calls.push(c);
            }
            if !root_user && (5..8).contains(&which) {
                after.clear();
            }
            if n > 1 && which != 10 && which != 11 && rng.chance(0.3) {
                threads = n;
            }
            leftovers_possible = keep_ok;
            ctx.obs.add(&format!("place: {}", place), 1);
        }
    }
    // two calls of a case never share a target
    {
        let mut seen = BTreeSet::new();
        for (n, c) in calls.iter_mut().enumerate() {
            while !seen.insert(key_of(c.te)) {
                c.te += 1000.0 + n as f64;
            }
        }
    }
    if calls.is_empty() {
        return Ok(());
    }
    // the same problem more than once
    if calls.len() > 1 && rng.chance(0.2) && calls[..2].iter().all(|c| c.sizes.is_none()) {
        let (p, q) = (calls[0].seed, calls[1].seed);
        if problem(p).a.dimension == problem(q).a.dimension {
            calls[1].seed = p;
        }
    }
    for c in &calls {
        if let Ok(i) = c.dir {
            let d = &s.dirs[i].join("plan");
            if d.is_dir() {
                std::fs::write(d.join(format!("{}.json", key_of(c.te))), plan_json(&c.plan).dump()).unwrap();
            }
        }
    }
    if s.root_user {
        own(root);
    }
    for (p, m) in &after {
        open_up(p, *m);
    }
    let desc = format!("{} {} threads {} processes {}: {:?}", ctx.kind, place, threads, processes, calls.iter().map(|c| format!("{} (target {}, dir {:?})", c.plan.what, c.te, c.dir)).collect::<Vec<_>>());
    let before: Vec<_> = [root.join("a"), root.join("b")].iter().map(|d| listing(d)).collect();

    // the calls
    let per = calls.len() / processes;
    let mut kids = Vec::new();
    for p in 0..processes {
        let part = if p + 1 == processes { &calls[p * per..] } else { &calls[p * per..(p + 1) * per] };
        let mut spec = object! { "threads": threads, "calls": part.iter().map(|c| call_json(c, &s)).collect::<Vec<_>>() };
        if let Some(n) = fsize {
            spec["fsize"] = n.into();
        }
        let f = ctx.scratch.join(format!("{}_{}_spec{}", root.file_name().unwrap().to_string_lossy(), ctx.idx, p));
        std::fs::write(&f, spec.dump()).unwrap();
        open_up(&f, 0o644);
        let outf = f.with_extension("out");
        let mut c = Command::new(bindir.join("fem-monitor"));
        c.arg("--c17-child").arg(&f).env_remove("GEP_SOLVE_DIR").env("PATH", &s.path).current_dir("/").stdin(Stdio::null());
        c.stdout(Stdio::from(std::fs::File::create(&outf).unwrap())).stderr(Stdio::null());
        // file size limits are for the library's files: output through a pipe
        if fsize.is_some() {
            c.stdout(Stdio::piped());
        }
        if s.root_user {
            c.uid(NOBODY).gid(NOBODY);
        }
        let k = c.spawn().map_err(|e| Violation { sig: "harness".into(), msg: format!("cannot start the calling process: {}", e) });
        kids.push((k.unwrap_or_else(|v| panic!("{}", v.msg)), f, outf, p * per));
    }
    let start = Instant::now();
    let mut answers: BTreeMap<usize, JsonValue> = BTreeMap::new();
    for (mut k, f, outf, base) in kids {
        let status = loop {
            if let Some(st) = k.try_wait().unwrap() {
                break Some(st);
            }
            if start.elapsed() > Duration::from_secs(75) {
                let _ = k.kill();
                let _ = k.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        let text = if fsize.is_some() {
            let mut t = String::new();
            let _ = std::io::Read::read_to_string(k.stdout.as_mut().unwrap(), &mut t);
            t
        } else {
            std::fs::read_to_string(&outf).unwrap_or_default()
        };
        let _ = std::fs::remove_file(&f);
        let _ = std::fs::remove_file(&outf);
        let status = match status {
            Some(s) => s,
            None => return viol("hang", format!("{}: the calls did not come back within 75 s", desc)),
        };
        for l in text.lines() {
            if let Some(r) = l.strip_prefix("@@") {
                let (i, j) = r.split_once(' ').unwrap();
                answers.insert(base + i.parse::<usize>().unwrap(), json::parse(j).unwrap());
            }
        }
        ensure!(status.success(), "crash", "{}: the calling process ended with {}", desc, status);
    }
    for (p, _) in after.iter().rev() {
        open_up(p, 0o755);
    }
    for d in [root.join("a"), root.join("a/tmp")] {
        if leftovers_possible {
            open_up(&d, 0o755);
        }
    }

    // what the calls answered
    let mut prefixes: BTreeMap<String, usize> = BTreeMap::new();
    for (i, c) in calls.iter().enumerate() {
        let me = format!("{} | call {} ({})", desc, i, c.plan.what);
        let a = match answers.get(&i) {
            Some(a) => a,
            None => return viol("no-answer", format!("{}: no answer", me)),
        };
        ensure!(a["panic"].is_null(), "panic", "{}: panicked at {}", me, a["panic"]);
        match &c.plan.expect {
            Expect::Solution(v, vec) => {
                ensure!(a["err"].is_null(), "solution-refused", "{}: returned error {} ({})", me, a["err"], a["text"]);
                ensure!(a["value"].as_str() == Some(&format!("{:016x}", v)), "value", "{}: returned value {} where {:016x} was written", me, a["value"], v);
                let w = vec.iter().map(|x| format!("{:016x}", x)).collect::<Vec<_>>().join(" ");
                ensure!(a["vector"].as_str() == Some(&w), "vector", "{}: returned vector {} where {} was written", me, a["vector"], w);
                ctx.obs.add("solutions", 1);
            }
            Expect::Error(k) => {
                ensure!(!a["err"].is_null(), "bogus-solution", "{}: returned a solution with value {}", me, a["value"]);
                if let Some(k) = k {
                    ensure!(a["err"].as_str() == Some(*k), "error-kind", "{}: returned {} ({}), should be {}", me, a["err"], a["text"], k);
                }
                ctx.obs.add(&format!("error {}", a["err"]), 1);
            }
        }
        // what the solver was given
        let mut recs = Vec::new();
        for n in 0..4 {
            for d in ["a", "b"] {
                if let Ok(t) = std::fs::read_to_string(root.join(d).join("log").join(format!("{}.{}", key_of(c.te), n))) {
                    recs.push((d, json::parse(&t).unwrap()));
                }
            }
        }
        if !c.reached {
            ensure!(recs.is_empty(), "started", "{}: the solver was started", me);
            continue;
        }
        ensure!(recs.len() == 1, "starts", "{}: the solver was started {} times", me, recs.len());
        let (d, r) = &recs[0];
        let want_dir = ["a", "b"][*c.dir.as_ref().unwrap()];
        ensure!(*d == want_dir && Path::new(r["cwd"].as_str().unwrap()) == std::fs::canonicalize(root).unwrap().join(want_dir), "directory", "{}: the solver was run in {}", me, r["cwd"]);
        let args: Vec<&str> = r["args"].members().map(|x| x.as_str().unwrap()).collect();
        let at = args.iter().position(|x| *x == "./solve_gep");
        ensure!(at.is_some(), "arguments", "{}: arguments {:?} do not name the solver", me, args);
        let own = &args[at.unwrap() + 1..];
        let sets: BTreeMap<&str, &str> = own.chunks(2).map(|p| (p[0], *p.get(1).unwrap_or(&""))).collect();
        ensure!(own.len() == 4 && sets.get("-te") == Some(&key_of(c.te).as_str()) && sets.get("-fp") == Some(&r["prefix"].as_str().unwrap()), "arguments", "{}: arguments {:?}, target should be {}", me, args, key_of(c.te));
        let pre = &args[..at.unwrap()];
        ensure!(pre.windows(2).any(|w| w == ["-np", "1"] || w == ["-n", "1"]), "arguments", "{}: arguments {:?} do not ask for one process", me, args);
        let prefix = r["prefix"].as_str().unwrap().to_string();
        ensure!(!prefix.is_empty() && !prefix.contains('/'), "prefix", "{}: prefix {:?}", me, prefix);
        if let Some(o) = prefixes.insert(prefix.clone(), i) {
            return viol("shared-prefix", format!("{}: prefix {} was also used by call {}", me, prefix, o));
        }
        ensure!(r["changed"] == false, "matrices-changed", "{}: the matrix files changed while the solver ran", me);
        let g = match c.sizes {
            Some((a, b)) => sized_problem(c.seed, a, b),
            None => problem(c.seed),
        };
        for (w, m) in [("a", &g.a), ("b", &g.b)] {
            let h = r[w].as_str().unwrap();
            ensure!(!h.starts_with('!'), "matrices", "{}: the solver could not read matrix {}: {}", me, w, h);
            same_bits(m.dimension, &full_bits(m), &unhex(h), &format!("{}: matrix {} handed over", me, w))?;
        }
        ctx.obs.add("calls_reaching_the_solver", 1);
    }
    // what is left
    for (i, d) in [root.join("a"), root.join("b")].iter().enumerate() {
        let now = listing(d);
        let mut want = before[i].clone();
        let mut gone = false;
        for c in &calls {
            if c.dir == Ok(i) && c.reached {
                if let Some((n, b)) = &c.plan.other {
                    want.insert(format!("tmp/{}", n), hex(b));
                }
                gone |= c.plan.remove_tmp;
            }
        }
        if gone {
            want.retain(|k, _| k != "tmp" && !k.starts_with("tmp/"));
        }
        for (k, v) in &want {
            match now.get(k) {
                None => return viol("removed", format!("{}: unrelated {} is gone", desc, k)),
                Some(g) => {
                    let same = g == v || g.split(' ').next() == Some(v.as_str()) && !before[i].contains_key(k);
                    ensure!(same, "modified", "{}: unrelated {} changed from {} to {}", desc, k, v, g)
                }
            }
        }
        if !leftovers_possible {
            if let Some(k) = now.keys().find(|k| !want.contains_key(*k)) {
                return viol("left-behind", format!("{}: {} was left behind", desc, k));
            }
        }
        ctx.obs.add("files_kept", want.len() as u64);
    }
    let names: Vec<_> = std::fs::read_dir(root).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
    ensure!(names.iter().all(|n| ["a", "b", "mpiexec"].contains(&n.as_str())), "left-behind", "{}: beside the solver directory: {:?}", desc, names);
    ctx.obs.add("calls", calls.len() as u64);
    ctx.obs.max("calls_at_once", (threads * processes) as f64);
    if calls.iter().any(|c| c.reached) {
        ctx.nontrivial = Some(fnv(desc.as_bytes()));
    }
    ctx.sample = Some(desc);
    Ok(())
}

fn unreachable_plan() -> Plan {
    Plan { end: End::Exit(0), files: vec![], delay: 0, delete_inputs: false, remove_tmp: false, lock_tmp: false, other: None, expect: Expect::Error(None), what: String::new() }
}
