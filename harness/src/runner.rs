//! Driver, workers, shrinking, replay and evidence.
use crate::util;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// What a check tells about the case it just evaluated.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    classes: BTreeMap<String, u64>,
    execs: Vec<(u64, bool)>,
    known: Vec<String>,
}
impl Obs {
    /// A violation: an error unless the known-findings file lists it under this key.
    pub fn finding(&mut self, key: &str, what: String) -> Result<(), String> {
        if known_findings().iter().any(|k| k == key) {
            if !self.known.iter().any(|k| k == key) {
                self.known.push(key.into());
            }
            Ok(())
        } else {
            Err(what)
        }
    }
    /// Marks the case as non-trivial (by the property's stated rule).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b
    }
    pub fn class(&mut self, s: &str) {
        *self.classes.entry(s.into()).or_insert(0) += 1
    }
    pub fn class_if(&mut self, b: bool, s: &str) {
        if b {
            self.class(s)
        }
    }
    /// Adds to a counter without touching the case count.
    pub fn count(&mut self, s: &str, n: u64) {
        *self.classes.entry(s.into()).or_insert(0) += n
    }
    /// One execution (fault point, crash point, corruption) within the case.
    pub fn exec(&mut self, key: &[u64], nontrivial: bool) {
        let b: Vec<u8> = key.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
        self.execs.push((util::fnv(&b), nontrivial))
    }
}

fn known_file() -> Vec<String> {
    let dir = std::env::var("FC_VERIF").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").into());
    let t = std::fs::read_to_string(Path::new(&dir).join("known_findings.txt")).unwrap_or_default();
    t.lines().filter(|l| l.starts_with("known: ")).map(|l| l["known: ".len()..].to_string()).collect()
}
/// Keys of the findings listed: lines `known: property=<id> key=<key> <text>`.
fn known_findings() -> &'static [String] {
    static ONCE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ONCE.get_or_init(|| known_file().iter().filter_map(|l| l.split_whitespace().find(|w| w.starts_with("key=")).map(|w| w[4..].to_string())).collect())
}
fn known_line(key: &str) -> String {
    known_file().into_iter().find(|l| l.split_whitespace().any(|w| w == format!("key={}", key))).unwrap_or_default()
}

pub type Check<C> = fn(&C, &mut Obs) -> Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Profiles {
    Both,
    Release,
    Checked,
}

pub struct Sub {
    name: &'static str,
    slots: u64,
    quick: u64,
    thorough: u64,
    profiles: Profiles,
    shards: usize,
    shrink: u32,
    foreign: (u64, u64),
    run: Box<dyn SubDyn>,
}
/// Machines cases are also run for, in the Miri interpreter: both big-endian, one of 64 and one of 32 bits.
const FOREIGN: [&str; 2] = ["s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu"];
const FOREIGN_SHARDS: usize = 2;
impl Sub {
    /// `quick`/`thorough` cases in total per profile.
    pub fn new<C>(name: &'static str, quick: u64, thorough: u64, strat: impl Fn() -> BoxedStrategy<C> + 'static, check: Check<C>) -> Sub
    where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    {
        Sub {
            name,
            slots: 1,
            quick,
            thorough,
            profiles: Profiles::Both,
            shards: 8,
            shrink: 3000,
            foreign: (0, 0),
            run: Box::new(SubT { strat: Box::new(move |_| strat()), check }),
        }
    }
    /// Enumerated sweep: `slots` points, `quick`/`thorough` cases for each of them.
    pub fn sweep<C>(name: &'static str, slots: u64, quick: u64, thorough: u64, strat: impl Fn(u64) -> BoxedStrategy<C> + 'static, check: Check<C>) -> Sub
    where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    {
        let mut s = Sub::new(name, quick, thorough, || unreachable!(), check);
        s.slots = slots;
        s.run = Box::new(SubT { strat: Box::new(strat), check });
        s
    }
    pub fn profiles(mut self, p: Profiles) -> Sub {
        self.profiles = p;
        self
    }
    pub fn shards(mut self, n: usize) -> Sub {
        self.shards = n;
        self
    }
    /// Cases (per target) that are also run for other machines.
    pub fn foreign(mut self, quick: u64, thorough: u64) -> Sub {
        self.foreign = (quick, thorough);
        self
    }
    pub fn shrink(mut self, n: u32) -> Sub {
        self.shrink = n;
        self
    }
}

trait SubDyn {
    fn run(&self, p: &RunParams, out: &mut WorkerOut);
    fn run_foreign(&self, p: &RunParams, total_slots: u64, m: &Miri, out: &mut WorkerOut);
    /// `None`: not a case on this machine
    fn replay(&self, case: &str, obs: &mut Obs) -> Option<Result<(), String>>;
}
struct RunParams {
    slots: Vec<u64>,
    cases: u32,
    seed: [u64; 4],
    isolate: bool,
    shrink: u32,
}
struct SubT<C> {
    strat: Box<dyn Fn(u64) -> BoxedStrategy<C>>,
    check: Check<C>,
}

#[derive(Default, Serialize, Deserialize)]
struct WorkerOut {
    evaluations: u64,
    nontrivial: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<(Value, String)>,
    #[serde(default)]
    known: std::collections::BTreeSet<String>,
    #[serde(skip)]
    hashes: HashSet<u64>,
}

/// A case takes milliseconds; one that computes this long never ends.
const CASE_SECONDS: u32 = 60;
/// Nor does one that waits this long, whatever else the machine is doing.
const CASE_WALL_FACTOR: u32 = 4;
/// Ends the process if it computes or waits too long; 0: no limit.
pub fn limit_time(cpu: u32) {
    unsafe {
        libc::alarm(cpu * CASE_WALL_FACTOR);
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: cpu as libc::time_t, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

fn eval<C>(check: Check<C>, case: &C, obs: &mut Obs) -> Result<(), String> {
    match util::catch(|| check(case, obs)) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    }
}
/// `seconds`: computing time allowed; small after a first case that did not end, while a simpler one is searched for.
fn eval_isolated<C>(check: Check<C>, case: &C, seconds: &mut u32) -> Result<(), String> {
    let limit = *seconds;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "harness: pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            libc::close(fds[0]);
            limit_time(limit);
            let r = eval(check, case, &mut Obs::default());
            let code = if let Err(m) = r {
                let m = m.as_bytes();
                libc::write(fds[1], m.as_ptr() as *const _, m.len().min(4000));
                1
            } else {
                0
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut f = <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(fds[0]);
        let mut m = vec![];
        let _ = f.read_to_end(&mut m);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(())
        } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 1 {
            Err(String::from_utf8_lossy(&m).into_owned())
        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGPROF {
            *seconds = 8;
            Err(format!("the case did not end within {} s of computing", limit))
        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
            *seconds = 8;
            Err(format!("the case did not end within {} s", limit * CASE_WALL_FACTOR))
        } else if libc::WIFSIGNALED(st) {
            Err(format!("process died from signal {}", libc::WTERMSIG(st)))
        } else {
            Err(format!("harness: child status {}", st))
        }
    }
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> SubDyn for SubT<C> {
    fn run(&self, p: &RunParams, out: &mut WorkerOut) {
        let check = self.check;
        for slot in &p.slots {
            let mut seed = [0u8; 32];
            let mut m = util::Mix(p.seed[0] ^ slot.wrapping_mul(0x5851_f42d_4c95_7f2d));
            for k in 0..4 {
                let v = m.next() ^ p.seed[k].rotate_left(k as u32 * 7);
                seed[k * 8..k * 8 + 8].copy_from_slice(&v.to_le_bytes());
            }
            let cfg = Config {
                cases: p.cases,
                failure_persistence: None,
                max_shrink_iters: p.shrink,
                max_shrink_time: 90_000,
                max_global_rejects: 1_000_000,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
            let strat = (self.strat)(*slot);
            let o = RefCell::new(&mut *out);
            let failed = RefCell::new(false);
            let isolate = p.isolate;
            let seconds = std::cell::Cell::new(CASE_SECONDS / 2);
            let r = runner.run(&strat, |case| {
                let mut obs = Obs::default();
                let r = if isolate {
                    let mut t = seconds.get();
                    let r = eval_isolated(check, &case, &mut t);
                    seconds.set(t);
                    r
                } else {
                    limit_time(CASE_SECONDS);
                    let r = eval(check, &case, &mut obs);
                    limit_time(0);
                    r
                };
                let mut o = o.borrow_mut();
                match r {
                    Ok(()) => {
                        if !*failed.borrow() {
                            record(&mut o, &case, obs);
                        }
                        Ok(())
                    }
                    Err(m) => {
                        *failed.borrow_mut() = true;
                        Err(TestCaseError::fail(m))
                    }
                }
            });
            match r {
                Ok(()) => {}
                Err(TestError::Fail(reason, case)) => {
                    out.failure = Some((serde_json::to_value(&case).unwrap(), reason.message().to_string()));
                    return;
                }
                Err(TestError::Abort(r)) => panic!("harness: proptest aborted: {}", r),
            }
        }
    }
    fn run_foreign(&self, p: &RunParams, total_slots: u64, m: &Miri, out: &mut WorkerOut) {
        let mut seed = [0u8; 32];
        for k in 0..4 {
            seed[k * 8..k * 8 + 8].copy_from_slice(&p.seed[k].to_le_bytes());
        }
        let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let mut mix = util::Mix(p.seed[0] ^ p.seed[2]);
        let fixed = (self.strat)(0);
        let text = |c: &C| serde_json::to_string(c).unwrap();
        let (mut cases, mut texts) = (vec![], vec![]);
        for _ in 0..p.cases {
            let tree = if total_slots == 1 { fixed.new_tree(&mut runner) } else { (self.strat)(mix.next() % total_slots).new_tree(&mut runner) };
            let tree = tree.expect("harness: generator");
            let t = text(&tree.current());
            if t.len() > 800 {
                *out.classes.entry("left out of other machines: too long".into()).or_insert(0) += 1;
            } else {
                texts.push(t);
                cases.push(tree);
            }
        }
        let mut start = 0;
        while start < cases.len() {
            let (done, end) = m.batch(&texts[start..]);
            for (k, d) in done.iter().enumerate() {
                match d {
                    Done::Ok(obs) => record(out, &cases[start + k].current(), obs()),
                    Done::Skip => *out.classes.entry("left out of other machines: no such numbers there".into()).or_insert(0) += 1,
                    Done::Fail(message) => {
                        let mut tree = cases.swap_remove(start + k);
                        out.failure = Some(simplify(&mut tree, message.clone(), m));
                        return;
                    }
                }
            }
            start += done.len();
            match end {
                End::All => {}
                End::Died(message) => {
                    let mut tree = cases.swap_remove(start);
                    out.failure = Some(simplify(&mut tree, message, m));
                    return;
                }
                End::Cannot(why) => {
                    *out.classes.entry(format!("left out of other machines: {}", why)).or_insert(0) += 1;
                    start += 1;
                }
                End::Stop(why) => {
                    *out.classes.entry(format!("left out of other machines: {}", why)).or_insert(0) += (cases.len() - start) as u64;
                    return;
                }
            }
        }
    }
    fn replay(&self, case: &str, obs: &mut Obs) -> Option<Result<(), String>> {
        let c: C = serde_json::from_str(case).ok()?;
        Some(eval(self.check, &c, obs))
    }
}
fn simplify<T: ValueTree>(tree: &mut T, mut message: String, m: &Miri) -> (Value, String)
where
    T::Value: Serialize,
{
    let t0 = Instant::now();
    let mut best = serde_json::to_value(tree.current()).unwrap();
    let mut more = tree.simplify();
    for _ in 0..60 {
        if !more || t0.elapsed().as_secs() > 100 {
            break;
        }
        let v = serde_json::to_value(tree.current()).unwrap();
        let failed = match m.batch(&[v.to_string()]) {
            (d, _) if d.len() == 1 => match d.into_iter().next() {
                Some(Done::Fail(e)) => Some(e),
                _ => None,
            },
            (_, End::Died(e)) => Some(e),
            _ => None,
        };
        more = if let Some(e) = failed {
            best = v;
            message = e;
            tree.simplify()
        } else {
            tree.complicate()
        };
    }
    (best, message)
}

/// Runs cases of a sub in the interpreter.
struct Miri {
    id: &'static str,
    sub: &'static str,
    target: String,
    file: PathBuf,
    until: Instant,
}
enum Done {
    Ok(Box<dyn Fn() -> Obs>),
    Skip,
    Fail(String),
}
enum End {
    All,
    /// while evaluating the next one
    Died(String),
    /// the interpreter cannot do what the next one takes
    Cannot(String),
    Stop(String),
}
impl Miri {
    /// Whether the interpreter is there and the harness is built for it (by check.sh, meanwhile).
    fn ready(&self) -> Result<(), String> {
        let flag = PathBuf::from(std::env::var("FC_SCRATCH").unwrap()).join(format!("miri-{}", self.target));
        if std::env::var("FC_MIRI").is_err() {
            return Err("the interpreter is not set up".into());
        }
        loop {
            match std::fs::read_to_string(&flag) {
                Ok(s) if s.trim() == "ok" => return Ok(()),
                Ok(s) if s.trim() == "failed" => return Err("not built for the interpreter".into()),
                _ if Instant::now() > self.until => return Err("the interpreter took too long to set up".into()),
                _ => std::thread::sleep(Duration::from_millis(200)),
            }
        }
    }
    /// What became of the first cases, and why it ended there.
    fn batch(&self, cases: &[String]) -> (Vec<Done>, End) {
        let left = self.until.saturating_duration_since(Instant::now());
        if left.as_secs() < 2 {
            return (vec![], End::Stop("no time".into()));
        }
        std::fs::write(&self.file, cases.join("\n")).expect("harness: cases");
        let err = self.file.with_extension("err");
        let res = self.file.with_extension("res");
        let mut child = Command::new(std::env::var("FC_MIRI").expect("FC_MIRI"))
            .args(&[self.target.as_str(), &self.id.to_lowercase(), "batch", self.sub])
            .arg(&self.file)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&res).expect("harness: res"))
            .stderr(std::fs::File::create(&err).expect("harness: err"))
            .spawn()
            .expect("harness: spawn");
        let mut late = false;
        let status = loop {
            if let Some(s) = child.try_wait().expect("harness: wait") {
                break s;
            }
            if Instant::now() > self.until {
                late = true;
                let _ = child.kill();
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let text = String::from_utf8_lossy(&std::fs::read(&res).unwrap_or_default()).into_owned();
        let mut done = vec![];
        for l in text.lines().filter(|l| l.starts_with('{')) {
            let v: Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => break,
            };
            done.push(if v["skip"] == true {
                Done::Skip
            } else if let Some(m) = v["fail"].as_str() {
                Done::Fail(m.to_string())
            } else {
                let (nt, classes, execs, known): (bool, BTreeMap<String, u64>, Vec<(u64, bool)>, Vec<String>) =
                    serde_json::from_value(v["ok"].clone()).expect("harness: batch");
                Done::Ok(Box::new(move || Obs { nontrivial: nt, classes: classes.clone(), execs: execs.clone(), known: known.clone() }))
            });
        }
        if done.len() >= cases.len() || done.iter().any(|d| if let Done::Fail(_) = d { true } else { false }) {
            return (done, End::All);
        }
        let e = std::fs::read_to_string(&err).unwrap_or_default();
        let line = e.lines().find(|l| l.starts_with("error") || l.contains("process didn't exit")).unwrap_or("").to_string();
        let end = if late {
            End::Stop("no time".into())
        } else if line.contains("Undefined Behavior") && ["memory access failed", "dangling", "uninitialized", "out-of-bounds"].iter().any(|w| line.contains(w)) {
            let at: Vec<&str> = e.lines().filter(|l| l.trim_start().starts_with("-->")).take(1).collect();
            End::Died(format!("{} {}", line, at.join(" ").trim()))
        } else if line.contains("aborted") || line.contains("abnormal termination") {
            End::Died(line)
        } else if line.starts_with("error: unsupported") || line.contains("Undefined Behavior") {
            End::Cannot(line.chars().take(120).collect())
        } else {
            End::Stop(format!("the interpreter ended: {:?} {}", status.code(), line.chars().take(120).collect::<String>()))
        };
        (done, end)
    }
}
/// batch <sub> <file>: evaluates the cases in the file one by one; this runs in the interpreter.
fn batch(p: &Prop, a: &[String]) {
    util::install_quiet_hook();
    let sub = p.subs.iter().find(|s| s.name == a[0]).expect("harness: sub");
    let text = std::fs::read_to_string(&a[1]).expect("harness: cases");
    for l in text.lines() {
        let mut obs = Obs::default();
        let r = match sub.run.replay(l, &mut obs) {
            None => json!({ "skip": true }),
            Some(Ok(())) => json!({ "ok": (obs.nontrivial, &obs.classes, &obs.execs, &obs.known) }),
            Some(Err(m)) => json!({ "fail": m }),
        };
        println!("{}", r);
    }
}

fn record<C: Serialize>(o: &mut WorkerOut, case: &C, obs: Obs) {
    let text = serde_json::to_string(case).unwrap();
    let h = util::fnv(text.as_bytes());
    if obs.execs.is_empty() {
        o.evaluations += 1;
        if obs.nontrivial {
            o.hashes.insert(h);
        }
    } else {
        for (k, nt) in &obs.execs {
            o.evaluations += 1;
            if *nt {
                o.hashes.insert(util::fnv(&[h.to_le_bytes(), k.to_le_bytes()].concat()));
            }
        }
        *o.classes.entry("programs".into()).or_insert(0) += 1;
    }
    o.known.extend(obs.known.iter().cloned());
    let nt = obs.nontrivial || obs.execs.iter().any(|e| e.1);
    if nt {
        o.nontrivial += 1;
        // keep a few, at exponentially spaced positions
        if o.samples.len() < 4 && o.nontrivial.is_power_of_two() && (text.len() < 1200 || o.samples.is_empty()) {
            let t: String = text.chars().take(1500).collect();
            let mut cls: Vec<_> = obs.classes.keys().cloned().collect();
            cls.truncate(12);
            o.samples.push(json!({ "case": t, "classes": cls }));
        }
    }
    for (k, v) in obs.classes {
        *o.classes.entry(k).or_insert(0) += v;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn main(p: Prop) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&p, &args[2..]),
        Some("replay") => replay(&p, &args[2..]),
        Some("batch") => batch(&p, &args[2..]),
        Some("nothing") => {}
        Some("driver") => {
            let code = driver(&p, &args[2..]);
            std::process::exit(code)
        }
        _ => {
            eprintln!("usage: driver <quick|thorough> <checked binary> | worker ... | replay <file>");
            std::process::exit(2)
        }
    }
}

fn limit_process() {
    unsafe {
        // a case that allocates without end must not take the machine with it
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 64 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        // nor may one keep more files open than are being written
        let files = libc::rlimit { rlim_cur: 200, rlim_max: 200 };
        libc::setrlimit(libc::RLIMIT_NOFILE, &files);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}
/// worker <sub> <shard> <nshards> <tier> <profile> <out> [isolate]
fn worker(p: &Prop, a: &[String]) {
    util::install_quiet_hook();
    if !FOREIGN.contains(&a[4].as_str()) {
        limit_process();
    }
    let sub = p.subs.iter().find(|s| s.name == a[0]).expect("harness: sub");
    let foreign = FOREIGN.contains(&a[4].as_str());
    let shard: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let thorough = a[3] == "thorough";
    let profile = &a[4];
    let isolate = a.get(6).map(|s| s == "isolate").unwrap_or(false);
    let cases = match (foreign, thorough) {
        (false, false) => sub.quick,
        (false, true) => sub.thorough,
        (true, false) => sub.foreign.0,
        (true, true) => sub.foreign.1,
    };
    let (slots, cases) = if sub.slots == 1 || foreign {
        (vec![0], (cases / n + if shard < cases % n { 1 } else { 0 }) as u32)
    } else {
        ((0..sub.slots).filter(|s| s % n == shard).collect(), cases as u32)
    };
    // A sweep covers the same points in both profiles with other values; the seed names all of it.
    let seed = [
        seed_env(),
        util::fnv(format!("{}/{}", p.id, sub.name).as_bytes()),
        if sub.slots == 1 || foreign { shard + 1 } else { 0 },
        util::fnv(profile.as_bytes()) ^ thorough as u64,
    ];
    let mut out = WorkerOut::default();
    if foreign {
        let seconds = std::env::var("FC_MIRI_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1800 } else { 150 });
        let mut m = Miri {
            id: p.id,
            sub: sub.name,
            target: a[4].clone(),
            file: PathBuf::from(format!("{}.cases", a[5])),
            until: Instant::now() + Duration::from_secs(300),
        };
        match m.ready() {
            Ok(()) => {
                m.until = Instant::now() + Duration::from_secs(seconds);
                sub.run.run_foreign(&RunParams { slots, cases, seed, isolate, shrink: sub.shrink }, sub.slots, &m, &mut out);
            }
            Err(why) => *out.classes.entry(format!("left out of other machines: {}", why)).or_insert(0) += u64::from(cases),
        }
    } else if cases > 0 {
        sub.run.run(&RunParams { slots, cases, seed, isolate, shrink: sub.shrink }, &mut out);
    }
    let mut f = std::fs::File::create(format!("{}.h", a[5])).expect("harness: out");
    let mut buf = vec![];
    for h in &out.hashes {
        buf.extend_from_slice(&h.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    std::fs::write(&a[5], serde_json::to_vec(&out).unwrap()).expect("harness: out");
}

fn replay(p: &Prop, a: &[String]) {
    util::install_quiet_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(&a[0]).expect("replay file")).unwrap();
    let sub = p.subs.iter().find(|s| s.name == v["sub"]).expect("harness: sub");
    if v["case"]["whole_shard"].is_u64() {
        // a death of the process that no single case reproduces: run the whole shard again
        let out = util::scratch_root().join("replay.json");
        std::fs::create_dir_all(util::scratch_root()).expect("harness: scratch");
        let st = Command::new(std::env::current_exe().unwrap())
            .args(&["worker", sub.name, &v["case"]["whole_shard"].to_string(), &sub.shards.to_string()])
            .args(&[v["tier"].as_str().unwrap(), v["profile"].as_str().unwrap(), out.to_str().unwrap()])
            .env("FC_SCRATCH", util::scratch_root())
            .status()
            .expect("harness: spawn");
        let _ = std::fs::remove_dir_all(util::scratch_root());
        if st.success() {
            println!("replay: the worker survived");
        } else {
            println!("VIOLATION property={} replay={}", p.id, a[0]);
            std::process::exit(1);
        }
        return;
    }
    let r = match v["profile"].as_str() {
        Some(t) if FOREIGN.contains(&t) => {
            let file = util::scratch_root().join("cases");
            let m = Miri { id: p.id, sub: sub.name, target: t.into(), file, until: Instant::now() + Duration::from_secs(600) };
            match m.ready().map(|_| m.batch(&[v["case"].to_string()])) {
                Ok((done, end)) => match (done.into_iter().next(), end) {
                    (Some(Done::Fail(e)), _) | (None, End::Died(e)) => Err(e),
                    (Some(Done::Ok(_)), _) => Ok(()),
                    (Some(Done::Skip), _) | (None, End::All) => panic!("harness: no case on that machine"),
                    (None, End::Cannot(e)) | (None, End::Stop(e)) => panic!("harness: {}", e),
                },
                Err(e) => panic!("harness: {}", e),
            }
        }
        _ => sub.run.replay(&v["case"].to_string(), &mut Obs::default()).expect("harness: replay file"),
    };
    let _ = std::fs::remove_dir_all(util::scratch_root());
    match r {
        Ok(()) => println!("replay: the property holds on this case"),
        Err(m) => {
            println!("replay: {}", m);
            println!("VIOLATION property={} replay={}", p.id, a[0]);
            std::process::exit(1);
        }
    }
}

struct Unit {
    sub: usize,
    shard: usize,
    profile: &'static str,
    bin: PathBuf,
    isolate: bool,
    out: PathBuf,
}

fn spawn(u: &Unit, p: &Prop, tier: &str, scratch: &Path) -> Child {
    let s = &p.subs[u.sub];
    let shards = if FOREIGN.contains(&u.profile) { FOREIGN_SHARDS } else { s.shards };
    let mut c = Command::new(&u.bin);
    c.args(&["worker", s.name, &u.shard.to_string(), &shards.to_string(), tier, u.profile, u.out.to_str().unwrap()]);
    if u.isolate {
        c.arg("isolate");
    }
    c.env("FC_SCRATCH", scratch).env("TMPDIR", scratch).env("VERIF_SEED", seed_env().to_string());
    c.env_remove("RUST_BACKTRACE");
    c.stdin(Stdio::null()).stdout(Stdio::null());
    c.stderr(std::fs::File::create(u.out.with_extension("err")).expect("harness: err file"));
    c.spawn().expect("harness: spawn")
}

fn driver(p: &Prop, a: &[String]) -> i32 {
    let t0 = Instant::now();
    let tier = a[0].as_str();
    let me = std::env::current_exe().unwrap();
    let checked = PathBuf::from(&a[1]);
    let verif = PathBuf::from(std::env::var("FC_VERIF").unwrap_or_else(|_| ".".into()));
    let only = std::env::var("FC_ONLY").ok();
    let scratch = PathBuf::from(std::env::var("FC_SCRATCH").expect("FC_SCRATCH"));
    std::fs::create_dir_all(&scratch).expect("harness: scratch");
    let limit = Duration::from_secs(std::env::var("FC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 14_400 } else { 780 }));

    let mut queue: Vec<Unit> = vec![];
    for (si, s) in p.subs.iter().enumerate() {
        if let Some(o) = &only {
            if !s.name.contains(o.as_str()) {
                continue;
            }
        }
        for shard in 0..s.shards {
            for prof in &["release", "checked"] {
                if (*prof == "release" && s.profiles == Profiles::Checked) || (*prof == "checked" && s.profiles == Profiles::Release) {
                    continue;
                }
                let bin = if *prof == "release" { me.clone() } else { checked.clone() };
                queue.push(Unit { sub: si, shard, profile: prof, bin, isolate: false, out: PathBuf::new() });
            }
        }
    }
    for shard in 0..FOREIGN_SHARDS {
        for (si, s) in p.subs.iter().enumerate() {
            if only.as_ref().map_or(false, |o| !s.name.contains(o.as_str())) || if tier == "thorough" { s.foreign.1 } else { s.foreign.0 } == 0 {
                continue;
            }
            for prof in &FOREIGN {
                queue.push(Unit { sub: si, shard, profile: prof, bin: me.clone(), isolate: false, out: PathBuf::new() });
            }
        }
    }
    queue.reverse();
    let mut running: Vec<(Child, Unit, Instant)> = vec![];
    let mut per: BTreeMap<(usize, &'static str), (u64, HashSet<u64>, f64)> = BTreeMap::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<usize, Vec<Value>> = BTreeMap::new();
    let mut failures: Vec<(usize, &'static str, usize, Value, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut known = std::collections::BTreeSet::new();
    let mut n = 0;
    let mut failed_at: Option<Instant> = None;
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    loop {
        while running.len() < workers && !queue.is_empty() && failures.len() < 3 && errors.is_empty() {
            let mut u = queue.pop().unwrap();
            n += 1;
            u.out = scratch.join(format!("out{}.json", n));
            let c = spawn(&u, p, tier, &scratch);
            running.push((c, u, Instant::now()));
        }
        if running.is_empty() {
            break;
        }
        let mut i = 0;
        let mut progressed = false;
        while i < running.len() {
            match running[i].0.try_wait().expect("harness: wait") {
                None => i += 1,
                Some(st) => {
                    progressed = true;
                    let (_, u, started) = running.swap_remove(i);
                    let s = &p.subs[u.sub];
                    use std::os::unix::process::ExitStatusExt;
                    let err = std::fs::read_to_string(u.out.with_extension("err")).unwrap_or_default();
                    if st.success() {
                        let o: WorkerOut = serde_json::from_slice(&std::fs::read(&u.out).expect("harness: out")).expect("harness: json");
                        let hs = std::fs::read(format!("{}.h", u.out.display())).unwrap_or_default();
                        let e = per.entry((u.sub, u.profile)).or_default();
                        e.0 += o.evaluations;
                        e.1.extend(hs.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])));
                        e.2 += started.elapsed().as_secs_f64();
                        for (k, v) in o.classes {
                            *classes.entry(format!("{}: {}", s.name, k)).or_insert(0) += v;
                        }
                        known.extend(o.known);
                        let sm = samples.entry(u.sub).or_default();
                        for x in o.samples {
                            if sm.len() < 3 {
                                sm.push(json!({ "sub": s.name, "profile": u.profile, "case": x }));
                            }
                        }
                        if let Some((case, msg)) = o.failure {
                            failures.push((u.sub, u.profile, u.shard, case, msg));
                        } else if u.isolate {
                            failures.push((
                                u.sub,
                                u.profile,
                                u.shard,
                                json!({ "whole_shard": u.shard }),
                                "worker process died from a signal; not reproduced case by case".into(),
                            ));
                        }
                    } else if let Some(sig) = st.signal() {
                        let fatal = [libc::SIGALRM, libc::SIGPROF, libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig);
                        if fatal && !u.isolate {
                            queue.push(Unit { isolate: true, out: PathBuf::new(), ..u });
                        } else {
                            errors.push(format!("{} shard {} ({}): killed by signal {} {}", s.name, u.shard, u.profile, sig, err));
                        }
                    } else {
                        errors.push(format!("{} shard {} ({}): exit {:?} {}", s.name, u.shard, u.profile, st.code(), err));
                    }
                }
            }
        }
        if failures.is_empty() {
            failed_at = None;
        } else if failed_at.is_none() {
            failed_at = Some(Instant::now());
        }
        // the others look for simpler cases of what may be the same failure
        if failed_at.map_or(false, |t| t.elapsed().as_secs() > 60) {
            for (c, ..) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            break;
        }
        if t0.elapsed() > limit {
            for (c, ..) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            errors.push("time limit reached".into());
            break;
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    let harness_failure = failures.iter().find(|f| f.4.starts_with("harness") || f.4.contains("panic: ") && f.4.contains("harness: "));
    if let Some(f) = harness_failure {
        errors.push(format!("{}: {}", p.subs[f.0].name, f.4));
    }

    let evaluations: u64 = per.values().map(|e| e.0).sum();
    let mut all: BTreeMap<usize, HashSet<u64>> = BTreeMap::new();
    for ((s, _), e) in &per {
        all.entry(*s).or_default().extend(e.1.iter());
    }
    let distinct: usize = all.values().map(|s| s.len()).sum();
    let subs: Vec<Value> = per
        .iter()
        .map(|((s, prof), e)| {
            json!({ "sub": p.subs[*s].name, "profile": prof, "evaluations": e.0, "distinct_nontrivial": e.1.len(), "cpu_s": (e.2 * 100.0).round() / 100.0 })
        })
        .collect();
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed_env(),
        "level": p.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples.values().flatten().take(12).collect::<Vec<_>>(),
            "classes": classes,
            "subchecks": subs,
        },
        "assumptions": p.assumptions,
        "known_findings": known.iter().map(|k| known_line(k)).collect::<Vec<_>>(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": failures.len(),
    });
    let evdir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("harness: evidence");

    if std::env::var("FC_VERBOSE").is_ok() {
        eprintln!("{}", serde_json::to_string_pretty(&ev["coverage"]["subchecks"]).unwrap());
        eprintln!("{}", serde_json::to_string_pretty(&ev["coverage"]["classes"]).unwrap());
    }
    failures.retain(|f| !(f.4.starts_with("harness") || f.4.contains("panic: ") && f.4.contains("harness: ")));
    for e in &errors {
        eprintln!("ERROR property={} {}", p.id, e);
    }
    if !errors.is_empty() && failures.is_empty() {
        return 2;
    }
    for k in &known {
        println!("KNOWN-FINDING: {}", known_line(k));
    }
    println!("{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s", p.id, evaluations, distinct, failures.len(), t0.elapsed().as_secs_f64());
    if failures.is_empty() {
        return 0;
    }
    failures.sort_by_key(|f| (f.0, f.4.contains("not reproduced case by case"), f.1, f.2));
    failures.dedup_by_key(|f| f.0);
    let rdir = verif.join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    for (k, (s, prof, shard, case, msg)) in failures.iter().enumerate() {
        let path = rdir.join(format!("{}-{}-{}.json", p.id, p.subs[*s].name, k));
        let v = json!({ "property": p.id, "sub": p.subs[*s].name, "profile": prof, "shard": shard, "seed": seed_env(), "tier": tier, "message": msg, "case": case });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("harness: replay");
        println!("{} [{}] {}", p.subs[*s].name, prof, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    1
}
