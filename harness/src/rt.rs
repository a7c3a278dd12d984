//! The monitoring runtime: a supervisor that starts worker processes over disjoint case ranges, a
//! worker that drives the real code while recording what the monitors observed, and the verdict rules.
//!
//! Verdicts are three-valued. exit 0: held on everything observed. exit 1: violated, with a witness
//! that is written to a replay file. exit 2: inconclusive (harness error, nothing observed, wall-clock
//! watchdog), never reported as a violation.
//!
//! A death of a worker (abort, stack overflow, memory explosion) or more than CPU_LIMIT_S seconds of
//! CPU time inside one call of the code under test counts as a violation only when the same case,
//! re-run alone, does it again while inside the code under test.

use crate::rng::{hash_bytes, Rng};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

extern "C" {
  fn dup2(a: i32, b: i32) -> i32;
}

pub const CPU_LIMIT_S: f64 = 20.0;
pub const RSS_LIMIT_MB: u64 = 3000;
pub const MAX_VIOLATIONS_PER_WORKER: usize = 4;

#[derive(Clone, Copy)]
pub struct Prop {
  pub id: &'static str,
  pub level: &'static str,
  /// how cases are made and which count as non-trivial
  pub rule: &'static str,
  pub quick: u64,
  pub thorough: u64,
  pub run: fn(&mut Cx),
  /// counters that must be non-zero, else the run observed nothing and is inconclusive
  pub required: &'static [&'static str],
  pub assumptions: &'static [&'static str],
}

/// Per-worker monitoring context.
pub struct Cx {
  pub prop: String,
  pub seed: u64,
  pub thorough: bool,
  pub idx: u64,
  pub rng: Rng,
  pub dir: PathBuf,
  pub counters: BTreeMap<String, u64>,
  pub hashes: HashSet<u64>,
  pub samples: Vec<Value>,
  pub violations: Vec<Value>,
  out: File,
  out_pos: u64,
  cur: Option<File>,
  viol: File,
  in_sut: Arc<AtomicU64>,
  pub node: Option<crate::node::Node>,
}

thread_local! {
  static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

impl Cx {
  pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n; }
  pub fn max(&mut self, k: &str, n: u64) {
    let e = self.counters.entry(format!("max_{}", k)).or_insert(0);
    if n > *e { *e = n }
  }
  /// A distinct non-trivial case, identified by its content.
  pub fn nontrivial(&mut self, content: &str) { self.hashes.insert(hash_bytes(content.as_bytes())); }
  pub fn sample(&mut self, v: impl FnOnce() -> Value) {
    if self.samples.len() < 2 { let v = v(); self.samples.push(v); }
  }
  /// Report a violation. `sig` is a stable description of what fails (used by known findings).
  pub fn violate(&mut self, sig: &str, detail: Value) {
    let mut text = detail.to_string();
    if text.len() > 60000 { text.truncate(0); }
    let v = json!({"property": self.prop, "signature": sig, "seed": self.seed, "case": self.idx,
      "tier": if self.thorough {"thorough"} else {"quick"},
      "witness": if text.is_empty() { json!("witness too large, replay the case") } else { detail }});
    writeln!(self.viol, "{}", v).unwrap();
    self.violations.push(v);
  }
  fn mark(&self, phase: u64) {
    if let Some(f) = &self.cur {
      let _ = f.write_all_at(format!("{:<20} {}\n", self.idx, phase).as_bytes(), 0);
    }
  }
  /// Run the code under test. Err carries the panic message.
  pub fn sut<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
    self.mark(1);
    self.in_sut.store(self.idx * 2 + 1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    self.in_sut.store(0, Ordering::SeqCst);
    self.mark(0);
    self.count("sut_calls", 1);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
  }
  /// As `sut`; a panic is a violation and gives None.
  pub fn must<T>(&mut self, what: &str, witness: impl FnOnce() -> Value, f: impl FnOnce() -> T) -> Option<T> {
    match self.sut(f) {
      Ok(v) => Some(v),
      Err(m) => {
        let w = witness();
        self.violate(&format!("panic in {}", what), json!({"panic": m, "input": w}));
        None
      }
    }
  }
  /// Everything the code under test printed (stdout and stderr) since the last call.
  pub fn printed(&mut self) -> String {
    let _ = std::io::stdout().flush();
    let mut s = Vec::new();
    self.out.seek(SeekFrom::Start(self.out_pos)).unwrap();
    self.out.read_to_end(&mut s).unwrap();
    self.out_pos += s.len() as u64;
    if self.out_pos > 4_000_000 {
      self.out.set_len(0).unwrap();
      self.out_pos = 0;
    }
    String::from_utf8_lossy(&s).into_owned()
  }
}

fn cpu_seconds() -> f64 {
  let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
  let rest = s.rsplit(')').next().unwrap_or("");
  let f: Vec<&str> = rest.split_whitespace().collect();
  if f.len() < 13 { return 0.0 }
  (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}

fn rss_mb() -> u64 {
  let s = fs::read_to_string("/proc/self/statm").unwrap_or_default();
  s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 / 1_000_000
}

fn copy_tree(from: &Path, to: &Path) {
  fs::create_dir_all(to).unwrap();
  for e in fs::read_dir(from).unwrap() {
    let e = e.unwrap();
    let p = e.path();
    if p.is_dir() { copy_tree(&p, &to.join(e.file_name())) }
    else { fs::copy(&p, to.join(e.file_name())).unwrap(); }
  }
}

/// The resource files the code under test opens relative to its working directory.
pub fn stage_resources(dir: &Path) {
  let repo = Path::new("/repo/src/tool");
  copy_tree(&repo.join("templates"), &dir.join("src/tool/templates"));
  fs::create_dir_all(dir.join("src/tool/syntaxis")).unwrap();
  for e in fs::read_dir(repo.join("syntaxis")).unwrap() {
    let p = e.unwrap().path();
    if p.extension().map_or(false, |x| x == "json") {
      fs::copy(&p, dir.join("src/tool/syntaxis").join(p.file_name().unwrap())).unwrap();
    }
  }
}

struct Args { prop: String, seed: u64, thorough: bool, shard: u64, shards: u64, start: u64, only: Option<u64>, repeat: u64, cases: u64, dir: PathBuf }

fn worker(props: &[Prop], a: Args) {
  let prop = props.iter().find(|p| p.id == a.prop).expect("unknown property");
  std::env::set_current_dir(&a.dir).unwrap();
  let out = OpenOptions::new().read(true).append(true).create(true).open(a.dir.join("sut.out")).unwrap();
  unsafe {
    dup2(out.as_raw_fd(), 1);
    dup2(out.as_raw_fd(), 2);
  }
  let out = OpenOptions::new().read(true).write(true).open(a.dir.join("sut.out")).unwrap();
  let in_sut = Arc::new(AtomicU64::new(0));
  let hook_flag = in_sut.clone();
  std::panic::set_hook(Box::new(move |i| {
    let m = format!("{}", i);
    if hook_flag.load(Ordering::SeqCst) == 0 { eprintln!("HARNESS PANIC {}", m); }
    LAST_PANIC.with(|p| *p.borrow_mut() = m);
  }));
  let flag = in_sut.clone();
  let dirc = a.dir.clone();
  std::thread::spawn(move || {
    let mut last = 0u64;
    let mut since = 0.0;
    loop {
      std::thread::sleep(Duration::from_millis(200));
      let now = flag.load(Ordering::SeqCst);
      let cpu = cpu_seconds();
      if now != last || now == 0 { last = now; since = cpu; }
      let why = if now != 0 && cpu - since > CPU_LIMIT_S { "hang" } else if rss_mb() > RSS_LIMIT_MB { "memory" } else { "" };
      if !why.is_empty() {
        let _ = fs::write(dirc.join("died"), why);
        std::process::exit(97);
      }
    }
  });
  let cur = OpenOptions::new().write(true).create(true).truncate(true).open(a.dir.join("cur")).unwrap();
  let viol = OpenOptions::new().append(true).create(true).open(a.dir.join("viol.jsonl")).unwrap();
  let mut cx = Cx {
    prop: a.prop.clone(), seed: a.seed, thorough: a.thorough, idx: 0, rng: Rng::new(0), dir: a.dir.clone(),
    counters: BTreeMap::new(), hashes: HashSet::new(), samples: vec![], violations: vec![], out, out_pos: 0,
    cur: Some(cur), viol, in_sut, node: None,
  };
  cx.printed();
  let run = prop.run;
  let cases: Vec<u64> = match a.only {
    Some(i) => vec![i; a.repeat as usize],
    None => (a.start..a.cases).filter(|i| i % a.shards == a.shard).collect(),
  };
  let mut done = 0u64;
  for i in cases {
    cx.idx = i;
    cx.rng = Rng::for_case(a.seed, &a.prop, i);
    cx.mark(0);
    run(&mut cx);
    done += 1;
    if cx.violations.len() >= MAX_VIOLATIONS_PER_WORKER { break }
  }
  cx.count("evaluations", done);
  let hashes: Vec<u64> = cx.hashes.iter().copied().collect();
  let res = json!({"counters": cx.counters, "hashes": hashes, "samples": cx.samples});
  fs::write(a.dir.join("result.json"), res.to_string()).unwrap();
}

enum Died { Ok, Killed { case: u64, in_sut: bool, why: String } }

fn spawn_worker(a: &Args) -> std::process::Child {
  fs::create_dir_all(&a.dir).unwrap();
  stage_resources(&a.dir);
  let mut c = Command::new(std::env::current_exe().unwrap());
  c.arg("worker").arg(&a.prop).arg(a.seed.to_string()).arg(if a.thorough { "thorough" } else { "quick" })
    .arg(a.shard.to_string()).arg(a.shards.to_string()).arg(a.start.to_string())
    .arg(a.only.map_or("-".to_string(), |x| x.to_string())).arg(a.repeat.to_string()).arg(a.cases.to_string()).arg(&a.dir)
    .stdin(Stdio::null()).stdout(Stdio::null())
    .stderr(File::create(a.dir.join("worker.err")).unwrap());
  c.spawn().unwrap()
}

fn classify(dir: &Path, st: std::process::ExitStatus) -> Died {
  if st.success() { return Died::Ok }
  let cur = fs::read_to_string(dir.join("cur")).unwrap_or_default();
  let mut it = cur.split_whitespace();
  let case = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
  let in_sut = it.next() == Some("1");
  let why = fs::read_to_string(dir.join("died")).ok()
    .unwrap_or_else(|| match st.signal() { Some(s) => format!("signal {}", s), None => format!("exit {:?}", st.code()) });
  Died::Killed { case, in_sut, why }
}

fn wait_deadline(c: &mut std::process::Child, deadline: Instant) -> Option<std::process::ExitStatus> {
  loop {
    if let Some(s) = c.try_wait().unwrap() { return Some(s) }
    if Instant::now() > deadline { let _ = c.kill(); let _ = c.wait(); return None }
    std::thread::sleep(Duration::from_millis(20));
  }
}

fn read_violations(dir: &Path) -> Vec<Value> {
  fs::read_to_string(dir.join("viol.jsonl")).unwrap_or_default().lines()
    .filter_map(|l| serde_json::from_str(l).ok()).collect()
}

fn known_findings() -> Vec<Value> {
  let p = verif_dir().join("known_findings.json");
  let v: Value = serde_json::from_str(&fs::read_to_string(p).unwrap_or_else(|_| "{}".into())).expect("known_findings.json");
  v["findings"].as_array().cloned().unwrap_or_default()
}

pub fn verif_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

/// Print the verdict lines, write the evidence, and give the exit code.
pub fn conclude(prop: &Prop, seed: u64, thorough: bool, start: Instant, counters: &BTreeMap<String, u64>, distinct: usize,
  samples: Vec<Value>, violations: Vec<Value>, inconclusive: Option<String>) -> i32 {
  let known = known_findings();
  let mut fresh: Vec<Value> = vec![];
  let mut hit: BTreeMap<String, String> = BTreeMap::new();
  for v in violations {
    let k = known.iter().find(|k| k["property"] == v["property"] && k["signature"] == v["signature"]);
    match k {
      Some(k) => { hit.insert(k["signature"].as_str().unwrap().into(), k["what"].as_str().unwrap_or("").into()); }
      None => fresh.push(v),
    }
  }
  for (sig, what) in hit.iter() { println!("KNOWN-FINDING: property={} {} [{}]", prop.id, what, sig); }
  fresh.sort_by_key(|v| v.to_string().len());
  let ev_dir = verif_dir().join("evidence");
  fs::create_dir_all(ev_dir.join("replays")).unwrap();
  let mut cov = Map::new();
  cov.insert("evaluations".into(), json!(counters.get("evaluations").copied().unwrap_or(0)));
  cov.insert("distinct_nontrivial".into(), json!(distinct));
  cov.insert("rule".into(), json!(prop.rule));
  cov.insert("samples".into(), json!(samples));
  let obs: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| k.as_str() != "evaluations").collect();
  cov.insert("observed".into(), json!(obs));
  if !hit.is_empty() { cov.insert("known_findings_seen".into(), json!(hit)); }
  if let Some(i) = &inconclusive { cov.insert("inconclusive".into(), json!(i)); }
  let ev = json!({"property": prop.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": prop.level,
    "coverage": cov, "assumptions": prop.assumptions, "wall_s": (start.elapsed().as_secs_f64()*100.0).round()/100.0, "violations": fresh.len()});
  fs::write(ev_dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
  if let Some(v) = fresh.first() {
    let rp = ev_dir.join("replays").join(format!("{}-{}-{}.json", prop.id, seed, v["case"]));
    let mut v = v.clone();
    v["replay_cmd"] = json!(format!("bash /verif/check.sh {} --replay {}", prop.id, rp.display()));
    fs::write(&rp, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    let w = v["witness"].to_string();
    println!("{} violation(s); first: {}", fresh.len(), v["signature"]);
    println!("witness: {}", w.chars().take(1500).collect::<String>());
    println!("VIOLATION property={} replay={}", prop.id, rp.display());
    return 1;
  }
  if let Some(i) = inconclusive { println!("INCONCLUSIVE property={} {}", prop.id, i); return 2 }
  for r in prop.required {
    if counters.get(*r).copied().unwrap_or(0) == 0 {
      println!("INCONCLUSIVE property={} the monitor observed no '{}' event", prop.id, r);
      return 2;
    }
  }
  println!("HELD property={} on {} executions, {} distinct non-trivial ({:.1}s); observed {}", prop.id,
    counters.get("evaluations").copied().unwrap_or(0), distinct, start.elapsed().as_secs_f64(), json!(obs));
  0
}

struct Scratch(PathBuf);
impl Drop for Scratch {
  fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); }
}

fn supervise(props: &[Prop], id: &str, seed: u64, thorough: bool, only: Option<u64>) -> i32 {
  let start = Instant::now();
  let prop = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { println!("unknown property {}", id); return 2 } };
  let scratch = Scratch(std::env::temp_dir().join(format!("mon-{}-{}", id, std::process::id())));
  fs::create_dir_all(&scratch.0).unwrap();
  let scale: f64 = std::env::var("MON_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
  let cases = (((if thorough { prop.thorough } else { prop.quick }) as f64) * scale).ceil() as u64;
  let shards: u64 = if only.is_some() { 1 } else { 8u64.min(cases.max(1)) };
  let deadline = start + Duration::from_secs(if thorough { 3000 } else { 780 });
  let mk = |shard: u64, from: u64, only: Option<u64>, name: String| Args {
    prop: id.into(), seed, thorough, shard, shards, start: from, only, repeat: 40, cases, dir: scratch.0.join(name) };
  let mut counters: BTreeMap<String, u64> = BTreeMap::new();
  let mut hashes: HashSet<u64> = HashSet::new();
  let mut samples: Vec<Value> = vec![];
  let mut violations: Vec<Value> = vec![];
  let mut inconclusive: Option<String> = None;
  let mut kids: Vec<(Args, std::process::Child)> = (0..shards).map(|s| {
    let a = mk(s, 0, only, format!("w{}", s));
    let c = spawn_worker(&a);
    (a, c)
  }).collect();
  let mut restarts = 0;
  while let Some((a, mut c)) = kids.pop() {
    let st = wait_deadline(&mut c, deadline);
    violations.extend(read_violations(&a.dir));
    let st = match st {
      None => { inconclusive = Some("wall-clock watchdog fired".into()); continue }
      Some(st) => st,
    };
    if let Ok(r) = fs::read_to_string(a.dir.join("result.json")) {
      let r: Value = serde_json::from_str(&r).unwrap();
      for (k, v) in r["counters"].as_object().unwrap() {
        let v = v.as_u64().unwrap();
        let e = counters.entry(k.clone()).or_insert(0);
        if k.starts_with("max_") { *e = (*e).max(v) } else { *e += v }
      }
      hashes.extend(r["hashes"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
      for s in r["samples"].as_array().unwrap() { if samples.len() < 4 { samples.push(s.clone()) } }
    }
    match classify(&a.dir, st) {
      Died::Ok => {}
      Died::Killed { case, in_sut, why } => {
        let err = fs::read_to_string(a.dir.join("sut.out")).unwrap_or_default();
        let tail: String = err.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect();
        if !in_sut {
          inconclusive = Some(format!("worker died outside the code under test at case {}: {} {}", case, why, tail));
          continue;
        }
        // confirm: the same case alone
        let b = mk(0, 0, Some(case), format!("confirm{}", case));
        let mut c2 = spawn_worker(&b);
        match wait_deadline(&mut c2, deadline).map(|s| classify(&b.dir, s)) {
          Some(Died::Killed { in_sut: true, why: why2, .. }) => {
            let sig = if why2 == "hang" { "does not terminate".to_string() } else { format!("process died: {}", why2) };
            violations.push(json!({"property": id, "signature": sig, "seed": seed, "case": case,
              "tier": if thorough {"thorough"} else {"quick"}, "witness": {"first": why, "again": why2, "output": tail}}));
          }
          other => {
            violations.extend(read_violations(&b.dir));
            let note = match other { None => "watchdog", _ => "not reproduced" };
            restarts += 1;
            if restarts > 3 || note == "watchdog" || only.is_some() {
              inconclusive = Some(format!("worker died once at case {} ({}), {}", case, why, note));
            } else {
              let n = mk(a.shard, case + 1, None, format!("w{}r{}", a.shard, restarts));
              let c = spawn_worker(&n);
              kids.push((n, c));
            }
          }
        }
      }
    }
  }
  conclude(prop, seed, thorough, start, &counters, hashes.len(), samples, violations, inconclusive)
}

pub fn cli(props: &[Prop]) -> i32 {
  let argv: Vec<String> = std::env::args().collect();
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  match argv.get(1).map(|s| s.as_str()) {
    Some("worker") => {
      let n = |i: usize| argv[i].parse::<u64>().unwrap();
      let a = Args { prop: argv[2].clone(), seed: n(3), thorough: argv[4] == "thorough", shard: n(5), shards: n(6), start: n(7),
        only: argv[8].parse().ok(), repeat: n(9), cases: n(10), dir: PathBuf::from(&argv[11]) };
      let p: Vec<Prop> = props.to_vec();
      let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(&p, a)).unwrap().join();
      match r {
        Ok(()) => 0,
        Err(_) => {
          let m = "harness panic";
          eprintln!("{}", m);
          98
        }
      }
    }
    Some("run") => {
      let id = &argv[2];
      let thorough = argv.get(3).map(|s| s.as_str()).unwrap_or(&tier) == "thorough";
      supervise(props, id, seed, thorough, None)
    }
    Some("replay") => {
      let v: Value = serde_json::from_str(&fs::read_to_string(&argv[2]).unwrap()).unwrap();
      supervise(props, v["property"].as_str().unwrap(), v["seed"].as_u64().unwrap(), v["tier"] == "thorough", v["case"].as_u64())
    }
    _ => { println!("usage: mon run <ID> [quick|thorough] | mon replay <file>"); 2 }
  }
}
