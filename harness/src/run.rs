//! Parent / worker runner: splits the cases of one check over processes, attributes
//! crashes and hangs to the running case, confirms them, and writes the evidence.

use crate::obs::Obs;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// specific cases, always run first; each with a label
    pub fixed: fn() -> Vec<(String, Value)>,
    pub make: fn(&mut Rng) -> Value,
    pub check: fn(&Value, &mut Obs) -> Result<(), String>,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// seconds without progress after which a case counts as hanging
    pub hang: u64,
}

pub const WORKERS: usize = 8;

static LAST_PANIC: Mutex<Option<(String, bool)>> = Mutex::new(None);

/// Message of a panic, and whether it arose in the monitor itself.
pub fn take_panic() -> Option<(String, bool)> {
    LAST_PANIC.lock().unwrap().take()
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let file = loc.map(|l| l.file().to_string()).unwrap_or_default();
        let own = file.starts_with("src/") && !msg.starts_with("MONITOR:");
        let line = loc.map(|l| l.line()).unwrap_or(0);
        *LAST_PANIC.lock().unwrap() = Some((format!("panicked at {file}:{line}: {msg}"), own));
    }));
}

/// Runs the code under test; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some((m, own)) = take_panic() {
                if own {
                    // a fault of the monitor: let it surface as such
                    *LAST_PANIC.lock().unwrap() = Some((m, own));
                    std::panic::resume_unwind(p);
                }
                Err(m)
            } else {
                Err("panicked".into())
            }
        }
    }
}

pub enum Outcome {
    Ok,
    Violation(String),
    Broken(String),
}

pub fn case(p: &Prop, seed: u64, index: usize, fixed: &[(String, Value)]) -> (String, Value) {
    if index < fixed.len() {
        return fixed[index].clone();
    }
    let mut r = Rng::derive(seed, p.id, index as u64);
    (format!("generated-{index}"), (p.make)(&mut r))
}

/// A generated case, in the form `one` reads.
pub fn show(p: &Prop, seed: u64, index: usize) -> Value {
    let (_, c) = case(p, seed, index, &(p.fixed)());
    json!({"property": p.id, "case": c})
}

pub fn run_case(p: &Prop, c: &Value, obs: &mut Obs) -> Outcome {
    let _ = take_panic();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(c, obs)));
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => Outcome::Violation(m),
        Err(_) => match take_panic() {
            Some((m, false)) => Outcome::Violation(m),
            Some((m, true)) => Outcome::Broken(m),
            None => Outcome::Broken("panic without message".into()),
        },
    }
}

fn on_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

fn total(p: &Prop, tier: &str) -> usize {
    if tier == "thorough" {
        p.thorough
    } else {
        p.quick
    }
}

fn limit_memory() {
    // a sanitizer reserves terabytes of address space
    if std::env::var_os("MONITOR_NO_LIMIT").is_some() {
        return;
    }
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 6 << 30,
            rlim_max: 6 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

pub fn worker(p: &Prop, tier: &str, seed: u64, w: usize, from: usize, budget: u64, dir: &Path) {
    limit_memory();
    install_hook();
    let fixed = (p.fixed)();
    let n = fixed.len() + total(p, tier);
    let started = Instant::now();
    let cur = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(false)
        .open(dir.join(format!("{w}.cur")))
        .unwrap();
    use std::os::unix::fs::FileExt;
    let mut obs = Obs::default();
    let mut violations: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut cases = 0u64;
    let mut broken = vec![];
    let mut stopped = false;
    on_stack(|| {
        let mut i = from;
        while i < n {
            if i % WORKERS != w {
                i += 1;
                continue;
            }
            if started.elapsed().as_secs() > budget {
                stopped = true;
                break;
            }
            cur.write_all_at(&(i as u64).to_le_bytes(), 0).unwrap();
            let (label, c) = match std::panic::catch_unwind(|| case(p, seed, i, &fixed)) {
                Ok(x) => x,
                Err(_) => {
                    broken.push(format!("generator: {:?}", take_panic()));
                    break;
                }
            };
            obs.interesting = false;
            cases += 1;
            match run_case(p, &c, &mut obs) {
                Outcome::Ok => {
                    if obs.interesting && samples.len() < 2 && i >= fixed.len() {
                        samples.push(json!({"case": label, "input": c}));
                    }
                }
                Outcome::Violation(m) => {
                    violations.push(json!({"label": label, "index": i, "case": c, "message": m}));
                    let unlabelled = violations
                        .iter()
                        .filter(|v| v["label"].as_str().unwrap().starts_with("generated-"))
                        .count();
                    if unlabelled >= 2 {
                        break;
                    }
                }
                Outcome::Broken(m) => {
                    broken.push(format!("case {label}: {m}"));
                    break;
                }
            }
            i += 1;
        }
    });
    let mut h: Vec<u8> = vec![];
    for x in &obs.nontrivial {
        h.extend(x.to_le_bytes());
    }
    std::fs::write(dir.join(format!("{w}.hash")), h).unwrap();
    let out = json!({
        "cases": cases,
        "evaluations": obs.evaluations,
        "counters": obs.counters,
        "violations": violations,
        "samples": samples,
        "broken": broken,
        "stopped_by_time": stopped,
    });
    let tmp = dir.join(format!("{w}.tmp"));
    std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
    std::fs::rename(&tmp, dir.join(format!("{w}.out"))).unwrap();
}

pub fn one(p: &Prop, file: &Path) -> i32 {
    limit_memory();
    install_hook();
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let c = v["case"].clone();
    let mut obs = Obs::default();
    let r = on_stack(|| run_case(p, &c, &mut obs));
    match r {
        Outcome::Ok => {
            println!("{}: held on this case", p.id);
            0
        }
        Outcome::Violation(m) => {
            println!("{}: violated: {m}", p.id);
            1
        }
        Outcome::Broken(m) => {
            println!("{}: the monitor failed: {m}", p.id);
            2
        }
    }
}

fn spawn(p: &Prop, tier: &str, seed: u64, w: usize, from: usize, budget: u64, dir: &Path) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", p.id, tier])
        .arg(seed.to_string())
        .arg(w.to_string())
        .arg(from.to_string())
        .arg(budget.to_string())
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(dir.join(format!("{w}.err"))).unwrap())
        .spawn()
        .unwrap()
}

fn read_cur(dir: &Path, w: usize) -> Option<usize> {
    let b = std::fs::read(dir.join(format!("{w}.cur"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize)
}

/// Seconds of processor time a process of ours has used. A machine that is busy with other things makes
/// a case take longer, but does not make it use more of this.
fn cpu_seconds(pid: u32) -> Option<f64> {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
    let ticks = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(ticks / 100.0)
}

/// Waits until the process ends, or has used so much processor time, or stood still for long.
fn wait_timeout(c: &mut Child, t: Duration) -> Option<std::process::ExitStatus> {
    let s = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return Some(st);
        }
        let used = cpu_seconds(c.id()).unwrap_or(f64::INFINITY);
        if s.elapsed() > t && (used > t.as_secs_f64() || s.elapsed() > t * 3) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

pub struct Known {
    pub label: String,
    pub text: String,
}

/// Lines `known: property=<id> case=<label> <what fails>`.
pub fn known(root: &Path, id: &str) -> Vec<Known> {
    let mut out = vec![];
    for l in std::fs::read_to_string(root.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
    {
        let Some(rest) = l.strip_prefix(&format!("known: property={id} case=")) else {
            continue;
        };
        let mut it = rest.splitn(2, ' ');
        out.push(Known {
            label: it.next().unwrap_or("").to_string(),
            text: it.next().unwrap_or("").to_string(),
        });
    }
    out
}

pub fn parent(p: &Prop, tier: &str, seed: u64, root: &Path) -> i32 {
    let t0 = Instant::now();
    let dir: PathBuf = root
        .join(".run")
        .join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let budget: u64 = std::env::var("MONITOR_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 780 } else { 330 });
    let fixed = (p.fixed)();
    let n = fixed.len() + total(p, tier);
    let mut kids: Vec<Option<(Child, Option<usize>, Instant, f64)>> = (0..WORKERS)
        .map(|w| {
            Some((
                spawn(p, tier, seed, w, 0, budget, &dir),
                None,
                Instant::now(),
                0.0,
            ))
        })
        .collect();
    let mut violations: Vec<Value> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut confirmed = 0;
    let mut confirm = |i: usize, why: String, broken: &mut Vec<String>| -> bool {
        // a crash or hang of the process: re-run the case alone
        let (label, c) = case(p, seed, i.min(n - 1), &fixed);
        let f = dir.join(format!("confirm-{i}.json"));
        std::fs::write(
            &f,
            serde_json::to_vec(&json!({"property": p.id, "case": c})).unwrap(),
        )
        .unwrap();
        let mut k = Command::new(std::env::current_exe().unwrap())
            .args(["one", p.id])
            .arg(&f)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let st = wait_timeout(&mut k, Duration::from_secs(p.hang * 2));
        let verdict = match st {
            None => Some(format!("did not finish within {} s", p.hang * 2)),
            Some(s) => match s.code() {
                Some(1) => Some("violated on re-run".to_string()),
                Some(66) => Some("ThreadSanitizer reported a data race".to_string()),
                Some(_) => None,
                None => Some(format!("the process was ended by {s}")),
            },
        };
        match verdict {
            Some(v) => {
                violations.push(
                    json!({"label": label, "index": i, "case": c, "message": format!("{why}; alone: {v}")}),
                );
                true
            }
            None => {
                broken.push(format!("case {label}: {why}, not reproduced alone"));
                false
            }
        }
    };
    loop {
        let mut alive = false;
        for w in 0..WORKERS {
            let Some((k, last, since, since_cpu)) = &mut kids[w] else {
                continue;
            };
            if confirmed >= 2 {
                alive = true;
                break;
            }
            match k.try_wait().unwrap() {
                Some(st) => {
                    if !dir.join(format!("{w}.out")).exists() {
                        let i = read_cur(&dir, w).unwrap_or(w);
                        let err = std::fs::read_to_string(dir.join(format!("{w}.err")))
                            .unwrap_or_default();
                        let err: String = err.trim().chars().take(200).collect();
                        confirmed +=
                            confirm(i, format!("process ended with {st} {err}"), &mut broken)
                                as usize;
                    }
                    kids[w] = None;
                }
                None => {
                    let cur = read_cur(&dir, w);
                    let still = || {
                        let cpu = cpu_seconds(k.id()).unwrap_or(f64::INFINITY) - *since_cpu;
                        let wall = since.elapsed().as_secs();
                        wall > p.hang && (cpu > p.hang as f64 || wall > 4 * p.hang)
                    };
                    if cur != *last {
                        *last = cur;
                        *since = Instant::now();
                        *since_cpu = cpu_seconds(k.id()).unwrap_or(0.0);
                    } else if still() {
                        let _ = k.kill();
                        let _ = k.wait();
                        let i = cur.unwrap_or(w);
                        // one confirmed hang is enough, two crashes are
                        confirmed +=
                            2 * confirm(i, format!("no progress for {} s", p.hang), &mut broken)
                                as usize;
                        kids[w] = None;
                        continue;
                    }
                    alive = true;
                }
            }
        }
        if confirmed >= 2 && alive {
            // enough is known; the other workers may stand still as well
            for k in kids.iter_mut().filter_map(|k| k.as_mut()) {
                let _ = k.0.kill();
                let _ = k.0.wait();
            }
            break;
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    drop(confirm);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let (mut evaluations, mut cases, mut stopped) = (0, 0, false);
    for w in 0..WORKERS {
        let Ok(b) = std::fs::read(dir.join(format!("{w}.out"))) else {
            continue;
        };
        let v: Value = serde_json::from_slice(&b).unwrap();
        evaluations += v["evaluations"].as_u64().unwrap_or(0);
        cases += v["cases"].as_u64().unwrap_or(0);
        stopped |= v["stopped_by_time"] == true;
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            let n = n.as_u64().unwrap_or(0);
            let c = counters.entry(k.clone()).or_insert(0);
            *c = if k.starts_with("max ") {
                (*c).max(n)
            } else {
                *c + n
            };
        }
        violations.extend(v["violations"].as_array().cloned().unwrap_or_default());
        samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        broken.extend(
            v["broken"]
                .as_array()
                .into_iter()
                .flatten()
                .filter_map(|x| x.as_str().map(String::from)),
        );
        if let Ok(h) = std::fs::read(dir.join(format!("{w}.hash"))) {
            for c in h.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    samples.sort_by_key(|s| s.to_string().len());
    samples.truncate(2);
    let known = known(root, p.id);
    let mut reported: Vec<&Value> = vec![];
    let mut found: Vec<&Known> = vec![];
    for v in &violations {
        let label = v["label"].as_str().unwrap_or("");
        match known.iter().find(|k| k.label == label) {
            Some(k) => found.push(k),
            None => reported.push(v),
        }
    }
    let mut cov = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": p.rule,
        "samples": if samples.is_empty() { fixed.iter().take(1).map(|f| json!({"case": f.0, "input": f.1})).collect() } else { samples },
        "cases": cases,
        "specific_cases": fixed.len(),
        "observed": counters,
        "worker_processes": WORKERS,
        "stopped_by_time_limit": stopped,
        "known_findings_seen": found.len(),
    });
    if let Some(extra) = std::env::var("MONITOR_EXTRA")
        .ok()
        .filter(|s| !s.is_empty())
    {
        cov["additional_runs"] = serde_json::from_str(&extra).unwrap_or(Value::String(extra));
    }
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": reported.len() + std::env::var("MONITOR_EXTRA").map_or(0, |x| x.matches("\"violated\"").count()),
    });
    std::fs::create_dir_all(root.join("evidence")).unwrap();
    std::fs::write(
        root.join("evidence").join(format!("{}.json", p.id)),
        serde_json::to_vec_pretty(&ev).unwrap(),
    )
    .unwrap();
    let mut out = std::io::stdout().lock();
    for k in &found {
        let _ = writeln!(
            out,
            "KNOWN-FINDING: property={} case={} {}",
            p.id, k.label, k.text
        );
    }
    let _ = writeln!(
        out,
        "{}: {tier} seed {seed}: {cases} cases, {evaluations} evaluations, {} distinct non-trivial, {:.1} s{}",
        p.id,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        if stopped { " (stopped by time)" } else { "" }
    );
    if let Some(v) = reported.iter().min_by_key(|v| v["case"].to_string().len()) {
        let rd = root.join("replays");
        std::fs::create_dir_all(&rd).unwrap();
        let name: String = v["label"]
            .as_str()
            .unwrap_or("x")
            .chars()
            .map(|c| match c {
                'a'..='z' | 'A'..='Z' | '0'..='9' | '-' | '.' => c,
                _ => '_',
            })
            .take(80)
            .collect();
        let f = rd.join(format!("{}-{name}.json", p.id));
        let rep = json!({"property": p.id, "seed": seed, "tier": tier, "label": v["label"], "message": v["message"], "case": v["case"]});
        std::fs::write(&f, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        let m: String = v["message"]
            .as_str()
            .unwrap_or("")
            .chars()
            .take(2500)
            .collect();
        let _ = writeln!(
            out,
            "{} violating cases; the smallest ({}): {m}",
            reported.len(),
            v["label"]
        );
        let _ = writeln!(out, "VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if !broken.is_empty() {
        let _ = writeln!(out, "monitor fault: {}", broken.join("; "));
        return 2;
    }
    0
}
