//! Runs the cases of a property in worker processes, shrinks and confirms
//! failures, and writes the evidence.
use crate::src::{hash_str, hash_u64s, mix, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Case {
    pub s: Src,
    pub trace: Vec<String>,
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub dir: PathBuf,
    pub thorough: bool,
}

impl Case {
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn log(&mut self, line: String) {
        if std::env::var_os("PT_LIVE").is_some() {
            eprintln!("{}", line.chars().take(200).collect::<String>());
        }
        if self.trace.len() < 5000 {
            // (the choices are the reproduction)
            let line = if line.len() > 4000 { format!("{}... ({} bytes)", line.chars().take(3000).collect::<String>(), line.len()) } else { line };
            self.trace.push(line);
        }
    }
}

pub type CaseFn = fn(&mut Case) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub workers: u64,
    /// The same choices give the same result.
    pub deterministic: bool,
    pub run: CaseFn,
    /// Known findings: signature, and the reproduction (true when it still fails).
    pub known: &'static [(&'static str, fn(&Path) -> bool)],
}

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if let Ok(mut p) = PANIC.lock() {
            if p.is_empty() {
                *p = format!("{} at {}", msg, loc);
            }
        }
        if std::env::var("PT_BACKTRACE").is_ok() {
            eprintln!("{} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
    }));
}

pub fn take_panic() -> String {
    PANIC.lock().map(|mut p| std::mem::take(&mut *p)).unwrap_or_default()
}

pub struct Outcome {
    pub err: Option<String>,
    pub case: Case,
}

pub fn run_case(p: &Prop, src: Src, dir: &Path, thorough: bool) -> Outcome {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("scratch directory");
    let mut case = Case { s: src, trace: vec![], classes: BTreeMap::new(), nontrivial: false, dir: dir.to_path_buf(), thorough };
    take_panic();
    let start = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut case)));
    if let (true, Some(f)) = (start.elapsed().as_secs() >= 4, std::env::var_os("PT_SLOW")) {
        let f = std::fs::OpenOptions::new().append(true).create(true).open(f);
        let _ = f.map(|mut f| writeln!(f, "{} took {:.1} s, {:?}", p.id, start.elapsed().as_secs_f64(), case.classes));
    }
    let err = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => Some(format!("panic: {}", take_panic())),
    };
    let _ = std::fs::remove_dir_all(dir);
    Outcome { err, case }
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed) ^ hash_str(id) ^ mix(idx.wrapping_mul(0x1000_0001)))
}

fn kind(msg: &str) -> String {
    msg.split(':').next().unwrap_or("").to_string()
}

/// Shrinks the choices while `fails` holds.
pub fn shrink(mut best: Vec<u64>, max_runs: usize, max_time: Duration, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let start = Instant::now();
    let mut runs = 0;
    let mut improved = true;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        runs += 1;
        match fails(cand) {
            Some(rec) if rec.len() < best.len() || (rec.len() == best.len() && rec.as_slice() < best.as_slice()) => {
                *best = rec;
                true
            }
            _ => false,
        }
    };
    let mut total = 0;
    while improved && total < max_runs && start.elapsed() < max_time {
        improved = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && total < max_runs && start.elapsed() < max_time {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                total += 1;
                if attempt(&c, &mut best) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && total < max_runs && start.elapsed() < max_time {
            let v = best[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    total += 1;
                    if attempt(&c, &mut best) {
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

pub fn base_dir() -> PathBuf {
    std::env::var("PT_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| {
        let d = std::env::temp_dir().join(format!("polodb-pt-{}", std::process::id()));
        d
    })
}

fn fail_json(p: &Prop, tier: &str, seed: u64, idx: u64, choices: Option<&[u64]>, o: Option<&Outcome>, msg: &str) -> Value {
    json!({
        "property": p.id, "tier": tier, "seed": seed, "idx": idx,
        "choices": choices, "message": msg,
        "trace": o.map(|o| o.case.trace.clone()),
        "how": "pt exec <this file> runs the case again",
    })
}

pub fn worker(p: &Prop, tier: &str, seed: u64, w: u64, n: u64, start: u64, total: u64, out: &Path, deadline: u64) {
    let t0 = Instant::now();
    let dir = base_dir().join(format!("w{}", w));
    let progress = out.join(format!("progress-{}", w));
    let thorough = tier == "thorough";
    let mut evals = 0u64;
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut idx = start;
    let mut stopped = false;
    while idx < total {
        if t0.elapsed().as_secs() > deadline {
            stopped = true;
            break;
        }
        std::fs::write(&progress, idx.to_string()).expect("progress");
        let o = run_case(p, Src::seeded(case_seed(seed, p.id, idx)), &dir, thorough);
        evals += 1;
        for (k, v) in &o.case.classes {
            *classes.entry(k.clone()).or_insert(0) += v;
        }
        if let Some(msg) = &o.err {
            let orig = o.case.s.rec.clone();
            let k = kind(msg);
            std::fs::write(out.join(format!("fail-{}.orig.json", w)), fail_json(p, tier, seed, idx, Some(&orig), Some(&o), msg).to_string()).unwrap();
            std::fs::write(&progress, "shrinking").expect("progress");
            let best = if p.deterministic {
                shrink(orig, 800, Duration::from_secs(45), |c| {
                    let o = run_case(p, Src::replay(c.to_vec()), &dir, thorough);
                    match o.err {
                        Some(m) if kind(&m) == k => Some(o.case.s.rec),
                        _ => None,
                    }
                })
            } else {
                orig
            };
            let fin = if p.deterministic { Some(run_case(p, Src::replay(best.clone()), &dir, thorough)) } else { None };
            let (m, o) = match &fin {
                Some(f) => (f.err.clone().unwrap_or(msg.clone()), f),
                None => (msg.clone(), &o),
            };
            std::fs::write(out.join(format!("fail-{}.json", w)), fail_json(p, tier, seed, idx, Some(&best), Some(o), &m).to_string()).unwrap();
            break;
        }
        if o.case.nontrivial {
            let h = hash_u64s(&o.case.s.rec);
            if hashes.insert(h) && samples.len() < 2 {
                let mut tr: Vec<String> = o.case.trace.iter().take(40).map(|l| l.chars().take(300).collect()).collect();
                if o.case.trace.len() > 40 {
                    tr.push(format!("... {} lines in all", o.case.trace.len()));
                }
                samples.push(json!({"case": idx, "trace": tr}));
            }
        }
        idx += n;
    }
    std::fs::write(&progress, "done").expect("progress");
    let v = json!({"evals": evals, "hashes": hashes, "classes": classes, "samples": samples, "stopped": stopped});
    let mut name = 0;
    while out.join(format!("stats-{}-{}.json", w, name)).exists() {
        name += 1;
    }
    std::fs::write(out.join(format!("stats-{}-{}.json", w, name)), v.to_string()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
}

/// Runs the case of a replay file. Some(message) when it fails.
pub fn exec_file(p: &Prop, v: &Value) -> Option<String> {
    let thorough = v["tier"] == "thorough";
    let src = match v["choices"].as_array() {
        Some(a) => Src::replay(a.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Src::seeded(case_seed(v["seed"].as_u64().unwrap(), p.id, v["idx"].as_u64().unwrap())),
    };
    let dir = base_dir().join("exec");
    let o = run_case(p, src, &dir, thorough);
    let _ = std::fs::remove_dir_all(base_dir());
    if std::env::var("PT_TRACE").is_ok() {
        for l in &o.case.trace {
            println!("{}", l);
        }
    }
    o.err
}

enum ExecResult {
    Pass,
    Fail(String),
    Crash(String),
    Hang,
}

fn exec_child(file: &Path, timeout: Duration) -> ExecResult {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(file)
        .env("PT_SCRATCH", base_dir().join("x"))
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut so = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            let text = reader.join().unwrap_or_default();
            return match st.code() {
                Some(0) => ExecResult::Pass,
                Some(3) => ExecResult::Fail(text.lines().find(|l| l.starts_with("FAIL ")).map(|l| l[5..].to_string()).unwrap_or_default()),
                _ => ExecResult::Crash(format!("crash: the process ended with {:?}", st)),
            };
        }
        if t0.elapsed() > timeout {
            let _ = child.kill();
            let _ = child.wait();
            return ExecResult::Hang;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("PT_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn known_lines() -> String {
    std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default()
}

pub fn run(p: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let base = base_dir();
    std::env::set_var("PT_SCRATCH", &base);
    let out = base.join("out");
    std::fs::create_dir_all(&out).expect("scratch");
    let total: u64 = std::env::var("PT_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let deadline: u64 = if tier == "thorough" { 6 * 3600 } else { 600 };
    let n = p.workers.min(total.max(1));
    let spawn = |w: u64, start: u64| {
        Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id, tier, &seed.to_string(), &w.to_string(), &n.to_string(), &start.to_string(), &total.to_string()])
            .arg(&out)
            .arg(deadline.to_string())
            .env("PT_SCRATCH", &base)
            .stdout(Stdio::null())
            .stderr(if std::env::var("PT_BACKTRACE").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker")
    };
    let mut violations: Vec<(Value, String)> = vec![];
    let mut notes: Vec<String> = vec![];
    struct W {
        w: u64,
        child: std::process::Child,
        last: String,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..n).map(|w| W { w, child: spawn(w, w), last: String::new(), since: Instant::now(), done: false }).collect();
    let mut restarts = 0;
    'poll: loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut all = true;
        for i in 0..ws.len() {
            if ws[i].done {
                continue;
            }
            all = false;
            let prog = std::fs::read_to_string(out.join(format!("progress-{}", ws[i].w))).unwrap_or_default();
            if prog != ws[i].last {
                ws[i].last = prog.clone();
                ws[i].since = Instant::now();
            }
            let status = ws[i].child.try_wait().expect("wait");
            let mut bad: Option<&str> = None;
            match status {
                Some(st) if st.success() => {
                    ws[i].done = true;
                    if out.join(format!("fail-{}.json", ws[i].w)).exists() {
                        break 'poll;
                    }
                }
                Some(_) => bad = Some("crash"),
                None => {
                    if ws[i].since.elapsed() > Duration::from_secs(150) {
                        let _ = ws[i].child.kill();
                        let _ = ws[i].child.wait();
                        bad = Some("hang");
                    }
                }
            }
            if let Some(what) = bad {
                // the case during which the worker was lost
                let orig = out.join(format!("fail-{}.orig.json", ws[i].w));
                if orig.exists() {
                    // lost while shrinking
                    std::fs::rename(&orig, out.join(format!("fail-{}.json", ws[i].w))).unwrap();
                    ws[i].done = true;
                    break 'poll;
                }
                let idx: u64 = ws[i].last.parse().unwrap_or(ws[i].w);
                let f = out.join(format!("lost-{}.json", ws[i].w));
                std::fs::write(&f, fail_json(p, tier, seed, idx, None, None, what).to_string()).unwrap();
                let r = exec_child(&f, Duration::from_secs(150));
                let msg = match r {
                    ExecResult::Pass => None,
                    ExecResult::Fail(m) | ExecResult::Crash(m) => Some(m),
                    ExecResult::Hang => Some("hang: the case did not end within 150 s".to_string()),
                };
                match msg {
                    Some(m) => {
                        let v = shrink_lost(p, tier, seed, idx, &m, &out);
                        violations.push((v, m));
                        ws[i].done = true;
                        break 'poll;
                    }
                    None => {
                        restarts += 1;
                        notes.push(format!("case {} was lost ({}) and passed when run again", idx, what));
                        if restarts > 5 {
                            ws[i].done = true;
                        } else {
                            let w = ws[i].w;
                            ws[i].child = spawn(w, idx + n);
                            ws[i].since = Instant::now();
                        }
                    }
                }
            }
        }
        if all {
            break;
        }
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    // confirm the failures in a fresh process
    for w in 0..n {
        let f = out.join(format!("fail-{}.json", w));
        if !violations.is_empty() || !f.exists() {
            continue;
        }
        let tries = if p.deterministic { 3 } else { 10 };
        let mut confirmed = None;
        'conf: for file in [f.clone(), out.join(format!("fail-{}.orig.json", w))] {
            if !file.exists() {
                continue;
            }
            for k in 0..tries {
                match exec_child(&file, Duration::from_secs(150)) {
                    ExecResult::Pass => {}
                    ExecResult::Fail(m) | ExecResult::Crash(m) => {
                        confirmed = Some((file.clone(), m, format!("failed again at run {} in a fresh process", k + 1)));
                        break 'conf;
                    }
                    ExecResult::Hang => {
                        confirmed = Some((file.clone(), "hang: the case did not end".into(), "hang".into()));
                        break 'conf;
                    }
                }
            }
        }
        let mut v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        match confirmed {
            Some((file, m, note)) => {
                if file != f {
                    v = serde_json::from_str(&std::fs::read_to_string(&file).unwrap()).unwrap();
                }
                v["confirmed"] = json!(note);
                violations.push((v, m));
            }
            None if !p.deterministic => {
                v["confirmed"] = json!("depends on the schedule: seen once");
                let m = v["message"].as_str().unwrap_or("").to_string();
                violations.push((v, m));
            }
            None => notes.push(format!("not reproduced, so not reported: {}", v["message"])),
        }
    }
    // evidence
    let mut evals = 0u64;
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut stopped = false;
    for e in std::fs::read_dir(&out).unwrap().flatten() {
        if e.file_name().to_string_lossy().starts_with("stats-") {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(e.path()).unwrap()).unwrap();
            evals += v["evals"].as_u64().unwrap();
            stopped |= v["stopped"].as_bool().unwrap();
            for h in v["hashes"].as_array().unwrap() {
                hashes.insert(h.as_u64().unwrap());
            }
            for (k, x) in v["classes"].as_object().unwrap() {
                *classes.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
            }
            for x in v["samples"].as_array().unwrap() {
                if samples.len() < 5 {
                    samples.push(x.clone());
                }
            }
        }
    }
    if stopped {
        notes.push(format!("stopped early by the time limit of {} s", deadline));
    }
    // known findings
    let known = known_lines();
    let mut findings = vec![];
    for (sig, f) in p.known {
        let dir = base.join("known");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        take_panic();
        let fails = catch_unwind(AssertUnwindSafe(|| f(&dir))).unwrap_or(true);
        let _ = std::fs::remove_dir_all(&dir);
        if !fails {
            notes.push(format!("known finding no longer reproduces: {}", sig));
            continue;
        }
        let line = format!("property={} {}", p.id, sig);
        if known.lines().any(|l| l.trim().starts_with(&line)) {
            println!("KNOWN-FINDING: {}", line);
            findings.push(line);
        } else {
            violations.push((json!({"property": p.id, "known_finding": sig}), format!("finding: {} (not listed in known_findings.txt)", sig)));
        }
    }
    let evidence = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "classes": classes,
            "samples": samples,
            "known_findings": findings,
            "notes": notes,
            "workers": n,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let ev = verif_dir().join("evidence");
    std::fs::create_dir_all(&ev).expect("evidence directory");
    std::fs::write(ev.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, {} violations", p.id, evals, hashes.len(), t0.elapsed().as_secs_f64(), violations.len());
    for x in &notes {
        println!("note: {}", x);
    }
    let _ = std::fs::remove_dir_all(&base);
    let mut code = 0;
    for (i, (v, m)) in violations.iter().enumerate() {
        let rd = verif_dir().join("replays");
        std::fs::create_dir_all(&rd).expect("replays");
        let f = rd.join(format!("{}-{}-{}-{}.json", p.id, tier, seed, i));
        std::fs::write(&f, serde_json::to_string_pretty(v).unwrap()).expect("replay");
        println!("{}", m.lines().next().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, f.display());
        code = 1;
    }
    let _ = std::io::stdout().flush();
    code
}

/// A case which ends or blocks its process: shrink it in child processes.
fn shrink_lost(p: &Prop, tier: &str, seed: u64, idx: u64, msg: &str, out: &Path) -> Value {
    let k = kind(msg);
    // the choices up to the failure, logged by the case itself
    let log = out.join("choices.log");
    let f = out.join("lost-rec.json");
    std::fs::write(&f, fail_json(p, tier, seed, idx, None, None, msg).to_string()).unwrap();
    std::env::set_var("PT_LOG", &log);
    let _ = exec_child(&f, Duration::from_secs(60));
    std::env::remove_var("PT_LOG");
    let choices: Vec<u64> = std::fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
    if choices.is_empty() || k == "hang" {
        return fail_json(p, tier, seed, idx, None, None, msg);
    }
    let cand = out.join("lost-cand.json");
    let best = shrink(choices, 200, Duration::from_secs(60), |c| {
        std::fs::write(&cand, fail_json(p, tier, seed, idx, Some(c), None, msg).to_string()).unwrap();
        match exec_child(&cand, Duration::from_secs(30)) {
            ExecResult::Fail(m) | ExecResult::Crash(m) if kind(&m) == k => Some(c.to_vec()),
            _ => None,
        }
    });
    fail_json(p, tier, seed, idx, Some(&best), None, msg)
}
