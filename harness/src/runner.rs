//! Parallel case runner: worker processes (so that a crash of compiled code is a result, not the
//! end of the check), shrinking, replay files and evidence.

use crate::{props, src::{Src, mix}};
use serde_json::json;
use std::{
    collections::{BTreeMap, HashSet},
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, Command, Stdio},
    sync::mpsc::{Receiver, RecvTimeoutError, channel},
    time::{Duration, Instant},
};

#[derive(Default)]
pub struct Info {
    /// Executions compared with the oracle.
    pub evals: u64,
    /// Hashes of the distinct non-trivial inputs exercised.
    pub nontrivial: Vec<u64>,
    /// Description of the case.
    pub desc: String,
    /// Counters reported in the evidence.
    pub tags: BTreeMap<&'static str, u64>,
}

impl Info {
    pub fn tag(&mut self, k: &'static str) {
        *self.tags.entry(k).or_default() += 1;
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed) ^ fnv(id.as_bytes()) ^ idx.wrapping_mul(0x9e3779b97f4a7c15))
}

fn run_case(id: &str, src: &mut Src, info: &mut Info) -> Result<(), String> {
    guarded(|| props::case(id, src, info))
}

fn guarded(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err(format!("panic: {m}"))
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// Runs one generated case as the first thing a process does.
pub fn in_child(id: &str, seed: u64, info: &mut Info) -> Result<(), String> {
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["one", id, &seed.to_string()])
        // Half of them in a program that does not export the builtins.
        .envs((seed & 1 == 0).then_some(("VP_HIDE_BUILTINS", "1")))
        .env_remove("VP_CHOICES")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let Some(v) = text.lines().find_map(|l| l.strip_prefix('\u{1}')).and_then(|l| serde_json::from_str::<serde_json::Value>(l).ok()) else {
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let cut = err.len().saturating_sub(600);
        return Err(format!("a fresh process running the history of seed {seed} ended with {:?}: {}", out.status, err.get(cut..).unwrap_or("")));
    };
    info.evals += v["evals"].as_u64().unwrap_or(0);
    info.nontrivial.extend(v["nt"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
    info.desc = format!("in a fresh process, seed {seed}:\n{}", v["desc"].as_str().unwrap_or(""));
    if v["ok"].as_bool() == Some(true) { Ok(()) } else { Err(v["msg"].as_str().unwrap_or("?").to_string()) }
}

/// The child of [`in_child`].
pub fn one(id: &str, seed: u64) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut src = Src::random(seed);
    let mut info = Info::default();
    let r = guarded(|| match id {
        "C15" => props::comp::history(&mut src, &mut info),
        _ => Err("no such history".into()),
    });
    let msg = json!({"ok": r.is_ok(), "msg": r.err().unwrap_or_default(), "evals": info.evals, "nt": info.nontrivial, "desc": info.desc});
    println!("\n\u{1}{msg}");
    0
}

/// Worker: reads `G <idx>` (generate) or `C <choices>` (replay) lines, answers `R …`.
pub fn serve(id: &str, seed: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let (kind, rest) = line.split_at(1);
        let rest = rest.trim();
        let mut src = match kind {
            "G" => Src::random(case_seed(seed, id, rest.parse().unwrap())),
            _ => Src::replay(rest.split_whitespace().map(|x| x.parse().unwrap()).collect()),
        };
        if let Some(p) = std::env::var_os("VP_CHOICES") {
            src.log = std::fs::File::create(p).ok();
        }
        let mut info = Info::default();
        let r = run_case(id, &mut src, &mut info);
        let choices = if r.is_err() { src.choices.clone() } else { vec![] };
        let msg = json!({
            "ok": r.is_ok(),
            "msg": r.err().unwrap_or_default(),
            "evals": info.evals,
            "nt": info.nontrivial,
            "desc": info.desc,
            "tags": info.tags,
            "choices": choices,
        });
        // The code under test may print; make our lines recognisable.
        let _ = writeln!(out, "\u{1}{msg}");
        let _ = out.flush();
    }
}

struct Worker {
    child: Child,
    stdin: Option<ChildStdin>,
    idx: u64,
    since: Instant,
}

fn spawn(id: &str, seed: u64, slot: usize, log: Option<&str>, tx: std::sync::mpsc::Sender<(usize, u32, Option<String>)>) -> Worker {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    if let Some(l) = log {
        cmd.env("VP_CHOICES", l);
    }
    let mut child = cmd
        .args(["serve", id, &seed.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let stdout = child.stdout.take().unwrap();
    let pid = child.id();
    std::thread::spawn(move || {
        for line in BufReader::new(stdout).lines() {
            match line {
                Ok(l) => {
                    if let Some(p) = l.find('\u{1}') {
                        let _ = tx.send((slot, pid, Some(l[p + 1..].to_string())));
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send((slot, pid, None));
    });
    let stdin = child.stdin.take();
    Worker { child, stdin, idx: 0, since: Instant::now() }
}

/// One replay process for shrinking and confirmation.
pub struct Replayer {
    id: String,
    seed: u64,
    w: Option<(Worker, Receiver<(usize, u32, Option<String>)>)>,
    pub timeout: Duration,
    log: String,
}

impl Replayer {
    pub fn new(id: &str, seed: u64) -> Self {
        Self { id: id.into(), seed, w: None, timeout: Duration::from_secs(60), log: format!("/verif/target/choices-{}-{id}", std::process::id()) }
    }
    /// The choices drawn by the last case run.
    pub fn drawn(&self) -> Vec<u64> {
        std::fs::read(&self.log)
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .collect()
    }
    /// `None` if the case passes, otherwise the failure message and description.
    pub fn run(&mut self, line: &str) -> Option<(String, String)> {
        if self.w.is_none() {
            let (tx, rx) = channel();
            self.w = Some((spawn(&self.id, self.seed, 0, Some(&self.log), tx), rx));
        }
        let (w, rx) = self.w.as_mut().unwrap();
        let _ = writeln!(w.stdin.as_mut().unwrap(), "{line}");
        let r = match rx.recv_timeout(self.timeout) {
            Ok((_, _, Some(l))) => {
                let v: serde_json::Value = serde_json::from_str(&l).unwrap();
                if v["ok"].as_bool().unwrap() {
                    return None;
                }
                return Some((v["msg"].as_str().unwrap().to_string(), v["desc"].as_str().unwrap().to_string()));
            }
            Ok((_, _, None)) | Err(RecvTimeoutError::Disconnected) => {
                let st = w.child.wait();
                Some((format!("process died: {}", st.map(|s| s.to_string()).unwrap_or_default()), String::new()))
            }
            Err(RecvTimeoutError::Timeout) => {
                let _ = w.child.kill();
                let _ = w.child.wait();
                Some((format!("no answer within {:?}", self.timeout), String::new()))
            }
        };
        self.w = None;
        r
    }
}

impl Drop for Replayer {
    fn drop(&mut self) {
        if let Some((mut w, _)) = self.w.take() {
            drop(w.stdin.take());
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
        let _ = std::fs::remove_file(&self.log);
    }
}

fn class(m: &str) -> String {
    m.split([':', '\n']).next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(40).collect()
}

fn line(c: &[u64]) -> String {
    let mut s = String::from("C");
    for x in c {
        s.push_str(&format!(" {x}"));
    }
    s
}

fn shrink(rep: &mut Replayer, mut cur: Vec<u64>, msg: &mut String, desc: &mut String, limit: Duration) -> Vec<u64> {
    let start = Instant::now();
    let want = class(msg);
    let mut attempt = |cand: &Vec<u64>, msg: &mut String, desc: &mut String| -> bool {
        match rep.run(&line(cand)) {
            Some((m, d)) if class(&m) == want => {
                *msg = m;
                *desc = d;
                true
            }
            _ => false,
        }
    };
    let over = |start: Instant| start.elapsed() > limit;
    let mut progress = true;
    while progress && !over(start) {
        progress = false;
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && !over(start) {
                let mut cand = cur.clone();
                cand.drain(i..(i + size).min(cur.len()));
                if attempt(&cand, msg, desc) {
                    cur = cand;
                    progress = true;
                } else if cur[i..(i + size).min(cur.len())].iter().any(|x| *x != 0) {
                    let mut cand = cur.clone();
                    let e = (i + size).min(cur.len());
                    cand[i..e].fill(0);
                    if attempt(&cand, msg, desc) {
                        cur = cand;
                        progress = true;
                    }
                    i += size;
                } else {
                    i += size;
                }
            }
            if size == 1 || over(start) {
                break;
            }
            size = (size / 2).max(1);
        }
        for i in 0..cur.len() {
            if over(start) {
                break;
            }
            for v in [1, cur[i] / 2, cur[i].saturating_sub(1)] {
                if v < cur[i] {
                    let mut cand = cur.clone();
                    cand[i] = v;
                    if attempt(&cand, msg, desc) {
                        cur = cand;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    cur
}

pub fn known_findings(id: &str) -> Vec<(String, String)> {
    // finding: property=<id> key=<key> <what fails>
    std::fs::read_to_string("/verif/known-findings.txt")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let r = l.strip_prefix(&format!("finding: property={id} key="))?;
            let (k, d) = r.split_once(' ').unwrap_or((r, ""));
            Some((k.to_string(), d.to_string()))
        })
        .collect()
}

pub fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let spec = props::plan(id);
    let (cases, budget) = match tier {
        "thorough" => (spec.quick_cases.saturating_mul(100), Duration::from_secs(600)),
        _ => (spec.quick_cases, Duration::from_secs(spec.quick_secs)),
    };
    let budget = std::env::var("VP_SECS").ok().and_then(|x| x.parse().ok()).map(Duration::from_secs).unwrap_or(budget);
    let cases = std::env::var("VP_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(cases);
    let nw = std::env::var("VP_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let (tx, rx) = channel();
    let mut workers: Vec<Option<Worker>> = (0..nw).map(|i| Some(spawn(id, seed, i, None, tx.clone()))).collect();
    let mut next = 0u64;
    let give = |w: &mut Worker, next: &mut u64| -> bool {
        if *next >= cases || t0.elapsed() > budget {
            drop(w.stdin.take());
            return false;
        }
        w.idx = *next;
        w.since = Instant::now();
        *next += 1;
        writeln!(w.stdin.as_mut().unwrap(), "G {}", w.idx).is_ok()
    };
    let mut active = 0;
    for w in workers.iter_mut().flatten() {
        if give(w, &mut next) {
            active += 1;
        }
    }
    let (mut done, mut evals) = (0u64, 0u64);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    // (idx, message, choices if known)
    let mut suspects: Vec<(u64, String, Vec<u64>, String)> = vec![];
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let known = known_findings(id);
    let hang = Duration::from_secs(spec.hang_secs);
    while active > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((slot, pid, Some(l))) => {
                if workers[slot].as_ref().map(|w| w.child.id()) != Some(pid) {
                    continue;
                }
                let v: serde_json::Value = serde_json::from_str(&l).unwrap();
                done += 1;
                evals += v["evals"].as_u64().unwrap();
                for h in v["nt"].as_array().unwrap() {
                    distinct.insert(h.as_u64().unwrap());
                }
                for (k, n) in v["tags"].as_object().unwrap() {
                    *tags.entry(k.clone()).or_default() += n.as_u64().unwrap();
                }
                let w = workers[slot].as_mut().unwrap();
                if v["ok"].as_bool().unwrap() {
                    if samples.len() < 6 && !v["nt"].as_array().unwrap().is_empty() {
                        samples.push(v["desc"].as_str().unwrap().to_string());
                    }
                } else {
                    let msg = v["msg"].as_str().unwrap().to_string();
                    if let Some((k, _)) = known.iter().find(|(k, _)| msg.contains(&format!("[{k}]"))) {
                        *known_hit.entry(k.clone()).or_default() += 1;
                    } else {
                        let ch = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                        suspects.push((w.idx, msg, ch, v["desc"].as_str().unwrap().to_string()));
                    }
                }
                if suspects.len() >= 3 {
                    break;
                }
                if !give(w, &mut next) {
                    active -= 1;
                }
            }
            Ok((slot, pid, None)) => {
                if workers[slot].as_ref().map(|w| w.child.id()) != Some(pid) {
                    continue;
                }
                let w = workers[slot].as_mut().unwrap();
                let st = w.child.wait();
                if w.stdin.is_none() {
                    // Finished normally after its input was closed.
                    workers[slot] = None;
                    continue;
                }
                suspects.push((w.idx, format!("process died: {}", st.map(|s| s.to_string()).unwrap_or_default()), vec![], String::new()));
                if suspects.len() >= 3 {
                    break;
                }
                let mut n = spawn(id, seed, slot, None, tx.clone());
                let more = give(&mut n, &mut next);
                workers[slot] = Some(n);
                if !more {
                    active -= 1;
                }
            }
            Err(_) => {}
        }
        for slot in 0..nw {
            let Some(w) = workers[slot].as_mut() else { continue };
            if w.stdin.is_some() && w.since.elapsed() > hang {
                let idx = w.idx;
                let _ = w.child.kill();
                let _ = w.child.wait();
                suspects.push((idx, format!("no answer within {hang:?}"), vec![], String::new()));
                let mut n = spawn(id, seed, slot, None, tx.clone());
                if !give(&mut n, &mut next) {
                    active -= 1;
                }
                workers[slot] = Some(n);
            }
        }
    }
    for w in workers.iter_mut().flatten() {
        drop(w.stdin.take());
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let wall_explore = t0.elapsed();

    // Confirm suspects alone, with more time, then shrink the first confirmed one.
    let mut violations = vec![];
    for (idx, msg, choices, desc) in suspects {
        let mut rep = Replayer::new(id, seed);
        rep.timeout = hang * 2;
        let mut tries = 0;
        let confirmed = loop {
            tries += 1;
            if let Some(r) = rep.run(&format!("G {idx}")) {
                break Some(r);
            }
            // Interleaving-dependent properties may need several attempts.
            if tries >= spec.confirm_tries {
                break None;
            }
        };
        match confirmed {
            Some((m, d)) => violations.push((idx, m, rep.drawn(), if d.is_empty() { desc } else { d }, true)),
            None if spec.flaky_is_violation => violations.push((idx, format!("{msg} (seen once; depends on timing)"), choices, desc, false)),
            None => eprintln!("case {idx}: not confirmed when run alone: {}", esc(&msg)),
        }
    }
    let mut code = 0;
    if let Some((idx, msg, choices, desc, repro)) = violations.into_iter().next() {
        code = 1;
        let (mut msg, mut desc) = (msg, desc);
        let mut choices = choices;
        if repro && !choices.is_empty() {
            let mut rep = Replayer::new(id, seed);
            rep.timeout = hang;
            let limit = if msg.starts_with("no answer") { 0 } else { 25 };
            if rep.run(&line(&choices)).is_some() {
                choices = shrink(&mut rep, choices, &mut msg, &mut desc, Duration::from_secs(limit));
            }
        }
        let _ = std::fs::create_dir_all("/verif/replays");
        let path = format!("/verif/replays/{id}-{seed}-{idx}.json");
        let doc = json!({"property": id, "seed": seed, "case": idx, "choices": choices, "message": msg, "case_description": desc});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("{}", unesc(&msg));
        println!("{desc}");
        println!("VIOLATION property={id} replay={path}");
    }
    for (k, d) in &known {
        println!("KNOWN-FINDING: property={id} {d} [{k}, met {} times in this run]", known_hit.get(k).copied().unwrap_or(0));
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": spec.rule,
            "samples": samples,
            "cases_generated": next,
            "cases_completed": done,
            "counters": tags,
            "explore_s": wall_explore.as_secs_f64(),
        },
        "known_findings_met": known_hit,
        "violation": code == 1,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id}: {done} cases, {evals} comparisons, {} distinct non-trivial, {:.1}s",
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    if code == 0 && done == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    code
}

pub fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let mut rep = Replayer::new(id, v["seed"].as_u64().unwrap_or(1));
    let l = if choices.is_empty() { format!("G {}", v["case"]) } else { line(&choices) };
    match rep.run(&l) {
        Some((m, d)) => {
            println!("{m}\n{d}\nVIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("the case passes");
            0
        }
    }
}
