//! Runs the scenarios: every run in a process of its own, forked from one that has never
//! called krates, so that a run is a function of its seed and of nothing before it.

use crate::rng::{Choices, Source, run_seed};
use crate::runs::{PROPS, Prop};
use crate::sim::{Cx, Out, panic_text};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

const WALL_PER_RUN: u64 = 60;
const CPU_PER_RUN: u64 = 20;
const MEM_PER_RUN: u64 = 6 << 30;

pub const VARIANT: &str = if cfg!(feature = "targets") { "targets" } else { "default" };

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2);
    })
}

fn out_json(o: &Out, choices: Option<&Choices>) -> Value {
    json!({
        "violation": o.violation.as_ref().map(|(c, t)| json!([c, t])),
        "hash": o.hash,
        "state": o.state,
        "counts": o.counts,
        "sim_ns": o.sim_ns,
        "steps": o.steps,
        "switches": o.switches,
        "trace": o.trace,
        "known": o.known,
        "evals": o.evals,
        "nontrivial": o.nontrivial,
        "sample": o.sample,
        "choices": choices,
    })
}

fn out_from(v: &Value) -> Out {
    let map = |k: &str| -> BTreeMap<String, u64> {
        v[k].as_object()
            .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect())
            .unwrap_or_default()
    };
    let n = |k: &str| v[k].as_u64().unwrap_or(0);
    Out {
        violation: v["violation"].as_array().map(|a| {
            (a[0].as_str().unwrap_or("").to_owned(), a[1].as_str().unwrap_or("").to_owned())
        }),
        hash: n("hash"),
        state: n("state"),
        counts: map("counts"),
        sim_ns: n("sim_ns"),
        steps: n("steps"),
        switches: n("switches"),
        trace: v["trace"]
            .as_array()
            .map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_owned()).collect())
            .unwrap_or_default(),
        known: map("known"),
        evals: n("evals"),
        nontrivial: v["nontrivial"].as_bool().unwrap_or(false),
        sample: v["sample"].as_str().unwrap_or("").to_owned(),
    }
}

#[derive(Clone)]
enum From_ {
    Seed,
    Record,
    Choices(Choices),
}

/// One run, in this process
fn run_here(p: &Prop, seed: u64, from: &From_, tracing: bool) -> (Out, Option<Choices>) {
    let src = match from {
        From_::Seed => Source::live(seed),
        From_::Record => Source::record(seed),
        From_::Choices(c) => Source::play(seed, c.clone()),
    };
    let mut cx = Cx::new(src, tracing);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut cx)));
    if let Err(e) = r {
        let t = panic_text(&*e);
        if t.starts_with("harness:") {
            eprintln!("{t}");
            std::process::exit(70);
        }
        cx.fail("panic", t);
    }
    let choices = match from {
        From_::Seed => None,
        _ => Some(cx.src.choices()),
    };
    (cx.out, choices)
}

/// One run, in a process of its own. None if the harness itself is at fault.
fn run_forked(p: &Prop, seed: u64, from: &From_, tracing: bool) -> (Out, Option<Choices>) {
    let mut fds = [0; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        for (res, lim) in [(libc::RLIMIT_CPU, CPU_PER_RUN), (libc::RLIMIT_AS, MEM_PER_RUN), (libc::RLIMIT_CORE, 0)] {
            let l = libc::rlimit { rlim_cur: lim, rlim_max: lim };
            unsafe { libc::setrlimit(res, &l) };
        }
        // A run must not outlive the check
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        let (out, choices) = run_here(p, seed, from, tracing);
        let text = serde_json::to_vec(&out_json(&out, choices.as_ref())).unwrap();
        let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = f.write_all(&text);
        drop(f);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut buf = Vec::new();
    let end = Instant::now() + Duration::from_secs(WALL_PER_RUN);
    let mut timed_out = false;
    let mut chunk = vec![0u8; 1 << 16];
    loop {
        let left = end.saturating_duration_since(Instant::now());
        if left.is_zero() {
            timed_out = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut pf, 1, left.as_millis().min(5_000) as i32) };
        if r <= 0 {
            continue;
        }
        let n = unsafe { libc::read(fds[0], chunk.as_mut_ptr().cast(), chunk.len()) };
        if n <= 0 {
            break;
        }
        buf.extend_from_slice(&chunk[..n as usize]);
    }
    unsafe { libc::close(fds[0]) };
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    if !timed_out && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
        if let Ok(v) = serde_json::from_slice::<Value>(&buf) {
            let choices = v["choices"].as_object().map(|_| serde_json::from_value(v["choices"].clone()).unwrap());
            return (out_from(&v), choices);
        }
    }
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 70 {
        eprintln!("harness error in property {} seed {seed:#x}", p.id);
        std::process::exit(70);
    }
    let mut out = Out::default();
    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 0 };
    out.violation = Some(if code == 71 {
        ("deadlock".to_owned(), "threads wait for each other".to_owned())
    } else if code == 72 {
        ("livelock".to_owned(), "threads run, and there is no end".to_owned())
    } else if timed_out {
        ("hang".to_owned(), format!("no end within {WALL_PER_RUN} s"))
    } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGXCPU
        || libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL
    {
        ("hang".to_owned(), format!("no end within {CPU_PER_RUN} s of processor time"))
    } else {
        ("crash".to_owned(), format!("the process died, wait status {st:#x}"))
    });
    (out, None)
}

/// A run again, with its choices, even if it takes its process down
fn record(p: &Prop, seed: u64, from: &From_) -> (Out, Option<Choices>) {
    let (o, c) = run_forked(p, seed, from, false);
    (o, c)
}

fn class(o: &Out) -> Option<&str> {
    o.violation.as_ref().map(|v| v.0.as_str())
}

fn size(c: &Choices) -> (usize, usize) {
    (
        c.values().map(|v| v.iter().filter(|x| **x != 0).count()).sum(),
        c.values().map(Vec::len).sum(),
    )
}

/// Drops the zeros at the end: they are what a stream that has ended gives
fn trim(mut c: Choices) -> Choices {
    for v in c.values_mut() {
        while v.last() == Some(&0) {
            v.pop();
        }
    }
    c.retain(|_, v| !v.is_empty());
    c
}

/// Makes the choices of a failing run as few and as plain as it can while it fails the same way
fn minimise(p: &Prop, seed: u64, start: Choices, want: &str, limit: Duration) -> (Choices, u64) {
    let end = Instant::now() + limit;
    let mut best = trim(start);
    let mut tries = 0u64;
    let mut attempt = |cand: &Choices, best: &mut Choices| -> bool {
        if Instant::now() > end || tries > 4_000 {
            return false;
        }
        tries += 1;
        let (o, c) = run_forked(p, seed, &From_::Choices(cand.clone()), false);
        if class(&o) != Some(want) {
            return false;
        }
        // what the run really drew, where that is known
        let real = trim(c.unwrap_or_else(|| cand.clone()));
        let real = if size(&real) <= size(cand) { real } else { trim(cand.clone()) };
        if size(&real) < size(best) || (size(&real) == size(best) && real < *best) {
            *best = real;
            return true;
        }
        false
    };
    loop {
        let before = size(&best);
        let labels: Vec<String> = best.keys().cloned().collect();
        // whole streams
        for l in &labels {
            let mut c = best.clone();
            c.remove(l);
            attempt(&c, &mut best);
        }
        // blocks: taken out, or zeroed
        for l in &labels {
            let mut n = best.get(l).map_or(0, Vec::len);
            while n >= 1 {
                let mut at = 0;
                while best.get(l).is_some_and(|v| at < v.len()) {
                    let len = best[l].len();
                    let to = (at + n).min(len);
                    let mut c = best.clone();
                    c.get_mut(l).unwrap().drain(at..to);
                    if attempt(&c, &mut best) {
                        continue;
                    }
                    if best[l][at..to].iter().any(|v| *v != 0) {
                        let mut c = best.clone();
                        c.get_mut(l).unwrap()[at..to].fill(0);
                        attempt(&c, &mut best);
                    }
                    at += n;
                }
                n /= 2;
            }
        }
        // smaller numbers
        for l in &labels {
            let mut at = 0;
            while best.get(l).is_some_and(|v| at < v.len()) {
                for f in [|v: u64| 1.min(v), |v: u64| v / 2, |v: u64| v.saturating_sub(1)] {
                    let v = best.get(l).and_then(|v| v.get(at)).copied().unwrap_or(0);
                    if v < 2 {
                        break;
                    }
                    let mut c = best.clone();
                    c.get_mut(l).unwrap()[at] = f(v);
                    attempt(&c, &mut best);
                }
                at += 1;
            }
        }
        if size(&best) >= before || Instant::now() > end {
            return (best, tries);
        }
    }
}

struct Args {
    cmd: String,
    pos: Vec<String>,
    opt: BTreeMap<String, String>,
}

fn args() -> Args {
    let mut a = Args { cmd: String::new(), pos: Vec::new(), opt: BTreeMap::new() };
    let mut it = std::env::args().skip(1);
    a.cmd = it.next().unwrap_or_default();
    while let Some(v) = it.next() {
        match v.strip_prefix("--") {
            Some(k) => {
                a.opt.insert(k.to_owned(), it.next().unwrap_or_default());
            }
            None => a.pos.push(v),
        }
    }
    a
}

impl Args {
    fn num(&self, k: &str, d: u64) -> u64 {
        self.opt.get(k).map_or(d, |v| v.parse().expect("a number"))
    }
}

/// Runs a share of the seeds and reports on stdout, a line per thing of note
fn worker(a: &Args) -> i32 {
    let p = prop(&a.pos[0]);
    let (base, runs, of, me) = (a.num("seed", 1), a.num("runs", 1), a.num("of", 1), a.num("me", 0));
    let wall = Instant::now() + Duration::from_secs(a.num("wall", 600));
    let log = a.num("log", 0) != 0;
    let mut total = Out::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let (mut done, mut faulty) = (0u64, 0u64);
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations = 0;
    let mut i = me;
    let mut seen_classes: HashSet<String> = HashSet::new();
    while i < runs && Instant::now() < wall {
        let seed = run_seed(base, p.id, i);
        let (o, _) = run_forked(p, seed, &From_::Seed, false);
        done += 1;
        if log {
            println!(
                "LOG {}",
                json!({"i": i, "hash": o.hash, "state": o.state, "steps": o.steps, "ns": o.sim_ns, "v": o.violation.is_some(), "counts": o.counts})
            );
        }
        if let Some((c, t)) = &o.violation {
            violations += 1;
            if seen_classes.insert(c.clone()) {
                println!("VIOL {}", json!({"i": i, "seed": seed, "class": c, "text": t}));
            }
            if violations >= 20 {
                break;
            }
        }
        hashes.insert(o.hash);
        states.insert(o.state);
        if o.nontrivial {
            nontrivial.insert(o.hash);
        }
        faulty += u64::from(o.counts.keys().any(|k| k.starts_with("fault.")));
        if samples.len() < 4 && !o.sample.is_empty() {
            samples.push(format!("seed {seed:#018x}: {}", o.sample));
        }
        for (k, v) in &o.counts {
            *total.counts.entry(k.clone()).or_default() += v;
            *fired.entry(k.clone()).or_default() += 1;
        }
        for (k, v) in &o.known {
            *total.known.entry(k.clone()).or_default() += v;
        }
        total.evals += o.evals;
        total.sim_ns += o.sim_ns;
        total.steps += o.steps;
        total.switches += o.switches;
        i += of;
    }
    let hs: Vec<u64> = hashes.into_iter().collect();
    let ss: Vec<u64> = states.into_iter().collect();
    let nh: Vec<u64> = nontrivial.into_iter().collect();
    println!(
        "DONE {}",
        json!({
            "done": done, "violations": violations, "nontrivial_hashes": nh, "faulty": faulty,
            "counts": total.counts, "runs_with": fired, "known": total.known, "evals": total.evals,
            "sim_ns": total.sim_ns, "steps": total.steps, "switches": total.switches,
            "samples": samples, "hashes": hs, "states": ss,
        })
    );
    0
}

fn replay_json(p: &Prop, seed: u64, c: &Choices, o: &Out) -> Value {
    let v = o.violation.clone().unwrap_or_default();
    json!({
        "property": p.id,
        "variant": VARIANT,
        "seed": seed,
        "class": v.0,
        "message": v.1,
        "choices": c,
        "trace": o.trace,
    })
}

/// Shrinks a violation and writes its replay file
fn shrink(a: &Args) -> i32 {
    let p = prop(&a.pos[0]);
    let seed = a.num("seed", 0);
    let want = a.opt["class"].clone();
    let path = &a.opt["out"];
    let (o, c) = record(p, seed, &From_::Record);
    if class(&o) != Some(&want) {
        eprintln!("the violation of seed {seed:#x} did not show again: {:?}", o.violation);
        return 2;
    }
    let (best, tries) = match c {
        Some(c) => minimise(p, seed, c, &want, Duration::from_secs(a.num("limit", 60))),
        // the run took its process with it: its choices are those of its seed
        None => (Choices::new(), 0),
    };
    let from = if tries == 0 { From_::Seed } else { From_::Choices(best.clone()) };
    let (o, _) = run_forked(p, seed, &from, true);
    let mut v = replay_json(p, seed, &best, &o);
    v["from_seed"] = json!(tries == 0);
    v["minimised_in_runs"] = json!(tries);
    if class(&o) != Some(&want) {
        eprintln!("the minimised run does not fail the same way");
        return 2;
    }
    std::fs::write(path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    0
}

fn replay(a: &Args) -> i32 {
    let text = std::fs::read_to_string(&a.pos[0]).expect("the replay file");
    let v: Value = serde_json::from_str(&text).expect("a replay file");
    if v["variant"] != json!(VARIANT) {
        eprintln!("this file is for the {} build", v["variant"]);
        return 3;
    }
    let p = prop(v["property"].as_str().unwrap());
    let seed = v["seed"].as_u64().unwrap();
    let from = if v["from_seed"] == json!(true) {
        From_::Seed
    } else {
        From_::Choices(serde_json::from_value(v["choices"].clone()).unwrap())
    };
    let (o, _) = run_forked(p, seed, &from, true);
    for l in &o.trace {
        println!("  {l}");
    }
    match &o.violation {
        Some((c, t)) => {
            println!("seed {seed:#x}: {c}: {t}");
            let same = json!(c) == v["class"] && json!(t) == v["message"] && json!(o.trace) == v["trace"];
            println!("{}", if same { "this is what the file recorded, event for event" } else { "this is not what the file recorded" });
            if json!(c) == v["class"] { 1 } else { 4 }
        }
        None => {
            println!("seed {seed:#x}: no violation");
            0
        }
    }
}

struct Share {
    viols: Vec<(Value, String)>,
    done: Value,
    log: Vec<String>,
}

fn spawn_workers(p: &Prop, bins: &[String], base: u64, runs: u64, workers: u64, wall: u64, log: bool) -> Result<Vec<Share>, String> {
    let mut kids = Vec::new();
    for w in 0..workers {
        let bin = &bins[(w as usize) % bins.len()];
        let child = std::process::Command::new(bin)
            .args(["worker", p.id])
            .args(["--seed", &base.to_string(), "--runs", &runs.to_string()])
            .args(["--of", &workers.to_string(), "--me", &w.to_string()])
            .args(["--wall", &wall.to_string(), "--log", if log { "1" } else { "0" }])
            .stdout(std::process::Stdio::piped())
            .spawn()
            .map_err(|e| format!("worker: {e}"))?;
        kids.push((child, bin.clone()));
    }
    let threads: Vec<_> = kids
        .into_iter()
        .map(|(mut c, bin)| {
            std::thread::spawn(move || {
                let mut s = Share { viols: Vec::new(), done: Value::Null, log: Vec::new() };
                for line in BufReader::new(c.stdout.take().unwrap()).lines() {
                    let Ok(line) = line else { break };
                    if let Some(v) = line.strip_prefix("VIOL ") {
                        s.viols.push((serde_json::from_str(v).unwrap(), bin.clone()));
                    } else if let Some(v) = line.strip_prefix("DONE ") {
                        s.done = serde_json::from_str(v).unwrap();
                    } else if let Some(v) = line.strip_prefix("LOG ") {
                        s.log.push(v.to_owned());
                    }
                }
                let st = c.wait();
                (s, st)
            })
        })
        .collect();
    let mut out = Vec::new();
    for t in threads {
        let (s, st) = t.join().map_err(|_| "a reader died".to_owned())?;
        if !st.is_ok_and(|s| s.success()) || s.done.is_null() {
            return Err("a worker failed".to_owned());
        }
        out.push(s);
    }
    Ok(out)
}

fn known_findings(path: &str, id: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(path) else { return Vec::new() };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (pid, rest) = l.split_once(' ')?;
            let (key, text) = rest.split_once(' ')?;
            (pid == id).then(|| (key.to_owned(), text.to_owned()))
        })
        .collect()
}

fn check(a: &Args) -> i32 {
    let p = prop(&a.pos[0]);
    let t0 = Instant::now();
    let tier = a.opt.get("tier").map_or("quick", String::as_str);
    let base = a.num("seed", 1);
    let runs = a.num("runs", if tier == "thorough" { p.thorough } else { p.quick });
    let workers = a.num("workers", 8);
    let wall = a.num("wall", if tier == "thorough" { 3_000 } else { 400 });
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let mut bins = vec![me.clone()];
    if let Some(b) = a.opt.get("alt") {
        if p.both {
            bins.push(b.clone());
        }
    }
    let shares = match spawn_workers(p, &bins, base, runs, workers, wall, false) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {e}", p.id);
            return 2;
        }
    };
    // The same seeds again, in other processes and another number of them, event for event
    let dn = a.num("determinism", 160).min(runs);
    let mut logs = Vec::new();
    for w in [3, 8] {
        let one = [bins[0].clone()];
        match spawn_workers(p, &one, base, dn, w, wall, true) {
            Ok(s) => {
                let mut l: Vec<String> = s.into_iter().flat_map(|s| s.log).collect();
                l.sort();
                logs.push(l);
            }
            Err(e) => {
                eprintln!("{}: {e}", p.id);
                return 2;
            }
        }
    }
    let any_viol = shares.iter().any(|s| !s.viols.is_empty());
    if logs[0] != logs[1] && !any_viol {
        // A run that is not a function of its seed can not be judged
        let d = logs[0].iter().zip(&logs[1]).find(|(a, b)| a != b);
        eprintln!("{}: runs are not repeatable: {d:?}", p.id);
        return 2;
    }
    let sum = |k: &str| shares.iter().map(|s| s.done[k].as_u64().unwrap_or(0)).sum::<u64>();
    let maps = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for s in &shares {
            for (k, v) in s.done[k].as_object().into_iter().flatten() {
                *m.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
            }
        }
        m
    };
    let set = |k: &str| {
        let mut h: HashSet<u64> = HashSet::new();
        for s in &shares {
            h.extend(s.done[k].as_array().into_iter().flatten().filter_map(Value::as_u64));
        }
        h.len()
    };
    let done = sum("done");
    let counts = maps("counts");
    let with = maps("runs_with");
    let known_seen = maps("known");
    let listed = known_findings(a.opt.get("known").map_or("", String::as_str), p.id);
    let secs = t0.elapsed().as_secs_f64();
    let samples: Vec<String> = shares
        .iter()
        .flat_map(|s| s.done["samples"].as_array().into_iter().flatten())
        .filter_map(|v| v.as_str().map(str::to_owned))
        .take(6)
        .collect();
    let faults: BTreeMap<&String, Value> = counts
        .iter()
        .filter(|(k, _)| k.starts_with("fault.") || k.starts_with("child.") || k.starts_with("fs.") || k.starts_with("crash.") || k.starts_with("panic."))
        .map(|(k, v)| (k, json!({"times": v, "in_runs": with.get(k).copied().unwrap_or(0)})))
        .collect();
    let events: BTreeMap<&String, u64> =
        counts.iter().filter(|(k, _)| !faults.contains_key(k)).map(|(k, v)| (k, *v)).collect();
    let mut viols: Vec<(Value, String)> = shares.iter().flat_map(|s| s.viols.clone()).collect();
    viols.sort_by_key(|v| v.0["i"].as_u64());
    let evidence = json!({
        "property": p.id,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "wall_s": secs,
        "violations": viols.len(),
        "assumptions": [
            "the simulated cargo resolves and prints as the real one does (compared by tools/calibrate.py)",
            "the simulated system calls behave as Linux documents them",
            "seeded sampling: a clean batch is evidence, not proof",
        ],
        "coverage": {
            "technique": "deterministic simulation with fault injection: every run is one world, one schedule and one sequence of faults, all drawn from the seed of the run",
            "evaluations": done,
            "distinct_nontrivial": set("nontrivial_hashes"),
            "rule": format!("One evaluation is one simulated run, that is one seed. {}; it is distinct if its sequence of scheduling decisions, system calls, results and faults is.", p.rule),
            "samples": samples,
            "comparisons": sum("evals"),
            "runs_with_faults": sum("faulty"),
            "runs_and_seeds_per_hour": (done as f64 / secs * 3600.0) as u64,
            "simulated_seconds": sum("sim_ns") as f64 / 1e9,
            "simulated_steps": sum("steps"),
            "context_switches": sum("switches"),
            "distinct_interleavings": set("hashes"),
            "distinct_interleavings_measure": "hashes over the sequence of all scheduler decisions, system calls with their results, faults and client steps of a run",
            "distinct_states": set("states"),
            "distinct_states_measure": "hashes of what a run reached: the contents of its graphs and its outcomes",
            "faults": faults,
            "events": events,
            "known_findings_seen": known_seen,
            "violations_seen": viols.iter().map(|v| v.0.clone()).collect::<Vec<_>>(),
            "determinism": {"runs_repeated_in_other_processes": dn, "worker_counts": [3, 8], "event_logs_equal": logs[0] == logs[1]},
            "builds_of_krates": bins.len(),
            "real_components": ["krates (all of it, unmodified, from /repo)", "std::process, std::io, std::fs::canonicalize and std::thread of the standard library", "serde, serde_json, semver, petgraph, cfg-expr, camino"],
            "stub_components": ["cargo: its resolver and its output (sim/src/cargo.rs, sim/src/peer.rs)", "the operating system below libc: processes, pipes, poll, wait, realpath, clocks, entropy (sim/src/kernel.rs)", "the index, the callbacks, and the readers and writers a user supplies"],
        },
    });
    if let Some(path) = a.opt.get("evidence") {
        if let Err(e) = std::fs::write(path, serde_json::to_vec_pretty(&evidence).unwrap()) {
            eprintln!("{path}: {e}");
            return 2;
        }
    }
    println!(
        "{}: {done} runs in {secs:.1} s, {} interleavings, {} states, {} comparisons, faults in {} runs",
        p.id,
        set("hashes"),
        set("states"),
        sum("evals"),
        sum("faulty")
    );
    let mut unlisted = false;
    for (k, n) in &known_seen {
        match listed.iter().find(|(l, _)| l == k) {
            Some((_, t)) => println!("KNOWN-FINDING: property={} {k}: {t} (seen {n} times)", p.id),
            None => {
                unlisted = true;
                println!("finding {k} is not listed");
            }
        }
    }
    for (k, t) in &listed {
        if !known_seen.contains_key(k) {
            println!("KNOWN-FINDING: property={} {k}: {t} (not met in this run)", p.id);
        }
    }
    if unlisted {
        println!("{}: a finding is counted that is not in the list of known findings", p.id);
        return 2;
    }
    let Some((v, bin)) = viols.first() else {
        if done < runs / 4 {
            eprintln!("{}: only {done} of {runs} runs could be made", p.id);
            return 2;
        }
        return 0;
    };
    let dir = a.opt.get("replays").map_or("/verif/replays", String::as_str);
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{}-{:016x}.json", p.id, v["seed"].as_u64().unwrap());
    let st = std::process::Command::new(bin)
        .args(["shrink", p.id, "--seed", &v["seed"].to_string(), "--class", v["class"].as_str().unwrap()])
        .args(["--out", &path, "--limit", &a.num("shrink", 40).to_string()])
        .status();
    if !st.is_ok_and(|s| s.success()) {
        // It fails, but not repeatably: the seed is all there is to say
        let _ = std::fs::write(
            &path,
            serde_json::to_vec_pretty(&json!({
                "property": p.id, "variant": VARIANT, "seed": v["seed"], "class": v["class"], "message": v["text"],
                "from_seed": true, "choices": {}, "trace": [],
                "note": "the violation did not show again when the seed was run once more"
            }))
            .unwrap(),
        );
    } else {
        let r = std::process::Command::new(bin).args(["replay", &path]).output();
        let ok = r.as_ref().is_ok_and(|r| r.status.code() == Some(1));
        println!("replayed in a fresh process: {}", if ok { "fails the same way" } else { "DOES NOT fail the same way" });
    }
    let text = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).unwrap_or(Value::Null);
    println!("{}: {} (seed {})", p.id, text["message"].as_str().unwrap_or(""), v["seed"]);
    println!("VIOLATION property={} replay={path}", p.id);
    1
}

pub fn main() -> i32 {
    // Panics are part of the game; they are reported where they are caught
    if std::env::var_os("SIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a = args();
    match a.cmd.as_str() {
        "check" => check(&a),
        "worker" => worker(&a),
        "shrink" => shrink(&a),
        "replay" => replay(&a),
        "one" => {
            let p = prop(&a.pos[0]);
            let seed = run_seed(a.num("seed", 1), p.id, a.num("i", 0));
            let seed = a.num("run-seed", seed);
            let (o, _) = run_here(p, seed, &From_::Seed, a.num("trace", 1) != 0);
            for l in &o.trace {
                println!("{l}");
            }
            println!("{:#?}", Out { trace: Vec::new(), ..o });
            0
        }
        "worlds" => {
            crate::dump::dump(a.num("seed", 1), a.num("n", 100), &a.pos[0]);
            0
        }
        _ => {
            eprintln!("check|worker|shrink|replay|one|worlds");
            let _ = std::io::stdin().read(&mut [0; 0]);
            2
        }
    }
}
