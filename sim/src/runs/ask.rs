//! C03: what cargo is asked, by whom, and where.

use super::process::{Exec, any_peer, exec, small_world};
use crate::doc;
use crate::kernel::{self, Fs, Spawn, text};
use crate::peer::{Asked, Host, Mood, understand};
use crate::rng::Rng;
use crate::sim::{Cx, faults};
use crate::world::{Src, World};
use krates::cm::{self, MetadataCommand};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

/// One call of a setter
#[derive(Clone, Debug)]
enum Set {
    Cargo(String),
    Manifest(String),
    Dir(String),
    NoDefault,
    All,
    Features(Vec<String>),
    Lock(bool, bool, bool),
    Other(Vec<String>),
    NoDeps,
    Env(String, String),
    Verbose(bool),
}

impl Set {
    fn kind(&self) -> usize {
        match self {
            Set::Cargo(_) => 0,
            Set::Manifest(_) => 1,
            Set::Dir(_) => 2,
            Set::NoDefault => 3,
            Set::All => 4,
            Set::Features(_) => 5,
            Set::Lock(..) => 6,
            Set::Other(_) => 7,
            Set::NoDeps => 8,
            Set::Env(..) => 9,
            Set::Verbose(_) => 10,
        }
    }
}

#[derive(Clone, Debug)]
struct Order {
    /// the crate's own type of command, or the one of the metadata module
    own: bool,
    sets: Vec<Set>,
    times: usize,
    /// builds a graph with it rather than only acquiring
    build: bool,
}

/// What is asked for, all in all
#[derive(Default, Debug)]
struct Sum {
    cargo: Option<String>,
    manifest: Option<String>,
    dir: Option<String>,
    no_default: bool,
    all: bool,
    features: BTreeSet<String>,
    lock: (bool, bool, bool),
    other: Vec<String>,
    no_deps: bool,
    env: BTreeMap<String, String>,
    verbose: bool,
}

fn sum(o: &Order) -> Sum {
    let mut s = Sum::default();
    for c in &o.sets {
        match c.clone() {
            Set::Cargo(p) => s.cargo = Some(p),
            Set::Manifest(p) => s.manifest = Some(p),
            Set::Dir(p) => s.dir = Some(p),
            Set::NoDefault => s.no_default = true,
            Set::All => s.all = true,
            Set::Features(f) => s.features.extend(f.iter().flat_map(|f| f.split([' ', ','])).map(str::to_owned)),
            Set::Lock(a, b, c) => s.lock = (a, b, c),
            Set::Other(v) if o.own => s.other.extend(v),
            Set::Other(v) => s.other = v,
            Set::NoDeps => s.no_deps = true,
            Set::Env(k, v) => {
                s.env.insert(k, v);
            }
            Set::Verbose(v) => s.verbose = v,
        }
    }
    s
}

fn os(s: &str) -> std::ffi::OsString {
    std::os::unix::ffi::OsStringExt::from_vec(kernel::bytes(s))
}

fn command(o: &Order) -> MetadataCommand {
    let rest = |m: &mut MetadataCommand, own: bool| {
        for c in o.sets.iter().cloned() {
            match c {
                Set::Env(k, v) => {
                    m.env(k, os(&v));
                }
                Set::Verbose(v) => {
                    m.verbose(v);
                }
                _ if own => {}
                Set::Cargo(p) => {
                    m.cargo_path(os(&p));
                }
                Set::Manifest(p) => {
                    m.manifest_path(os(&p));
                }
                Set::Dir(p) => {
                    m.current_dir(os(&p));
                }
                Set::Other(v) => {
                    m.other_options(v);
                }
                Set::NoDeps => {
                    m.no_deps();
                }
                Set::Lock(..) | Set::NoDefault | Set::All | Set::Features(_) => {}
            }
        }
    };
    if !o.own {
        let mut m = MetadataCommand::new();
        rest(&mut m, false);
        return m;
    }
    let mut k = krates::Cmd::new();
    for c in o.sets.iter().cloned() {
        match c {
            Set::Cargo(p) => {
                k.cargo_path(os(&p));
            }
            Set::Manifest(p) => {
                k.manifest_path(os(&p));
            }
            Set::Dir(p) => {
                k.current_dir(os(&p));
            }
            Set::NoDefault => {
                k.no_default_features();
            }
            Set::All => {
                k.all_features();
            }
            Set::Features(f) => {
                k.features(f);
            }
            Set::Lock(frozen, locked, offline) => {
                k.lock_opts(krates::LockOptions { frozen, locked, offline });
            }
            Set::Other(v) => {
                k.other_options(v);
            }
            Set::NoDeps | Set::Env(..) | Set::Verbose(_) => {}
        }
    }
    let mut m = MetadataCommand::from(k);
    rest(&mut m, true);
    m
}

/// How to say the same path, seen from a directory
fn spelled(path: &str, from: &str, r: &mut Rng) -> String {
    let (dir, file) = path.rsplit_once('/').unwrap();
    let leaf = dir.rsplit('/').next().unwrap();
    match r.below(8) {
        0 => path.to_owned(),
        1 => format!("{dir}/./{file}"),
        2 => format!("{dir}/../{leaf}/{file}"),
        3 if path.starts_with("/sim/") => format!("/{}/{}", r.pick(&["sim-in", "sim-in", "sim\u{e000}"]), &path["/sim/".len()..]),
        4 => format!("{dir}//{file}"),
        _ => {
            let a: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
            let b: Vec<&str> = dir.split('/').filter(|c| !c.is_empty()).collect();
            let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let mut v = vec![".."; a.len() - n];
            v.extend(&b[n..]);
            v.push(file);
            let p = v.join("/");
            if r.pct(20) { format!("./{p}") } else { p }
        }
    }
}

fn directories(w: &World) -> Vec<String> {
    let mut v: Vec<String> = w.members.iter().map(|m| w.pkgs[*m].dir.clone()).collect();
    v.push(w.ws_root.clone());
    v.push("/sim-in".to_owned());
    v.push("/".to_owned());
    v
}

fn draw(w: &World, cwd: &str, r: &mut Rng) -> Order {
    let own = r.pct(65);
    let mut sets = Vec::new();
    let dirs = directories(w);
    let names: Vec<String> = {
        let mut v: Vec<String> = w.members.iter().flat_map(|m| w.pkgs[*m].features.keys().cloned()).collect();
        v.sort();
        v.dedup();
        v
    };
    if r.pct(50) {
        for _ in 0..1 + r.below(2) {
            sets.push(Set::Cargo((*r.pick(&["/opt/tool/cargo", "cargo", "cargo-nightly", "./my cargo", "/opt/\u{e000}/cargo"])).to_owned()));
        }
    }
    let mut from = cwd.to_owned();
    let dir = r.pct(45);
    if dir {
        let d = r.pick(&dirs).clone();
        from = d.clone();
        let d = match r.below(3) {
            0 if d != "/" => spelled(&format!("{d}/x"), cwd, r).trim_end_matches("/x").to_owned(),
            _ => d,
        };
        // the directory itself, spelled as the parent of nothing
        let d = if d == "x" || d == "./x" || d.is_empty() { ".".to_owned() } else { d };
        if r.pct(15) {
            sets.push(Set::Dir("/sim".to_owned()));
        }
        sets.push(Set::Dir(d));
    }
    if r.pct(if dir { 40 } else { 90 }) {
        let ms: Vec<usize> = w.members.clone();
        let m = if r.pct(50) { w.ws_root.clone() } else { w.pkgs[*r.pick(&ms)].dir.clone() };
        if r.pct(15) {
            sets.push(Set::Manifest("/sim/elsewhere/Cargo.toml".to_owned()));
        }
        // the command of the crate takes it from where the user is
        let from = if own { cwd } else { &from };
        sets.push(Set::Manifest(spelled(&format!("{m}/Cargo.toml"), from, r)));
    }
    if own && r.pct(30) {
        sets.push(Set::NoDefault);
    }
    if own && r.pct(25) {
        sets.push(Set::All);
    }
    for _ in 0..if own { *r.pick(&[0, 1, 1, 2, 3]) } else { 0 } {
        let mut f: Vec<String> = Vec::new();
        for _ in 0..r.below(4) {
            if !names.is_empty() {
                f.push(r.pick(&names).clone());
            }
        }
        if f.len() > 1 && r.pct(10) {
            f = vec![f.join(if r.pct(50) { " " } else { "," })];
        }
        sets.push(Set::Features(f));
    }
    let mut flags = ["--no-deps", "--config", "-v", "--color", "-q", "--config", "-Z", "-Z", "-v"].to_vec();
    r.shuffle(&mut flags);
    if !own {
        // it has no other way to ask for these
        flags.extend(["--all-features", "--no-default-features", "--features", "--locked"]);
        r.shuffle(&mut flags);
    }
    if !own && r.pct(20) {
        flags.retain(|f| *f != "--no-deps");
        sets.push(Set::NoDeps);
    }
    for _ in 0..*r.pick(&[0, 0, 1, 2]) {
        let mut v = Vec::new();
        for _ in 0..*r.pick(&[0, 1, 1, 2, 2, 4]) {
            match flags.pop() {
                Some("--config") => {
                    let c = *r.pick(&["net.retry=3", "term.quiet=true", "--config", "features", "-v"]);
                    if r.pct(30) { v.push(format!("--config={c}")) } else { v.extend(["--config".to_owned(), c.to_owned()]) }
                }
                Some("-Z") => v.extend(["-Z".to_owned(), (*r.pick(&["bindeps", "unstable-options", "-v"])).to_owned()]),
                Some("--color") => v.extend(["--color".to_owned(), "never".to_owned()]),
                Some("--features") if names.is_empty() => {}
                Some("--features") if r.pct(15) => v.extend(["--features".to_owned(), String::new()]),
                Some("--features") => v.extend(["--features".to_owned(), r.pick(&names).clone()]),
                Some(f) => v.push(f.to_owned()),
                None => {}
            }
        }
        sets.push(Set::Other(v));
    }
    if own {
        for _ in 0..*r.pick(&[0, 0, 1, 2]) {
            sets.push(Set::Lock(r.pct(50), r.pct(50), r.pct(50)));
        }
    }
    for _ in 0..*r.pick(&[0, 0, 0, 1, 2, 3]) {
        let k = *r.pick(&["CARGO_NET_OFFLINE", "SIM_AMBIENT", "CARGO", "RUSTFLAGS", "SIM_ODD"]);
        let v = *r.pick(&["true", "", "a=b c", "\u{e9}", "\u{e000}x"]);
        sets.push(Set::Env(k.to_owned(), v.to_owned()));
    }
    if r.pct(10) {
        sets.push(Set::Verbose(r.pct(70)));
    }
    if r.pct(80) {
        // independent ones in any order, and those of one kind in theirs
        let mut kinds: Vec<usize> = sets.iter().map(Set::kind).collect();
        r.shuffle(&mut kinds);
        let mut out = Vec::new();
        for k in kinds {
            let i = sets.iter().position(|s| s.kind() == k).unwrap();
            out.push(sets.remove(i));
        }
        sets = out;
    }
    Order { own, sets, times: *r.pick(&[1, 1, 1, 2]), build: r.pct(25) }
}

/// What a cargo that gets the request has to understand
fn meant(s: &Sum, o: &Order, program: &str, fs: &Fs) -> (String, Result<Asked, String>) {
    let abs = |base: &str, p: &str| if p.starts_with('/') { p.to_owned() } else { format!("{base}/{p}") };
    let mut argv = vec![program.to_owned(), "metadata".to_owned(), "--format-version".to_owned(), "1".to_owned()];
    let mut flag = |on: bool, f: &str| {
        if on {
            argv.push(f.to_owned());
        }
    };
    flag(s.no_default, "--no-default-features");
    flag(s.all, "--all-features");
    flag(s.lock.0, "--frozen");
    flag(s.lock.1, "--locked");
    flag(s.lock.2, "--offline");
    flag(s.no_deps, "--no-deps");
    for f in &s.features {
        argv.extend(["--features".to_owned(), f.clone()]);
    }
    let mut cwd = s.dir.as_ref().map_or_else(|| fs.cwd.clone(), |d| abs(&fs.cwd, d));
    if let Some(m) = &s.manifest {
        let m = if o.own { abs(&fs.cwd, m) } else { abs(&cwd, m) };
        if o.own {
            cwd = m.rsplit_once('/').unwrap().0.to_owned();
        }
        argv.extend(["--manifest-path".to_owned(), m]);
    }
    argv.extend(s.other.iter().cloned());
    let sp = Spawn {
        client: 0,
        program: kernel::bytes(program),
        argv: argv.iter().map(|a| kernel::bytes(a)).collect(),
        env: Vec::new(),
        cwd: Some(kernel::bytes(&cwd)),
        piped: [true, true],
        pid: 0,
    };
    (cwd, understand(&sp, fs).map(plainly))
}

fn plainly(mut a: Asked) -> Asked {
    a.features.sort();
    a.features.dedup();
    a
}

/// What is damaged into another document is no business of a build
fn calm(m: Mood) -> Mood {
    if m == Mood::Garbles { Mood::Truncates } else { m }
}

pub fn c03(cx: &mut Cx) {
    let mut r = cx.rng("plan");
    let clients = *r.pick(&[1, 1, 2, 3]);
    let hard = r.pct(20);
    let mut f = faults(&mut r, clients, hard);
    f.pipe_cap = f.pipe_cap.max(4096);
    let world = small_world(&mut cx.rng("world"));
    if cx.tracing {
        cx.out.trace.extend(world.describe());
    }
    let mut host = Host::new(world.clone(), cx.rng("host"));
    host.peer = any_peer(&mut r);
    host.noise = r.pct(20);
    let mut k = cx.kernel("sched", f);
    world.layout(&mut k.fs);
    k.fs.link("/sim-in", "/sim");
    k.fs.link("/sim\u{e000}", "/sim");
    let cwd = r.pick(&directories(&world)).clone();
    k.fs.cwd = cwd.clone();
    let ambient_cargo = *r.pick(&[None, None, Some("/ambient/cargo"), Some("cargo-by-env")]);
    unsafe {
        match ambient_cargo {
            Some(c) => std::env::set_var("CARGO", c),
            None => std::env::remove_var("CARGO"),
        }
        std::env::set_var("SIM_AMBIENT", "as it was");
    }
    let before: BTreeMap<_, _> = std::env::vars_os().collect();
    // a program may change its mind about which cargo is to be used
    let fickle = clients == 1 && r.pct(30);
    let mut plan: Vec<Vec<Order>> = Vec::new();
    for c in 0..clients {
        let mut jr = cx.rng(&format!("orders{c}"));
        plan.push((0..*jr.pick(if fickle { &[2, 3] } else { &[1, 1, 2] })).map(|_| draw(&world, &cwd, &mut jr)).collect());
        let hurt = r.pct(10);
        host.moods.push((0..4).map(|_| if hurt { calm(crate::peer::mood(&mut r)) } else { Mood::Fine }).collect());
    }
    cx.say(|| format!("in {cwd}, with CARGO {ambient_cargo:?}: {plan:?}"));
    let ambient: Vec<Option<&str>> = (0..3)
        .map(|n| if fickle && n > 0 { *r.pick(&[None, Some("/ambient/cargo"), Some("cargo-by-env"), Some("/other/cargo")]) } else { ambient_cargo })
        .collect();
    let fs = k.fs.clone();
    let host = Arc::new(Mutex::new(host));
    k.spawner = Some(Host::spawner(&host));
    let jobs = plan
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, p)| {
            let ambient = ambient.clone();
            let set = move |c: Option<&str>| unsafe {
                match c {
                    Some(c) => std::env::set_var("CARGO", c),
                    None => std::env::remove_var("CARGO"),
                }
            };
            let job: Box<dyn FnOnce() -> Vec<Vec<Exec>> + Send> = Box::new(move || {
                let all = p.into_iter()
                    .enumerate()
                    .map(|(n, o)| {
                        if fickle {
                            kernel::quiet(|| set(ambient[n]));
                        }
                        let verbose = sum(&o).verbose;
                        (0..o.times)
                            .map(|_| {
                                if o.build {
                                    let (n, s) = kernel::with(|k| (k.injected.len(), k.spawns.len()));
                                    let g: Result<krates::Krates, _> =
                                        krates::Builder::new().build(command(&o), krates::NoneFilter);
                                    let res = Err(match g {
                                        Err(krates::Error::Metadata(e)) => e,
                                        _ => cm::Error::NoJson,
                                    });
                                    kernel::with(|k| Exec {
                                        injected: k.injected[n..].iter().filter(|v| v.0 == i).map(|v| (v.1, v.2)).collect(),
                                        pids: k.spawns[s..].iter().filter(|v| v.client == i).map(|v| v.pid).collect(),
                                        verbose,
                                        res,
                                        fds_left: 0,
                                        returned: 0,
                                    })
                                } else {
                                    exec(i, &command(&o), verbose)
                                }
                            })
                            .collect()
                    })
                    .collect();
                if fickle {
                    kernel::quiet(|| set(ambient[0]));
                }
                all
            });
            job
        })
        .collect();
    let (k, res) = cx.run(k, jobs);
    cx.check(k.env_writes.is_empty(), "process-state", || format!("the calling process was changed: {:?}", k.env_writes));
    cx.check(k.fs.cwd == cwd, "process-state", || format!("the calling process is in {} now", k.fs.cwd));
    let after: BTreeMap<_, _> = std::env::vars_os().collect();
    cx.check(before == after, "process-state", || "the environment of the calling process has changed".to_owned());
    let mut host = host.lock().unwrap();
    for (i, v) in res.into_iter().enumerate() {
        let all = match v {
            Ok(v) => v,
            Err(p) => return cx.fail("panic", format!("client {i} panicked: {p}")),
        };
        for (n, (o, execs)) in plan[i].iter().zip(&all).enumerate() {
            let s = sum(o);
            let program = s.cargo.clone().or(ambient[n].map(str::to_owned)).unwrap_or_else(|| "cargo".to_owned());
            let (dir, want) = meant(&s, o, &program, &fs);
            let mut env: BTreeMap<Vec<u8>, Vec<u8>> = before
                .iter()
                .map(|(k, v)| (k.as_encoded_bytes().to_vec(), v.as_encoded_bytes().to_vec()))
                .collect();
            if fickle {
                env.remove(&b"CARGO"[..]);
                env.extend(ambient[n].map(|c| (b"CARGO".to_vec(), c.as_bytes().to_vec())));
            }
            env.extend(s.env.iter().map(|(k, v)| (k.clone().into_bytes(), kernel::bytes(v))));
            let env: BTreeSet<Vec<u8>> = env.into_iter().map(|(k, v)| [&k[..], b"=", &v[..]].concat()).collect();
            for e in execs {
                let at = format!("client {i} command {n} ({})", if o.own { "Cmd" } else { "MetadataCommand" });
                let spawns: Vec<&Spawn> = k.spawns.iter().filter(|p| e.pids.contains(&p.pid)).collect();
                if spawns.len() > 1 || (spawns.is_empty() && e.injected.is_empty() && fs.resolve(&dir).is_ok()) {
                    return cx.fail("spawns", format!("{at}: {} processes were started", spawns.len()));
                }
                let Some(sp) = spawns.first() else { continue };
                cx.check(text(&sp.program) == program, "program", || format!("{at}: {} was run instead of {program}", text(&sp.program)));
                let in_dir = sp.cwd.as_ref().map_or_else(|| cwd.clone(), |c| text(c));
                let in_dir = if in_dir.starts_with('/') { in_dir } else { format!("{cwd}/{in_dir}") };
                cx.check(fs.resolve(&in_dir) == fs.resolve(&dir), "directory", || format!("{at}: cargo was run in {in_dir} instead of {dir}"));
                let got: BTreeSet<Vec<u8>> = sp.env.iter().cloned().collect();
                cx.check(got == env && got.len() == sp.env.len(), "environment", || {
                    let d: Vec<String> = got.symmetric_difference(&env).map(|v| text(v)).collect();
                    format!("{at}: the environment of cargo differs from what it should be in {d:?}")
                });
                cx.check(sp.piped == [true, !e.verbose], "streams", || format!("{at}: stdout, stderr piped: {:?}", sp.piped));
                let heard = understand(sp, &fs).map(plainly);
                match (&heard, &want) {
                    (Ok(h), Ok(w)) => cx.check(h == w, "request", || format!("{at}: cargo understands {h:?} instead of {w:?}")),
                    (Err(_), Err(_)) => {}
                    (h, w) => return cx.fail("request", format!("{at}: cargo understands {h:?} instead of {w:?}")),
                }
                cx.reached(&format!("{:?} {}", heard.is_ok(), sp.argv.len()));
                let fine = e.injected.is_empty() && host.found.iter().any(|f| f.0 == sp.pid && f.2 == Mood::Fine);
                if let (Ok(w), true, false) = (&want, fine, o.build) {
                    match (world.request_for(&fs, w), &e.res) {
                        (Ok(req), Ok(md)) => {
                            let d = doc::canon(&host.document(&req, w.no_deps).value()).unwrap();
                            if let Some(t) = doc::differ(&doc::expose(md), &d) {
                                return cx.fail("request", format!("{at}: the answer is not the one to the request: {t}"));
                            }
                            cx.out.evals += 1;
                            cx.count("outcome.answered", 1);
                        }
                        (Err(_), Err(cm::Error::CargoMetadata { .. })) => cx.count("outcome.refused", 1),
                        (a, b) => {
                            return cx.fail("request", format!("{at}: {:?} where {:?} was due", b.as_ref().map(|_| ()), a.map(|_| ())));
                        }
                    }
                }
            }
        }
    }
    let paths = world.pkgs.iter().filter(|p| p.src == Src::Path).count();
    cx.out.nontrivial = !k.spawns.is_empty();
    cx.out.sample = format!("{} processes, {paths} manifests", k.spawns.len());
}
