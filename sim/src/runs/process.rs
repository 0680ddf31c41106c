//! C01, C02: a cargo process that lives and dies in every way, and the library as its parent.

use crate::doc;
use crate::json::Style;
use crate::kernel::{self, Act, ChildReport};
use crate::peer::{self, Host, Manner};
use crate::rng::Rng;
use crate::sim::{Cx, faults};
use crate::world::{GitRef, Shape, Src, World};
use crate::cargo::{IdFormat, Peer};
use krates::cm::{self, MetadataCommand};
use serde_json::Value;
use std::sync::{Arc, Mutex};

pub fn small_world(r: &mut Rng) -> World {
    let mut shape = Shape::draw(r);
    shape.members = *r.pick(&[(1, 1), (1, 2)]);
    shape.ext = *r.pick(&[(0, 1), (0, 3)]);
    World::generate(r, &shape)
}

pub fn any_peer(r: &mut Rng) -> Peer {
    let ids = *r.pick(&[IdFormat::Stable, IdFormat::Opaque]);
    let old = r.pct(25);
    Peer {
        ids,
        old,
        ancient: old && r.pct(50),
        extra: r.pct(25),
    }
}

/// What one exec did, as the system saw it
pub struct Exec {
    pub injected: Vec<(&'static str, i32)>,
    pub pids: Vec<i32>,
    pub verbose: bool,
    pub res: Result<cm::Metadata, cm::Error>,
    pub fds_left: usize,
    pub returned: u64,
}

pub fn exec(client: usize, cmd: &MetadataCommand, verbose: bool) -> Exec {
    let (i, s) = kernel::with(|k| (k.injected.len(), k.spawns.len()));
    let res = cmd.exec();
    kernel::with(|k| Exec {
        injected: k.injected[i..].iter().filter(|v| v.0 == client).map(|v| (v.1, v.2)).collect(),
        pids: k.spawns[s..].iter().filter(|v| v.client == client).map(|v| v.pid).collect(),
        verbose,
        res,
        fds_left: k.open_fds(),
        returned: k.now,
    })
}

#[derive(Debug)]
pub enum Want {
    Io(i32),
    Failed(String),
    FailedNotUtf8,
    NotUtf8(usize),
    NoJson,
    BadJson,
    Doc(Value),
    /// no JSON to a strict reader, but what is wrong with it is in a part that is not read
    BadJsonOr(Value),
}

/// The first line of a text that starts a JSON object
fn json_line(t: &str) -> Option<&str> {
    t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).find(|l| l.as_bytes().first() == Some(&b'{'))
}

pub fn want(injected: &[(&'static str, i32)], child: Option<&ChildReport>, doc: Option<&Value>) -> Want {
    if let Some((_, errno)) = injected.first() {
        return Want::Io(*errno);
    }
    let c = child.expect("a process");
    let status = c.status.expect("an end");
    if status != 0 {
        return match std::str::from_utf8(&c.wrote[1]) {
            Ok(s) => Want::Failed(s.to_owned()),
            Err(_) => Want::FailedNotUtf8,
        };
    }
    let out = match std::str::from_utf8(&c.wrote[0]) {
        Ok(o) => o,
        Err(e) => return Want::NotUtf8(e.valid_up_to()),
    };
    let Some(line) = json_line(out) else { return Want::NoJson };
    match serde_json::from_str::<Value>(line) {
        Ok(v) => match doc::canon(&v) {
            Ok(v) if doc::repeats_keys(line) => Want::BadJsonOr(v),
            Ok(v) => Want::Doc(v),
            Err(_) => Want::BadJson,
        },
        Err(_) => doc.map_or(Want::BadJson, |d| Want::BadJsonOr(d.clone())),
    }
}

pub fn judge(w: &Want, got: &Result<cm::Metadata, cm::Error>) -> Result<&'static str, String> {
    let show = |g: &Result<cm::Metadata, cm::Error>| match g {
        Ok(_) => "a document".to_owned(),
        Err(e) => {
            let s = format!("{e:?}");
            s.chars().take(200).collect()
        }
    };
    match (w, got) {
        (Want::Io(n), Err(cm::Error::Io(e))) => {
            if e.raw_os_error() == Some(*n) {
                Ok("io")
            } else {
                Err(format!("an I/O error of {:?} instead of {n}", e.raw_os_error()))
            }
        }
        (Want::Failed(s), Err(cm::Error::CargoMetadata { stderr })) => {
            if s == stderr {
                Ok("failed")
            } else {
                Err(format!(
                    "the error carries {} bytes that are not the {} bytes cargo wrote to stderr",
                    stderr.len(),
                    s.len()
                ))
            }
        }
        (Want::FailedNotUtf8, Err(cm::Error::ErrUtf8(_))) => Ok("failed-not-utf8"),
        (Want::NotUtf8(n), Err(cm::Error::Utf8(e))) => {
            if e.valid_up_to() == *n {
                Ok("not-utf8")
            } else {
                Err(format!("invalid UTF-8 at {} instead of {n}", e.valid_up_to()))
            }
        }
        (Want::NoJson, Err(cm::Error::NoJson)) => Ok("no-json"),
        (Want::BadJson | Want::BadJsonOr(_), Err(cm::Error::Json(_))) => Ok("bad-json"),
        (Want::Doc(v) | Want::BadJsonOr(v), Ok(m)) => match doc::differ(&doc::expose(m), v) {
            None => Ok("document"),
            Some(d) => Err(format!("the document differs from what cargo printed: {d}")),
        },
        (w, g) => {
            let w = match w {
                Want::Doc(_) => "the document cargo printed".to_owned(),
                Want::BadJsonOr(_) => "a JSON error".to_owned(),
                w => {
                    let s = format!("{w:?}");
                    s.chars().take(200).collect()
                }
            };
            Err(format!("got {} instead of {w}", show(g)))
        }
    }
}

pub fn c01(cx: &mut Cx) {
    let mut r = cx.rng("plan");
    let clients = *r.pick(&[1, 1, 1, 2, 3]);
    let f = faults(&mut r, clients, true);
    let world = small_world(&mut cx.rng("world"));
    let mut host = Host::new(world.clone(), cx.rng("host"));
    host.peer = any_peer(&mut r);
    if r.pct(30) {
        host.order = Some(cx.rng("order"));
    }
    host.style = Style { shuffle_keys: r.pct(20), escapes: r.pct(30), spaces: r.pct(30), newlines: false };
    let mut plan = Vec::new();
    for _ in 0..clients {
        let n = *r.pick(&[1, 1, 2, 3]);
        host.moods.push((0..n).map(|_| peer::mood(&mut r)).collect());
        plan.push((0..n).map(|_| r.pct(10)).collect::<Vec<bool>>());
    }
    cx.say(|| format!("moods of the processes, per client: {:?}; faults {f:?}", host.moods));
    let host = Arc::new(Mutex::new(host));
    let mut k = cx.kernel("sched", f);
    world.layout(&mut k.fs);
    k.spawner = Some(Host::spawner(&host));
    let root = format!("{}/Cargo.toml", world.ws_root);
    let jobs = plan
        .into_iter()
        .enumerate()
        .map(|(i, p)| {
            let root = root.clone();
            let job: Box<dyn FnOnce() -> Vec<Exec> + Send> = Box::new(move || {
                p.into_iter()
                    .map(|verbose| {
                        let mut cmd = MetadataCommand::new();
                        cmd.cargo_path("cargo").manifest_path(&root).verbose(verbose);
                        exec(i, &cmd, verbose)
                    })
                    .collect()
            });
            job
        })
        .collect();
    let (k, res) = cx.run(k, jobs);
    let kids = k.children();
    let host = host.lock().unwrap();
    for (i, r) in res.into_iter().enumerate() {
        let execs = match r {
            Ok(e) => e,
            Err(p) => return cx.fail("panic", format!("client {i} panicked: {p}")),
        };
        for (n, e) in execs.iter().enumerate() {
            if e.injected.is_empty() && e.pids.len() != 1 {
                return cx.fail("spawn", format!("client {i} exec {n}: {} processes were started", e.pids.len()));
            }
            let child = e.pids.last().and_then(|p| kids.iter().find(|c| c.pid == *p));
            let doc = e.pids.last().and_then(|p| host.docs.iter().find(|d| d.0 == *p)).map(|d| doc::canon(&d.1.value()).unwrap());
            if e.injected.is_empty() && child.is_none_or(|c| c.status.is_none()) {
                return cx.fail("spawn", format!("client {i} exec {n}: the process has not ended"));
            }
            let w = want(&e.injected, child, doc.as_ref());
            cx.out.evals += 1;
            match judge(&w, &e.res) {
                Ok(c) => {
                    cx.reached(c);
                    cx.count(&format!("outcome.{c}"), 1);
                }
                Err(t) => return cx.fail("outcome", format!("client {i} exec {n}{}: {t}", if e.verbose { " (verbose)" } else { "" })),
            }
        }
    }
    cx.out.nontrivial = true;
    cx.out.sample = format!("{} clients, {} processes", clients, kids.len());
}

pub fn c02(cx: &mut Cx) {
    let mut r = cx.rng("plan");
    let clients = *r.pick(&[1, 1, 1, 2, 3]);
    let mut f = faults(&mut r, clients, true);
    f.pipe_cap = *r.pick(&[65536, 4096, 1, 16, 512, 30_000]);
    let mut plan: Vec<Vec<bool>> = Vec::new();
    for _ in 0..clients {
        plan.push((0..*r.pick(&[1, 1, 2, 3])).map(|_| r.pct(10)).collect());
    }
    let mut hr = cx.rng("host");
    let big = r.pct(60);
    let max = f.pipe_cap.saturating_mul(600).min(260_000);
    // Output of every size on either stream, in every order; what it says does not matter
    let mut k = cx.kernel("sched", f.clone());
    k.max_steps = 40_000 + 8 * 260_000 * u64::from(f.pipe_cap < 16 || f.short_read > 0);
    k.spawner = Some(Box::new(move |s, _| {
        let r = &mut hr;
        let mut out = peer::chatter(r, max);
        if big && r.pct(50) {
            out = vec![b'x'; r.below(max)];
        }
        let mut err = peer::chatter(r, max);
        if big && r.pct(50) {
            err = vec![b'y'; r.below(max)];
        }
        let m = Manner::draw(r);
        let mood = peer::mood(r);
        let mut acts: Vec<Act> = peer::script(out, mood, err, r)?.acts(m, r);
        if r.pct(5) {
            // ends without a word
            acts.truncate(r.below(acts.len() + 1));
        }
        let _ = s;
        Ok(acts)
    }));
    let jobs = plan
        .into_iter()
        .enumerate()
        .map(|(i, p)| {
            let job: Box<dyn FnOnce() -> Vec<Exec> + Send> = Box::new(move || {
                p.into_iter()
                    .map(|verbose| {
                        let mut cmd = MetadataCommand::new();
                        cmd.cargo_path("cargo").verbose(verbose);
                        exec(i, &cmd, verbose)
                    })
                    .collect()
            });
            job
        })
        .collect();
    let (k, res) = cx.run(k, jobs);
    for (i, r) in res.iter().enumerate() {
        let execs = match r {
            Ok(e) => e,
            Err(p) => return cx.fail("panic", format!("client {i} panicked: {p}")),
        };
        for (n, e) in execs.iter().enumerate() {
            // with several clients the others may have theirs open
            if clients == 1 {
                cx.check(e.fds_left == 0, "fd-leak", || {
                    format!("exec {n} returned ({}) and left {} descriptors open", if e.res.is_ok() { "ok" } else { "error" }, e.fds_left)
                });
            }
            cx.reached(match &e.res {
                Ok(_) => "ok",
                Err(cm::Error::Io(_)) => "io",
                Err(cm::Error::CargoMetadata { .. }) => "failed",
                Err(_) => "other",
            });
        }
    }
    let left = k.open_fds();
    cx.check(left == 0, "fd-leak", || format!("{left} descriptors are open at the end"));
    for c in k.children() {
        cx.check(c.reaped == 1, "zombie", || format!("process {} was reaped {} times", c.pid, c.reaped));
    }
    cx.check(k.env_writes.is_empty(), "process-state", || format!("{:?}", k.env_writes));
    let hit = |w: &str| cx.out.counts.keys().any(|c| c.starts_with(w));
    cx.out.nontrivial = hit("fault.") || hit("child.");
    let v: usize = k.children().iter().map(|c| c.wrote[0].len() + c.wrote[1].len()).sum();
    cx.out.sample = format!("{} processes wrote {v} bytes through pipes of {}", k.children().len(), f.pipe_cap);
}
