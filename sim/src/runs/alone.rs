//! C13: builds among others, and the same builds alone.

use super::graph::{Deed, Done, Graph, Job, Route, Step, job, link_of, scene_with, short};
use super::process::any_peer;
use super::{index, same};
use crate::config::{self, Op};
use crate::kernel::{self, Faults, Fs, Kernel};
use crate::ledger::{self, Tab};
use crate::peer::Mood;
use crate::rng::Rng;
use crate::sim::{Cx, panic_text};
use crate::world::World;
use krates::index::BuildIndexCache;
use krates::{Package, cm};
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

/// All there is to say about the result of a build
fn describe(res: &Result<Graph, krates::Error>, filtered: &[Package], tab: &Tab) -> String {
    match res {
        Err(e) => format!("error {e:?}"),
        Ok(g) => {
            let members: Vec<&str> = g.workspace_members().filter_map(|n| match n {
                krates::Node::Krate { id, .. } => Some(id.repr.as_str()),
                krates::Node::Feature { .. } => None,
            }).collect();
            let filtered: Vec<&str> = filtered.iter().map(|p| p.id.repr.as_str()).collect();
            let contents: Vec<String> = tab.contents().iter().map(|(id, v)| format!("{id}: {v}")).collect();
            format!(
                "graph of {}\nmembers {members:?}\n{}filtered {filtered:?}\n{}",
                g.workspace_root(),
                same::dump(g),
                contents.join("\n")
            )
        }
    }
}

/// The build of a job from what cargo said, with nothing else going on
fn build(j: &Job, doc: &str, fs: Fs) -> String {
    let mut k = Kernel::new(Rng::new(0), Faults { pipe_cap: 65536, ..Default::default() });
    k.fs = fs;
    let (tx, rx) = std::sync::mpsc::channel();
    let (j, doc) = (j.clone(), doc.to_owned());
    let c: kernel::Client = Box::new(move || {
        let tab = Tab::new(true, None);
        let mut filtered = Vec::new();
        let md: cm::Metadata = serde_json::from_str(&doc).expect("a document");
        let res = tab.during(|| {
            let mut b = config::builder(&j.ops);
            if let Some(ix) = &j.index {
                let (ix, tab) = (ix.clone(), tab.clone());
                let f: BuildIndexCache = Box::new(move |names| {
                    tab.index(&names);
                    (*ix.0).clone()
                });
                b.with_crates_io_index(f);
            }
            b.build_with_metadata(md, |p: Package| {
                tab.filtered(&p);
                filtered.push(p);
            })
        });
        let text = describe(&res, &filtered, &tab);
        kernel::quiet(|| tx.send(text).unwrap());
    });
    let (_, ends) = kernel::run(k, vec![c]);
    match (rx.try_recv(), &ends[0]) {
        (Ok(t), _) => t,
        (_, Err(p)) => format!("panic {}", panic_text(&**p)),
        _ => "nothing".to_owned(),
    }
}

fn at_depth(j: &Job, depth: u64) -> &Job {
    match &j.deed {
        Some((_, Deed::Nest(inner))) if depth > 0 => at_depth(inner, depth - 1),
        _ => j,
    }
}

fn send(f: &mut std::fs::File, b: &[u8]) -> std::io::Result<()> {
    f.write_all(&(b.len() as u64).to_le_bytes())?;
    f.write_all(b)
}

fn receive(f: &mut std::fs::File) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 8];
    f.read_exact(&mut n)?;
    let mut v = vec![0; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut v)?;
    Ok(v)
}

/// A process that has never called krates, and forks another such for each build
struct Alone {
    to: std::fs::File,
    from: std::fs::File,
}

impl Alone {
    fn start(plan: &[Vec<Step>], fs: &Fs) -> Alone {
        let mut a = [0; 2];
        let mut b = [0; 2];
        unsafe {
            assert_eq!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC), 0);
            assert_eq!(libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for fd in 3..64 {
                    if fd != a[0] && fd != b[1] {
                        libc::close(fd);
                    }
                }
                serve(plan, fs, std::fs::File::from_raw_fd(a[0]), std::fs::File::from_raw_fd(b[1]));
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Alone { to: std::fs::File::from_raw_fd(a[1]), from: std::fs::File::from_raw_fd(b[0]) }
        }
    }

    fn ask(&mut self, client: usize, step: usize, depth: u64, link: &str, doc: &str) -> String {
        let q = json!([client, step, depth, link, doc]).to_string();
        send(&mut self.to, q.as_bytes()).expect("harness: the lone process is gone");
        String::from_utf8(receive(&mut self.from).expect("harness: the lone process is gone")).unwrap()
    }
}

fn serve(plan: &[Vec<Step>], fs: &Fs, mut from: std::fs::File, mut to: std::fs::File) {
    while let Ok(q) = receive(&mut from) {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let q: Value = serde_json::from_slice(&q).unwrap();
            let n = |i: usize| q[i].as_u64().unwrap() as usize;
            let Step::Build(j) = &plan[n(0)][n(1)] else { unreachable!() };
            let mut fs = fs.clone();
            let to_link = q[3].as_str().unwrap();
            if !to_link.is_empty() {
                fs.link(&link_of(n(0)), to_link);
            }
            let text = build(at_depth(j, q[2].as_u64().unwrap()), q[4].as_str().unwrap(), fs);
            let _ = send(&mut to, text.as_bytes());
            unsafe { libc::_exit(0) };
        }
        let mut st = 0;
        while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
        if pid < 0 || st != 0 {
            let _ = send(&mut to, format!("died {st:#x}").as_bytes());
        }
    }
}

/// A line in which two texts differ
fn first_difference(a: &str, b: &str) -> String {
    let cut = |s: &str| s.chars().take(300).collect::<String>();
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return "they differ in their ends".to_owned(),
            (p, q) if p != q => return format!("{:?} and alone {:?}", cut(p.unwrap_or("nothing")), cut(q.unwrap_or("nothing"))),
            _ => {}
        }
    }
}

/// What goes on around a build, and in it
fn interfere(w: &World, j: &mut Job, r: &mut Rng, depth: u32) {
    j.keep = true;
    if r.pct(30) {
        j.index = Some(index::draw(w, r.next(), r));
    }
    if depth < 2 && r.pct(if depth == 0 { 35 } else { 40 }) {
        let at = match r.below(4) {
            0 => 1,
            1 => 1 + r.below(3) as u64,
            _ => 1 + r.below(40) as u64,
        };
        let d = if r.pct(40) {
            Deed::Panic
        } else {
            let mut inner = if r.pct(30) {
                let mut i = j.clone();
                i.deed = None;
                i
            } else {
                job(w, r)
            };
            interfere(w, &mut inner, r, depth + 1);
            Deed::Nest(Box::new(inner))
        };
        j.deed = Some((at, d));
    }
}

struct Judge<'a> {
    alone: &'a mut Alone,
    k: &'a Kernel,
    sc: &'a super::graph::Scene,
    compared: u64,
    struck: u64,
    nested: u64,
}

impl Judge<'_> {
    fn done(&mut self, client: usize, step: usize, depth: u64, link: &str, j: &Job, d: &Done) -> Result<(), (&'static str, String)> {
        for (ij, id) in &d.nested {
            self.nested += 1;
            self.done(client, step, depth + 1, link, ij, id)?;
        }
        let bombed = matches!(j.deed, Some((_, Deed::Panic))) && d.tab.struck();
        match (&d.panicked, bombed) {
            (Some(p), true) if p == ledger::BOMB => {
                self.struck += 1;
                return Ok(());
            }
            (Some(p), _) => return Err(("panic", format!("it panicked: {p}"))),
            (None, true) => return Err(("swallowed", "the panic of a callback did not reach the caller".to_owned())),
            (None, false) => {}
        }
        if !d.injected.is_empty() {
            // unless they were those of a build in a callback
            if d.res.is_err() {
                return Ok(());
            }
            if d.nested.is_empty() {
                return Err(("in-spite", format!("a graph in spite of {:?}", d.injected)));
            }
        }
        let runs = matches!(j.route, Route::Build | Route::Plain | Route::Exec);
        if d.pids.len() != usize::from(runs) {
            return Err(("processes", format!("{} processes were started", d.pids.len())));
        }
        if let Some(pid) = d.pids.first() {
            let h = self.sc.host.lock().unwrap();
            let at = h.found.iter().position(|f| f.0 == *pid).ok_or(("processes", "harness: an unknown process".to_owned()))?;
            let w = &h.states[h.found[at].1];
            let want = j.want.understood(w, &self.k.fs);
            let got = h.asked[at].1.clone().and_then(|a| w.request_for(&self.k.fs, &a));
            let same = match (&want, &got) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                return Err(("request", format!("cargo was asked {got:?} instead of {want:?}")));
            }
        }
        if matches!(d.mood, Mood::Fails | Mood::Killed | Mood::Silent | Mood::NoStart(_)) || d.refused || d.doc.is_none() {
            return if d.res.is_err() { Ok(()) } else { Err(("in-spite", format!("a graph in spite of a cargo that {:?}", d.mood))) };
        }
        if d.mood != Mood::Fine && d.res.is_err() {
            return Ok(());
        }
        let doc = d.doc.as_ref().unwrap().plain();
        let here = describe(&d.res, &d.filtered, &d.tab);
        let there = self.alone.ask(client, step, depth, link, &doc);
        self.compared += 1;
        if here != there {
            return Err(("influence", format!("among others it gives {}", first_difference(&here, &there))));
        }
        Ok(())
    }
}

pub fn c13(cx: &mut Cx) {
    let mut sc = scene_with(cx, 3, &mut |w, j, r| interfere(w, j, r, 0));
    let mut r = cx.rng("history");
    let w0 = sc.state(0);
    let dirs: Vec<String> = std::iter::once(w0.ws_root.clone()).chain(w0.members.iter().map(|m| w0.pkgs[*m].dir.clone())).collect();
    for (c, steps) in sc.plan.iter_mut().enumerate() {
        let mut v: Vec<Step> = Vec::new();
        let linked = r.pct(40);
        let mut made: Vec<Step> = Vec::new();
        let mut old = std::mem::take(steps);
        for _ in 0..r.below(3) {
            if let Some(s) = old.iter().rev().find(|s| matches!(s, Step::Build(_))).cloned() {
                old.push(s);
            }
        }
        for s in old {
            let Step::Build(mut j) = s else {
                v.push(s);
                continue;
            };
            if linked && (made.is_empty() || r.pct(50)) {
                v.push(Step::Relink(r.pick(&dirs).clone()));
            }
            if linked && r.pct(60) {
                let p = if r.pct(50) { link_of(c) } else { format!("{}/Cargo.toml", link_of(c)) };
                j.ops.retain(|o| !matches!(o, Op::Include(_)));
                j.ops.push(Op::Include(vec![p]));
            }
            let again = !made.is_empty() && r.pct(35);
            v.push(if again { r.pick(&made).clone() } else { Step::Build(j) });
            made.push(v[v.len() - 1].clone());
            if r.pct(30) {
                v.push(Step::Work(r.next()));
            }
            if r.pct(15) {
                v.push(Step::Install(any_peer(&mut r)));
            }
        }
        *steps = v;
        if cx.tracing {
            cx.out.trace.push(format!("with interference, client {c}: {steps:?}"));
        }
    }
    let mut fs = Fs { cwd: "/".to_owned(), ..Default::default() };
    w0.layout(&mut fs);
    let mut alone = Alone::start(&sc.plan, &fs);
    let Some((k, all)) = sc.play(cx) else { return };
    if let Some(e) = k.env_writes.first() {
        return cx.fail("environment", format!("the process was changed: {e}"));
    }
    let mut judge = Judge { alone: &mut alone, k: &k, sc: &sc, compared: 0, struck: 0, nested: 0 };
    for (c, v) in all.iter().enumerate() {
        for d in v {
            let link = sc.plan[c][..d.step]
                .iter()
                .rev()
                .find_map(|s| if let Step::Relink(to) = s { Some(to.as_str()) } else { None })
                .unwrap_or("");
            let j = sc.job(c, d.step);
            cx.out.evals += 1;
            if let Err((class, t)) = judge.done(c, d.step, 0, link, j, d) {
                return cx.fail(class, format!("client {c} step {} ({:?}): {t}", d.step, j.route));
            }
            cx.reached(&d.res.as_ref().map_or_else(short, |g| same::dump(g)));
        }
    }
    let (compared, struck, nested) = (judge.compared, judge.struck, judge.nested);
    cx.count("outcome.compared", compared);
    for (what, n) in [("panic.in-callback", struck), ("outcome.nested", nested)] {
        if n > 0 {
            cx.count(what, n);
        }
    }
    cx.out.nontrivial = compared > 1;
    cx.out.sample = format!("{} clients, {compared} builds compared with the same alone, {nested} of them in callbacks, {struck} panics", sc.plan.len());
}
